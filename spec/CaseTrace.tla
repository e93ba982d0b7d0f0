------------------------------ MODULE CaseTrace ------------------------------
(* Frame of a trace specification whose behaviours are single calls:          *)
(* every recorded call is one behaviour  Called --Return--> Judged.           *)
(* A judging module supplies Bad(r), the set of clauses the record r breaks.  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h,   \* which recorded call
          k    \* 0: called, 1: returned and judged

CaseInit == h \in 1..Len(Trace) /\ k = 0

Report(id, bad) ==
    IF bad = {} THEN TRUE ELSE PrintT("REJECT|" \o ToString(id) \o "|" \o ToString(bad))

CaseReturn(bad) ==
    /\ k = 0
    /\ Report(Trace[h].id, bad)
    /\ k' = 1
    /\ h' = h

\* every record was visited and judged
CaseDone == TLCGet("stats").distinct = 2 * Len(Trace)

\* clause helper: the named clause is broken unless b holds
Clause(name, b) == IF b THEN {} ELSE {name}
=============================================================================
