------------------------------ MODULE DsTrace ------------------------------
(* Recorded merge histories against Partition: one model step per merge, the   *)
(* groups read from the real structure compared with the model's classes.      *)
EXTENDS CaseTrace, Partition
VARIABLE rep
R == Trace[h]
Bad0 == IF R.obs.crash # "" THEN {R.obs.crash} ELSE {}

Good(s, p) ==
    LET gs == s.groups
    IN /\ {{gs[i].mem[j] + 1 : j \in 1..Len(gs[i].mem)} : i \in 1..Len(gs)} = Classes(p)
       /\ Len(gs) = NClasses(p)
       /\ \A i \in 1..Len(gs) : \E j \in 1..Len(gs[i].mem) : gs[i].mem[j] = gs[i].root
       /\ \A i \in 1..Len(gs) : Cardinality({gs[i].mem[j] : j \in 1..Len(gs[i].mem)}) = Len(gs[i].mem)

Judge(step, p) ==
    IF Bad0 # {} THEN TRUE
    ELSE LET ss == {i \in 1..Len(R.obs.steps) : R.obs.steps[i].k = step}
         IN \A i \in ss : LET s == R.obs.steps[i].snap IN
              Report(R.id, Clause("groups after merge " \o ToString(step), Good(s, p))
                     \cup Clause("group count", s.ng = NClasses(p)))

TraceInit == /\ h \in 1..Len(Trace) /\ k = 0 /\ rep = Discrete(Trace[h].n)
             /\ Report(Trace[h].id, Bad0)
             /\ Judge(0, rep)
TraceMerge == /\ k < Len(R.merges)
              /\ rep' = Joined(rep, R.merges[k + 1][1] + 1, R.merges[k + 1][2] + 1)
              /\ k' = k + 1 /\ h' = h
              /\ Judge(k', rep')
TraceSpec == TraceInit /\ [][TraceMerge]_<<h, k, rep>>
RECURSIVE SumLen(_)
SumLen(i) == IF i = 0 THEN 0 ELSE Len(Trace[i].merges) + 1 + SumLen(i - 1)
TraceDone == TLCGet("stats").distinct = SumLen(Len(Trace))
=============================================================================
