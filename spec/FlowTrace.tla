------------------------------ MODULE FlowTrace ------------------------------
(* Recorded runs of the two min-cut solvers against FlowNet.                   *)
EXTENDS CaseTrace, FlowNet

Arcs(r) == [a \in 1..Len(r.arcs) |->
              <<r.arcs[a][1] + 1, r.arcs[a][2] + 1, r.arcs[a][3], r.arcs[a][4]>>]
SourceSide(r) == {i \in 1..Len(r.src) : r.obs.sink[i] = 0}

\* the optimum: from a certified flow if the record carries one, else by enumeration
Optimum(r) ==
    IF r.cert.has = 1 THEN FlowValue(r.cert.fs)
    ELSE MinCut(Len(r.src), r.src, r.snk, Arcs(r))
CertOK(r) ==
    r.cert.has = 1 =>
      /\ FeasibleFlow(Len(r.src), r.src, r.snk, Arcs(r), r.cert.fs, r.cert.ft, r.cert.fa)
      /\ CutCap(Len(r.src), r.src, r.snk, Arcs(r), {r.cert.cut[i] : i \in 1..Len(r.cert.cut)})
           = FlowValue(r.cert.fs)

Bad(r) ==
    IF r.obs.crash # "" THEN {r.obs.crash}
    ELSE IF ~ Assert(CertOK(r), <<"bad certificate", r.id>>) THEN {}
    ELSE IF Len(r.obs.sink) # Len(r.src) THEN {"one side per node"}
    ELSE LET opt == Optimum(r)
             cap == CutCap(Len(r.src), r.src, r.snk, Arcs(r), SourceSide(r))
         IN Clause("partition is a minimum cut", cap = opt)
            \cup (IF r.solver = "bk"
                  THEN Clause("flow value is the minimum cut", r.obs.flow = opt /\ r.obs.same)
                  ELSE Clause("terminals on their own sides", r.obs.st = <<0, 1>>))

TraceNext == CaseReturn(Bad(Trace[h]))
TraceSpec == CaseInit /\ [][TraceNext]_<<h, k>>
TraceDone == CaseDone
=============================================================================
