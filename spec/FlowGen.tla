------------------------------- MODULE FlowGen -------------------------------
(* Every small network and every order of adding its arcs, printed for replay. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS N, MaxCap, MaxArcs
VARIABLES src, snk, arcs
Caps == 0..MaxCap
Init == /\ src \in [1..N -> Caps] /\ snk \in [1..N -> Caps] /\ arcs = <<>>
        /\ PrintT("GEN|" \o ToJson(<<src, snk, arcs>>))
AddArc == /\ Len(arcs) < MaxArcs
          /\ \E i, j \in 1..N, c, r \in Caps :
               /\ i # j /\ c + r > 0
               /\ arcs' = Append(arcs, <<i - 1, j - 1, c, r>>)
          /\ UNCHANGED <<src, snk>>
          /\ PrintT("GEN|" \o ToJson(<<src', snk', arcs'>>))
Spec == Init /\ [][AddArc]_<<src, snk, arcs>>
=============================================================================
