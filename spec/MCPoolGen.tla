----------------------------- MODULE MCPoolGen -------------------------------
(***************************************************************************)
(* Every history of Depth pool operations by two takers (up to renaming),  *)
(* printed for replay against the real pools.  The operations are named;   *)
(* the replay gives each name concrete arguments.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Depth, Uses      \* Uses: the operations on a held object

VARIABLES hist, hold, dirty
vars == <<hist, hold, dirty>>
G == {1, 2}
Init == hist = <<>> /\ hold = [g \in G |-> FALSE] /\ dirty = [g \in G |-> FALSE]
Do(op, g) == hist' = Append(hist, <<op, g>>)
Next == /\ Len(hist) < Depth
        /\ \E g \in G :
           /\ g = 2 => hist # <<>>
           /\ \/ ~hold[g] /\ Do("T", g) /\ hold' = [hold EXCEPT ![g] = TRUE] /\ dirty' = [dirty EXCEPT ![g] = FALSE]
              \/ /\ hold[g] /\ \E u \in Uses :
                      /\ u \in {"B", "R"} => dirty[g]
                      /\ Do(u, g) /\ UNCHANGED hold
                      /\ dirty' = [dirty EXCEPT ![g] = u # "R" /\ (u # "G" \/ @)]
              \/ hold[g] /\ Do("P", g) /\ hold' = [hold EXCEPT ![g] = FALSE] /\ UNCHANGED dirty
Spec == Init /\ [][Next]_vars
\* at least one object is returned and one taken afterwards
Worth == \E i, j \in 1..Len(hist) : i < j /\ hist[i][1] = "P" /\ hist[j][1] = "T"
Out == (Len(hist) = Depth /\ Worth) => PrintT("H" \o ToJson(hist))
=============================================================================
