------------------------------ MODULE MCMsgGen ------------------------------
(* Prints every schema of MCMsg with a value and its encoding, as vectors    *)
(* for the generated code (real alphabet).                                   *)
EXTENDS MCMsg, Json
GSpec == MInit /\ [][FALSE]_mvars
Vector == PrintT("H" \o ToJson(<<S, v, E>>))
=============================================================================
