-------------------------------- MODULE Many ---------------------------------
(***************************************************************************)
(* Several encoders and decoders alive at once.  There is no state but     *)
(* theirs: each step belongs to one of them and is a step of Codec there.   *)
(* So whatever the interleaving, what one of them does is a behaviour of    *)
(* Codec on its own, which is how recorded interleavings are judged.        *)
(***************************************************************************)
EXTENDS Wire

CONSTANT Users
VARIABLES outs, inps, poss
yvars == <<outs, inps, poss>>

One(u) == INSTANCE Codec WITH out <- outs[u], inp <- inps[u], pos <- poss[u]

YInit == outs = [u \in Users |-> <<>>] /\ inps = outs /\ poss = [u \in Users |-> 0]

YWrite(u, k, a, b, v) == outs' = [outs EXCEPT ![u] = @ \o Enc(k, a, b, v)] /\ UNCHANGED <<inps, poss>>
YReset(u) == outs' = [outs EXCEPT ![u] = <<>>] /\ UNCHANGED <<inps, poss>>
YOpen(u, s) == inps' = [inps EXCEPT ![u] = s] /\ poss' = [poss EXCEPT ![u] = 0] /\ UNCHANGED outs
YRead(u, k, a, b, d) ==
    LET r == Dec(k, a, b, inps[u], poss[u], d) IN
    poss' = [poss EXCEPT ![u] = IF r.ok THEN r.p ELSE @] /\ UNCHANGED <<outs, inps>>
=============================================================================
