------------------------------- MODULE MCMany --------------------------------
(***************************************************************************)
(* Every interleaving of the users' steps in the 4-bit model.  Each user's  *)
(* share of the steps is a behaviour of Codec (Alone), a step is one user's *)
(* only (Separate), and what a user reads is what that user opened, so a    *)
(* round trip holds whatever the others do (Round).  The variant with one   *)
(* scratch value for all users must be refuted.                            *)
(***************************************************************************)
EXTENDS Many, TLC

CONSTANTS Most, Shared

VARIABLES sent, got, scratch
zvars == <<outs, inps, poss, sent, got, scratch>>

D == [utf8 |-> "raw", nul |-> "ok", bool |-> "strict"]
Vals == {<<NIL, 0, 0, <<>>>>, <<U8, 0, 0, <<7>>>>, <<U16, 0, 0, <<0, 9>>>>, <<STR, 0, 0, <<5, 8>>>>,
         <<SLICE, STR, 0, <<0, 0, 0, 2>>>>}
Ops == {<<x[1], x[2], x[3]>> : x \in Vals}

\* With Shared, the value goes through a place common to all users first.
ZStage(u) == \E x \in Vals : /\ Shared /\ sent[u] = <<>>
                             /\ scratch' = x /\ UNCHANGED <<outs, inps, poss, got>>
                             /\ sent' = [sent EXCEPT ![u] = Append(@, x)]
ZSend(u) == IF Shared
  THEN /\ outs[u] = <<>> /\ sent[u] # <<>>
       /\ YWrite(u, scratch[1], scratch[2], scratch[3], scratch[4]) /\ UNCHANGED <<sent, got, scratch>>
  ELSE \E x \in Vals : /\ Len(sent[u]) < Most
       /\ YWrite(u, x[1], x[2], x[3], x[4]) /\ sent' = [sent EXCEPT ![u] = Append(@, x)] /\ UNCHANGED <<got, scratch>>
ZOpen(u) == inps[u] = <<>> /\ outs[u] # <<>> /\ YOpen(u, outs[u]) /\ got' = [got EXCEPT ![u] = <<>>] /\ UNCHANGED <<sent, scratch>>
ZRead(u) == \E o \in Ops :
    LET r == Dec(o[1], o[2], o[3], inps[u], poss[u], D) IN
    /\ inps[u] # <<>> /\ YRead(u, o[1], o[2], o[3], D)
    /\ got' = [got EXCEPT ![u] = IF r.ok THEN Append(@, <<o[1], o[2], o[3], r.v>>) ELSE @]
    /\ UNCHANGED <<sent, scratch>>

ZInit == YInit /\ sent = [u \in Users |-> <<>>] /\ got = sent /\ scratch = <<>>
ZNext == \E u \in Users : ZStage(u) \/ ZSend(u) \/ ZOpen(u) \/ ZRead(u)
ZSpec == ZInit /\ [][ZNext]_zvars

IsPre(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Round == \A u \in Users : IsPre(got[u], sent[u])
Separate == [][\E u \in Users : \A w \in Users \ {u} :
                 <<outs[w], inps[w], poss[w]>>' = <<outs[w], inps[w], poss[w]>>]_zvars
StepOf(u) == \/ \E x \in Vals : One(u)!Write(x[1], x[2], x[3], x[4])
             \/ One(u)!Open(outs[u])
             \/ \E o \in Ops : One(u)!ReadFail(o[1], o[2], o[3], D)
             \/ \E o \in Ops, x \in Vals : One(u)!ReadOk(o[1], o[2], o[3], D, x[4])
Alone == [][\A u \in Users : StepOf(u) \/ UNCHANGED <<outs[u], inps[u], poss[u]>>]_zvars
=============================================================================
