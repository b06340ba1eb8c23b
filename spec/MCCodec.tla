------------------------------- MODULE MCCodec -------------------------------
(***************************************************************************)
(* Exhaustive check of Codec in the 4-bit model: every sequence of up to   *)
(* MaxItems values, every truncation, every single-element corruption, and *)
(* every junk string over JunkBytes up to MaxJunk, against every order of   *)
(* decode attempts.                                                        *)
(***************************************************************************)
EXTENDS Codec, TLC, SequencesExt

CONSTANTS MaxItems, MaxJunk, JunkBytes, Scope

VARIABLES items, got, src          \* ghosts
mvars == <<out, inp, pos, items, got, src>>

D == [utf8 |-> "raw", nul |-> "ok", bool |-> "strict"]

Vals16 == IF Scope = "wide" THEN {<<x, y>> : x, y \in 0..15}
          ELSE {<<0,0>>, <<0,7>>, <<0,8>>, <<3,15>>, <<4,0>>, <<7,15>>, <<8,0>>, <<15,15>>}
Vals32 == {<<0,0,0,0>>, <<0,0,0,7>>, <<0,0,0,8>>, <<0,1,15,15>>, <<0,2,0,0>>, <<7,15,15,15>>,
           <<8,0,0,0>>, <<8,0,0,1>>, <<15,15,15,15>>}
Vals64 == {Zero(8), <<0,0,0,0,0,0,0,8>>, <<7,15,15,15,15,15,15,15>>, <<8,0,0,0,0,0,0,0>>,
           <<15,15,15,15,15,15,15,15>>, <<0,0,0,0,0,0,1,0>>}
Pay    == {<<>>} \cup {<<x>> : x \in {0, 5, 15}} \cup {<<10, 8>>, <<0, 0>>}
ElemKinds == {STR, U32}
ValsOf(k) == CASE k \in Unit -> {<<>>}
               [] k \in Sized \cup {U32, I32} -> Vals32
               [] k \in Blobs -> Pay
               [] k = BOOL -> {<<0>>, <<1>>}
               [] k = U8 -> {<<x>> : x \in 0..15}
               [] k = U16 -> Vals16
               [] k \in {U64, I64} -> Vals64
               [] k = F32 -> {<<7,15,12,0>>, <<0,0,0,0>>}
               [] k = F64 -> {<<7,15,12,0,1,2,3,4>>, Zero(8)}
Es(k) == IF k \in Sized THEN ElemKinds ELSE {0}
Es2(k) == IF k = MAP THEN ElemKinds ELSE {0}

Vals == UNION {{<<k, a, b, v>> : a \in Es(k), b \in Es2(k), v \in ValsOf(k)} : k \in Kinds}
Ops  == UNION {{<<k, a, b>> : a \in Es(k), b \in Es2(k)} : k \in Kinds}

RECURSIVE EncAll(_)
EncAll(s) == IF s = <<>> THEN <<>>
             ELSE LET h == Head(s) IN Enc(h[1], h[2], h[3], h[4]) \o EncAll(Tail(s))

MInit == CInit /\ items = <<>> /\ got = <<>> /\ src = "none"

MWrite == \E x \in Vals :
    /\ src = "none" /\ Len(items) < MaxItems
    /\ Write(x[1], x[2], x[3], x[4])
    /\ items' = Append(items, x) /\ UNCHANGED <<got, src>>

MHand == src = "none" /\ Open(out) /\ src' = "exact" /\ UNCHANGED <<items, got>>
MTrunc == src = "none" /\ \E n \in 0..Len(out)-1 :
             Open(SubSeq(out, 1, n)) /\ src' = "trunc" /\ UNCHANGED <<items, got>>
MCorrupt == src = "none" /\ \E i \in 1..Len(out), x \in 0..Byte-1 :
             /\ x # out[i]
             /\ Open([out EXCEPT ![i] = x]) /\ src' = "corrupt" /\ UNCHANGED <<items, got>>
MJunk == src = "none" /\ out = <<>> /\ \E s \in BoundedSeq(JunkBytes, MaxJunk) :
             Open(s) /\ src' = "junk" /\ UNCHANGED <<items, got>>

MReadOk == src # "none" /\ \E o \in Ops :
    LET r == Dec(o[1], o[2], o[3], inp, pos, D) IN
    /\ ReadOk(o[1], o[2], o[3], D, r.v)
    /\ got' = Append(got, <<o[1], o[2], o[3], r.v>>) /\ UNCHANGED <<items, src>>
MReadFail == src # "none" /\ \E o \in Ops :
    ReadFail(o[1], o[2], o[3], D) /\ UNCHANGED <<items, got, src>>

MNext == MWrite \/ MHand \/ MTrunc \/ MCorrupt \/ MJunk \/ MReadOk \/ MReadFail
MSpec == MInit /\ [][MNext]_mvars

-----------------------------------------------------------------------------
(* What the format guarantees *)

\* Reading back what was written, in any order of attempts, can only yield the
\* written values, in order, each consuming exactly its own bytes.
RoundTrip == src = "exact" =>
    /\ IsPrefix(got, items)
    /\ pos = Len(EncAll(SubSeq(items, 1, Len(got))))
\* A truncated message yields a prefix of the values and never an invented one.
TruncationSafe == src = "trunc" => Len(got) < Len(items) /\ IsPrefix(got, items)
\* The bytes at any position are readable as at most one kind.
SelfDescribing == src # "none" =>
    Cardinality({o \in Ops : Dec(o[1], o[2], o[3], inp, pos, D).ok}) <= 1
\* A complete reading never leaves the message unread while values remain.
Progress == src = "exact" /\ pos < Len(inp) =>
    \E o \in Ops : Dec(o[1], o[2], o[3], inp, pos, D).ok
InBounds == pos \in 0..Len(inp)
\* Every decoded value is in its kind's range, and its canonical encoding is no
\* longer than what was consumed and decodes to itself.
LastGot == got[Len(got)]
InRange == got # <<>> => LET g == LastGot IN
    /\ g[1] \in Sized \cup Varints \cup Floats \cup {U8, BOOL} => IsVal(g[4], Width(g[1]))
    /\ g[1] = BOOL => g[4][1] \in {0, 1}
    /\ LET e == Enc(g[1], g[2], g[3], g[4]) IN
         /\ Len(e) <= pos
         /\ Dec(g[1], g[2], g[3], e, 0, D) = Ok(g[4], Len(e))
\* Durable errors and append-only output, as action properties.
Durable == [][pos' # pos /\ inp' = inp => got' # got \/ pos' = 0]_mvars
AppendOnly == [][IsPrefix(out, out')]_mvars
=============================================================================
