----------------------------- MODULE MCCodecGen ------------------------------
(***************************************************************************)
(* Behaviours of Codec with real bytes, printed as the scripts to run on   *)
(* the implementations: exhaustively to a small depth, and by simulation to *)
(* a large one.  Answers are not printed: the replay is recorded and judged *)
(* by CodecTrace.                                                           *)
(*   Acts   what may happen: write, raw, reset, grow, back (take bytes back), *)
(*          hand (decode what was written), cut / flip (the same, damaged), *)
(*          foreign (decode something else), read (a fitting attempt),       *)
(*          wrong (any attempt), clobber (the input is overwritten),         *)
(*          scribble (the value just returned is overwritten)                *)
(***************************************************************************)
EXTENDS Codec, TLC, Json

CONSTANTS Acts, Depth, Sizes, KW, KR, MaxOut, Long

VARIABLES hist, live, done
gvars == <<out, inp, pos, hist, live, done>>

D == [utf8 |-> "raw", nul |-> "ok", bool |-> "lenient"]
Text == <<195, 169, 33>>
Vals(k) == CASE k = BOOL -> {<<1>>}
             [] k = U8 -> {<<200>>}
             [] k = U16 -> IF Long THEN {<<0, 5>>, <<0, 128>>, <<255, 255>>} ELSE {<<1, 0>>}
             [] k = U32 -> IF Long THEN {<<0, 0, 0, 127>>, <<0, 32, 0, 0>>, <<255, 255, 255, 255>>} ELSE {<<0, 32, 0, 0>>}
             [] k = I32 -> IF Long THEN {<<0, 0, 0, 64>>, <<255, 255, 255, 255>>, <<128, 0, 0, 0>>} ELSE {<<255, 255, 255, 128>>}
             [] k = F32 -> {<<128, 0, 0, 0>>}
             [] k = U64 -> IF Long THEN {<<0, 0, 0, 0, 0, 0, 0, 9>>, [i \in 1..8 |-> 255]} ELSE {[i \in 1..8 |-> 255]}
             [] k = I64 -> IF Long THEN {<<0, 0, 0, 0, 0, 0, 0, 9>>, <<128, 0, 0, 0, 0, 0, 0, 0>>} ELSE {<<128, 0, 0, 0, 0, 0, 0, 0>>}
             [] k = F64 -> {<<63, 240, 0, 0, 0, 0, 0, 1>>}
             [] k \in Sized -> {<<0, 0, 0, 3>>} \cup IF Long THEN {<<0, 1, 0, 0>>} ELSE {}
             [] k \in Unit -> {<<>>}
             [] k = BYTES -> {<<0, 255>>} \cup IF Long THEN {<<>>, [i \in 1..130 |-> i]} ELSE {}
             [] k \in {STR, ERR} -> {Text} \cup IF Long THEN {<<>>, <<-300>>} ELSE {}
EA(k) == IF k \in Sized THEN STR ELSE 0
EB(k) == IF k = MAP THEN U8 ELSE 0
\* well-formed, padded, truncated, hostile, foreign
Foreign == {<<>>, <<5, 10, 2, 104, 105, 8, 9>>, <<4, 10, 9, 1, 2>>, <<6, 5, 10, 1, 33, 0>>, <<6, 10, 1, 33>>,
            <<10, 150, 128, 0, 7, 1>>, <<9, 255, 255, 4, 8, 1>>, <<5, 10, 255, 255, 255, 255, 15, 97>>, <<1, 5, 10, 255, 255, 255, 255, 31>>,
            <<12, 255, 255, 255, 255, 15, 0, 3>>, <<7, 2, 7, 1>>, <<2, 5, 8, 10, 3, 5, 10, 1, 97>>}

\* The kind of storage an encoder starts with is part of the behaviour.
First == {[o |-> "init", m |-> "size", n |-> n] : n \in Sizes} \cup (IF Sizes = {} THEN {[o |-> "init", m |-> "", n |-> 0]} ELSE {})
GInit == CInit /\ hist \in {<<f>> : f \in First} /\ live = FALSE /\ done = FALSE
Do(x) == hist' = Append(hist, x)
More == Len(hist) <= Depth /\ UNCHANGED done
Has(x) == x \in Acts /\ More

GWrite == Has("write") /\ Len(out) < MaxOut /\ \E k \in KW : \E v \in Vals(k) :
            Write(k, EA(k), EB(k), v) /\ Do([o |-> "E", k |-> k, a |-> EA(k), b |-> EB(k), v |-> v]) /\ UNCHANGED live
GRaw   == Has("raw") /\ Len(out) < MaxOut /\ \E v \in {<<>>, <<1>>, <<9, 8, 7>>} :
            out' = out \o v /\ Do([o |-> "W", v |-> v]) /\ UNCHANGED <<inp, pos, live>>
GReset == Has("reset") /\ out # <<>> /\ ResetOut /\ Do([o |-> "R"]) /\ UNCHANGED live
GGrow  == Has("grow") /\ \E n \in {0, 1, 5} : Do([o |-> "G", n |-> n]) /\ UNCHANGED <<out, inp, pos, live>>
GBack  == Has("back") /\ \E n \in {1, 2, Len(out)} : n > 0 /\ n <= Len(out) /\ ~HasBlob(out)
            /\ out' = SubSeq(out, 1, Len(out) - n) /\ Do([o |-> "M", n |-> -n]) /\ UNCHANGED <<inp, pos, live>>
GHand  == Has("hand") /\ Open(out) /\ live' = TRUE /\ Do([o |-> "X"])
GCut   == Has("cut") /\ ~HasBlob(out) /\ \E n \in (IF Long THEN {Len(out) - 1, Len(out) \div 2} ELSE 0..Len(out) - 1) :
            n >= 0 /\ n < Len(out) /\ LET s == SubSeq(out, 1, n) IN Open(s) /\ live' = TRUE /\ Do([o |-> "L", v |-> s])
GFlip  == Has("flip") /\ ~HasBlob(out) /\ \E i \in (IF Long THEN {1, Len(out)} \cap 1..Len(out) ELSE 1..Len(out)), x \in {0, 5, 10, 128} : x # out[i] /\
            LET s == [out EXCEPT ![i] = x] IN Open(s) /\ live' = TRUE /\ Do([o |-> "L", v |-> s])
GForeign == Has("foreign") /\ \E s \in Foreign : Open(s) /\ live' = TRUE /\ Do([o |-> "L", v |-> s])
Attempt(k, a, b) == /\ live /\ Do([o |-> "D", k |-> k, a |-> a, b |-> b])
                    /\ pos' = Dec(k, a, b, inp, pos, D).p /\ UNCHANGED <<out, inp, live>>
At(i) == IF pos + i <= Len(inp) THEN inp[pos + i] ELSE 0
GRead  == Has("read") /\ pos < Len(inp) /\ At(1) \in 0..15 \ {ANY} /\
            LET k == At(1) a == IF k \in Sized THEN At(2) ELSE 0 b == IF k = MAP THEN At(3) ELSE 0
            IN a \in 0..15 /\ b \in 0..15 /\ Attempt(k, a, b)
GWrong == Has("wrong") /\ live /\ \E k \in KR : ~(pos < Len(inp) /\ At(1) = k) /\ Attempt(k, EA(k), EB(k))
GClobber == Has("clobber") /\ live /\ inp # <<>> /\ ~HasBlob(inp)
            /\ Do([o |-> "C", n |-> 65]) /\ inp' = [i \in 1..Len(inp) |-> 65] /\ UNCHANGED <<out, pos, live>>
GScribble == Has("scribble") /\ live /\ hist[Len(hist)].o = "D" /\ hist[Len(hist)].k = BYTES
             /\ Do([o |-> "S", n |-> 65]) /\ Scribble /\ UNCHANGED live
Stop == Len(hist) = Depth + 1 /\ ~done /\ done' = TRUE /\ UNCHANGED <<out, inp, pos, hist, live>>

GNext == GWrite \/ GRaw \/ GReset \/ GGrow \/ GBack \/ GHand \/ GCut \/ GFlip \/ GForeign \/ GRead \/ GWrong \/ GClobber \/ GScribble \/ Stop
GSpec == GInit /\ [][GNext]_gvars
\* Not worth replaying: those that end in what is not observed.
Worth == hist[Depth + 1].o \notin {"X", "L", "C", "S", "R"}
Out == done => (Worth => PrintT("H" \o ToJson(hist)))
=============================================================================
