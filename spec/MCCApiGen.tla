----------------------------- MODULE MCCApiGen -------------------------------
(***************************************************************************)
(* Behaviours of CApi with real bytes, printed as the calls to make.       *)
(* Exhaustively to a small depth (every order of create, use and free by a *)
(* caller that keeps the ownership rules), and by simulation to a large    *)
(* one.  The answers are not printed: the replay is recorded and judged    *)
(* by CApiTrace.                                                           *)
(***************************************************************************)
EXTENDS CApi, Json
CONSTANTS Every, Depth, Handles, Slots, EKs, DKs, Nulls, MaxOut

VARIABLES hist, done
gvars == <<enc, dec, val, hist, done>>
Call == [o |-> "", h |-> NULL, k |-> 0, a |-> 0, b |-> 0, v |-> <<>>, n |-> 0, s |-> NULL, nul |-> FALSE]
Do(c) == hist' = Append(hist, c @@ Call)

Vals(k) == CASE k = BOOL -> {<<0>>, <<1>>}
             [] k = U8 -> {<<200>>}
             [] k = U16 -> {<<0, 5>>, <<255, 255>>}
             [] k \in {U32, I32, F32} -> {<<0, 0, 1, 44>>, <<255, 255, 255, 255>>}
             [] k \in {U64, I64, F64} -> {<<0, 0, 0, 0, 0, 0, 0, 9>>, <<128, 0, 0, 0, 0, 0, 0, 0>>}
             [] k \in Sized -> {<<0, 0, 0, 3>>}
             [] k \in Unit -> {<<>>}
             [] k = BYTES -> {<<>>, <<0, 255, 7>>, [i \in 1..40 |-> i]}
             [] k \in {STR, ERR} -> {<<>>, <<104, 105>>, <<195, 169>>, <<195>>, <<97, 0, 98>>}
\* input from elsewhere: well-formed, truncated, foreign, not text, text with a zero byte
Foreign == {<<>>, <<5, 10, 2, 104, 105, 8, 9>>, <<4, 10, 9, 1, 2>>, <<6, 10, 1, 195, 5, 10, 0>>,
            <<5, 10, 3, 97, 0, 98, 10, 150, 1>>, <<0, 0, 7, 2, 1, 10, 10, 3>>}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
NH == IF Nulls THEN {NULL} ELSE {}

Init == AInit /\ hist = <<>> /\ done = FALSE
More == Len(hist) < Depth /\ UNCHANGED done
Now  == Len(hist) % Every = 0      \* in long behaviours, things live longer
NewE == /\ More /\ Handles \ DOMAIN enc # {}
        /\ LET h == Least(Handles \ DOMAIN enc) IN NewEncoder(h) /\ Do([o |-> "ne", h |-> h])
FreeE == More /\ Now /\ \E h \in DOMAIN enc \cup NH : FreeEncoder(h) /\ Do([o |-> "fe", h |-> h])
Enco == /\ More
        /\ \E h \in DOMAIN enc \cup NH, k \in EKs, nul \in BOOLEAN : \E v \in Vals(k) :
             /\ nul => Nulls /\ k \in Blobs
             /\ h # NULL => Len(enc[h]) < MaxOut
             /\ Encode(h, k, k, U8, v, nul) /\ Do([o |-> "en", h |-> h, k |-> k, a |-> k, b |-> U8, v |-> v, nul |-> nul])
NewD == /\ More /\ Handles \ DOMAIN dec # {}
        /\ LET h == Least(Handles \ DOMAIN dec) IN
           \/ \E i \in Foreign : NewDecoder(h, i) /\ Do([o |-> "nd", h |-> h, v |-> i])
           \/ Nulls /\ Same /\ Do([o |-> "nd", h |-> h, nul |-> TRUE])
NewO == /\ More /\ Handles \ DOMAIN dec # {}
        /\ LET h == Least(Handles \ DOMAIN dec) IN
           \E g \in DOMAIN enc : NewDecoder(h, enc[g]) /\ Do([o |-> "no", h |-> h, a |-> g])
FreeD == More /\ Now /\ \E h \in DOMAIN dec \cup NH : FreeDecoder(h) /\ Do([o |-> "fd", h |-> h])
Inp   == More /\ Now /\ \E h \in DOMAIN dec : Same /\ \E o \in {"cl", "fi"} : Do([o |-> o, h |-> h, n |-> 221])
Deco == /\ More
        /\ \E h \in DOMAIN dec \cup NH, k \in DKs :
             /\ k \in Blobs => Slots \ DOMAIN val # {}
             /\ LET s == IF k \in Blobs THEN Least(Slots \ DOMAIN val) ELSE NULL IN
                Decode(h, k, k, U8, s) /\ Do([o |-> "de", h |-> h, k |-> k, a |-> k, b |-> U8, s |-> s])
\* the caller asks for what is there
DecoR == /\ More
         /\ \E h \in DOMAIN dec : LET d == dec[h] IN
             /\ d.pos < Len(d.inp) /\ d.inp[d.pos + 1] \in DKs
             /\ LET k == d.inp[d.pos + 1] IN
                /\ k \in Blobs => Slots \ DOMAIN val # {}
                /\ LET s == IF k \in Blobs THEN Least(Slots \ DOMAIN val) ELSE NULL IN
                   Decode(h, k, k, U8, s) /\ Do([o |-> "de", h |-> h, k |-> k, a |-> k, b |-> U8, s |-> s])
FreeV == More /\ \E s \in DOMAIN val \cup NH : FreeValue(s) /\ Do([o |-> "fr", s |-> s, k |-> IF s = NULL THEN BYTES ELSE val[s].k])
WriV  == More /\ \E s \in DOMAIN val : WriteValue(s, 90) /\ Do([o |-> "wr", s |-> s, n |-> 90])
Size  == More /\ \E h \in DOMAIN enc \cup NH : Same /\ Do([o |-> "sz", h |-> h])
Copy  == More /\ \E h \in DOMAIN enc \cup NH, m \in {-1, 0, 1} : Same /\
           Do([o |-> "eb", h |-> h, n |-> LET L == (IF h = NULL THEN 3 ELSE Len(enc[h])) + m IN IF L < 0 THEN 0 ELSE L])
Stop  == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<enc, dec, val, hist>>
Next == NewE \/ FreeE \/ Enco \/ NewD \/ NewO \/ FreeD \/ Inp \/ Deco \/ DecoR \/ FreeV \/ WriV \/ Size \/ Copy \/ Stop
Spec == Init /\ [][Next]_gvars
\* Not worth replaying: those that end in a mere observation or creation.
Worth == hist[Depth].o \notin {"ne", "nd", "no", "sz", "eb", "cl", "fi"}
Out     == done => PrintT("H" \o ToJson(hist))
OutFull == done => (Worth => PrintT("H" \o ToJson(hist)))
=============================================================================
