------------------------------- MODULE MCCApi --------------------------------
(***************************************************************************)
(* Exhaustive bounded check of CApi (4-bit bytes): every sequence of calls *)
(* over two handles of each sort, with null pointers and foreign input.    *)
(***************************************************************************)
EXTENDS CApi
CONSTANTS Handles, MaxOut, Inputs, MaxVals
MCInputs == {<<>>, <<5, 10, 1, 7, 8>>, <<4, 10>>}

VARIABLES st                       \* the caller's status
cvars == <<enc, dec, val, st>>
H0 == Handles \cup {NULL}
Vs(k) == IF k = U8 THEN {<<9>>} ELSE IF k \in Blobs THEN {<<>>, <<7>>} ELSE {<<0, 9>>}
EKinds == {U8, U16, STR, BYTES}
DKinds == {U8, STR, BYTES, NIL}

IsPre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
MInit == AInit /\ st = PASS
Room(h) == h = NULL \/ (h \in DOMAIN enc /\ Len(enc[h]) < MaxOut)
MNext ==
  \/ \E h \in Handles : NewEncoder(h) /\ st' = PASS
  \/ \E h \in H0 : FreeEncoder(h) /\ UNCHANGED st
  \/ \E h \in H0, k \in EKinds, nul \in BOOLEAN : \E v \in Vs(k) :
        Room(h) /\ Encode(h, k, 0, 0, v, nul) /\ st' = EncodeStatus(h, k, v, nul)
  \/ \E h \in Handles, i \in Inputs : NewDecoder(h, i) /\ st' = PASS
  \/ \E h \in Handles, g \in DOMAIN enc : NewDecoder(h, enc[g]) /\ st' = PASS
  \/ \E h \in H0 : FreeDecoder(h) /\ UNCHANGED st
  \/ \E h \in {NULL} \cup DOMAIN dec, k \in DKinds : LET s == Cardinality(DOMAIN val) + 1 IN
        s <= MaxVals /\ s \notin DOMAIN val /\ Decode(h, k, 0, 0, s) /\ st' = DecodeStatus(h, k, 0, 0)
  \/ \E s \in DOMAIN val : FreeValue(s) /\ UNCHANGED st
  \/ \E s \in DOMAIN val : WriteValue(s, 3) /\ UNCHANGED st
MSpec == MInit /\ [][MNext]_cvars

\* A failed or null call has no effect.
NoEffect == [][st' # PASS /\ st' # st => UNCHANGED avars]_cvars
\* What is held changes only by the holder's own calls.
Independent == [][ /\ \A s \in DOMAIN val \cap DOMAIN val' : val'[s] # val[s] => enc' = enc /\ dec' = dec
                   /\ \A h \in DOMAIN enc \cap DOMAIN enc' : enc'[h] # enc[h] => dec' = dec /\ val' = val /\ IsPre(enc[h], enc'[h])
                   /\ \A h \in DOMAIN dec \cap DOMAIN dec' : dec'[h].inp = dec[h].inp /\ dec'[h].pos >= dec[h].pos ]_cvars
InBounds == \A h \in DOMAIN dec : dec[h].pos \in 0..Len(dec[h].inp)
Statuses == st \in {PASS, FAIL, NULLPTR}
=============================================================================
