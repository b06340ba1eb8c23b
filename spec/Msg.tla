-------------------------------- MODULE Msg --------------------------------
(***************************************************************************)
(* Messages of generated code: what a message type of a schema looks like  *)
(* on the wire, and what reading it must yield.                            *)
(*                                                                         *)
(* A schema is a sequence of message types; a message type is a sequence   *)
(* of fields [c, k, m, kk] in declaration order:                           *)
(*   c   "one", "list" or "map"                                            *)
(*   k   wire kind of the value (elements, map values), MSG for messages;  *)
(*       enum values are U32, numbered by their place in the declaration   *)
(*   m   message type of the value when k = MSG, otherwise 0               *)
(*   kk  wire kind of the keys of a map, otherwise 0                       *)
(*   en  number of values of the enum the value is of, otherwise 0         *)
(*                                                                         *)
(* Values: a scalar is the byte sequence of Wire; a message is <<>> when   *)
(* absent and otherwise <<1, value of field 1, ...>>; a list is the        *)
(* sequence of its elements; a map is a sequence of <<key, value>>.        *)
(***************************************************************************)
EXTENDS Wire

MSG == 16

WireKind(k) == IF k = MSG THEN ANY ELSE k
IsOneScalar(f)  == f.c = "one" /\ f.k # MSG
IsList(f)       == f.c = "list"
IsOneMsg(f)     == f.c = "one" /\ f.k = MSG

\* Fields are written in three groups, each in declaration order: scalars,
\* lists, and then messages and maps.
Pick(M, T(_)) == SelectSeq([i \in 1..Len(M) |-> i], LAMBDA i : T(M[i]))
Layout(M) == Pick(M, IsOneScalar) \o Pick(M, IsList)
             \o Pick(M, LAMBDA f : ~IsOneScalar(f) /\ ~IsList(f))

ZeroOf(f) == IF f.c # "one" \/ f.k = MSG \/ f.k \in Blobs THEN <<>> ELSE Zero(Width(f.k))
Default(S, m) == <<1>> \o [i \in 1..Len(S[m]) |-> ZeroOf(S[m][i])]

-----------------------------------------------------------------------------
(* Encoding.  Maps have no order: s is an encoding of a value when it is   *)
(* the encoding for some order of the entries of its maps.  Match(.., s, p) *)
(* is the position where the encoding that starts at p ends, -1 if there is *)
(* none.                                                                   *)

At(s, p, w) == p >= 0 /\ p + Len(w) <= Len(s) /\ \A i \in 1..Len(w) : s[p + i] = w[i]
Lit(s, p, w) == IF At(s, p, w) THEN p + Len(w) ELSE -1
Size(n) == NatToVal(n, 4)

\* keys are read back: the raw dialect accepts every key that can be written
Raw == [utf8 |-> "raw", nul |-> "ok", bool |-> "strict"]

RECURSIVE MatchM(_, _, _, _, _), MatchFs(_, _, _, _, _, _, _), MatchV(_, _, _, _, _), MatchL(_, _, _, _, _, _), MatchE(_, _, _, _, _, _)
MatchV(S, f, v, s, p) == IF p < 0 THEN -1 ELSE IF f.k = MSG THEN MatchM(S, f.m, v, s, p) ELSE Lit(s, p, Enc(f.k, 0, 0, v))
MatchL(S, f, v, i, s, p) == IF p < 0 THEN -1 ELSE IF i > Len(v) THEN p ELSE MatchL(S, f, v, i + 1, s, MatchV(S, f, v[i], s, p))
\* left: indices of the entries still to come
MatchE(S, f, v, left, s, p) ==
    IF p < 0 THEN -1 ELSE IF left = {} THEN p
    ELSE LET r == Dec(f.kk, 0, 0, s, p, Raw)
             I == {i \in left : v[i][1] = r.v}
         IN IF ~r.ok \/ I = {} THEN -1
            ELSE LET i == CHOOSE j \in I : TRUE
                 IN IF ~At(s, p, Enc(f.kk, 0, 0, v[i][1])) THEN -1
                    ELSE MatchE(S, f, v, left \ {i}, s, MatchV(S, f, v[i][2], s, r.p))
MatchF(S, f, v, s, p) ==
    CASE f.c = "one"  -> MatchV(S, f, v, s, p)
      [] f.c = "list" -> MatchL(S, f, v, 1, s, Lit(s, p, Enc(SLICE, WireKind(f.k), 0, Size(Len(v)))))
      [] f.c = "map"  -> MatchE(S, f, v, 1..Len(v), s, Lit(s, p, Enc(MAP, f.kk, WireKind(f.k), Size(Len(v)))))
MatchFs(S, M, order, v, i, s, p) ==
    IF p < 0 THEN -1 ELSE IF i > Len(order) THEN p
    ELSE MatchFs(S, M, order, v, i + 1, s, MatchF(S, M[order[i]], v[order[i] + 1], s, p))
MatchM(S, m, v, s, p) ==
    IF p < 0 THEN -1 ELSE IF v = <<>> THEN Lit(s, p, <<NIL>>)
    ELSE MatchFs(S, S[m], Layout(S[m]), v, 1, s, p)

\* s is an encoding of v, all of it
IsEncoding(S, m, v, s) == MatchM(S, m, v, s, 0) = Len(s)

\* The encoding with the entries of every map in the order given.
RECURSIVE EncM(_, _, _), EncF(_, _, _), EncL(_, _, _, _), EncFs(_, _, _, _, _)
EncV(S, f, v) == IF f.k = MSG THEN EncM(S, f.m, v) ELSE Enc(f.k, 0, 0, v)
EncL(S, f, v, i) == IF i > Len(v) THEN <<>>
                    ELSE (IF f.c = "map" THEN Enc(f.kk, 0, 0, v[i][1]) \o EncV(S, f, v[i][2]) ELSE EncV(S, f, v[i]))
                         \o EncL(S, f, v, i + 1)
EncF(S, f, v) ==
    CASE f.c = "one"  -> EncV(S, f, v)
      [] f.c = "list" -> Enc(SLICE, WireKind(f.k), 0, Size(Len(v))) \o EncL(S, f, v, 1)
      [] f.c = "map"  -> Enc(MAP, f.kk, WireKind(f.k), Size(Len(v))) \o EncL(S, f, v, 1)
EncFs(S, M, order, v, i) == IF i > Len(order) THEN <<>>
                            ELSE EncF(S, M[order[i]], v[order[i] + 1]) \o EncFs(S, M, order, v, i + 1)
EncM(S, m, v) == IF v = <<>> THEN <<NIL>> ELSE EncFs(S, S[m], Layout(S[m]), v, 1)

-----------------------------------------------------------------------------
(* Decoding: a message that starts with nil is absent, otherwise it is its  *)
(* fields.  A map may be nil as well.  A later entry of a map replaces an    *)
(* earlier one with the same key.  `on' holds the message types entered at   *)
(* this very position: a type that comes back to itself before anything is   *)
(* read has no encoding.  How absent messages are seen is a parameter, see    *)
(* below; where there are none (Rust), nil within a message, an error where a  *)
(* message should be, and an enum value that was not declared are rejected.   *)

FailM == [ok |-> FALSE, v |-> <<>>, p |-> 0]
IsNil(s, p) == p < Len(s) /\ s[p + 1] = NIL
Closed(d) == d.absent = "none"

RECURSIVE DecM(_, _, _, _, _, _), DecFs(_, _, _, _, _, _, _, _, _), DecF(_, _, _, _, _, _), DecL(_, _, _, _, _, _, _), DecE(_, _, _, _, _, _, _)
DecS(f, s, p, d) == LET r == Dec(f.k, 0, 0, s, p, d)
                    IN IF r.ok /\ Closed(d) /\ f.en > 0 /\ ~(ValToNat(r.v) \in 0..f.en - 1) THEN FailM ELSE r
DecV(S, f, s, p, d, on) == IF f.k # MSG THEN DecS(f, s, p, d)
                           ELSE IF Closed(d) /\ IsNil(s, p) THEN FailM ELSE DecM(S, f.m, s, p, d, on)
DecL(S, f, n, s, p, d, acc) ==
    IF Len(acc) = n THEN Ok(acc, p)
    ELSE LET r == DecV(S, f, s, p, d, {})
         IN IF r.ok THEN DecL(S, f, n, s, r.p, d, Append(acc, r.v)) ELSE FailM
Put(acc, k, v) == LET I == {i \in 1..Len(acc) : acc[i][1] = k}
                  IN IF I = {} THEN Append(acc, <<k, v>>)
                     ELSE [i \in 1..Len(acc) |-> IF i \in I THEN <<k, v>> ELSE acc[i]]
DecE(S, f, n, s, p, d, acc) ==
    IF n = 0 THEN Ok(acc, p)
    ELSE LET k == Dec(f.kk, 0, 0, s, p, d)
         IN IF ~k.ok THEN FailM
            ELSE LET r == DecV(S, f, s, k.p, d, {})
                 IN IF r.ok THEN DecE(S, f, n - 1, s, r.p, d, Put(acc, k.v, r.v)) ELSE FailM
DecF(S, f, s, p, d, on) ==
    CASE f.c = "one"  -> DecV(S, f, s, p, d, on)
      [] f.c = "list" -> LET h == Dec(SLICE, WireKind(f.k), 0, s, p, d)
                         IN IF h.ok THEN DecL(S, f, ValToNat(h.v), s, h.p, d, <<>>) ELSE FailM
      [] f.c = "map"  -> IF IsNil(s, p) THEN IF Closed(d) THEN FailM ELSE Ok(<<>>, p + 1)
                         ELSE LET h == Dec(MAP, f.kk, WireKind(f.k), s, p, d)
                              IN IF h.ok THEN DecE(S, f, ValToNat(h.v), s, h.p, d, <<>>) ELSE FailM
DecFs(S, M, order, i, s, p, d, acc, on) ==
    IF i > Len(order) THEN Ok(acc, p)
    ELSE LET r == DecF(S, M[order[i]], s, p, d, on)
         IN IF r.ok THEN DecFs(S, M, order, i + 1, s, r.p, d, [acc EXCEPT ![order[i] + 1] = r.v], IF r.p > p THEN {} ELSE on)
            ELSE FailM
DecM(S, m, s, p, d, on) ==
    IF IsNil(s, p) THEN Ok(<<>>, p + 1)
    ELSE IF m \in on \/ (Closed(d) /\ Dec(ERR, 0, 0, s, p, d).ok) THEN FailM
    ELSE DecFs(S, S[m], Layout(S[m]), 1, s, p, d, Default(S, m), on \cup {m})

-----------------------------------------------------------------------------
(* When two values are the same.  Maps are sets of entries.  absent = "nil": *)
(* an absent message is told from an empty one (Go v2); "empty": a message   *)
(* field is never absent, what is absent reads as empty (Go v1).  Elements   *)
(* of lists and maps, and the message that is decoded into, are never        *)
(* absent: there, absent reads as empty.  "none": no message within another   *)
(* is ever absent (Rust).                                                     *)

RECURSIVE NormM(_, _, _, _), NormF(_, _, _, _)
NormElem(S, m, v, absent) == IF v = <<>> /\ absent = "nil" THEN NormM(S, m, Default(S, m), absent) ELSE NormM(S, m, v, absent)
NormE(S, f, v, absent) == IF f.k = MSG THEN NormElem(S, f.m, v, absent) ELSE v
NormF(S, f, v, absent) ==
    CASE f.c = "one"  -> IF f.k = MSG THEN NormM(S, f.m, v, absent) ELSE v
      [] f.c = "list" -> [i \in 1..Len(v) |-> NormE(S, f, v[i], absent)]
      [] f.c = "map"  -> {<<v[i][1], NormE(S, f, v[i][2], absent)>> : i \in 1..Len(v)}
IsZero(f, x) == IF f.c = "map" THEN x = {} ELSE x = ZeroOf(f)
NormM(S, m, v, absent) ==
    IF v = <<>> THEN <<>>
    ELSE LET M == S[m]
             n == [i \in 1..Len(M) |-> NormF(S, M[i], v[i + 1], absent)]
         IN IF absent = "empty" /\ \A i \in 1..Len(M) : IsZero(M[i], n[i]) THEN <<>> ELSE <<1>> \o n
Same(S, m, v, w, absent) == NormElem(S, m, v, absent) = NormElem(S, m, w, absent)

(* A message that is present, and whose encoding is nothing or starts with   *)
(* nil, cannot be told from an absent one.                                   *)
Blurred(S, m, v) == v # <<>> /\ LET e == EncM(S, m, v) IN e = <<>> \/ e[1] = NIL
RECURSIVE Ambiguous(_, _, _)
AmbF(S, f, v) ==
    f.k = MSG /\ CASE f.c = "one"  -> Ambiguous(S, f.m, v)
                   [] f.c = "list" -> \E i \in 1..Len(v) : Ambiguous(S, f.m, v[i])
                   [] f.c = "map"  -> \E i \in 1..Len(v) : Ambiguous(S, f.m, v[i][2])
Ambiguous(S, m, v) == v # <<>> /\ (Blurred(S, m, v) \/ \E i \in 1..Len(S[m]) : AmbF(S, S[m][i], v[i + 1]))

(* Message types of which a present value may be encoded in no bytes.        *)
RECURSIVE Hollow(_, _, _)
Hollow(S, m, in) == m \notin in /\ \A i \in 1..Len(S[m]) : IsOneMsg(S[m][i]) /\ Hollow(S, S[m][i].m, in \cup {m})
=============================================================================
