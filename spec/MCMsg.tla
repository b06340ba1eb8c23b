------------------------------- MODULE MCMsg --------------------------------
(***************************************************************************)
(* Every schema of three message types whose first has up to MaxFields     *)
(* fields of the listed shapes, with every value of it over small domains: *)
(* the value is encoded, followed by something, damaged or cut, and read.  *)
(***************************************************************************)
EXTENDS Msg, TLC, SequencesExt

CONSTANTS MaxFields, Part, Rich, EnumVals

VARIABLES S, v, s, why
mvars == <<S, v, s, why>>

F(c, k, m, kk) == [c |-> c, k |-> k, m |-> m, kk |-> kk, en |-> IF k = U32 THEN EnumVals ELSE 0]
Shapes == {F("one", U32, 0, 0), F("one", STR, 0, 0), F("one", MSG, 2, 0), F("one", MSG, 1, 0),
           F("list", BOOL, 0, 0), F("list", MSG, 2, 0), F("map", BOOL, 0, STR), F("map", MSG, 2, BOOL)}
Inner  == {<<>>, <<F("one", BOOL, 0, 0)>>, <<F("one", MSG, 3, 0)>>, <<F("one", MSG, 3, 0), F("one", BOOL, 0, 0)>>,
           <<F("list", BOOL, 0, 0), F("one", MSG, 3, 0)>>, <<F("one", MSG, 3, 0), F("one", MSG, 1, 0)>>}
Leaf   == {<<>>, <<F("one", BOOL, 0, 0)>>}
Inner1 == IF Rich THEN Inner ELSE {<<F("one", BOOL, 0, 0)>>, <<F("one", MSG, 3, 0)>>}
Schemas == {<<a, b, c>> : a \in BoundedSeq(Shapes, MaxFields), b \in Inner1, c \in Leaf}

\* values, to a depth
Scalars(k) == CASE k = U32 -> IF EnumVals = 0 THEN {Zero(4), <<0, 0, 1, Byte - 1>>} ELSE {NatToVal(n, 4) : n \in 0..EnumVals - 1}
                [] k = BOOL -> {<<0>>, <<1>>}
                [] k = STR -> {<<>>, <<0, 5>>}
RECURSIVE Vals(_, _, _), FVals(_, _, _), Tuples(_, _, _, _)
EVals(T, f, n) == IF f.k = MSG THEN Vals(T, f.m, n) \ {<<>>} ELSE Scalars(f.k)
FVals(T, f, n) ==
    CASE f.c = "one"  -> IF f.k = MSG THEN Vals(T, f.m, n) ELSE Scalars(f.k)
      [] f.c = "list" -> {<<>>} \cup {<<x>> : x \in EVals(T, f, n)} \cup {<<x, x>> : x \in EVals(T, f, n)}
      [] f.c = "map"  -> {<<>>} \cup {<<<<k, x>>>> : k \in Scalars(f.kk), x \in EVals(T, f, n)}
                         \cup (IF n > 1 THEN {} ELSE {<<<<k, x>>, <<l, x>>>> : k, l \in Scalars(f.kk), x \in EVals(T, f, n)} \ {<<<<k, x>>, <<k, x>>>> : k \in Scalars(f.kk), x \in EVals(T, f, n)})
Tuples(T, M, i, n) == IF i > Len(M) THEN {<<1>>} ELSE LET rest == Tuples(T, M, i + 1, n) IN {<<1, x>> \o Tail(r) : x \in FVals(T, M[i], n), r \in rest}
Vals(T, m, n) == IF n = 0 THEN {<<>>} ELSE {<<>>} \cup Tuples(T, T[m], 1, n - 1)

Depth == 2
Tails == {<<>>, <<NIL>>, <<BOOL, 1>>}
MInit == S \in Schemas /\ v \in Vals(S, 1, Depth) /\ s = <<>> /\ why = "value"
E == EncM(S, 1, v)
Exact == why = "value" /\ \E x \in Tails : s' = E \o x /\ why' = "exact"
Cut   == why = "value" /\ Part # "exact" /\ \E n \in 0..Len(E) - 1 : s' = SubSeq(E, 1, n) /\ why' = "cut"
Damage == why = "value" /\ Part = "all" /\ \E i \in 1..Len(E) : \E x \in {0, BOOL, STR, E[i] + 1} : s' = [E EXCEPT ![i] = x % Byte] /\ why' = "damaged"
ErrIn  == why = "value" /\ v = <<>> /\ s' = Enc(ERR, 0, 0, <<5>>) /\ why' = "error"
MNext == (Exact \/ Cut \/ Damage \/ ErrIn) /\ UNCHANGED <<S, v>>
MSpec == MInit /\ [][MNext]_mvars

Open == [utf8 |-> "raw", nul |-> "ok", bool |-> "strict", absent |-> "nil"]
Strict == [Open EXCEPT !.absent = "none"]
R == DecM(S, 1, s, 0, Open, {})
RC == DecM(S, 1, s, 0, Strict, {})
RECURSIVE Complete(_, _)
CompleteV(f, x) == f.k # MSG \/ (x # <<>> /\ Complete(f.m, x))
Complete(m, x) == x = <<>> \/ \A i \in 1..Len(S[m]) : LET f == S[m][i] IN
    CASE f.c = "one"  -> CompleteV(f, x[i + 1])
      [] f.c = "list" -> \A j \in 1..Len(x[i + 1]) : CompleteV(f, x[i + 1][j])
      [] f.c = "map"  -> \A j \in 1..Len(x[i + 1]) : CompleteV(f, x[i + 1][j][2])
AnyHollow == \E m \in 1..Len(S) : Hollow(S, m, {})
-----------------------------------------------------------------------------
\* Reading what was written yields it, and stops where it ends.
RoundTrip == why = "exact" /\ ~Ambiguous(S, 1, v) =>
    /\ R.ok /\ R.p = Len(E)
    /\ \A a \in {"nil", "empty"} : Same(S, 1, v, R.v, a)
\* Without the exception this is false: see MCMsgBlurred.cfg.
RoundTripAll == why = "exact" => R.ok /\ R.p = Len(E) /\ Same(S, 1, v, R.v, "nil")
\* Where no message within another is absent, the same is read, or nothing.
StrictTrip == why = "exact" /\ ~Ambiguous(S, 1, v) /\ Complete(1, v) => RC.ok /\ RC.p = Len(E) /\ Same(S, 1, v, RC.v, "none")
StrictReads == RC.ok => R.ok /\ R.p = RC.p /\ R.v = RC.v /\ Complete(1, RC.v)
StrictRejects == why = "exact" /\ ~Ambiguous(S, 1, v) /\ ~Complete(1, v) => ~RC.ok
\* An absent message is one nil, and read as absent.
Absent == why = "exact" /\ v = <<>> => E = <<NIL>> /\ R.ok /\ R.v = <<>> /\ R.p = 1
\* Only an absent message reads as absent.
NotAbsent == why = "exact" /\ v # <<>> /\ ~Ambiguous(S, 1, v) => R.v # <<>>
\* Encoding and layout agree, and the layout determines the value.
OneLayout == why = "exact" => MatchM(S, 1, v, s, 0) = Len(E)
OneValue  == why = "exact" /\ ~Ambiguous(S, 1, v) /\ R.ok => MatchM(S, 1, R.v, s, 0) = Len(E)
\* The beginning of an encoding is no encoding, unless the rest may be nothing.
CutFails == why = "cut" /\ ~Ambiguous(S, 1, v) /\ ~AnyHollow => ~R.ok
\* An error is never read as a message.
ErrorIsNone == why = "error" => ~R.ok \/ Hollow(S, 1, {})
\* Whatever is read from damaged input is a message of the type.
RECURSIVE WellTyped(_, _)
ValOK(f, x) == IF f.k = MSG THEN WellTyped(f.m, x) ELSE f.k \in Blobs \/ IsVal(x, Width(f.k))
WellTyped(m, x) == x = <<>> \/
    /\ Len(x) = Len(S[m]) + 1 /\ x[1] = 1
    /\ \A i \in 1..Len(S[m]) : LET f == S[m][i] IN
         CASE f.c = "one"  -> ValOK(f, x[i + 1])
           [] f.c = "list" -> \A j \in 1..Len(x[i + 1]) : ValOK(f, x[i + 1][j])
           [] f.c = "map"  -> /\ \A j \in 1..Len(x[i + 1]) : ValOK(f, x[i + 1][j][2])
                              /\ \A j, l \in 1..Len(x[i + 1]) : x[i + 1][j][1] = x[i + 1][l][1] => j = l
Sound == R.ok => /\ WellTyped(1, R.v) /\ R.p \in 0..Len(s)
                 /\ ~Ambiguous(S, 1, R.v) => LET q == DecM(S, 1, EncM(S, 1, R.v), 0, Open, {}) IN q.ok /\ q.v = R.v
=============================================================================
