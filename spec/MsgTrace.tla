------------------------------ MODULE MsgTrace ------------------------------
(***************************************************************************)
(* Is what a generator and its generated code did a behaviour of Msg?      *)
(* One line of TRACES per schema and implementation: [d, S (the schema), en *)
(* (number of values of every enum), km (allocation allowed per byte of     *)
(* input), j (what is judged), ev (events), want/got (files of the answers)]*)
(*   out   content of the buffer everything is encoded into                *)
(*   encs  what was encoded since the buffer was reset                     *)
(***************************************************************************)
EXTENDS Msg, Names, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES out, encs, t, l
tvars == <<out, encs, t, l>>

Dialects == [ go1 |-> [utf8 |-> "raw", nul |-> "ok", bool |-> "lenient", absent |-> "empty"],
              go2 |-> [utf8 |-> "raw", nul |-> "ok", bool |-> "strict",  absent |-> "nil"],
              rs  |-> [utf8 |-> "strict", nul |-> "ok", bool |-> "lenient", absent |-> "none"] ]
Tr == Traces[t].ev
D  == Dialects[Traces[t].d]
J  == Traces[t].j
S  == Traces[t].S
e  == Tr[l]

TInit == out = <<>> /\ encs = <<>> /\ t \in 1..Len(Traces) /\ l = 1

\* the generator: it succeeds, answers with the files asked for, says the same every time, and the result compiles
Generate == e.o = "G" /\ e.r = "ok" /\ e.ok /\ Traces[t].got = Traces[t].want /\ UNCHANGED <<out, encs>>
\* one type per message, with the declared fields, and only those
Type == /\ e.o = "T" /\ e.r = "ok" /\ e.n = Len(S[e.m]) /\ Len(e.v) = e.n
        /\ \A i \in 1..e.n : LET f == S[e.m][i] IN e.v[i] = [c |-> f.c, k |-> f.k, m |-> f.m, kk |-> f.kk]
        /\ UNCHANGED <<out, encs>>
\* the values of an enum are numbered in the order of their declaration
Enumeration == e.o = "U" /\ e.r = "ok" /\ e.d = [i \in 1..Traces[t].en[e.m] |-> i - 1] /\ UNCHANGED <<out, encs>>
\* what is declared (e.v) is called (e.d) in the code that was generated, compiled and used
Named == e.o = "Q" /\ (CASE e.k = 1 -> e.d = FieldName(e.v) [] e.k = 2 -> e.d = GoName(e.v) [] e.k = 3 -> e.d = RustField(e.v) [] e.k = 4 -> PackageOf(e.v, e.d)) /\ UNCHANGED <<out, encs>>
\* a new message is an empty one
NewMsg == e.o = "N" /\ e.r = "ok" /\ e.v # <<>> /\ Same(S, e.m, e.v, Default(S, e.m), D.absent) /\ UNCHANGED <<out, encs>>

Append1(x) == /\ e.r = "ok" /\ e.ok
              /\ out' = out \o e.d /\ e.n = Len(out')
              /\ encs' = Append(encs, [m |-> x, v |-> e.v, at |-> Len(out), end |-> Len(out')])
Encode == e.o = "E" /\ Append1(e.m) /\ (J.lay => IsEncoding(S, e.m, e.v, e.d))
Error  == e.o = "X" /\ Append1(0) /\ e.d = Enc(ERR, 0, 0, e.v)
Other  == e.o = "K" /\ e.r = "ok" /\ e.ok /\ out' = out \o e.d /\ e.n = Len(out') /\ UNCHANGED encs
Reset  == e.o = "R" /\ e.r = "ok" /\ e.n = 0 /\ out' = <<>> /\ encs' = <<>>

\* Decoding, into a new message, a used one, or none at all (slot -2).
\* (the one element of the set is DecM of the input: this way TLC evaluates it once)
ByFormat == \E r \in {DecM(S, e.m, e.d, 0, D, {})} :
              IF r.ok THEN e.r = "ok" /\ (J.pos => e.n = r.p) /\ Same(S, e.m, r.v, e.v, D.absent) ELSE e.r = "no"
Source == encs[e.at]
FromOut == e.at > 0 => LET a == Source.at IN a + Len(e.d) <= Len(out) /\ e.d = SubSeq(out, a + 1, a + Len(e.d))
BackAgain == e.at > 0 /\ Source.m = e.m /\ Len(e.d) >= Source.end - Source.at /\ (J.strict \/ ~Ambiguous(S, e.m, Source.v)) =>
             e.r = "ok" /\ Same(S, e.m, Source.v, e.v, D.absent)
NoMessage == e.at > 0 /\ Source.m = 0 /\ ~Hollow(S, e.m, {}) => e.r = "no"
Decode == /\ e.o = "D" /\ e.r \in {"ok", "no"} /\ e.ok /\ FromOut
          /\ IF e.slot = -2 THEN e.r = "no"
             ELSE /\ J.dec => ByFormat
                  /\ J.rt => BackAgain
                  /\ J.rt => NoMessage
                  /\ J.mem => e.mem <= 16384 + Traces[t].km * Len(e.d)
          /\ UNCHANGED <<out, encs>>
\* any depth of messages within messages is decoded, or is an error
Piled == e.o = "P" /\ e.r \in {"ok", "no"} /\ UNCHANGED <<out, encs>>
End == e.o = "Z" /\ e.r = "ok" /\ e.ok /\ e.n = Len(out) /\ UNCHANGED <<out, encs>>

TNext == /\ l <= Len(Tr)
         /\ l' = l + 1 /\ t' = t
         /\ \/ Generate \/ Type \/ Named \/ Enumeration \/ NewMsg \/ Encode \/ Error \/ Other \/ Reset \/ Decode \/ Piled \/ End
TSpec == TInit /\ [][TNext]_tvars

Report == l > Len(Tr) => PrintT(<<"ACCEPT", t>>)
Where  == PrintT(<<"AT", t, l, Len(out), Len(encs)>>)
=============================================================================
