------------------------------ MODULE PoolTrace ------------------------------
(***************************************************************************)
(* Is a recorded execution of a pool and its users a behaviour of Pool?    *)
(* Objects are identified by their address; takers by number.  What an     *)
(* object contains is a byte sequence (buffers) or a decoder state         *)
(* [inp, pos] (decoders), changed by its holder as Wire prescribes.        *)
(* Take events are recorded after the object was obtained and return       *)
(* events before it is given up, so their order is one in which the pool   *)
(* may have acted.                                                         *)
(***************************************************************************)
EXTENDS Wire, Pool, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, l
tvars == <<holder, content, t, l>>

Tr == Traces[t].ev
e  == Tr[l]
D  == [utf8 |-> "raw", nul |-> "ok", bool |-> Traces[t].bool]

TInit == PInit /\ t \in 1..Len(Traces) /\ l = 1

\* a buffer comes out empty
TakeBuf == /\ e.o = "T" /\ e.d = <<>> /\ e.n = 0
           /\ Take(e.g, e.i, <<>>)
\* a decoder comes out at the start of the input asked for
TakeDec == /\ e.o = "TD" /\ Take(e.g, e.i, [inp |-> e.v, pos |-> 0])
Own == \/ e.o = "F" /\ e.d = <<>> /\ e.n = 0 /\ Bring(e.g, e.i, <<>>)
       \/ e.o = "FD" /\ Bring(e.g, e.i, [inp |-> <<>>, pos |-> 0])
\* everything written to a buffer since it was taken, and nothing else, is there
Seen(c) == e.d = c /\ e.n = Len(c)
UseBuf == \/ e.o = "W" /\ Seen(content[e.i] \o e.v) /\ Use(e.g, e.i, content[e.i] \o e.v)
          \/ /\ e.o = "E" /\ LET c == content[e.i] \o Enc(e.k, 0, 0, e.v)
                             IN Seen(c) /\ Use(e.g, e.i, c)
          \/ /\ e.o = "M" /\ LET c == SubSeq(content[e.i], 1, Len(content[e.i]) - e.v[1])
                             IN Seen(c) /\ Use(e.g, e.i, c)
          \/ e.o = "R" /\ Seen(<<>>) /\ Use(e.g, e.i, <<>>)
          \/ e.o \in {"G", "S"} /\ Seen(content[e.i]) /\ Use(e.g, e.i, content[e.i])
UseDec == e.o = "D" /\ LET s == content[e.i]
                           r == Dec(e.k, 0, 0, s.inp, s.pos, D)
                       IN /\ e.r = IF r.ok THEN "ok" ELSE "no"
                          /\ e.r = "ok" => e.v = r.v
                          /\ Use(e.g, e.i, [s EXCEPT !.pos = r.p])
Give == e.o = "P" /\ Return(e.g, e.i)
GiveNothing == e.o = "PN" /\ ReturnNothing

TNext == /\ l <= Len(Tr) /\ l' = l + 1 /\ t' = t
         /\ e.o # "D" => e.r = "ok"
         /\ \/ TakeBuf \/ TakeDec \/ Own \/ Give \/ GiveNothing
            \/ Holds(e.g, e.i) /\ (UseBuf \/ UseDec)
TSpec == TInit /\ [][TNext]_tvars
Report == l > Len(Tr) => PrintT(<<"ACCEPT", t>>)
Where  == PrintT(<<"AT", t, l>>)
=============================================================================
