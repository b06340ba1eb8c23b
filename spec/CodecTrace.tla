----------------------------- MODULE CodecTrace ------------------------------
(***************************************************************************)
(* Is a recorded execution of an implementation a behaviour of Codec?      *)
(* The file named by the environment variable TRACES holds one execution   *)
(* per line: [id, d (implementation), j (what is judged beyond values and   *)
(* outcomes), ev (events)].  Each is checked as an independent behaviour,   *)
(* one event per step.  A step exists only if the    *)
(* logged outcome is one that Codec allows; an execution is accepted when   *)
(* all its events have been consumed.                                       *)
(***************************************************************************)
EXTENDS Codec, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, l
tvars == <<out, inp, pos, t, l>>

Dialects ==
  [ go1 |-> [utf8 |-> "raw",    nul |-> "ok",     bool |-> "lenient", err |-> "own",    copy |-> FALSE, nan |-> "bits"],
    go2 |-> [utf8 |-> "raw",    nul |-> "ok",     bool |-> "strict",  err |-> "own",    copy |-> FALSE, nan |-> "bits"],
    rs  |-> [utf8 |-> "strict", nul |-> "ok",     bool |-> "lenient", err |-> "nested", copy |-> FALSE, nan |-> "bits"],
    c   |-> [utf8 |-> "strict", nul |-> "reject", bool |-> "lenient", err |-> "none",   copy |-> TRUE,  nan |-> "bits"],
    ts  |-> [utf8 |-> "strict", nul |-> "ok",     bool |-> "lenient", err |-> "nested", copy |-> FALSE, nan |-> "any"] ]

Tr == Traces[t].ev
D  == Dialects[Traces[t].d]
J  == Traces[t].j                \* [err, len, mem: judged or not]
e  == Tr[l]

\* NaNs: TypeScript numbers do not keep a NaN's payload bits.
IsNaN32(v) == v[1] % 128 = 127 /\ v[2] >= 128 /\ (v[2] > 128 \/ v[3] > 0 \/ v[4] > 0)
IsNaN64(v) == v[1] % 128 = 127 /\ v[2] >= 240 /\ (v[2] > 240 \/ \E i \in 3..8 : v[i] > 0)
IsNaN(k, v) == IF k = F32 THEN IsNaN32(v) ELSE k = F64 /\ IsNaN64(v)
SameVal(k, v, w) == v = w \/ (D.nan = "any" /\ k \in Floats /\ IsNaN(k, v) /\ IsNaN(k, w))

\* The error names the kind that was asked for.  Only where the value's own
\* tags are there and its size field is undecodable may Rust and TypeScript
\* report the size's kind instead.
OwnTags(k, a, b) == CASE k = SLICE -> <<SLICE, a>> [] k = MAP -> <<MAP, a, b>>
                      [] k = ERR -> <<ERR, STR>> [] OTHER -> <<k>>
ErrOK(k, a, b) ==
    \/ ~J.err
    \/ D.err = "none"
    \/ e.e = k
    \/ /\ D.err = "nested" /\ k \in Sized \cup Blobs /\ e.e = U32
       /\ HasTags(inp, pos, OwnTags(k, a, b))

\* An allocation of more than a small multiple of the input is an anomaly
\* (-1: not measured).
MemOK == ~J.mem \/ (e.mem - 8192) \div 8 <= ByteLen(inp)

Remaining == ByteLen(Drop(inp, pos'))
LenOK(x) == ~J.len \/ e.p = -1 \/ e.p = x

TInit == CInit /\ t \in 1..Len(Traces) /\ l = 1

New   == e.o = "N" /\ e.r = "ok" /\ e.n = 0 /\ UNCHANGED cvars
Encode == /\ e.o = "E" /\ e.r = "ok" /\ e.ok
          /\ Write(e.k, e.a, e.b, e.v)
          /\ e.n = ByteLen(out')
          /\ \/ out' = out \o e.d
             \/ /\ D.nan = "any" /\ IsNaN(e.k, e.v)
                /\ Len(e.d) = Len(e.v) + 1 /\ e.d[1] = e.k /\ IsNaN(e.k, Drop(e.d, 1))
\* raw bytes appended to the buffer
WriteRaw == /\ e.o = "W" /\ e.r = "ok" /\ e.ok
            /\ out' = out \o e.v /\ e.d = e.v /\ e.n = ByteLen(out')
            /\ UNCHANGED <<inp, pos>>
Reset == e.o = "R" /\ e.r = "ok" /\ e.n = 0 /\ ResetOut
\* Grow(n) makes room for n more bytes and changes nothing else.
GrowOut == /\ e.o = "G" /\ e.r = "ok" /\ e.ok /\ e.n = ByteLen(out) /\ e.c >= e.v[1]
           /\ UNCHANGED cvars
\* MoveOffset(n): n < 0 takes back the last -n bytes; n > 0 claims n more bytes
\* whose content is whatever the storage holds.
MoveOut == /\ e.o = "M" /\ e.r = "ok" /\ e.ok
           /\ LET n == e.v[1] IN
              IF n <= 0 THEN out' = SubSeq(out, 1, Len(out) + n) /\ e.d = <<>>
              ELSE out' = out \o e.d /\ Len(e.d) = n
           /\ e.n = ByteLen(out') /\ UNCHANGED <<inp, pos>>
Load  == e.o = "L" /\ e.r = "ok" /\ Open(e.v) /\ LenOK(ByteLen(e.v))
LoadOut == e.o = "X" /\ e.r = "ok" /\ Open(out) /\ e.n = ByteLen(out) /\ LenOK(ByteLen(out))
\* The owner of the input memory overwrites it: values already returned must
\* not change; a decoder that copied its input does not notice.
Clobber == /\ e.o = "C" /\ e.r = "ok" /\ e.ok
           /\ inp' = IF D.copy THEN inp ELSE [i \in 1..Len(inp) |-> IF inp[i] < 0 THEN -(352321536 + BlobLen(inp[i])) ELSE e.n]
           /\ UNCHANGED <<out, pos>>
\* The byte string returned last is overwritten by its owner, to the end of its
\* storage: no other value, neither the input nor the output, is part of it.
Overwrite == e.o = "S" /\ e.r = "ok" /\ e.ok /\ Scribble
DecodeOk == /\ e.o = "D" /\ e.r = "ok" /\ e.ok /\ MemOK   \* ok: the input itself was not written to
            /\ LET r == Dec(e.k, e.a, e.b, inp, pos, D) IN
                 r.ok /\ SameVal(e.k, r.v, e.v) /\ ReadOk(e.k, e.a, e.b, D, r.v)
            /\ LenOK(Remaining)
DecodeFail == /\ e.o = "D" /\ e.r = "no" /\ e.v = <<>> /\ e.ok /\ MemOK
              /\ ReadFail(e.k, e.a, e.b, D)
              /\ e.e # -2                \* none but the library's own decoding errors
              /\ e.k \notin Unit => ErrOK(e.k, e.a, e.b)
              /\ LenOK(Remaining)
\* End of the execution: everything returned or written is still intact.
End   == e.o = "Z" /\ e.r = "ok" /\ e.ok /\ e.n = ByteLen(out) /\ UNCHANGED cvars

TNext == /\ l <= Len(Tr)
         /\ l' = l + 1 /\ t' = t
         /\ \/ New \/ Encode \/ WriteRaw \/ Reset \/ GrowOut \/ MoveOut
            \/ Load \/ LoadOut \/ Clobber \/ Overwrite \/ DecodeOk \/ DecodeFail \/ End

TSpec == TInit /\ [][TNext]_tvars

\* Evaluated in every state: reports the executions consumed to the end.
Report == l > Len(Tr) => PrintT(<<"ACCEPT", t>>)
\* Used when a rejected execution is re-run alone: how far it got.
Where  == PrintT(<<"AT", t, l, ByteLen(out), pos>>)
\* A consequence of the above that must hold in every state of every execution.
Bounds == pos \in 0..Len(inp)
=============================================================================
