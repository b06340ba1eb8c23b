-------------------------------- MODULE CApi ---------------------------------
(***************************************************************************)
(* The C interface: opaque handles and values that the caller owns.        *)
(*   enc    live encoders: what each has produced                          *)
(*   dec    live decoders: [inp, pos] of each                              *)
(*   val    live decoded values the caller holds: [k, v]                   *)
(* Every call writes the caller's status.  A decoder owns a copy of its    *)
(* input; a value owns its memory, independent of its decoder.             *)
(***************************************************************************)
EXTENDS Wire, TLC

VARIABLES enc, dec, val
avars == <<enc, dec, val>>

PASS == 0   FAIL == 1   NULLPTR == 2
NULL == -1

AInit == enc = <<>> /\ dec = <<>> /\ val = <<>>

Dialect == [utf8 |-> "strict", nul |-> IF BB = 8 THEN "reject" ELSE "ok", bool |-> "lenient"]
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Same == UNCHANGED avars

\* A C string ends at its first zero byte.
CStr(v) == LET Z == {i \in 1..Len(v) : v[i] = 0}
           IN IF Z = {} THEN v ELSE SubSeq(v, 1, (CHOOSE i \in Z : \A j \in Z : i <= j) - 1)

NewEncoder(h)  == h \notin DOMAIN enc /\ enc' = (h :> <<>>) @@ enc /\ UNCHANGED <<dec, val>>
FreeEncoder(h) == IF h = NULL THEN Same
                  ELSE h \in DOMAIN enc /\ enc' = Without(enc, h) /\ UNCHANGED <<dec, val>>

\* Encoding: the status, and the effect on the encoder. nul: a pointer argument is null.
EncodeStatus(h, k, v, nul) ==
    IF h = NULL \/ (nul /\ k \in Blobs) THEN NULLPTR
    ELSE IF k \in {STR, ERR} /\ ~Utf8(CStr(v)) THEN FAIL
    ELSE PASS
Encode(h, k, a, b, v, nul) ==
    IF EncodeStatus(h, k, v, nul) = PASS
    THEN /\ h \in DOMAIN enc
         /\ enc' = [enc EXCEPT ![h] = @ \o Enc(k, a, b, IF k \in {STR, ERR} THEN CStr(v) ELSE v)]
         /\ UNCHANGED <<dec, val>>
    ELSE Same

\* Copying the output into a caller's buffer of size n filled with x.
CopyStatus(h, nul, n) == IF h = NULL \/ nul THEN NULLPTR ELSE IF n < Len(enc[h]) THEN FAIL ELSE PASS
CopyResult(h, nul, n, x) ==
    LET fill(m) == [i \in 1..m |-> x]
    IN IF nul THEN <<>>
       ELSE IF CopyStatus(h, nul, n) = PASS THEN enc[h] \o fill(n - Len(enc[h])) ELSE fill(n)

NewDecoder(h, inp) == h \notin DOMAIN dec /\ dec' = (h :> [inp |-> inp, pos |-> 0]) @@ dec /\ UNCHANGED <<enc, val>>
FreeDecoder(h)     == IF h = NULL THEN Same
                      ELSE h \in DOMAIN dec /\ dec' = Without(dec, h) /\ UNCHANGED <<enc, val>>

Try(h, k, a, b) == Dec(k, a, b, dec[h].inp, dec[h].pos, Dialect)
DecodeStatus(h, k, a, b) ==
    IF h = NULL THEN NULLPTR ELSE IF k \in Unit \/ Try(h, k, a, b).ok THEN PASS ELSE FAIL
\* what a call returns when it has no value to return
Nothing(k) == IF k \in Blobs THEN <<>> ELSE IF k \in Unit THEN <<0>> ELSE Zero(Width(k))
DecodeResult(h, k, a, b) ==
    IF h = NULL THEN Nothing(k)
    ELSE LET r == Try(h, k, a, b)
         IN IF ~r.ok THEN Nothing(k) ELSE IF k \in Unit THEN <<1>> ELSE r.v
DecodeIsNull(h, k, a, b) == k \in Blobs /\ DecodeStatus(h, k, a, b) # PASS
\* s: where the caller keeps a returned value
Decode(h, k, a, b, s) ==
    IF h = NULL THEN Same
    ELSE /\ h \in DOMAIN dec
         /\ dec' = [dec EXCEPT ![h].pos = Try(h, k, a, b).p]
         /\ val' = IF k \in Blobs /\ Try(h, k, a, b).ok
                   THEN (s :> [k |-> k, v |-> Try(h, k, a, b).v]) @@ val ELSE val
         /\ UNCHANGED enc

\* A place that holds no value holds a null pointer.
FreeValue(s) == IF s \notin DOMAIN val THEN Same
                ELSE val' = Without(val, s) /\ UNCHANGED <<enc, dec>>
\* the caller may write into a value it owns
WriteValue(s, x) == IF s \notin DOMAIN val THEN Same
                    ELSE /\ val' = [val EXCEPT ![s].v = [i \in 1..Len(@) |-> x]]
                         /\ UNCHANGED <<enc, dec>>
Content(s) == IF s \in DOMAIN val THEN val[s].v ELSE <<>>
Nobody == DOMAIN enc = {} /\ DOMAIN dec = {} /\ DOMAIN val = {}
=============================================================================
