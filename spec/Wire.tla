-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The polyglot wire format, as constant-level operators.                  *)
(*                                                                         *)
(* A byte is an integer 0 .. 2^BB-1.  BB is 8 for the real format; the     *)
(* bounded model (MCCodec) uses BB = 4, where every alphabet and every      *)
(* width shrinks in proportion (4-bit "bytes", 3 payload bits per varint   *)
(* byte, 8/16/32-bit "uint16/32/64") while every rule below is unchanged.  *)
(*                                                                         *)
(* Integers and floats are never TLC integers: a W-byte quantity is the    *)
(* sequence of its W bytes, most significant first (two's complement for   *)
(* signed kinds, IEEE-754 bits for floats), so 64-bit values are exact.    *)
(*                                                                         *)
(* A "blob" -n (n > 0) inside a byte sequence stands for one long run of n *)
(* payload bytes with a fixed pattern known to the drivers; it lets a      *)
(* behaviour carry a 256 MiB payload as a single element.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT BB                       \* bits per byte

Byte   == 2^BB
GB     == BB - 1                  \* payload bits per varint byte
Cont   == 2^GB                    \* continuation flag

(* Kind tags *)
NIL == 0  SLICE == 1  MAP == 2  ANY == 3  BYTES == 4  STR == 5  ERR == 6
BOOL == 7 U8 == 8 U16 == 9 U32 == 10 U64 == 11 I32 == 12 I64 == 13
F32 == 14 F64 == 15
Kinds == 0..15

Unit    == {NIL, ANY}
Blobs   == {BYTES, STR, ERR}
Sized   == {SLICE, MAP}
UInts   == {U16, U32, U64}
SInts   == {I32, I64}
Varints == UInts \cup SInts
Floats  == {F32, F64}

(* Width in bytes of the fixed-width value behind a kind. *)
Width(k) == CASE k \in {BOOL, U8}              -> 1
              [] k = U16                       -> 2
              [] k \in {U32, I32, F32} \cup Sized -> 4
              [] k \in {U64, I64, F64}         -> 8

CeilDiv(a, b) == (a + b - 1) \div b
MaxVar(w)     == CeilDiv(w * BB, GB)         \* longest varint of w bytes

-----------------------------------------------------------------------------
(* Byte sequences with blobs *)

\* A blob of n bytes in pattern p: -n for p = 0, otherwise -((16 + p) * 2^24 + n).
\* Patterns: 0 ASCII, 1 UTF-8 of up to four bytes a character, 2 the same with a
\* byte 0xFF in the middle, 3 ASCII but for a last byte 0xC3, 4 ASCII with a NUL
\* in the middle, 5 overwritten.
BlobPat(x) == IF -x < 285212672 THEN 0 ELSE (-x) \div 16777216 - 16
BlobLen(x) == IF -x < 285212672 THEN -x ELSE (-x) % 16777216
Blob(s) == {i \in 1..Len(s) : s[i] < 0}
RECURSIVE SumAt(_, _)
SumAt(s, I) == IF I = {} THEN 0 ELSE LET i == CHOOSE j \in I : TRUE IN BlobLen(s[i]) + SumAt(s, I \ {i})
HasBlob(s) == \E i \in 1..Len(s) : s[i] < 0
ByteLen(s) == IF HasBlob(s) THEN Len(s) - Cardinality(Blob(s)) + SumAt(s, Blob(s)) ELSE Len(s)

Drop(s, n) == SubSeq(s, n + 1, Len(s))

-----------------------------------------------------------------------------
(* Fixed-width big-endian values *)

LE(v, i) == IF i < Len(v) THEN v[Len(v) - i] ELSE 0        \* i-th byte from the low end
Zero(w)  == [i \in 1..w |-> 0]
IsVal(v, w) == Len(v) = w /\ \A i \in 1..w : v[i] \in 0..Byte-1

\* A natural number below 2^30 as w bytes, and back (anything larger is Huge).
Huge == 1073741824
NatToVal(n, w) == [i \in 1..w |-> IF w - i > 3 THEN 0
                                  ELSE (n \div (Byte ^ (w - i))) % Byte]
RECURSIVE Horner(_, _)
Horner(v, n) == IF n = 0 THEN 0 ELSE Horner(v, n - 1) * Byte + v[n]
ValToNat(v) == IF BB = 8 /\ v[1] >= 64 THEN Huge ELSE Horner(v, Len(v))

-----------------------------------------------------------------------------
(* Zigzag: signed two's-complement bytes <-> unsigned bytes *)

Neg(v) == v[1] >= Cont
Zig(v) == LET w == Len(v)
              sh == [i \in 1..w |-> (v[i] * 2 + (IF i < w /\ v[i+1] >= Cont THEN 1 ELSE 0)) % Byte]
          IN IF Neg(v) THEN [i \in 1..w |-> Byte - 1 - sh[i]] ELSE sh
Zag(u) == LET w == Len(u)
              sh == [i \in 1..w |-> (u[i] \div 2) + (IF i > 1 THEN (u[i-1] % 2) * Cont ELSE 0)]
          IN IF u[w] % 2 = 1 THEN [i \in 1..w |-> Byte - 1 - sh[i]] ELSE sh

-----------------------------------------------------------------------------
(* Varints *)

\* g-th group of GB bits of v, from the low end
Group(v, g) == LET b == g * GB
                   q == b \div BB
                   r == b % BB
               IN ((LE(v, q) \div 2^r) + LE(v, q + 1) * 2^(BB - r)) % Cont
RECURSIVE Groups(_, _)            \* number of groups in the shortest encoding
Groups(v, g) == IF g = 1 \/ Group(v, g - 1) # 0 THEN g ELSE Groups(v, g - 1)

EncVar(v) == LET n == Groups(v, MaxVar(Len(v)))
             IN [i \in 1..n |-> Group(v, i - 1) + IF i < n THEN Cont ELSE 0]

\* Number of bytes of the varint that starts after position p of s, 0 if none:
\* at most MaxVar(w) bytes, the last one (only) without the continuation flag,
\* and no payload bit beyond the width.
RECURSIVE VarLen(_, _, _, _)
VarLen(s, p, w, i) ==
    IF i > MaxVar(w) \/ p + i > Len(s) THEN 0
    ELSE IF s[p + i] < 0 THEN 0
    ELSE IF s[p + i] < Cont
         THEN IF i = MaxVar(w) /\ s[p + i] >= 2^(w * BB - GB * (i - 1)) THEN 0 ELSE i
         ELSE VarLen(s, p, w, i + 1)

VarVal(s, p, w, n) ==
    LET G(g) == IF g < n THEN s[p + g + 1] % Cont ELSE 0
        B(m) == LET b == m * BB
                    q == b \div GB
                    r == b % GB
                IN ((G(q) \div 2^r) + G(q + 1) * 2^(GB - r)) % Byte
    IN [i \in 1..w |-> B(w - i)]

-----------------------------------------------------------------------------
(* UTF-8 validity (real format only) *)

LeadLen(b) == IF b < 128 THEN 1
              ELSE IF b >= 194 /\ b <= 223 THEN 2
              ELSE IF b >= 224 /\ b <= 239 THEN 3
              ELSE IF b >= 240 /\ b <= 244 THEN 4 ELSE 0
IsCont(b)  == b >= 128 /\ b <= 191
\* the character that starts at i is complete, not overlong, not a surrogate, in range
CharAt(s, i) ==
    LET n == LeadLen(s[i]) IN
    /\ n > 0 /\ i + n - 1 <= Len(s)
    /\ \A j \in 1..n - 1 : IsCont(s[i + j])
    /\ s[i] = 224 => s[i + 1] >= 160
    /\ s[i] = 237 => s[i + 1] <= 159
    /\ s[i] = 240 => s[i + 1] >= 144
    /\ s[i] = 244 => s[i + 1] <= 143
Utf8Chars(s) == \A i \in 1..Len(s) :
    IF IsCont(s[i]) THEN \E j \in 1..3 : i - j >= 1 /\ LeadLen(s[i - j]) > j
    ELSE CharAt(s, i)
Utf8(s) == BB # 8 \/ (\A i \in 1..Len(s) : s[i] < 128) \/ Utf8Chars(s)

-----------------------------------------------------------------------------
(* Encoding.  a, b: element kinds (SLICE uses a; MAP uses a, b). *)

EncLen(v) == <<U32>> \o EncVar(NatToVal(ByteLen(v), 4))

Enc(k, a, b, v) ==
    CASE k \in Unit   -> <<k>>
      [] k = SLICE    -> <<SLICE, a, U32>> \o EncVar(v)
      [] k = MAP      -> <<MAP, a, b, U32>> \o EncVar(v)
      [] k = BYTES    -> <<BYTES>> \o EncLen(v) \o v
      [] k = STR      -> <<STR>> \o EncLen(v) \o v
      [] k = ERR      -> <<ERR, STR>> \o EncLen(v) \o v
      [] k \in {BOOL, U8} -> <<k>> \o v
      [] k \in UInts  -> <<k>> \o EncVar(v)
      [] k \in SInts  -> <<k>> \o EncVar(Zig(v))
      [] k \in Floats -> <<k>> \o v

-----------------------------------------------------------------------------
(* Decoding: what an attempt to read a k at position p of s must yield.    *)
(* d is the dialect of the implementation (see below).                     *)

Fail(p)      == [ok |-> FALSE, v |-> <<>>, p |-> p]
Ok(v, p)     == [ok |-> TRUE,  v |-> v,    p |-> p]

HasTags(s, p, t) == p + Len(t) <= Len(s) /\ \A i \in 1..Len(t) : s[p + i] = t[i]

DecVar(s, p, p0, w) == LET n == VarLen(s, p, w, 1)
                       IN IF n = 0 THEN Fail(p0) ELSE Ok(VarVal(s, p, w, n), p + n)

\* n payload bytes after position q
Payload(s, q, n, p0) ==
    IF n = 0 THEN Ok(<<>>, q)
    ELSE IF q >= Len(s) THEN Fail(p0)
    ELSE IF s[q + 1] < 0
         THEN IF BlobLen(s[q + 1]) = n THEN Ok(<<s[q + 1]>>, q + 1) ELSE Fail(p0)
    ELSE IF n > Len(s) - q THEN Fail(p0)
    ELSE IF \E i \in 1..n : s[q + i] < 0 THEN Fail(p0)
    ELSE Ok(SubSeq(s, q + 1, q + n), q + n)

\* the Width(k) bytes after the tag k
FixedAt(s, p0, k) == IF HasTags(s, p0, <<k>>) THEN Payload(s, p0 + 1, Width(k), p0) ELSE Fail(p0)

DecPayload(s, p0, tags) ==
    IF ~HasTags(s, p0, tags \o <<U32>>) THEN Fail(p0)
    ELSE LET z == DecVar(s, p0 + Len(tags) + 1, p0, 4)
         IN IF ~z.ok THEN Fail(p0) ELSE Payload(s, z.p, ValToNat(z.v), p0)

(* Dialect: the two points on which the implementations are allowed to     *)
(* differ.  utf8 = "strict": a string or error that is not UTF-8 is        *)
(* rejected (Rust, C, TypeScript); "raw": any bytes are a string (Go).     *)
(* nul = "reject": a string with an interior NUL byte cannot be returned   *)
(* (C).  bool = "strict": a payload other than 0 and 1 is rejected (Go v2) *)
(* and "lenient": it reads as false.                                       *)
StrOK(v, d) == /\ d.utf8 = "strict" => IF HasBlob(v) THEN BlobPat(v[1]) \in {0, 1, 4} ELSE Utf8(v)
               /\ d.nul = "reject" => \A i \in 1..Len(v) : v[i] # 0 /\ (v[i] < 0 => BlobPat(v[i]) # 4)

Dec(k, a, b, s, p, d) ==
    CASE k \in Unit -> IF HasTags(s, p, <<k>>) THEN Ok(<<>>, p + 1) ELSE Fail(p)
      [] k = SLICE  -> IF HasTags(s, p, <<SLICE, a, U32>>) THEN DecVar(s, p + 3, p, 4) ELSE Fail(p)
      [] k = MAP    -> IF HasTags(s, p, <<MAP, a, b, U32>>) THEN DecVar(s, p + 4, p, 4) ELSE Fail(p)
      [] k = BYTES  -> DecPayload(s, p, <<BYTES>>)
      [] k = STR    -> LET r == DecPayload(s, p, <<STR>>)
                       IN IF r.ok /\ StrOK(r.v, d) THEN r ELSE Fail(p)
      [] k = ERR    -> LET r == DecPayload(s, p, <<ERR, STR>>)
                       IN IF r.ok /\ StrOK(r.v, d) THEN r ELSE Fail(p)
      [] k = BOOL   -> IF ~HasTags(s, p, <<BOOL>>) \/ p + 2 > Len(s) THEN Fail(p)
                       ELSE IF s[p + 2] < 0 THEN Fail(p)
                       ELSE IF s[p + 2] = 1 THEN Ok(<<1>>, p + 2)
                       ELSE IF s[p + 2] = 0 \/ d.bool = "lenient" THEN Ok(<<0>>, p + 2)
                       ELSE Fail(p)
      [] k = U8     -> FixedAt(s, p, k)
      [] k \in UInts -> IF HasTags(s, p, <<k>>) THEN DecVar(s, p + 1, p, Width(k)) ELSE Fail(p)
      [] k \in SInts -> IF ~HasTags(s, p, <<k>>) THEN Fail(p)
                        ELSE LET r == DecVar(s, p + 1, p, Width(k))
                             IN IF r.ok THEN Ok(Zag(r.v), r.p) ELSE r
      [] k \in Floats -> FixedAt(s, p, k)
=============================================================================
