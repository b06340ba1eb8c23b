------------------------------ MODULE CApiTrace ------------------------------
(***************************************************************************)
(* Recorded uses of the C library against CApi.  Every call was made with  *)
(* a status variable that held another value before.  e.st: status after   *)
(* the call; e.null: a null pointer was returned; e.nul: a null pointer    *)
(* was passed for the data.                                                *)
(***************************************************************************)
EXTENDS CApi, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
tvars == <<enc, dec, val, t, l>>
Tr == Traces[t].ev
e  == Tr[l]

TInit == AInit /\ t \in 1..Len(Traces) /\ l = 1

TNewEncoder  == e.o = "ne" /\ e.st = PASS /\ ~e.null /\ NewEncoder(e.h)
TFreeEncoder == e.o = "fe" /\ FreeEncoder(e.h)
TEncode == /\ e.o = "en" /\ e.ok
           /\ e.st = EncodeStatus(e.h, e.k, e.v, e.nul)
           /\ Encode(e.h, e.k, e.a, e.b, e.v, e.nul)
TSize   == /\ e.o = "sz"
           /\ IF e.h = NULL THEN e.st = NULLPTR /\ e.n = 0
              ELSE e.st = PASS /\ e.n = Len(enc[e.h])
           /\ Same
TCopy   == /\ e.o = "eb" /\ e.st = CopyStatus(e.h, e.nul, e.n)
           /\ e.v = CopyResult(e.h, e.nul, e.n, 238)
           /\ Same
TNewDecoder == /\ e.o = "nd"
               /\ IF e.nul THEN e.st = NULLPTR /\ e.null /\ Same
                  ELSE e.st = PASS /\ ~e.null /\ NewDecoder(e.h, e.v)
TNewDecoderOut == e.o = "no" /\ e.st = PASS /\ ~e.null /\ e.n = Len(enc[e.a]) /\ NewDecoder(e.h, enc[e.a])
TFreeDecoder == e.o = "fd" /\ FreeDecoder(e.h)
TDecode == /\ e.o = "de" /\ (e.h # NULL => e.h \in DOMAIN dec)
           /\ e.st = DecodeStatus(e.h, e.k, e.a, e.b)
           /\ e.v = DecodeResult(e.h, e.k, e.a, e.b)
           /\ e.null = DecodeIsNull(e.h, e.k, e.a, e.b)
           /\ Decode(e.h, e.k, e.a, e.b, e.s)
\* the caller overwrites or frees the input it handed over
TInputGone == e.o \in {"cl", "fi"} /\ Same
TCheck  == e.o = "ck" /\ e.v = Content(e.s) /\ Same
TWrite  == e.o = "wr" /\ WriteValue(e.s, e.n)
TFree   == e.o = "fr" /\ FreeValue(e.s)
\* The memory checker's account: no error so far; nothing that nobody points to;
\* nothing left once the caller has given back everything.
TMem    == e.o = "mem" /\ e.n = 0 /\ e.b = 0 /\ (Nobody => e.a = 0) /\ Same

TNext == /\ l <= Len(Tr) /\ l' = l + 1 /\ t' = t
         /\ \/ TNewEncoder \/ TFreeEncoder \/ TEncode \/ TSize \/ TCopy \/ TNewDecoder \/ TNewDecoderOut
            \/ TFreeDecoder \/ TDecode \/ TInputGone \/ TCheck \/ TWrite \/ TFree \/ TMem
TSpec == TInit /\ [][TNext]_tvars
Report == l > Len(Tr) => PrintT(<<"ACCEPT", t>>)
Where  == PrintT(<<"AT", t, l>>)
=============================================================================
