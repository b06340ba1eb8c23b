------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* A polyglot encoder and decoder as one state machine.                    *)
(*   out   what the encoder has produced since it was created or reset     *)
(*   inp   what the current decoder was given                              *)
(*   pos   how many elements of inp the decoder has consumed               *)
(* One action per public call.  The decoder's input is anything at all:    *)
(* the output of an encoder, a damaged copy of it, or arbitrary bytes.     *)
(***************************************************************************)
EXTENDS Wire

VARIABLES out, inp, pos
cvars == <<out, inp, pos>>

CInit == out = <<>> /\ inp = <<>> /\ pos = 0

\* Encoding appends, and leaves everything already there alone.
Write(k, a, b, v) == out' = out \o Enc(k, a, b, v) /\ UNCHANGED <<inp, pos>>

ResetOut == out' = <<>> /\ UNCHANGED <<inp, pos>>

\* A new decoder over s.
Open(s) == inp' = s /\ pos' = 0 /\ UNCHANGED out

\* An attempt to decode a k (with element kinds a, b) in dialect d.
ReadOk(k, a, b, d, v) ==
    LET r == Dec(k, a, b, inp, pos, d)
    IN r.ok /\ v = r.v /\ pos' = r.p /\ UNCHANGED <<out, inp>>

\* A value that was returned is the caller's: what it does with it changes nothing.
Scribble == UNCHANGED cvars

\* A decoding error consumes nothing ("durable errors").
ReadFail(k, a, b, d) ==
    /\ ~Dec(k, a, b, inp, pos, d).ok
    /\ UNCHANGED cvars
=============================================================================
