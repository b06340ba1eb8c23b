-------------------------------- MODULE Pool ---------------------------------
(***************************************************************************)
(* A pool of reusable objects (buffers or decoders) as its users see it.   *)
(*   holder   who holds each object that has ever been handed out (0: the  *)
(*            pool may hand it out again)                                   *)
(*   content  what each object contains                                    *)
(* Taking yields an object that nobody holds, in the initial state that    *)
(* was asked for; only its holder changes it.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES holder, content
pvars == <<holder, content>>

NoOne == 0
PInit == holder = <<>> /\ content = <<>>

Holds(g, i) == i \in DOMAIN holder /\ holder[i] = g
Free(i) == IF i \in DOMAIN holder THEN holder[i] = NoOne ELSE TRUE

Take(g, i, init) == /\ Free(i)
                    /\ holder' = (i :> g) @@ holder
                    /\ content' = (i :> init) @@ content
\* an object that did not come from the pool; it may be returned all the same
Bring(g, i, init) == /\ i \notin DOMAIN holder
                     /\ holder' = (i :> g) @@ holder
                     /\ content' = (i :> init) @@ content
Use(g, i, c)     == Holds(g, i) /\ content' = [content EXCEPT ![i] = c] /\ UNCHANGED holder
Return(g, i)     == Holds(g, i) /\ holder' = [holder EXCEPT ![i] = NoOne] /\ UNCHANGED content
ReturnNothing    == UNCHANGED pvars
=============================================================================
