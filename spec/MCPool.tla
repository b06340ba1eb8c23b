------------------------------- MODULE MCPool --------------------------------
(***************************************************************************)
(* How the pools are built: takers that run concurrently, a shared free    *)
(* list that hands an object to one taker, objects whose storage survives  *)
(* in the pool, and a return that empties the object and then gives it     *)
(* back, in separate steps.  Checked to refine Pool, every interleaving.   *)
(* Order selects the order of the two steps of a return; only "clear       *)
(* first" refines Pool (MCPoolPush.cfg and MCPoolNoClear.cfg must fail).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Takers, Objects, MaxLen, Order

VARIABLES free,     \* objects in the pool
          used,     \* objects created so far
          data,     \* content of each object
          pc, cur   \* per taker
vars == <<free, used, data, pc, cur>>

Init == /\ free = {} /\ used = {} /\ data = [o \in Objects |-> <<>>]
        /\ pc = [g \in Takers |-> "idle"] /\ cur = [g \in Takers |-> 0]

Goto(g, l) == pc' = [pc EXCEPT ![g] = l]

TakeFree(g) == /\ pc[g] = "idle"
               /\ \E o \in free : /\ free' = free \ {o} /\ cur' = [cur EXCEPT ![g] = o]
               /\ Goto(g, "using") /\ UNCHANGED <<data, used>>
TakeNew(g) == /\ pc[g] = "idle"
              /\ \E o \in Objects \ used : /\ used' = used \cup {o} /\ cur' = [cur EXCEPT ![g] = o]
              /\ Goto(g, "using") /\ UNCHANGED <<data, free>>
Write(g) == /\ pc[g] = "using" /\ Len(data[cur[g]]) < MaxLen
            /\ data' = [data EXCEPT ![cur[g]] = Append(@, g)]
            /\ UNCHANGED <<free, used, pc, cur>>
Begin(g) == /\ pc[g] = "using"
            /\ Goto(g, IF Order = "push-clear" THEN "push" ELSE IF Order = "no-clear" THEN "last" ELSE "clear")
            /\ UNCHANGED <<free, used, data, cur>>
Clear(g) == /\ pc[g] = "clear" /\ data' = [data EXCEPT ![cur[g]] = <<>>]
            /\ Goto(g, IF Order = "push-clear" THEN "done" ELSE "last")
            /\ UNCHANGED <<free, used, cur>>
Push(g) == /\ pc[g] \in {"push", "last"} /\ free' = free \cup {cur[g]}
           /\ Goto(g, IF pc[g] = "push" THEN "clear" ELSE "done")
           /\ UNCHANGED <<used, data, cur>>
Done(g) == /\ pc[g] = "done" /\ Goto(g, "idle") /\ cur' = [cur EXCEPT ![g] = 0]
           /\ UNCHANGED <<free, used, data>>
\* the pool may forget an object (garbage collection)
Forget == \E o \in free : free' = free \ {o} /\ UNCHANGED <<used, data, pc, cur>>

Next == Forget \/ \E g \in Takers : TakeFree(g) \/ TakeNew(g) \/ Write(g) \/ Begin(g) \/ Clear(g) \/ Push(g) \/ Done(g)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Holding(g, o) == cur[g] = o /\ (pc[g] \in {"using", "clear", "last"} \/ (Order = "push-clear" /\ pc[g] = "push"))
              /\ ~(Order = "push-clear" /\ pc[g] \in {"clear", "done"})

Exclusive == \A o \in Objects : Cardinality({g \in Takers : Holding(g, o)}) <= 1
FreeUnheld == \A o \in free : ~ \E g \in Takers : Holding(g, o)
\* only the holder changes an object, and a fresh holder starts from nothing
OnlyHolder == [][\A o \in Objects : data'[o] # data[o] => \E g \in Takers : Holding(g, o)]_vars

H == [o \in used |-> IF \E g \in Takers : Holding(g, o) THEN CHOOSE g \in Takers : Holding(g, o) ELSE 0]
P == INSTANCE Pool WITH holder <- H, content <- [o \in used |-> data[o]]
PNext == \E o \in Objects : \E g \in Takers :
            P!Take(g, o, <<>>) \/ P!Return(g, o) \/ P!Use(g, o, IF o \in used THEN data'[o] ELSE <<>>)
Refines == P!PInit /\ [][PNext]_<<H, [o \in used |-> data[o]]>>
=============================================================================
