------------------------------ MODULE RefCount -------------------------------
(* Shared ownership of fields and the cache of fields that were read, at the level of the atomic steps of
   RefBase / intrusive_ptr_release / FieldCache: threads copy, pass on and drop references, look up and store fields.
   SplitRelease: the count is decremented and tested in two steps. LateExpire: weak pointers expire only when the
   object is deleted, and a cache hit adds its reference without testing the count. Both FALSE is the intended system. *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Threads, Objects, MaxRefs, SplitRelease, LateExpire, WithCache
VARIABLES count,      \* object -> reference count in the object
          held,       \* thread -> object -> references the thread's pointers own
          life,       \* object -> "unborn" | "alive" | "dying" | "dead"
          expired,    \* object -> weak pointers report it gone
          deletions,  \* object -> times deleted
          entry,      \* object the cache has for the layer, or 0
          acc, exm,   \* owners of the cache's mutex and of the expiry mutex (0 = free)
          pc          \* thread -> <<where, object>>
vars == <<count, held, life, expired, deletions, entry, acc, exm, pc>>
Born == {o \in Objects : life[o] # "unborn"}
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
Owners(o) == Sum([t \in Threads |-> held[t][o]], Threads)
At(t, w) == pc[t][1] = w
Ob(t) == pc[t][2]
Goto(t, w, o) == pc' = [pc EXCEPT ![t] = <<w, o>>]
Init == /\ count = [o \in Objects |-> 0] /\ held = [t \in Threads |-> [o \in Objects |-> 0]] /\ life = [o \in Objects |-> "unborn"]
        /\ expired = [o \in Objects |-> FALSE] /\ deletions = [o \in Objects |-> 0] /\ entry = 0 /\ acc = 0 /\ exm = 0
        /\ pc = [t \in Threads |-> <<"idle", 0>>]
\* ---- references
Next1 == CHOOSE o \in Objects \ Born : \A p \in Objects \ Born : o <= p
Make(t) == /\ Objects \ Born # {} /\ LET o == Next1 IN
              count' = [count EXCEPT ![o] = 1] /\ held' = [held EXCEPT ![t][o] = 1] /\ life' = [life EXCEPT ![o] = "alive"]
New(t) == At(t, "idle") /\ ~WithCache /\ Make(t) /\ UNCHANGED <<expired, deletions, entry, acc, exm, pc>>
Copy(t, o) == /\ At(t, "idle") /\ held[t][o] > 0 /\ Owners(o) < MaxRefs
              /\ count' = [count EXCEPT ![o] = @ + 1] /\ held' = [held EXCEPT ![t][o] = @ + 1]
              /\ UNCHANGED <<life, expired, deletions, entry, acc, exm, pc>>
Pass(t, u, o) == /\ t # u /\ At(t, "idle") /\ held[t][o] > 0
                 /\ held' = [held EXCEPT ![t][o] = @ - 1, ![u][o] = @ + 1]
                 /\ UNCHANGED <<count, life, expired, deletions, entry, acc, exm, pc>>
Drop(t, o) == /\ At(t, "idle") /\ held[t][o] > 0
              /\ held' = [held EXCEPT ![t][o] = @ - 1] /\ count' = [count EXCEPT ![o] = @ - 1]
              /\ IF SplitRelease THEN Goto(t, "test", o) ELSE IF count[o] = 1 THEN Goto(t, "last", o) ELSE UNCHANGED pc
              /\ UNCHANGED <<life, expired, deletions, entry, acc, exm>>
Test(t) == /\ At(t, "test") /\ (IF count[Ob(t)] = 0 THEN Goto(t, "last", Ob(t)) ELSE Goto(t, "idle", 0))
           /\ UNCHANGED <<count, held, life, expired, deletions, entry, acc, exm>>
Expire(t) == /\ At(t, "last") /\ Goto(t, "delete", Ob(t))
             /\ (IF LateExpire THEN UNCHANGED expired ELSE exm = 0 /\ expired' = [expired EXCEPT ![Ob(t)] = TRUE])
             /\ life' = [life EXCEPT ![Ob(t)] = IF @ = "dead" THEN "dead" ELSE "dying"]
             /\ UNCHANGED <<count, held, deletions, entry, acc, exm>>
Delete(t) == /\ At(t, "delete") /\ Goto(t, "idle", 0) /\ expired' = [expired EXCEPT ![Ob(t)] = TRUE]
             /\ life' = [life EXCEPT ![Ob(t)] = "dead"] /\ deletions' = [deletions EXCEPT ![Ob(t)] = @ + 1]
             /\ UNCHANGED <<count, held, entry, acc, exm>>
\* ---- the cache of fields
Get(t) == /\ WithCache /\ At(t, "idle") /\ acc = 0 /\ (IF entry = 0 THEN TRUE ELSE Owners(entry) < MaxRefs) /\ acc' = t /\ Goto(t, "look", entry)
          /\ UNCHANGED <<count, held, life, expired, deletions, entry, exm>>
Miss(t) == acc' = 0 /\ Goto(t, "load", 0)
Look(t) == /\ At(t, "look") /\ UNCHANGED <<count, held, life, expired, deletions, entry>>
           /\ IF Ob(t) = 0 THEN Miss(t) /\ UNCHANGED exm
              ELSE /\ exm = 0
                   /\ IF expired[Ob(t)] THEN Miss(t) /\ UNCHANGED exm
                      ELSE exm' = (IF LateExpire THEN 0 ELSE t) /\ Goto(t, "take", Ob(t)) /\ UNCHANGED acc
Take(t) == /\ At(t, "take") /\ count' = [count EXCEPT ![Ob(t)] = @ + 1] /\ UNCHANGED <<life, expired, deletions, entry>>
           /\ IF LateExpire \/ count[Ob(t)] > 0
              THEN held' = [held EXCEPT ![t][Ob(t)] = @ + 1] /\ acc' = 0 /\ exm' = 0 /\ Goto(t, "idle", 0)
              ELSE Goto(t, "undo", Ob(t)) /\ UNCHANGED <<held, acc, exm>>
Undo(t) == /\ At(t, "undo") /\ count' = [count EXCEPT ![Ob(t)] = @ - 1] /\ exm' = 0 /\ Miss(t)
           /\ UNCHANGED <<held, life, expired, deletions, entry>>
Load(t) == At(t, "load") /\ Make(t) /\ Goto(t, "store", Next1) /\ UNCHANGED <<expired, deletions, entry, acc, exm>>
Store(t) == At(t, "store") /\ acc = 0 /\ entry' = Ob(t) /\ Goto(t, "idle", 0) /\ UNCHANGED <<count, held, life, expired, deletions, acc, exm>>
Step(t) == Test(t) \/ Expire(t) \/ Delete(t) \/ Look(t) \/ Take(t) \/ Undo(t) \/ Load(t) \/ Store(t)
Next == \E t \in Threads : New(t) \/ Get(t) \/ Step(t) \/ \E o \in Objects : Copy(t, o) \/ Drop(t, o) \/ \E u \in Threads : Pass(t, u, o)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t)) /\ \A o \in Objects : WF_vars(Drop(t, o))
\* ---- what has to hold
Once == \A o \in Objects : deletions[o] <= 1
HeldIsAlive == \A t \in Threads, o \in Objects : held[t][o] > 0 => life[o] = "alive"
Touch(t) == IF pc[t][1] \in {"test", "take", "undo"} THEN {Ob(t)} ELSE {}
NoUseAfterDelete == \A t \in Threads : \A o \in Touch(t) : life[o] # "dead"
Quiet == \A t \in Threads : At(t, "idle") \/ At(t, "load")
NoLeak == Quiet => \A o \in Born : Owners(o) = 0 => life[o] = "dead"
CountIsOwners == Quiet => \A o \in Born : life[o] = "alive" => count[o] = Owners(o)
WeakTells == \A o \in Objects : life[o] = "dead" => expired[o]
WeakKeeps == \A o \in Objects : expired[o] => Owners(o) = 0
\* a look-up fails only if nobody owns the field in the cache at that moment
HitsLive == [][\A t \in Threads : (pc[t][1] \in {"look", "undo"} /\ pc'[t][1] = "load" /\ pc[t][2] # 0) => Owners(pc[t][2]) = 0]_vars
AllGone == []((\A t \in Threads, o \in Objects : held[t][o] = 0) => <>(\E t \in Threads, o \in Objects : held[t][o] > 0) \/ <>(\A o \in Born : life[o] = "dead"))
=============================================================================
