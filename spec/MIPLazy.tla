------------------------------- MODULE MIPLazy -------------------------------
(* A multi-resolution field whose levels are read on demand, at the level of the steps of MIPField::loadLevelFromDisk
   (double-checked locking on the raw level pointer) and MIPField::init (copy and assignment while other threads load).
   Object 0 is shared by all threads; thread t owns object t and may assign the shared one over it.
   Teeth (all FALSE in the intended system): PublishEarly, the raw pointers are set before the level has its name,
   metadata and mapping; CopyUnlocked, a copy reads the source without its lock; KeepStale, a copy keeps its own level
   where the source has not loaded one; NoRecheck, the second test under the lock is missing. *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Threads, Levels, PublishEarly, CopyUnlocked, KeepStale, NoRecheck
VARIABLES field,    \* object -> level -> [src, done]; src 0 = not loaded
          raw,      \* object -> level -> published?
          act,      \* object -> level -> load action present
          origin,   \* object -> the file it comes from
          lock,     \* object -> owner of its mutex (0 = free)
          loads,    \* object -> level -> loads since it got its contents
          busy,     \* object -> is being assigned
          pc,       \* thread -> [at, o, l]
          bad       \* what went wrong
vars == <<field, raw, act, origin, lock, loads, busy, pc, bad>>
Objects == Threads \cup {0}
None == [src |-> 0, done |-> FALSE]
Goto(t, a, o, l) == pc' = [pc EXCEPT ![t] = [at |-> a, o |-> o, l |-> l]]
At(t, a) == pc[t].at = a
O(t) == pc[t].o
L(t) == pc[t].l
Idle(t) == Goto(t, "idle", 0, 0)
Init == /\ origin = [o \in Objects |-> IF o = 0 THEN 1 ELSE 2]
        /\ \E f \in [Threads -> [Levels -> BOOLEAN]] :
             /\ field = [o \in Objects |-> [l \in Levels |-> IF o = 0 THEN None ELSE IF f[o][l] THEN [src |-> 2, done |-> TRUE] ELSE None]]
             /\ raw = [o \in Objects |-> [l \in Levels |-> IF o = 0 THEN FALSE ELSE f[o][l]]]
             /\ act = [o \in Objects |-> [l \in Levels |-> IF o = 0 THEN TRUE ELSE ~f[o][l]]]
        /\ lock = [o \in Objects |-> 0] /\ loads = [o \in Objects |-> [l \in Levels |-> 0]] /\ busy = [o \in Objects |-> FALSE]
        /\ pc = [t \in Threads |-> [at |-> "idle", o |-> 0, l |-> 0]] /\ bad = "no"
\* ---- access
Begin(t, o, l) == /\ At(t, "idle") /\ o \in {0, t} /\ Goto(t, IF raw[o][l] THEN "use" ELSE "want", o, l)
                  /\ UNCHANGED <<field, raw, act, origin, lock, loads, busy, bad>>
Lock(t) == /\ At(t, "want") /\ lock[O(t)] = 0 /\ lock' = [lock EXCEPT ![O(t)] = t] /\ Goto(t, "check", O(t), L(t))
           /\ UNCHANGED <<field, raw, act, origin, loads, busy, bad>>
Check(t) == /\ At(t, "check") /\ (IF raw[O(t)][L(t)] /\ ~NoRecheck THEN Goto(t, "unlock", O(t), L(t)) ELSE Goto(t, "load", O(t), L(t)))
            /\ UNCHANGED <<field, raw, act, origin, lock, loads, busy, bad>>
Load(t) == /\ At(t, "load") /\ UNCHANGED <<raw, act, origin, busy, lock>>
           /\ IF act[O(t)][L(t)] THEN /\ field' = [field EXCEPT ![O(t)][L(t)] = [src |-> origin[O(t)], done |-> FALSE]] /\ loads' = [loads EXCEPT ![O(t)][L(t)] = @ + 1]
                                      /\ Goto(t, "reset", O(t), L(t)) /\ UNCHANGED bad
              ELSE bad' = "no load action" /\ UNCHANGED <<field, loads, pc>>
\* reading fails: nothing has changed and the access reports it
Fail(t) == /\ At(t, "load") /\ act[O(t)][L(t)] /\ lock' = [lock EXCEPT ![O(t)] = 0] /\ Idle(t) /\ UNCHANGED <<field, raw, act, origin, loads, busy, bad>>
Publish(o) == [raw EXCEPT ![o] = [l \in Levels |-> field[o][l].src # 0]]
Reset(t) == /\ At(t, "reset") /\ act' = [act EXCEPT ![O(t)][L(t)] = FALSE] /\ raw' = (IF PublishEarly THEN Publish(O(t)) ELSE raw)
            /\ Goto(t, "sync", O(t), L(t)) /\ UNCHANGED <<field, origin, lock, loads, busy, bad>>
Sync(t) == /\ At(t, "sync") /\ field' = [field EXCEPT ![O(t)][L(t)].done = TRUE] /\ Goto(t, "publish", O(t), L(t))
           /\ UNCHANGED <<raw, act, origin, lock, loads, busy, bad>>
Pub(t) == /\ At(t, "publish") /\ raw' = Publish(O(t)) /\ Goto(t, "unlock", O(t), L(t))
          /\ UNCHANGED <<field, act, origin, lock, loads, busy, bad>>
Unlock(t) == /\ At(t, "unlock") /\ lock' = [lock EXCEPT ![O(t)] = 0] /\ Goto(t, "use", O(t), L(t))
             /\ UNCHANGED <<field, raw, act, origin, loads, busy, bad>>
Use(t) == /\ At(t, "use") /\ UNCHANGED <<field, raw, act, origin, lock, loads, busy>>
          /\ LET f == field[O(t)][L(t)] IN
             IF raw[O(t)][L(t)] /\ f.src = origin[O(t)] /\ f.done THEN Idle(t) /\ UNCHANGED bad
             ELSE UNCHANGED pc /\ bad' = (IF f.src = 0 \/ ~raw[O(t)][L(t)] THEN "level missing" ELSE IF ~f.done THEN "level incomplete" ELSE "another object's level")
\* ---- assign the shared object over one's own
Assign(t) == /\ At(t, "idle") /\ origin[t] # origin[0] /\ busy' = [busy EXCEPT ![t] = TRUE]
             /\ (IF CopyUnlocked THEN UNCHANGED lock ELSE lock[0] = 0 /\ lock' = [lock EXCEPT ![0] = t])
             /\ Goto(t, "actions", t, 0) /\ UNCHANGED <<field, raw, act, origin, loads, bad>>
Actions(t) == /\ At(t, "actions") /\ act' = [act EXCEPT ![t] = act[0]] /\ origin' = [origin EXCEPT ![t] = origin[0]]
              /\ loads' = [loads EXCEPT ![t] = [l \in Levels |-> 0]] /\ Goto(t, "level", t, 1) /\ UNCHANGED <<field, raw, lock, busy, bad>>
Level(t) == /\ At(t, "level") /\ LET l == L(t) IN
               /\ field' = [field EXCEPT ![t][l] = IF field[0][l].src # 0 THEN field[0][l] ELSE IF KeepStale THEN @ ELSE None]
               /\ raw' = [raw EXCEPT ![t][l] = field'[t][l].src # 0]
               /\ Goto(t, IF l + 1 \in Levels THEN "level" ELSE "copied", t, l + 1)
            /\ UNCHANGED <<act, origin, lock, loads, busy, bad>>
Copied(t) == /\ At(t, "copied") /\ busy' = [busy EXCEPT ![t] = FALSE] /\ lock' = (IF CopyUnlocked THEN lock ELSE [lock EXCEPT ![0] = 0]) /\ Idle(t)
             /\ UNCHANGED <<field, raw, act, origin, loads, bad>>
Next == \/ \E t \in Threads : Lock(t) \/ Check(t) \/ Load(t) \/ Fail(t) \/ Reset(t) \/ Sync(t) \/ Pub(t) \/ Unlock(t) \/ Use(t) \/ Assign(t) \/ Actions(t) \/ Level(t) \/ Copied(t)
        \/ \E t \in Threads, o \in Objects, l \in Levels : Begin(t, o, l)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ \A t \in Threads : WF_vars(Lock(t)) /\ SF_vars(Load(t)) /\ WF_vars(Check(t) \/ Reset(t) \/ Sync(t) \/ Pub(t) \/ Unlock(t) \/ Use(t) \/ Actions(t) \/ Level(t) \/ Copied(t)) /\ SF_vars(Lock(t))
NothingBad == bad = "no"
Once == \A o \in Objects, l \in Levels : loads[o][l] <= 1
\* whoever sees a published level sees all of it, and it is this object's
Whole == \A o \in Objects, l \in Levels : raw[o][l] /\ ~busy[o] => field[o][l].done /\ field[o][l].src = origin[o]
\* a level that is not there can be loaded
Reachable == \A o \in Objects, l \in Levels : ~busy[o] /\ lock[o] = 0 => raw[o][l] \/ act[o][l]
Done == \A t \in Threads : pc[t].at # "idle" ~> pc[t].at = "idle"
=============================================================================
