---------------------------- MODULE BlockCacheGen ---------------------------
(* Client programs of the block cache: threads read shared demand-loaded fields and own private ones, which they
   open, close, copy, overwrite, clear, resize and reorder at any point. One behaviour = one set of programs. *)
EXTENDS CacheContent, Json
CONSTANTS NT, NShared, NPriv, NFiles, Len0, Flavor
VARIABLES sc, prog, own, slot, pins, n
vars == <<sc, prog, own, slot, pins, n>>
R(S) == {RandomElement(S)}
Pick(S) == RandomElement(S)
\* private fields of thread t are named t*10+1 .. t*10+NPriv; shared 1..NShared.
\* own[f]: [st |-> "none"|"dyn"|"mem"];  slot[t][s]: field an iterator stands on, 0 if none;  pins[t]: fields pinned
Privs(t) == {t * 10 + i : i \in 1..NPriv}
Shared == 1..NShared
GInit == /\ n = 0 /\ prog = [t \in 1..NT |-> <<>>]
         /\ own = [f \in UNION {Privs(t) : t \in 1..NT} |-> "none"]
         /\ slot = [t \in 1..NT |-> <<0, 0, 0>>] /\ pins = [t \in 1..NT |-> <<>>]
         /\ sc = [res |-> <<1, 1, 1>>]
\* the files and limits are drawn in the first step (an initial state would be drawn once for all behaviours)
Setup == /\ n = 0 /\ n' = 1 /\ UNCHANGED <<prog, own, slot, pins>>
         /\ \E r1 \in R(2..5), r2 \in R(1..4), r3 \in R(1..4), m1 \in R(-3..3), m2 \in R(-3..3), m3 \in R(-3..3),
               q \in R(IF Flavor = "tiny" THEN {0, 0, 8, 32, 64} ELSE {0, 32, 64, 96, 128, 160, 256, 512, 1024, 4096}) :
            sc' = [min |-> <<m1, m2, m3>>, res |-> <<r1, r2, r3>>, budget |-> q,
                  files |-> TLCEval([i \in 1..NFiles |-> [fmt |-> Pick(0..3), order |-> Pick({0, 1, 1, 1, 2}), ty |-> Pick(0..5)]]),
                  shared |-> TLCEval([i \in 1..NShared |-> Pick(1..NFiles)])]
NVox == Prod(sc.res)
Busy(t, f) == (\E s \in 1..3 : slot[t][s] = f) \/ (\E i \in DOMAIN pins[t] : pins[t][i] = f)
Readable(t) == Shared \cup {f \in Privs(t) : own[f] # "none"}
Free(t) == {f \in Privs(t) : ~Busy(t, f)}
Put(t, o) == prog' = [prog EXCEPT ![t] = Append(@, o)]
Noop(t) == Put(t, <<"rd", 1, Pick(1..NVox), 0>>) /\ UNCHANGED <<own, slot, pins>>
Kinds == IF Flavor = "life"
  THEN <<"rd", "rd", "walk", "lin", "hold", "touch", "drop", "cpy", "pin", "unpin", "open", "open", "open", "close", "close", "clone", "clone", "clone", "assign", "assign", "assign",
         "clear", "resize", "order", "write", "copyfrom", "setmax", "stats", "stats", "flush", "reset">>
  ELSE <<"rd", "rd", "rd", "rd", "rd", "walk", "lin", "hold", "hold", "touch", "touch", "drop", "cpy", "asg", "step", "pin", "unpin", "open", "close", "clone", "setmax">>
Act(t) ==
  \E kd \in R(DOMAIN Kinds) : LET kind == Kinds[kd] IN
  \E f \in R(Readable(t)), g \in R(Readable(t)), v \in R(1..NVox), v2 \in R(1..NVox), s \in R(1..3), s2 \in R(1..3), k \in R(0..2), fi \in R(1..NFiles), x \in R(1..5) :
  CASE kind = "rd" -> Put(t, <<kind, f, v, k>>) /\ UNCHANGED <<own, slot, pins>>
    [] kind = "lin" -> Put(t, <<kind, f, v>>) /\ UNCHANGED <<own, slot, pins>>
    [] kind = "walk" -> Put(t, <<kind, f, v, v2>>) /\ UNCHANGED <<own, slot, pins>>
    [] kind = "hold" -> IF slot[t][s] # 0 THEN Noop(t) ELSE
          Put(t, <<kind, f, v, s>>) /\ slot' = [slot EXCEPT ![t][s] = f] /\ UNCHANGED <<own, pins>>
    [] kind = "touch" -> IF slot[t][s] = 0 THEN Noop(t) ELSE Put(t, <<kind, s>>) /\ UNCHANGED <<own, slot, pins>>
    [] kind = "step" -> IF slot[t][s] = 0 THEN Noop(t) ELSE Put(t, <<kind, s>>) /\ UNCHANGED <<own, slot, pins>>
    [] kind = "drop" -> IF slot[t][s] = 0 THEN Noop(t) ELSE
          Put(t, <<kind, s>>) /\ slot' = [slot EXCEPT ![t][s] = 0] /\ UNCHANGED <<own, pins>>
    [] kind = "cpy" -> IF slot[t][s] = 0 \/ slot[t][s2] # 0 THEN Noop(t) ELSE
          Put(t, <<kind, s, s2>>) /\ slot' = [slot EXCEPT ![t][s2] = slot[t][s]] /\ UNCHANGED <<own, pins>>
    [] kind = "asg" -> IF slot[t][s] = 0 \/ slot[t][s2] = 0 THEN Noop(t) ELSE
          Put(t, <<kind, s, s2>>) /\ slot' = [slot EXCEPT ![t][s2] = slot[t][s]] /\ UNCHANGED <<own, pins>>
    [] kind = "pin" -> IF Len(pins[t]) > 1 \/ (f \notin Shared /\ own[f] # "dyn") THEN Noop(t) ELSE
          Put(t, <<kind, f, v>>) /\ pins' = [pins EXCEPT ![t] = Append(@, f)] /\ UNCHANGED <<own, slot>>
    [] kind = "unpin" -> IF pins[t] = <<>> THEN Noop(t) ELSE
          Put(t, <<kind>>) /\ pins' = [pins EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)] /\ UNCHANGED <<own, slot>>
    [] kind = "setmax" -> Put(t, <<kind, Pick({0, 8, 32, 64, 96, 128, 256, 1024, 4096})>>) /\ UNCHANGED <<own, slot, pins>>
    [] kind = "stats" -> Put(t, <<kind>>) /\ UNCHANGED <<own, slot, pins>>
    [] kind = "reset" -> Put(t, <<kind>>) /\ UNCHANGED <<own, slot, pins>>
    [] kind = "flush" -> IF pins[t] # <<>> \/ slot[t] # <<0, 0, 0>> THEN Noop(t) ELSE Put(t, <<kind>>) /\ UNCHANGED <<own, slot, pins>>
    [] OTHER -> IF Free(t) = {} THEN Noop(t) ELSE
       \E p \in R(Free(t)) :
       CASE kind = "open" -> Put(t, <<kind, p, fi>>) /\ own' = [own EXCEPT ![p] = "dyn"] /\ UNCHANGED <<slot, pins>>
         [] kind = "close" -> IF own[p] = "none" THEN Noop(t) ELSE Put(t, <<kind, p>>) /\ own' = [own EXCEPT ![p] = "none"] /\ UNCHANGED <<slot, pins>>
         [] kind = "clone" -> IF g = p THEN Noop(t) ELSE
               Put(t, <<kind, p, g, k>>) /\ own' = [own EXCEPT ![p] = IF g \in Shared THEN "dyn" ELSE own[g]] /\ UNCHANGED <<slot, pins>>
         [] kind = "assign" -> IF own[p] = "none" THEN Noop(t) ELSE
               Put(t, <<kind, p, g>>) /\ own' = [own EXCEPT ![p] = IF g \in Shared THEN "dyn" ELSE own[g]] /\ UNCHANGED <<slot, pins>>
         [] kind = "copyfrom" -> IF own[p] = "none" \/ g = p THEN Noop(t) ELSE
               Put(t, <<kind, p, g>>) /\ own' = [own EXCEPT ![p] = "mem"] /\ UNCHANGED <<slot, pins>>
         [] kind = "clear" -> IF own[p] = "none" THEN Noop(t) ELSE Put(t, <<kind, p, x>>) /\ own' = [own EXCEPT ![p] = "mem"] /\ UNCHANGED <<slot, pins>>
         [] kind = "resize" -> IF own[p] = "none" THEN Noop(t) ELSE Put(t, <<kind, p>>) /\ own' = [own EXCEPT ![p] = "mem"] /\ UNCHANGED <<slot, pins>>
         [] kind = "order" -> IF own[p] = "none" THEN Noop(t) ELSE Put(t, <<kind, p, Pick(0..2)>>) /\ own' = [own EXCEPT ![p] = "mem"] /\ UNCHANGED <<slot, pins>>
         [] kind = "write" -> IF own[p] # "mem" THEN Noop(t) ELSE Put(t, <<kind, p, v, x>>) /\ UNCHANGED <<own, slot, pins>>
GNext == Setup \/ (n > 0 /\ n < NT * Len0 + 1 /\ n' = n + 1 /\ sc' = sc /\ Act((n % NT) + 1))
GSpec == GInit /\ [][GNext]_vars
Emit == n < NT * Len0 + 1 \/ PrintT(<<"BEH", ToJson([sc |-> sc, prog |-> prog])>>)
\* generated programs respect the rules of use
Rules == \A t \in 1..NT : \A f \in Privs(t) : Busy(t, f) => own[f] # "none"
=============================================================================
