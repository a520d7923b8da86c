----------------------------- MODULE BlockCache -----------------------------
(* The cache of demand-loaded sparse blocks, free of any eviction policy.
   A "reference" is the cache's record of one demand-loaded field: which of its blocks are resident,
   how many users each block has. Every critical section of the implementation that changes this state
   (Reference::incBlockRef/decBlockRef, SparseFileManager::activateBlock, deallocateBlock(s), flushCache,
   removeFieldFromCache) is one action. *)
EXTENDS Grid
VARIABLES ref,      \* sequence of [live, bsize, nb, loaded: set of blocks, cnt: block -> users]
          mem,      \* bytes the cache accounts for
          budget    \* limit in bytes, -1 = no limit

Blocks(r) == 0..(ref[r].nb - 1)
ResidentCount == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE Cardinality(ref[i].loaded) + S(i-1) IN S(Len(ref))
ResidentBytes == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE Cardinality(ref[i].loaded) * ref[i].bsize + S(i-1) IN S(Len(ref))

Init == ref = <<>> /\ mem = 0 /\ budget = -1

NewRef(nb, bs) == /\ ref' = Append(ref, [live |-> TRUE, bsize |-> bs, nb |-> nb, loaded |-> {}, cnt |-> TLCEval([b \in 0..(nb-1) |-> 0])])
                  /\ UNCHANGED <<mem, budget>>
Inc(r, b) == /\ ref[r].live /\ b \in DOMAIN ref[r].cnt
             /\ ref' = [ref EXCEPT ![r].cnt[b] = @ + 1] /\ UNCHANGED <<mem, budget>>
Dec(r, b) == /\ ref[r].live /\ b \in DOMAIN ref[r].cnt /\ ref[r].cnt[b] > 0
             /\ ref' = [ref EXCEPT ![r].cnt[b] = @ - 1] /\ UNCHANGED <<mem, budget>>
\* a block becomes resident; whether there was room for it is the policy's business (HasRoom below)
Load(r, b) == /\ ref[r].live /\ b \in DOMAIN ref[r].cnt /\ b \notin ref[r].loaded
              /\ ref' = [ref EXCEPT ![r].loaded = @ \cup {b}]
              /\ mem' = mem + ref[r].bsize /\ UNCHANGED budget
\* only blocks nobody uses are evicted
Evict(r, b) == /\ ref[r].live /\ b \in ref[r].loaded /\ ref[r].cnt[b] = 0
               /\ ref' = [ref EXCEPT ![r].loaded = @ \ {b}]
               /\ mem' = mem - ref[r].bsize /\ UNCHANGED budget
\* flushing is only legal when no block is in use (documented restriction of flushCache)
Flush(r, b) == Evict(r, b)
Remove(r) == /\ ref[r].live
             /\ ref' = [ref EXCEPT ![r].live = FALSE, ![r].loaded = {}, ![r].cnt = <<>>]
             /\ mem' = mem - ref[r].bsize * Cardinality(ref[r].loaded) /\ UNCHANGED budget
SetBudget(n) == budget' = n /\ UNCHANGED <<ref, mem>>

Pinned(r, b) == ref[r].live /\ b \in DOMAIN ref[r].cnt /\ ref[r].cnt[b] > 0
\* resident blocks nobody uses
Idle == UNION {{<<r, b>> : b \in {x \in ref[r].loaded : ref[r].cnt[x] = 0}} : r \in DOMAIN ref}
Room(bs) == budget < 0 \/ mem + bs <= budget

\* what C02/C03 promise of every state
Accounted == mem = ResidentBytes
CountsSane == \A r \in DOMAIN ref : \A b \in DOMAIN ref[r].cnt : ref[r].cnt[b] >= 0
NoUse == \A r \in DOMAIN ref : \A b \in DOMAIN ref[r].cnt : ref[r].cnt[b] = 0
=============================================================================
