---------------------------- MODULE ClusterCache ----------------------------
(***************************************************************************)
(* The way from a content address to its bytes when many threads read      *)
(* (C07): the slot of the pack (set once), the cache of clusters (a mutex, *)
(* clusters go when others come), the switch of a cluster from raw to      *)
(* plain (a lock of the cluster), then the decoding buffer (SyncVec).      *)
(*                                                                         *)
(* A cluster which was loaded is a object; loading it again makes another  *)
(* one.  A object is freed when neither the cache nor a reader has it.     *)
(* The steps are what a thread does between two points where the others    *)
(* may interfere.                                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Readers, Clusters, Slots, MaxReads, Fault, Emit

VARIABLES pack,              \* "none" or the first object which was set
          slot,              \* the cache: slot -> object (0: nothing)
          lock,              \* who has the mutex of the cache
          of, plain, wlock,  \* object -> its cluster; is it plain; who switches it
          n,                 \* objects made so far
          pc, want, obj, vic, out, reads, hist
vars == << pack, slot, lock, of, plain, wlock, n, pc, want, obj, vic, out, reads, hist >>

Objects == 1..(Cardinality(Readers) * MaxReads)
Log(x) == hist' = IF Emit THEN Append(hist, x) ELSE hist
NoLog == UNCHANGED hist
Step(r) == Log(<< "P", r >>)

Init ==
  /\ pack = "none" /\ slot = [s \in Slots |-> 0] /\ lock = "free"
  /\ of = [o \in Objects |-> 0] /\ plain = [o \in Objects |-> FALSE] /\ wlock = [o \in Objects |-> "free"] /\ n = 0
  /\ pc = [r \in Readers |-> "idle"] /\ want = [r \in Readers |-> 0] /\ obj = [r \in Readers |-> 0]
  /\ vic = [r \in Readers |-> 0] /\ out = [r \in Readers |-> << >>] /\ reads = [r \in Readers |-> 0] /\ hist = << >>

Alive(o) == (\E s \in Slots : slot[s] = o) \/ (Fault # "no_count" /\ \E r \in Readers : obj[r] = o)

Go(r) ==
  /\ pc[r] = "idle" /\ reads[r] < MaxReads
  /\ \E c \in Clusters : want' = [want EXCEPT ![r] = c] /\ Log(<< "G", r, c, (reads[r] + c) % 5 >>)
  /\ reads' = [reads EXCEPT ![r] = @ + 1]
  /\ pc' = [pc EXCEPT ![r] = IF pack = "none" THEN "miss" ELSE "get"]
  /\ UNCHANGED << pack, slot, lock, of, plain, wlock, n, obj, vic, out >>
\* the pack is opened by everybody who saw no pack; the first one is kept
Miss(r) == /\ pc[r] = "miss" /\ pc' = [pc EXCEPT ![r] = "set"] /\ Step(r)
           /\ UNCHANGED << pack, slot, lock, of, plain, wlock, n, want, obj, vic, out, reads >>
Set(r) == /\ pc[r] = "set" /\ pc' = [pc EXCEPT ![r] = "get"] /\ Step(r)
          /\ pack' = IF pack = "none" THEN r ELSE pack
          /\ UNCHANGED << slot, lock, of, plain, wlock, n, want, obj, vic, out, reads >>

Cached(c) == { s \in Slots : slot[s] # 0 /\ of[slot[s]] = c }
Get(r) ==
  /\ pc[r] = "get" /\ lock = "free" /\ Step(r)
  /\ IF Cached(want[r]) # {}
     THEN LET s == CHOOSE s \in Cached(want[r]) : TRUE
          IN /\ obj' = [obj EXCEPT ![r] = slot[s]] /\ vic' = [vic EXCEPT ![r] = s]
             /\ pc' = [pc EXCEPT ![r] = "plain"] /\ UNCHANGED lock
     ELSE /\ \E s \in Slots : vic' = [vic EXCEPT ![r] = s]
          /\ pc' = [pc EXCEPT ![r] = "load"] /\ UNCHANGED obj
          /\ lock' = IF Fault = "unlocked" THEN lock ELSE r
  /\ UNCHANGED << pack, slot, of, plain, wlock, n, want, out, reads >>
Load(r) ==
  /\ pc[r] = "load" /\ Step(r)
  /\ n' = n + 1 /\ of' = [of EXCEPT ![n + 1] = want[r]]
  \* (design fault: the slot already tells which cluster is coming, another reader takes what is there)
  /\ obj' = [obj EXCEPT ![r] = n + 1]
  /\ pc' = [pc EXCEPT ![r] = "loaded"]
  /\ UNCHANGED << pack, slot, lock, plain, wlock, want, vic, out, reads >>
Loaded(r) ==
  /\ pc[r] = "loaded" /\ Step(r)
  /\ slot' = [slot EXCEPT ![vic[r]] = obj[r]]
  /\ lock' = IF lock = r THEN "free" ELSE lock
  /\ pc' = [pc EXCEPT ![r] = "plain"]
  /\ UNCHANGED << pack, of, plain, wlock, n, want, obj, vic, out, reads >>
\* with the fault "by_slot" a reader remembers where the cluster is, not the cluster
Mine(r) == IF Fault \in {"by_slot", "unlocked"} THEN slot[vic[r]] ELSE obj[r]
Plain(r) ==
  /\ pc[r] = "plain" /\ Mine(r) # 0 /\ wlock[Mine(r)] = "free" /\ Step(r)
  /\ IF plain[Mine(r)] THEN pc' = [pc EXCEPT ![r] = "bytes"] /\ UNCHANGED << wlock, plain >>
     ELSE /\ wlock' = [wlock EXCEPT ![Mine(r)] = IF Fault = "early_plain" THEN "free" ELSE r]
          /\ plain' = IF Fault = "early_plain" THEN [plain EXCEPT ![Mine(r)] = TRUE] ELSE plain
          /\ pc' = [pc EXCEPT ![r] = "decode"]
  /\ obj' = [obj EXCEPT ![r] = Mine(r)]
  /\ UNCHANGED << pack, slot, lock, of, n, want, vic, out, reads >>
Decode(r) ==
  /\ pc[r] = "decode" /\ Step(r)
  /\ plain' = [plain EXCEPT ![obj[r]] = TRUE]
  /\ wlock' = [wlock EXCEPT ![obj[r]] = "free"]
  /\ pc' = [pc EXCEPT ![r] = "bytes"]
  /\ UNCHANGED << pack, slot, lock, of, n, want, obj, vic, out, reads >>
Bytes(r) ==
  /\ pc[r] = "bytes" /\ Step(r)
  /\ out' = [out EXCEPT ![r] = Append(@, << want[r],
              IF ~Alive(obj[r]) THEN 0 ELSE IF Fault = "early_plain" /\ \E q \in Readers : pc[q] = "decode" /\ obj[q] = obj[r] THEN 1000
              ELSE of[obj[r]] >>)]
  /\ pc' = [pc EXCEPT ![r] = "wait"]
  /\ UNCHANGED << pack, slot, lock, of, plain, wlock, n, want, obj, vic, reads >>
Wait(r) == /\ pc[r] \in {"wait", "slice"} /\ Step(r)
           /\ pc' = [pc EXCEPT ![r] = IF pc[r] = "wait" THEN "slice" ELSE "idle"]
           /\ obj' = IF pc[r] = "slice" THEN [obj EXCEPT ![r] = 0] ELSE obj
           /\ UNCHANGED << pack, slot, lock, of, plain, wlock, n, want, vic, out, reads >>
\* other clusters are read: everything goes (one slot at a time is the general case)
Evict ==
  /\ lock = "free"
  /\ IF Emit THEN slot' = [s \in Slots |-> 0] /\ (\E s \in Slots : slot[s] # 0)
     ELSE \E s \in Slots : slot[s] # 0 /\ slot' = [slot EXCEPT ![s] = 0]
  /\ Log(<< "E" >>)
  /\ UNCHANGED << pack, lock, of, plain, wlock, n, pc, want, obj, vic, out, reads >>

Reader(r) == Go(r) \/ Miss(r) \/ Set(r) \/ Get(r) \/ Load(r) \/ Loaded(r) \/ Plain(r) \/ Decode(r) \/ Bytes(r) \/ Wait(r)
Next == Evict \/ \E r \in Readers : Reader(r)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ \A r \in Readers : SF_vars(Reader(r))

\* ------------------------------------------------------------ C07
TypeOK == n <= Cardinality(Objects) /\ \A o \in 1..n : of[o] \in Clusters
\* never the bytes of another cluster, never freed memory, never the compressed bytes
Own == \A r \in Readers : \A i \in 1..Len(out[r]) : out[r][i][2] = out[r][i][1]
OnePack == pack = "none" \/ pack \in Readers
PackStays == [][pack # "none" => pack' = pack]_vars
Ends == \A r \in Readers : pc[r] # "idle" ~> pc[r] = "idle"

Finished == \A r \in Readers : pc[r] = "idle" /\ reads[r] = MaxReads
Emitted == Emit /\ Finished => PrintT("CASE " \o ToJson([steps |-> hist]))
=============================================================================
