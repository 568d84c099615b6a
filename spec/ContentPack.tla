---------------------------- MODULE ContentPack ----------------------------
(***************************************************************************)
(* Creation of a content pack: insertions fill two open clusters (raw and  *)
(* compressed), closed clusters go to the writer, the compressed ones      *)
(* through a queue (bounded by back-pressure) and a pool of workers.       *)
(* Finalisation closes the open clusters, joins every thread and writes    *)
(* the tables: address of each cluster, (cluster, blob) of each content.   *)
(*                                                                         *)
(* A content is [size, hint, detect]: hint "y" "n" or "d"; detect is what  *)
(* the entropy says.  A position in the file is the rank of the cluster.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Sizes,        \* sizes of contents
  MaxContents,  \* at most that many insertions
  MaxBlobs,     \* blobs of a cluster
  MaxSize,      \* data of a compressed cluster (several blobs)
  NWorkers,
  Compressing,  \* does the pack compress?
  Hints,
  Fault         \* "none", or a planted design fault (must be caught: see the *_bad.cfg)

VARIABLES contents, raw, comp, nextid, infos, queue, inq, worker, fusion, file, addr, main, pending, closing

vars == << contents, raw, comp, nextid, infos, queue, inq, worker, fusion, file, addr, main, pending, closing >>

NoCluster == [id |-> -1, blobs |-> <<>>, size |-> 0, comp |-> FALSE]
QMax == 2 * NWorkers
W == 1..NWorkers

Init ==
  /\ contents = <<>> /\ raw = NoCluster /\ comp = NoCluster /\ nextid = 0 /\ infos = <<>>
  /\ queue = <<>> /\ inq = 0 /\ worker = [w \in W |-> [st |-> "idle", c |-> NoCluster]]
  /\ fusion = <<>> /\ file = <<>> /\ addr = << >> /\ main = "adding" /\ pending = NoCluster /\ closing = <<>>

\* ------------------------------------------------------------ insertion
ShouldCompress(c) == Compressing /\ (c.hint = "y" \/ (c.hint = "d" /\ c.detect))
IsFull(cl, size) == Len(cl.blobs) = MaxBlobs \/ (cl.comp /\ cl.blobs # <<>> /\ cl.size + size > MaxSize)

Insert(c) ==
  LET k == ShouldCompress(c)
      slot == IF k THEN comp ELSE raw
      fresh == slot.id = -1 \/ IsFull(slot, c.size)
      base == IF fresh THEN [id |-> nextid, blobs |-> <<>>, size |-> 0, comp |-> k] ELSE slot
      new == [base EXCEPT !.blobs = Append(@, Len(contents) + 1), !.size = @ + c.size]
  IN /\ contents' = Append(contents, c)
     /\ IF k THEN comp' = new /\ UNCHANGED raw ELSE raw' = new /\ UNCHANGED comp
     /\ nextid' = IF fresh THEN nextid + 1 ELSE nextid
     /\ infos' = Append(infos, [cluster |-> new.id, blob |-> Len(new.blobs)])
     \* the full cluster has to be handed over before the insertion returns
     /\ IF fresh /\ slot.id # -1 THEN pending' = slot /\ main' = "sending" ELSE UNCHANGED << pending, main >>

Add == /\ main = "adding" /\ Len(contents) < MaxContents
       /\ \E s \in Sizes, h \in Hints, d \in (IF Compressing THEN BOOLEAN ELSE {FALSE}) :
            (h # "d" => ~d) /\ Insert([size |-> s, hint |-> h, detect |-> d])
       /\ UNCHANGED << queue, inq, worker, fusion, file, addr, closing >>

After == IF closing = <<>> THEN "adding" ELSE "closing"
SendRaw == /\ main = "sending" /\ ~pending.comp
           /\ fusion' = Append(fusion, pending) /\ pending' = NoCluster /\ main' = After
           /\ UNCHANGED << contents, raw, comp, nextid, infos, queue, inq, worker, file, addr, closing >>
\* back-pressure
SendComp == /\ main = "sending" /\ pending.comp /\ inq < QMax
            /\ inq' = inq + 1 /\ queue' = Append(queue, pending) /\ pending' = NoCluster /\ main' = After
            /\ UNCHANGED << contents, raw, comp, nextid, infos, worker, fusion, file, addr, closing >>

\* ------------------------------------------------------------ finalisation
Finalize == /\ main = "adding"
            /\ main' = "closing" /\ closing' = << raw, comp >> /\ raw' = NoCluster /\ comp' = NoCluster
            /\ UNCHANGED << contents, nextid, infos, queue, inq, worker, fusion, file, addr, pending >>
CloseOne == /\ main = "closing" /\ closing # <<>>
            /\ LET c == Head(closing) IN
               IF c.id = -1 THEN closing' = Tail(closing) /\ UNCHANGED << main, pending >>
               ELSE /\ pending' = c /\ main' = "sending"
                    /\ closing' = << NoCluster >> \o Tail(closing)     \* never empty here: After = "closing"
            /\ UNCHANGED << contents, raw, comp, nextid, infos, queue, inq, worker, fusion, file, addr >>
\* the channels are closed, the threads end once they are empty
Drop == /\ main = "closing" /\ closing = <<>>
        /\ main' = "joining"
        /\ UNCHANGED << contents, raw, comp, nextid, infos, queue, inq, worker, fusion, file, addr, pending, closing >>
WorkersEnded == \A w \in W : worker[w].st = "ended"
Done == /\ main = "joining" /\ WorkersEnded /\ fusion = <<>>
        /\ main' = "done"
        /\ UNCHANGED << contents, raw, comp, nextid, infos, queue, inq, worker, fusion, file, addr, pending, closing >>

\* ------------------------------------------------------------ workers
Take(w) == /\ worker[w].st = "idle" /\ queue # <<>>
           /\ worker' = [worker EXCEPT ![w] = [st |-> "busy", c |-> Head(queue)]]
           /\ queue' = Tail(queue)
           /\ UNCHANGED << contents, raw, comp, nextid, infos, inq, fusion, file, addr, main, pending, closing >>
Compressed(w) == /\ worker[w].st = "busy"
                 /\ fusion' = Append(fusion, worker[w].c)
                 /\ worker' = [worker EXCEPT ![w].st = "sent"]
                 /\ UNCHANGED << contents, raw, comp, nextid, infos, queue, inq, file, addr, main, pending, closing >>
Release(w) == /\ worker[w].st = "sent"
              /\ worker' = [worker EXCEPT ![w] = [st |-> "idle", c |-> NoCluster]]
              /\ inq' = IF Fault = "norelease" THEN inq ELSE inq - 1
              /\ UNCHANGED << contents, raw, comp, nextid, infos, queue, fusion, file, addr, main, pending, closing >>
End(w) == /\ worker[w].st = "idle" /\ queue = <<>> /\ main \in {"joining"}
          /\ worker' = [worker EXCEPT ![w].st = "ended"]
          /\ UNCHANGED << contents, raw, comp, nextid, infos, queue, inq, fusion, file, addr, main, pending, closing >>

\* ------------------------------------------------------------ writer
Put(a, k, v) == [x \in DOMAIN a \cup {k} |-> IF x = k THEN v ELSE a[x]]
Write == /\ fusion # <<>>
         /\ LET c == Head(fusion) IN
            /\ file' = Append(file, c)
            /\ addr' = IF Fault = "fifo" THEN Put(addr, Len(file), Len(file) + 1) ELSE Put(addr, c.id, Len(file) + 1)
         /\ fusion' = Tail(fusion)
         /\ UNCHANGED << contents, raw, comp, nextid, infos, queue, inq, worker, main, pending, closing >>

Next == \/ Add \/ SendRaw \/ SendComp \/ Finalize \/ CloseOne \/ Drop \/ Done \/ Write
        \/ \E w \in W : Take(w) \/ Compressed(w) \/ Release(w) \/ End(w)
Spec == Init /\ [][Next]_vars
        /\ WF_vars(SendRaw) /\ WF_vars(SendComp) /\ WF_vars(Finalize) /\ WF_vars(CloseOne) /\ WF_vars(Drop) /\ WF_vars(Done) /\ WF_vars(Write)
        /\ \A w \in W : WF_vars(Take(w)) /\ WF_vars(Compressed(w)) /\ WF_vars(Release(w)) /\ WF_vars(End(w))
Sym == Permutations(W)

\* ------------------------------------------------------------ properties
TypeOK == /\ inq \in 0..QMax /\ nextid \in 0..(2 * MaxContents) /\ Len(infos) = Len(contents)
          /\ inq >= Len(queue)

\* what the tables say about content i once the pack is written
Read(i) == file[addr[infos[i].cluster]].blobs[infos[i].blob]

\* C01, C08: every address resolves to its own bytes, whatever the schedule
AllReadable == main = "done" =>
  /\ DOMAIN addr = 0..(nextid - 1) /\ Len(file) = nextid
  /\ \A i \in 1..Len(contents) :
       /\ infos[i].cluster \in DOMAIN addr
       /\ infos[i].blob \in 1..Len(file[addr[infos[i].cluster]].blobs)
       /\ Read(i) = i
\* no cluster is written twice nor lost
WrittenOnce == \A i, j \in 1..Len(file) : i # j => file[i].id # file[j].id
\* C16
Placement == main = "done" => \A i \in 1..Len(contents) :
  LET c == file[addr[infos[i].cluster]]
  IN /\ ~Compressing \/ contents[i].hint = "n" => ~c.comp
     /\ Compressing /\ contents[i].hint = "y" => c.comp
Limits == \A i \in 1..Len(file) : Len(file[i].blobs) \in 1..MaxBlobs
\* C08: creation ends
Terminates == <>(main = "done")

Seqs == main = "done" => PrintT("CASE " \o ToJson([contents |-> contents, order |-> [i \in 1..Len(file) |-> file[i].id],
                                                   comp |-> [i \in 1..Len(file) |-> file[i].comp]]))
=============================================================================
