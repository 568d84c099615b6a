------------------------------- MODULE SyncVec -------------------------------
(***************************************************************************)
(* The buffer which a decoder fills while readers already use it (C07, and *)
(* C06 when the compressed data is damaged).                               *)
(*                                                                         *)
(* One writer decodes N chunks into a buffer which is not protected; only  *)
(* the published length (and whether the writer is gone) is, by a mutex    *)
(* and a condition variable.  A reader wants the window (lo, hi]: it waits *)
(* until hi chunks are published or the writer is gone, asks for the slice *)
(* below the published length, and copies its window.                      *)
(*                                                                         *)
(* Each step is what a thread does between two points where the others may *)
(* interfere: taking the mutex, what is done under the mutex, notifying,   *)
(* writing a chunk (two steps: a chunk which is being written is torn),    *)
(* copying a chunk.                                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Readers, N, MaxReads, MayFail, Fault, Emit

VARIABLES mem,      \* chunk -> "none" | "torn" | "ok"
          decoded, ended,
          lock,     \* the thread which has the mutex, or "free"
          wpc, wk, wfail,
          rpc, lo, hi, got, size, out, reads, asleep,
          hist      \* the visible steps (only recorded with Emit)
vars == << mem, decoded, ended, lock, wpc, wk, wfail, rpc, lo, hi, got, size, out, reads, asleep, hist >>
wvars == << wpc, wk, wfail >>
rvars == << rpc, lo, hi, got, size, out, reads >>

Log(x) == hist' = IF Emit THEN Append(hist, x) ELSE hist
NoLog == UNCHANGED hist

Init ==
  /\ mem = [i \in 1..N |-> "none"] /\ decoded = 0 /\ ended = FALSE /\ lock = "free"
  /\ wpc = "start" /\ wk = 1 /\ wfail = FALSE
  /\ rpc = [r \in Readers |-> "idle"] /\ lo = [r \in Readers |-> 0] /\ hi = [r \in Readers |-> 0]
  /\ got = [r \in Readers |-> 0] /\ size = [r \in Readers |-> 0] /\ out = [r \in Readers |-> <<>>]
  /\ reads = [r \in Readers |-> 0] /\ asleep = {} /\ hist = <<>>

\* ------------------------------------------------------------ writer
Last == IF Fault = "short" THEN N - 1 ELSE N
W_Begin ==    \* the decoder gives a chunk, or fails
  /\ wpc = "start"
  /\ \/ /\ wk <= Last
        /\ IF Fault = "publish_first" THEN wpc' = "publock" /\ mem' = mem
           ELSE wpc' = "writing" /\ mem' = [mem EXCEPT ![wk] = "torn"]
        /\ UNCHANGED wfail
     \/ /\ MayFail /\ wk <= N
        /\ wpc' = "drop" /\ wfail' = TRUE /\ UNCHANGED mem
     \/ /\ wk > Last
        /\ wpc' = "drop" /\ UNCHANGED << wfail, mem >>
  /\ UNCHANGED << decoded, ended, lock, wk, rvars, asleep >> /\ NoLog
W_Written ==
  /\ wpc = "writing"
  /\ mem' = [mem EXCEPT ![wk] = "ok"]
  /\ wpc' = IF Fault = "publish_first" THEN "next" ELSE "publock"
  /\ UNCHANGED << decoded, ended, lock, wk, wfail, rvars, asleep >> /\ NoLog
W_Publish ==   \* under the mutex
  /\ wpc = "publock" /\ lock = "free"
  /\ decoded' = wk
  /\ wpc' = "notify"
  /\ Log(<< "W", wk >>)
  /\ UNCHANGED << mem, ended, lock, wk, wfail, rvars, asleep >>
W_Notify ==
  /\ wpc = "notify"
  /\ IF Fault = "no_notify" THEN UNCHANGED << asleep, rpc >>
     ELSE IF Fault = "notify_one" /\ asleep # {}
     THEN \E q \in asleep : asleep' = asleep \ {q} /\ rpc' = [rpc EXCEPT ![q] = "relock"]
     ELSE asleep' = {} /\ rpc' = [r \in Readers |-> IF r \in asleep THEN "relock" ELSE rpc[r]]
  /\ IF Fault = "publish_first" THEN wpc' = "writing" /\ mem' = [mem EXCEPT ![wk] = "torn"] /\ UNCHANGED wk
     ELSE wpc' = "start" /\ wk' = wk + 1 /\ UNCHANGED mem
  /\ UNCHANGED << decoded, ended, lock, wfail, lo, hi, got, size, out, reads >> /\ NoLog
W_Next ==      \* (only when published first)
  /\ wpc = "next" /\ wpc' = "start" /\ wk' = wk + 1
  /\ UNCHANGED << mem, decoded, ended, lock, wfail, rvars, asleep >> /\ NoLog
W_Drop ==
  /\ wpc = "drop" /\ lock = "free"
  /\ ended' = IF Fault = "no_end" THEN ended ELSE TRUE
  /\ wpc' = "dropnotify"
  /\ Log(<< "D", IF wfail THEN 0 ELSE 1 >>)
  /\ UNCHANGED << mem, decoded, lock, wk, wfail, rvars, asleep >>
W_DropNotify ==
  /\ wpc = "dropnotify"
  /\ IF Fault \in {"no_notify", "no_end_notify", "notify_one"} THEN UNCHANGED << asleep, rpc >>
     ELSE asleep' = {} /\ rpc' = [r \in Readers |-> IF r \in asleep THEN "relock" ELSE rpc[r]]
  /\ wpc' = "gone"
  /\ UNCHANGED << mem, decoded, ended, lock, wk, wfail, lo, hi, got, size, out, reads >> /\ NoLog

\* ------------------------------------------------------------ readers
R_Start(r) ==
  /\ rpc[r] = "idle" /\ reads[r] < MaxReads
  /\ \E a, b \in 0..N : /\ a < b
                        /\ lo' = [lo EXCEPT ![r] = a] /\ hi' = [hi EXCEPT ![r] = b]
                        /\ Log(<< "B", r, a, b >>)
  /\ rpc' = [rpc EXCEPT ![r] = IF Fault = "slice_total" THEN "slice" ELSE "lock"]
  /\ reads' = [reads EXCEPT ![r] = @ + 1]
  /\ out' = [out EXCEPT ![r] = <<>>]
  /\ UNCHANGED << mem, decoded, ended, lock, wvars, got, size, asleep >>
\* takes the mutex, looks, then sleeps (which gives the mutex back) or returns
R_Test(r) ==
  /\ rpc[r] \in {"lock", "relock"} /\ lock = "free"
  /\ IF decoded < hi[r] /\ ~ended /\ ~(Fault = "if_wait" /\ rpc[r] = "relock")
     THEN /\ asleep' = asleep \cup {r}
          /\ rpc' = [rpc EXCEPT ![r] = "asleep"]
          /\ UNCHANGED got
     ELSE /\ rpc' = [rpc EXCEPT ![r] = IF decoded < hi[r] /\ Fault # "if_wait" THEN "failed" ELSE "slice"]
          /\ got' = [got EXCEPT ![r] = decoded]
          /\ UNCHANGED asleep
  /\ Log(<< "T", r >>)
  /\ UNCHANGED << mem, decoded, ended, lock, wvars, lo, hi, size, out, reads >>
\* (design fault: looks without the mutex, then sleeps)
R_Look(r) ==
  /\ Fault = "look_outside" /\ rpc[r] = "lock"
  /\ rpc' = [rpc EXCEPT ![r] = IF decoded < hi[r] /\ ~ended THEN "tosleep" ELSE "slice"]
  /\ UNCHANGED << mem, decoded, ended, lock, wvars, lo, hi, got, size, out, reads, asleep >> /\ NoLog
R_Sleep(r) ==
  /\ rpc[r] = "tosleep" /\ lock = "free"
  /\ asleep' = asleep \cup {r} /\ rpc' = [rpc EXCEPT ![r] = "asleep"]
  /\ UNCHANGED << mem, decoded, ended, lock, wvars, lo, hi, got, size, out, reads >> /\ NoLog
\* a spurious wake up
R_Spurious(r) ==
  /\ rpc[r] = "asleep" /\ ~Emit
  /\ asleep' = asleep \ {r} /\ rpc' = [rpc EXCEPT ![r] = "relock"]
  /\ UNCHANGED << mem, decoded, ended, lock, wvars, lo, hi, got, size, out, reads >> /\ NoLog
R_Slice(r) ==
  /\ rpc[r] = "slice" /\ lock = "free"
  /\ size' = [size EXCEPT ![r] = IF Fault = "slice_total" THEN N ELSE decoded]
  /\ rpc' = [rpc EXCEPT ![r] = "copy"]
  /\ Log(<< "S", r >>)
  /\ UNCHANGED << mem, decoded, ended, lock, wvars, lo, hi, got, out, reads, asleep >>
R_Copy(r) ==
  /\ rpc[r] = "copy"
  /\ LET k == lo[r] + Len(out[r]) + 1
     IN /\ out' = [out EXCEPT ![r] = Append(@, IF k <= size[r] THEN mem[k] ELSE "outside")]
        /\ rpc' = [rpc EXCEPT ![r] = IF k = hi[r] THEN "idle" ELSE "copy"]
  /\ UNCHANGED << mem, decoded, ended, lock, wvars, lo, hi, got, size, reads, asleep >> /\ NoLog

Reader(r) == R_Start(r) \/ (Fault # "look_outside" /\ R_Test(r)) \/ (Fault = "look_outside" /\ rpc[r] = "relock" /\ R_Test(r))
               \/ R_Look(r) \/ R_Sleep(r) \/ R_Slice(r) \/ R_Copy(r)
Writer == W_Begin \/ W_Written \/ W_Publish \/ W_Notify \/ W_Next \/ W_Drop \/ W_DropNotify
Next == Writer \/ \E r \in Readers : Reader(r) \/ R_Spurious(r)

\* a thread which can run eventually runs; the mutex is never held between two steps
Fairness == WF_vars(Writer) /\ \A r \in Readers : WF_vars(Reader(r))
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ Fairness

\* ------------------------------------------------------------ C07
TypeOK == decoded \in 0..N /\ wk \in 1..(N + 1)
\* what is below the published length is written, and stays
Published == \A i \in 1..decoded : mem[i] = "ok"
\* a reader gets the stored bytes of its window, nothing else
Exact == \A r \in Readers : \A i \in 1..Len(out[r]) : out[r][i] = "ok"
Complete == \A r \in Readers : rpc[r] = "idle" /\ reads[r] > 0 => Len(out[r]) = hi[r] - lo[r]
\* no error but when the data is damaged, where the window really is missing
ErrorOnlyIfDamaged == \A r \in Readers : rpc[r] = "failed" => wfail /\ ended /\ decoded < hi[r]
Monotone == [][decoded' >= decoded /\ (ended => ended')]_vars
\* every reading ends (with bytes or an error)
Ends == \A r \in Readers : rpc[r] \notin {"idle", "failed"} ~> rpc[r] \in {"idle", "failed"}

\* ------------------------------------------------------------ schedules for the real code
Finished == wpc = "gone" /\ \A r \in Readers : (rpc[r] = "idle" /\ reads[r] = MaxReads) \/ rpc[r] = "failed"
Emitted == Emit /\ Finished => PrintT("CASE " \o ToJson([fail |-> wfail, at |-> wk, steps |-> hist]))
=============================================================================
