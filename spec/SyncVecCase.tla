----------------------------- MODULE SyncVecCase -----------------------------
(***************************************************************************)
(* What the threads of the real code did around one decoding buffer (C07), *)
(* judged by what SyncVec allows.                                          *)
(*                                                                         *)
(* The points of the writer come in pairs, before and after the step under *)
(* the mutex, so the published length is known to be in low..high and the  *)
(* end to be at least endLow, at most endHigh; SyncVec!decoded is in the   *)
(* middle.  What a reader sees under the mutex, and the slice it takes,    *)
(* must be possible for some value of it.                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Max2(a, b) == IF a > b THEN a ELSE b
Get(f, r, d) == IF r \in DOMAIN f THEN f[r] ELSE d
Put(f, r, x) == [k \in DOMAIN f \cup {r} |-> IF k = r THEN x ELSE f[k]]
None == [x \in {} |-> 0]

Start == [low |-> 0, high |-> 0, endLow |-> FALSE, endHigh |-> FALSE, need |-> None, from |-> None, bad |-> {}]

\* e: [total, good (bytes which the stored data gives), ...]; v: << point, reader, a, b >>
Step(e, s, v) ==
  LET p == v[1] r == v[2] a == v[3] b == v[4]
      Bad(c, t) == IF c THEN {} ELSE {t}
  IN CASE p = "sync.publish" ->          \* SyncVec!W_Publish, and the invariant Published
            [s EXCEPT !.high = Max2(@, a),
                      !.bad = @ \cup Bad(b = 1, "published-before-written") \cup Bad(a >= s.high, "publish-goes-back")
                                \cup Bad(a <= e.total, "publish-outside") \cup Bad(~s.endHigh, "publish-after-end")]
       [] p = "sync.notified" -> [s EXCEPT !.low = Max2(@, a)]
       [] p = "sync.drop" -> [s EXCEPT !.endHigh = TRUE, !.bad = @ \cup Bad(e.good < e.total \/ s.low = e.total, "ends-before-all")]
       [] p = "sync.gone" -> [s EXCEPT !.endLow = TRUE]
       [] p = "sync.wait" -> [s EXCEPT !.need = Put(@, r, a), !.bad = @ \cup Bad(a <= e.total, "waits-for-too-much")]
       [] p = "sync.test" ->             \* SyncVec!R_Test
            [s EXCEPT !.bad = @ \cup Bad(s.low <= a /\ a <= s.high, "looks-at-another-length")
                                \cup Bad(IF b = 1 THEN s.endHigh ELSE ~s.endLow, "looks-at-another-end")]
       [] p = "sync.slice" -> [s EXCEPT !.from = Put(@, r, s.low)]
       [] p = "sync.sliced" ->           \* SyncVec!R_Slice
            [s EXCEPT !.bad = @ \cup Bad(a <= s.high, "slice-above-published")
                                \cup Bad(a >= Get(s.from, r, 0) /\ a >= Get(s.need, r, 0), "slice-too-short")]
       [] p = "end" ->                   \* Exact, Complete, ErrorOnlyIfDamaged: a = 0 the stored bytes, 2 a error
            [s EXCEPT !.bad = @ \cup Bad(a = 0 \/ (a = 2 /\ b > e.good), IF a = 2 THEN "error" ELSE IF a = 3 THEN "panic" ELSE "other-bytes")]
       [] OTHER -> s

Clause(name, c) == c \/ (PrintT("CLAUSE " \o name) /\ FALSE)
Judge(e) ==
  /\ Clause("ends", ~e.hang)
  /\ LET s == FoldLeft(LAMBDA x, y : Step(e, x, y), Start, e.ev)
     IN \A t \in s.bad : Clause(t, FALSE)

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN IF Judge(e) THEN TRUE ELSE PrintT("CASE-REJECTED " \o ToString(l))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Judged == PrintT("CASES-JUDGED " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
