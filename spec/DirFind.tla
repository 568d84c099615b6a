------------------------------ MODULE DirFind ------------------------------
(***************************************************************************)
(* The two search modes over a window of a sorted store, step by step.     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC
CONSTANTS N, K      \* stores of at most N entries with keys 0..K
VARIABLES store, off, count, key, left, right, lin, bres, lres
vars == << store, off, count, key, left, right, lin, bres, lres >>

SortedSeqs == UNION { { s \in [1..n -> 0..K] : \A i \in 1..(n - 1) : s[i] <= s[i + 1] } : n \in 0..N }
At(i) == store[off + i + 1]

Init == /\ store \in SortedSeqs
        /\ off \in 0..N /\ count \in 0..N /\ off + count <= Len(store)
        /\ key \in 0..K
        /\ left = 0 /\ right = count /\ lin = 0 /\ bres = -2 /\ lres = -2

BStep == /\ bres = -2
         /\ IF left >= right THEN bres' = -1 /\ UNCHANGED << left, right >>
            ELSE LET mid == left + (right - left) \div 2 IN
                 IF At(mid) < key THEN left' = mid + 1 /\ UNCHANGED << right, bres >>
                 ELSE IF At(mid) > key THEN right' = mid /\ UNCHANGED << left, bres >>
                 ELSE bres' = mid /\ UNCHANGED << left, right >>
         /\ UNCHANGED << store, off, count, key, lin, lres >>
LStep == /\ lres = -2
         /\ IF lin >= count THEN lres' = -1 /\ UNCHANGED lin
            ELSE IF At(lin) = key THEN lres' = lin /\ UNCHANGED lin ELSE lin' = lin + 1 /\ UNCHANGED lres
         /\ UNCHANGED << store, off, count, key, left, right, bres >>
Next == BStep \/ LStep
Spec == Init /\ [][Next]_vars /\ WF_vars(BStep) /\ WF_vars(LStep)

Written == \E i \in 0..(count - 1) : At(i) = key
InWindow == 0 <= left /\ left <= right /\ right <= count
BinOk == bres # -2 => (bres >= 0 <=> Written) /\ (bres >= 0 => bres < count /\ At(bres) = key)
LinOk == lres # -2 => (lres >= 0 <=> Written) /\ (lres >= 0 => lres < count /\ At(lres) = key)
Agree == bres # -2 /\ lres # -2 => (bres >= 0 <=> lres >= 0)
\* what binary search has excluded does not hold the key
Excluded == \A i \in 0..(count - 1) : (i < left \/ i >= right) => At(i) # key \/ bres >= 0
Done == <>(bres # -2 /\ lres # -2)
=============================================================================
