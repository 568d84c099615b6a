----------------------------- MODULE AtomicCase -----------------------------
(* C09 on recorded creations of the real creator which were interrupted (harness/src/atomic.rs): what is found at the final
   paths after the process ended. The clauses are the invariants of AtomicCreate on the observed file system: files[1] is
   the entry point. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Clause(name, ok) == IF ok THEN TRUE ELSE PrintT("CLAUSE " \o name) /\ FALSE

\* every path holds nothing or a complete file
NothingPartial(s) == \A i \in 1..Len(s.files) : LET f == s.files[i] IN f.is = "new" => f.whole /\ f.verified
\* what was at a path is never lost, only replaced
NeverLost(s) == \A i \in 1..Len(s.files) : LET f == s.files[i] IN
                  /\ f.is \in {"absent", "prev", "new", "obstacle"}
                  /\ s.had[i] => f.is # "absent"
                  /\ s.stuck = i => f.is = "obstacle"
\* the entry point of this creation is there only with all its packs, and is the container which was asked for
EntryLast(s) == s.files[1].is = "new" => s.opens /\ s.check /\ s.found /\ s.same

State(s) == /\ Clause("partial", NothingPartial(s))
            /\ Clause("lost", NeverLost(s))
            /\ Clause("entry", EntryLast(s))
Judge(e) == State(e.plain) /\ \A g \in 1..Len(e.groups) : State(e.groups[g].state)

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN IF Judge(e) THEN TRUE ELSE PrintT("CASE-REJECTED " \o ToString(l))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Judged == PrintT("CASES-JUDGED " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
