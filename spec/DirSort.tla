------------------------------ MODULE DirSort ------------------------------
(***************************************************************************)
(* Design of the finalisation of the entry stores: positions are assigned, *)
(* every sorted store is sorted with a stable sort on keys which may       *)
(* themselves be the positions of other entries (of this or another        *)
(* store), until no store moves or the watchdog runs out.                  *)
(* Init enumerates every assignment of keys and references for the sizes   *)
(* given by the constants.                                                 *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N1, N2,     \* number of rows of the two stores
          KMAX,       \* plain keys are 0..KMAX
          Modes,      \* subset of {"r","c","cr","rc","none"} : key of a store: reference, plain, both
          Emit        \* TRUE: print every terminal state as a case

Rows == 1..(N1 + N2)
Store(r) == IF r <= N1 THEN 1 ELSE 2
Ns(s) == IF s = 1 THEN N1 ELSE N2
Stores == IF N2 = 0 THEN {1} ELSE {1, 2}

VARIABLES ref, plain, mode, order, moved, cur, left, phase, handle

vars == << ref, plain, mode, order, moved, cur, left, phase, handle >>

SetFirst(s) == IF s = 1 THEN 1 ELSE N1 + 1
Pos(ord, r) == (CHOOSE i \in 1..Ns(Store(r)) : ord[Store(r)][i] = r) - 1

Key(ord, r) ==
  LET m == mode[Store(r)]
      p == Pos(ord, ref[r])
  IN CASE m = "r" -> << p >>
       [] m = "c" -> << plain[r] >>
       [] m = "cr" -> << plain[r], p >>
       [] m = "rc" -> << p, plain[r] >>
       [] OTHER -> << >>

RECURSIVE Lex(_, _, _)
Lex(a, b, i) == IF i > Len(a) THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE Lex(a, b, i + 1)
Leq(ord, a, b) == Lex(Key(ord, a), Key(ord, b), 1) <= 0

Sorted(ord, s) == \A i \in 1..(Ns(s) - 1) : Leq(ord, ord[s][i], ord[s][i + 1])

\* stable sort of store s: keys are those of the order before the sort
StableSort(ord, s) ==
  LET rank(r) == Cardinality({ q \in { ord[s][i] : i \in 1..Ns(s) } :
                     \/ Lex(Key(ord, q), Key(ord, r), 1) < 0
                     \/ Lex(Key(ord, q), Key(ord, r), 1) = 0 /\ Pos(ord, q) < Pos(ord, r) }) + 1
      rk == [ i \in 1..Ns(s) |-> rank(ord[s][i]) ]
  IN [ k \in 1..Ns(s) |-> ord[s][CHOOSE i \in 1..Ns(s) : rk[i] = k] ]

ModeUses(m, x) == \E i \in 1..1 : (x = "r" /\ m \in {"r", "cr", "rc"}) \/ (x = "c" /\ m \in {"c", "cr", "rc"})

Init ==
  /\ mode \in [Stores -> Modes]
  /\ ref \in [Rows -> Rows]
  /\ plain \in [Rows -> 0..KMAX]
  /\ \A r \in Rows : ~ModeUses(mode[Store(r)], "c") => plain[r] = 0
  /\ order = [s \in Stores |-> [i \in 1..Ns(s) |-> SetFirst(s) + i - 1]]
  /\ moved = FALSE /\ cur = 1 /\ phase = "sorting"
  /\ left = N1 + N2 + 2
  /\ handle = [r \in Rows |-> -1]

\* one store of one iteration
SortStore ==
  /\ phase = "sorting" /\ cur \in Stores
  /\ IF mode[cur] # "none" /\ ~Sorted(order, cur)
     THEN order' = [order EXCEPT ![cur] = StableSort(order, cur)] /\ moved' = TRUE
     ELSE UNCHANGED << order, moved >>
  /\ cur' = cur + 1
  /\ UNCHANGED << ref, plain, mode, left, phase, handle >>

EndIteration ==
  /\ phase = "sorting" /\ cur \notin Stores
  /\ IF ~moved THEN /\ phase' = "final"
                    /\ handle' = [r \in Rows |-> Pos(order, r)]
                    /\ UNCHANGED << left, cur, moved >>
     ELSE /\ left' = left - 1
          /\ phase' = IF left' = 0 THEN "failed" ELSE phase
          /\ cur' = 1 /\ moved' = FALSE
          /\ UNCHANGED handle
  /\ UNCHANGED << ref, plain, mode, order >>

Next == SortStore \/ EndIteration
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ------------------------------------------------------------ properties
Perms(s) == { p \in [1..Ns(s) -> SetFirst(s)..(SetFirst(s) + Ns(s) - 1)] : Cardinality({ p[i] : i \in 1..Ns(s) }) = Ns(s) }
Orders == IF N2 = 0 THEN { [s \in {1} |-> p] : p \in Perms(1) }
          ELSE { [s \in {1, 2} |-> IF s = 1 THEN p ELSE q] : p \in Perms(1), q \in Perms(2) }
Identity(s) == [i \in 1..Ns(s) |-> SetFirst(s) + i - 1]
Satisfiable == \E o \in Orders : \A s \in Stores : IF mode[s] = "none" THEN o[s] = Identity(s) ELSE Sorted(o, s)

TypeOK == \A s \in Stores : order[s] \in Perms(s)
\* C15/C03: when the stores are final, they are sorted with regard to the final positions, and the handles are those
FinalSorted == phase = "final" => \A s \in Stores : mode[s] # "none" => Sorted(order, s)
UnsortedKept == \A s \in Stores : mode[s] = "none" => order[s] = Identity(s)
HandlesFinal == phase = "final" => \A r \in Rows : handle[r] = Pos(order, r) /\ order[Store(r)][handle[r] + 1] = r
\* the loop gives up only when no arrangement at all satisfies the keys
FailsOnlyIfImpossible == phase = "failed" => ~Satisfiable
Terminates == <>(phase \in {"final", "failed"})

EmitCase ==
  (Emit /\ phase \in {"final", "failed"}) =>
     PrintT("CASE " \o ToJson([ n1 |-> N1, n2 |-> N2, ref |-> ref, plain |-> plain,
                  mode |-> [i \in 1..Cardinality(Stores) |-> mode[i]], ok |-> phase = "final" ]))
=============================================================================
