------------------------------ MODULE Packaging ------------------------------
(***************************************************************************)
(* Histories of operations on the worlds of Packages, and what has to      *)
(* remain true of them (C10, C11).                                         *)
(***************************************************************************)
EXTENDS Packages, Json

CONSTANTS Modes,      \* initial packagings: "one", "two", "none", "manual"
          NContents,  \* set of numbers of content packs
          MaxSteps,
          Bases, SubBases, \* base names files may get, in the folder and in the sub-folder
          Ops,        \* the operations allowed
          MaxCat      \* inputs of a concatenation, at most

VARIABLES fs, mode, n, hist
vars == << fs, mode, n, hist >>

Names == ({ "" } \X Bases) \cup ({ "sub" } \X SubBases)
View == << fs, mode, n, Len(hist) >>

Disjoint(w, s) == \A i, j \in 1..Len(s) : i # j => Uuids(w[s[i]]) \cap Uuids(w[s[j]]) = {}
\* a container file holds one manifest
OneManifest(w, s) == Cardinality({ i \in 1..Len(s) : Has(w[s[i]], "M") \/ Has(w[s[i]], "xM") }) <= 1
Perms(w, S) == { s \in UNION { [1..k -> S] : k \in 1..MaxCat } : \A i, j \in DOMAIN s : i # j => s[i] # s[j] }
Moves(w, k) ==
  LET files == { x \in DOMAIN w : IsFile(w, x) }
      free == { x \in DOMAIN w : w[x].k # "dir" }
      heads == { x \in files : ~w[x].pre }
  IN
  { Op("concat", s, d, "", NoName) : s \in { s \in Perms(w, heads) : Disjoint(w, s) /\ OneManifest(w, s) }, d \in free }
  \cup { Op("prefix", << a >>, NoName, "", NoName) : a \in { x \in files : ~w[x].pre } }
  \cup { Op("move", << a >>, d, "", NoName) : a \in files, d \in free }
  \cup { Op("copy", << a >>, d, "", NoName) : a \in files, d \in free }
  \cup { Op("remove", << a >>, NoName, "", NoName) : a \in files }
  \cup { Op("mkdir", << a >>, NoName, "", NoName) : a \in DOMAIN w \ { x \in DOMAIN w : w[x].k = "dir" } }
  \cup { Op("other", << a >>, NoName, u, NoName) : a \in free, u \in { "bare", "whole" } }
  \cup UNION { { Op("damage", << a >>, NoName, u, NoName) : u \in { u \in Ids(k) : << u, FALSE >> \in w[a].ps } } : a \in files }
  \cup UNION { { Op("setloc", << a >>, NoName, u, l) : u \in Ids(k) \ { "M" }, l \in (DOMAIN w \cup { NoName }) } : a \in { x \in heads : << "M", FALSE >> \in w[x].ps } }
Ok(o) == o.op \in Ops /\ (o.op \in { "move", "copy" } => o.dst # o.src[1])
         \* like cat, the tool writes its output in place: the output is not one of the inputs
         /\ (o.op = "concat" => \A i \in 1..Len(o.src) : o.src[i] # o.dst)

\* ------------------------------------------------------------ the model
Init == /\ mode \in Modes /\ n \in NContents
        /\ (mode # "manual" => n >= 1)
        /\ fs = InitFs(mode, n, Names)
        /\ hist = <<>>
Do(what) == /\ Len(hist) < MaxSteps /\ what \in Ops
            /\ \E o \in Moves(fs, n) :
                 /\ o.op = what /\ Ok(o)
                 /\ fs' = Apply(fs, o)
                 /\ hist' = Append(hist, o)
            /\ UNCHANGED << mode, n >>
\* one action per operation: random walks choose the operation first
Next == Do("concat") \/ Do("prefix") \/ Do("move") \/ Do("copy") \/ Do("remove") \/ Do("mkdir") \/ Do("other") \/ Do("damage") \/ Do("setloc")
Spec == Init /\ [][Next]_vars

Mains(w) == { x \in DOMAIN w : IsFile(w, x) /\ Has(w[x], "M") }
\* C10 --------------------------------------------------------
\* a container just created is complete
Fresh == hist = <<>> => \A x \in Mains(fs) : Opens(fs, x) /\ Missing(fs, x, n) = {}
\* everything in one file: nothing else matters
Autonomous == \A x \in Mains(fs) : Ids(n) \subseteq Uuids(fs[x]) =>
                 /\ Opens(fs, x) /\ Missing(fs, x, n) = {}
                 /\ \A u \in Ids(n) \ { "M" } : Place(fs, x, u) = x
\* a pack is known by its identity
Identity == \A x \in Mains(fs) : \A u \in Ids(n) \ { "M" } : Place(fs, x, u) # NoName => Has(fs[Place(fs, x, u)], u)
\* embedding at the end of another file changes nothing for any reader; concatenating all the files gives a complete one
Repackaging ==
  [][LET o == hist'[Len(hist')] IN
     /\ o.op = "prefix" => \A x \in Mains(fs) : Missing(fs', x, n) = Missing(fs, x, n) /\ Opens(fs', x) = Opens(fs, x)
     /\ o.op = "concat" /\ UNION { Uuids(fs[o.src[i]]) : i \in DOMAIN o.src } = Ids(n) => Opens(fs', o.dst) /\ Missing(fs', o.dst, n) = {}
     /\ o.op = "damage" => \A x \in Mains(fs) : Missing(fs', x, n) = Missing(fs, x, n)
    ]_vars
\* C11: what is available is not made unavailable by the loss of another pack
OthersStay ==
  [][LET o == hist'[Len(hist')] IN
     o.op \in { "remove", "mkdir", "other" } =>
        \A x \in Mains(fs) : x # o.src[1] => \A u \in Ids(n) \ { "M" } :
           Place(fs, x, u) # o.src[1] => Place(fs', x, u) = Place(fs, x, u) \/ Place(fs, x, u) = NoName
    ]_vars
Emit == Len(hist) = MaxSteps => PrintT("CASE " \o ToJson([mode |-> mode, n |-> n, hist |-> hist]))
\* one loss per content pack, in order: every subset of the packs, every kind of loss
Rank(x) == CASE x[2] \in { "p1", "c" } -> 1 [] x[2] = "p2" -> 2 [] x[2] = "p3" -> 3 [] OTHER -> 0
Target(o) == IF o.op = "copy" THEN o.dst ELSE o.src[1]
InOrder == \A i \in 1..Len(hist) : Rank(Target(hist[i])) > 0 /\ (hist[i].op = "copy" => Rank(hist[i].src[1]) > 0)
                                    /\ (i > 1 => Rank(Target(hist[i])) > Rank(Target(hist[i - 1])))
EmitAll == InOrder => PrintT("CASE " \o ToJson([mode |-> mode, n |-> n, hist |-> hist]))
=============================================================================
