---------------------------- MODULE DamageModel ----------------------------
(***************************************************************************)
(* Integrity of a container, abstractly (C04, C05).                        *)
(*                                                                         *)
(* A pack is a row of cells.  A block is << b, "data" >> << b, "crc" >>:   *)
(* what is read in a block is used only when its CRC agrees.  The digest   *)
(* of a pack covers every cell before its check block, but the location    *)
(* cells of a manifest.  Damage alters a set of cells (a digest or a CRC   *)
(* which is altered never agrees: collisions are not storage damage).      *)
(* With Forge, the CRC of the altered blocks may be recomputed: the digest *)
(* alone has to see the damage (C04 speaks of any change; C05 does not     *)
(* hold then, and no check can see a check block which is forged).         *)
(* The reader opens the container, reads all the structure, reads the      *)
(* contents, and runs the checks, in any order; Fault is a planted design  *)
(* error.                                                                  *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets

CONSTANTS Packs,        \* e.g. {"m", "d", "c1", "c2"}
          MaxDamage,    \* cells which are altered
          Forge,        \* whether the CRC of altered blocks are recomputed
          Fault

Kind(p) == CASE p = "m" -> "m" [] p = "d" -> "d" [] OTHER -> "c"
\* the blocks of a pack
Blocks(p) == {"header", "subheader", "table"}
               \cup (IF Kind(p) = "m" THEN {"info"} ELSE {})
               \cup (IF Kind(p) = "d" THEN {"index", "store"} ELSE {})
               \cup (IF Kind(p) = "c" THEN {"clustertail"} ELSE {})
\* cells: CRC-protected blocks, the location in the block of a pack info, the data of the cluster, the check block, the mirrored header
Cells(p) == { << p, b, x >> : b \in Blocks(p), x \in {"data", "crc"} }
              \cup { << p, "check", x >> : x \in {"data", "crc"} }
              \cup { << p, "tail", "data" >> }
              \cup (IF Kind(p) = "m" THEN { << p, "info", "loc" >> } ELSE {})
              \cup (IF Kind(p) = "c" THEN { << p, "cluster", "raw" >> } ELSE {})
All == UNION { Cells(p) : p \in Packs }

\* what the digest covers
Masked == { << "m", "info", "loc" >>, << "m", "info", "crc" >> }
Covered(p) == { c \in Cells(p) : c[2] \notin {"check", "tail"} } \ Masked
CheckBlock(p) == { << p, "check", "data" >>, << p, "check", "crc" >> }

VARIABLES damage,    \* the cells which are altered
          forged,    \* the blocks << pack, block >> whose CRC is recomputed
          done,      \* the actions of the reader which have run
          seen,      \* structure given to the user: << pack, block, "same" | "other" >>
          bytes,     \* contents given to the user: << pack, "same" | "other" >>
          verdict,   \* [pack or "all" -> "ok" | "bad" | "err"]
          refused    \* << pack, block >> where the access failed
vars == << damage, forged, done, seen, bytes, verdict, refused >>

BlockCells(p, b) == { c \in Cells(p) : c[2] = b }
CrcSeesIt(p, b) ==
  CASE << p, b >> \in forged -> FALSE
    [] Fault = "nocrc_store" /\ b = "store" -> FALSE
    [] Fault = "nocrc_info" /\ b = "info" -> FALSE
    [] Fault = "narrow_crc" /\ b = "table" -> damage \cap {<< p, b, "crc" >>} # {}
    [] OTHER -> damage \cap BlockCells(p, b) # {}
\* reading a block
Refuses(p, b) == CrcSeesIt(p, b)
Value(p, b) == IF damage \cap (BlockCells(p, b) \ {<< p, b, "crc" >>}) = {} THEN "same" ELSE "other"

\* the blocks which must be read before one can use this one
Needs(p, b) == CASE b = "header" -> {}
                 [] b = "subheader" -> {"header"}
                 [] OTHER -> {"header", "subheader"}
Reach(p, b) == /\ \A x \in Needs(p, b) : ~Refuses(p, x)
               /\ p # "m" => ~Refuses("m", "header") /\ ~Refuses("m", "subheader") /\ ~Refuses("m", "info")

Hashed(p) == CASE Fault = "short_hash" -> { c \in Covered(p) : c[2] # "clustertail" }
               [] Fault = "wide_mask" -> { c \in Covered(p) : c[2] # "info" }
               [] OTHER -> Covered(p)
CheckPack(p) ==
  IF Refuses(p, "header") \/ Refuses(p, "subheader") THEN "err"
  ELSE IF Kind(p) = "m" /\ Refuses(p, "info") THEN "err"
  ELSE IF damage \cap CheckBlock(p) # {} /\ Fault # "check_block" THEN "err"
  ELSE IF damage \cap Hashed(p) # {} THEN "bad" ELSE "ok"
Worst(S) == IF "err" \in S THEN "err" ELSE IF "bad" \in S THEN "bad" ELSE "ok"
CheckAll == LET ps == IF Fault = "first_only" THEN { p \in Packs : p # "c2" } ELSE Packs
            IN Worst({ CheckPack(p) : p \in ps })

Init == /\ damage \in {{}} \cup { { f[i] : i \in 1..MaxDamage } : f \in [1..MaxDamage -> All] }
        /\ forged \in IF Forge THEN { {} , { << c[1], c[2] >> : c \in { x \in damage : x[2] # "check" } } } ELSE {{}}
        /\ done = {} /\ seen = {} /\ bytes = {} /\ verdict = [x \in Packs \cup {"all"} |-> "none"] /\ refused = {}

Structure(p) == /\ << "structure", p >> \notin done
                /\ done' = done \cup { << "structure", p >> }
                /\ seen' = seen \cup { << p, b, Value(p, b) >> : b \in { x \in Blocks(p) : Reach(p, x) /\ ~Refuses(p, x) } }
                /\ refused' = refused \cup { << p, b >> : b \in { x \in Blocks(p) : ~(Reach(p, x) /\ ~Refuses(p, x)) } }
                /\ UNCHANGED << damage, forged, bytes, verdict >>
Content(p) == /\ Kind(p) = "c" /\ << "content", p >> \notin done
              /\ done' = done \cup { << "content", p >> }
              /\ IF Reach(p, "clustertail") /\ ~Refuses(p, "clustertail") /\ ~Refuses(p, "table")
                 THEN bytes' = bytes \cup { << p, IF << p, "cluster", "raw" >> \in damage THEN "other" ELSE "same" >> }
                 ELSE bytes' = bytes
              /\ UNCHANGED << damage, forged, seen, verdict, refused >>
Check(p) == /\ verdict[p] = "none"
            /\ verdict' = [verdict EXCEPT ![p] = IF p = "all" THEN CheckAll ELSE CheckPack(p)]
            /\ UNCHANGED << damage, forged, done, seen, bytes, refused >>
Next == \/ \E p \in Packs : Structure(p)
        \/ \E p \in Packs : Content(p)
        \/ \E p \in Packs \cup {"all"} : Check(p)
\* all at once, one step per damage (the actions do not depend on each other): for more damage
Step == /\ done = {}
        /\ done' = { << "all" >> }
        /\ seen' = UNION { { << p, b, Value(p, b) >> : b \in { x \in Blocks(p) : Reach(p, x) /\ ~Refuses(p, x) } } : p \in Packs }
        /\ refused' = UNION { { << p, b >> : b \in { x \in Blocks(p) : ~(Reach(p, x) /\ ~Refuses(p, x)) } } : p \in Packs }
        /\ bytes' = { << p, IF << p, "cluster", "raw" >> \in damage THEN "other" ELSE "same" >> :
                        p \in { q \in Packs : Kind(q) = "c" /\ Reach(q, "clustertail") /\ ~Refuses(q, "clustertail") /\ ~Refuses(q, "table") } }
        /\ verdict' = [x \in Packs \cup {"all"} |-> IF x = "all" THEN CheckAll ELSE CheckPack(x)]
        /\ UNCHANGED << damage, forged >>
Spec == Init /\ [][Next]_vars
SpecStep == Init /\ [][Step]_vars

\* C04
Detects == \A p \in Packs : damage \cap (Covered(p) \cup CheckBlock(p)) # {} => verdict[p] # "ok" /\ verdict["all"] # "ok"
Pristine == damage = {} => \A x \in Packs \cup {"all"} : verdict[x] \in {"none", "ok"}
\* only the mirrored header is outside of everything
Unharmed == damage \subseteq { << p, "tail", "data" >> : p \in Packs } => \A x \in Packs \cup {"all"} : verdict[x] \in {"none", "ok"}
\* C05
StructureSame == forged = {} => \A s \in seen : s[3] = "same"
ContentSeen == forged = {} => \A b \in bytes : b[2] = "other" => verdict["all"] # "ok"
=============================================================================
