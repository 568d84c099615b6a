------------------------------ MODULE Manifest ------------------------------
(***************************************************************************)
(* The manifest and the rewriting of pack locations.                       *)
(*                                                                         *)
(* A manifest file is a header, one block per pack (fixed description,     *)
(* location, checksum of both) and a global checksum, computed once over   *)
(* the header and the fixed descriptions.  SetLocation rewrites one block  *)
(* in place: reading it, replacing its location and writing it back with a *)
(* fresh checksum.  Checksums are collision free here: the value summed.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NPacks, Locs, MaxSteps, Fault

VARIABLES file, hist, told

vars == << file, hist, told >>

Packs == 1..NPacks
Unknown == 0
Fixed(p) == << "pack", p >>
Sum(f, l) == << "crc", f, l >>
GlobalSum(blocks) == [p \in Packs |-> IF Fault = "fullcheck" THEN blocks[p] ELSE blocks[p].fixed]
FirstLoc == CHOOSE l \in Locs : TRUE

Init == /\ LET b == [p \in Packs |-> [fixed |-> Fixed(p), loc |-> FirstLoc, crc |-> Sum(Fixed(p), FirstLoc)]]
           IN file = [blocks |-> b, check |-> GlobalSum(b)]
        /\ hist = <<>> /\ told = <<>>

Target(p) == IF Fault = "neighbour" /\ p < NPacks /\ Len(hist) > 0 THEN p + 1 ELSE p
SetLocation(p, l) ==
  LET t == Target(p)
      b == file.blocks[t]
      new == [fixed |-> IF Fault = "neighbour" THEN file.blocks[p].fixed ELSE b.fixed, loc |-> l,
              crc |-> IF Fault = "nocrc" THEN b.crc ELSE Sum(b.fixed, l)]
  IN /\ Len(hist) < MaxSteps
     /\ file' = [file EXCEPT !.blocks[t] = new]
     /\ hist' = Append(hist, << p, l >>)
     /\ told' = Append(told, << "ok", file.blocks[p].loc >>)
SetUnknown(l) == /\ Len(hist) < MaxSteps
                 /\ UNCHANGED file
                 /\ hist' = Append(hist, << Unknown, l >>)
                 /\ told' = Append(told, << "none", "" >>)
Next == \E l \in Locs : SetUnknown(l) \/ \E p \in Packs : SetLocation(p, l)
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ C12
\* the location of pack p after the history
RECURSIVE LastLoc(_, _)
LastLoc(p, n) == IF n = 0 THEN FirstLoc ELSE IF hist[n][1] = p THEN hist[n][2] ELSE LastLoc(p, n - 1)
BlocksVerify == \A p \in Packs : file.blocks[p].crc = Sum(file.blocks[p].fixed, file.blocks[p].loc)
GlobalVerifies == file.check = GlobalSum(file.blocks)
OnlyThatLocation == \A p \in Packs : file.blocks[p].fixed = Fixed(p) /\ file.blocks[p].loc = LastLoc(p, Len(hist))
OldLocationTold == \A n \in 1..Len(hist) :
  told[n] = IF hist[n][1] = Unknown THEN << "none", "" >> ELSE << "ok", LastLoc(hist[n][1], n - 1) >>
Emit == Len(hist) = MaxSteps => PrintT("CASE " \o ToJson([hist |-> hist]))
=============================================================================
