---------------------------- MODULE AtomicCreate ----------------------------
(* Creation of a container by the high-level creator, seen from the file system (C09).
   Files: E the entry point (the path given by the user), C the content pack, X an extra content pack, D the directory
   pack. The main thread follows a program of operations; the clusters of a content pack are written by a thread of
   their own and joined when the pack is finished. Any operation may fail, may be cut short, and the process may die
   between any two operations; the creation may then be tried again over what was left. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Mode,      \* "one" | "two" | "none"
          Extra,     \* is there an extra pack
          Before,    \* are there complete files at the destination already
          Attempts,  \* number of creations
          Faults,    \* number of operations which may fail in a creation
          Fault      \* planted design fault, "none" for the design

AllFiles == {"E", "C", "X", "D"}
Files == {"E"} \cup (IF Mode # "one" THEN {"C"} ELSE {}) \cup (IF Extra THEN {"X"} ELSE {}) \cup (IF Mode = "none" THEN {"D"} ELSE {})
Data == IF Mode = "one" THEN "E" ELSE "C"    \* the file which receives the clusters of the main content pack
ExtraAdds == IF Extra THEN << <<"open", "X">>, <<"add", "X">> >> ELSE <<>>
ExtraEnd == IF Extra THEN << <<"join", "X">>, <<"write", "X">>, <<"close", "X">> >> ELSE <<>>
Base ==
  << <<"open", Data>>, <<"write", Data>>, <<"add", Data>> >> \o ExtraAdds \o << <<"add", Data>>, <<"join", Data>>, <<"write", Data>> >>
  \o (IF Mode = "one" THEN <<>> ELSE << <<"close", "C">> >>)
  \o (IF Mode = "two" THEN << <<"open", "E">>, <<"write", "E">> >> ELSE <<>>)
  \o ExtraEnd
  \o (IF Mode = "none" THEN << <<"open", "D">>, <<"write", "D">>, <<"close", "D">>, <<"open", "E">> >> ELSE << <<"write", "E">> >>)
  \o << <<"write", "E">> >>                                          \* the manifest
  \o (IF Mode = "none" THEN <<>> ELSE << <<"write", "E">> >>)        \* the locators of the container
  \o << <<"close", "E">> >>
Without(p, x) == SelectSeq(p, LAMBDA o : o # x)
Program ==
  CASE Fault = "entry_first" -> LET x == <<"close", IF Extra THEN "X" ELSE "C">> IN Append(Without(Base, x), x)
    [] Fault = "rename_early" -> Append(SubSeq(Base, 1, Len(Base) - 2), <<"close", "E">>) \o << <<"write", "E">> >>
    [] OTHER -> Base
Total(f) == Cardinality({ i \in 1..Len(Base) : Base[i] \in { <<"write", f>>, <<"add", f>> } })

Absent == [gen |-> 0, n |-> 0, junk |-> FALSE]
Closed == [st |-> "none", n |-> 0, junk |-> FALSE]

VARIABLES final,   \* what is found at the path of each file
          temp,    \* the temporary file of each file: none, open, renamed (the same inode is now at the final path)
          left,    \* chunks left by a dead creation in a temporary file with a fixed name (planted fault)
          queue,   \* chunks the writing thread of the file still has to write
          bad,     \* did the writing thread of the file fail
          pc, sub, \* next operation, and progress inside it (planted faults only)
          status,  \* "run" | "ok" | "error" | "dead"
          gen, faults
vars == << final, temp, left, queue, bad, pc, sub, status, gen, faults >>

Init ==
  /\ final = [f \in Files |-> IF Before THEN [gen |-> 1, n |-> Total(f), junk |-> FALSE] ELSE Absent]
  /\ temp = [f \in Files |-> Closed] /\ left = [f \in Files |-> 0]
  /\ queue = [f \in Files |-> 0] /\ bad = [f \in Files |-> FALSE]
  /\ pc = 1 /\ sub = 0 /\ status = "run" /\ gen = 2 /\ faults = 0

Op == Program[pc]
\* one more chunk in the file behind the descriptor of f
Put(f) ==
  IF temp[f].st = "renamed" THEN final' = [final EXCEPT ![f].n = @ + 1] /\ UNCHANGED temp
                            ELSE temp' = [temp EXCEPT ![f].n = @ + 1] /\ UNCHANGED final
Step == pc' = pc + 1 /\ status' = (IF pc = Len(Program) THEN "ok" ELSE "run") /\ sub' = 0
\* the operation fails: the creation is given up, the temporary files are removed
Give(f) == /\ status' = "error" /\ UNCHANGED << pc, sub, left >>
           /\ final' = IF Fault = "persist_on_drop" /\ temp[f].st = "open"
                       THEN [final EXCEPT ![f] = [gen |-> gen, n |-> temp[f].n, junk |-> FALSE]] ELSE final
           /\ UNCHANGED << temp, queue, bad, gen >>

Open(f) == /\ IF Fault = "in_place"
              THEN /\ final' = [final EXCEPT ![f] = [gen |-> gen, n |-> 0, junk |-> FALSE]]
                   /\ temp' = [temp EXCEPT ![f] = [st |-> "renamed", n |-> 0, junk |-> FALSE]]
              ELSE /\ temp' = [temp EXCEPT ![f] = [st |-> "open", n |-> 0, junk |-> left[f] > 0]]
                   /\ UNCHANGED final
           /\ UNCHANGED << left, queue, bad, gen, faults >> /\ Step
Add(f) == queue' = [queue EXCEPT ![f] = @ + 1] /\ UNCHANGED << final, temp, left, bad, gen, faults >> /\ Step
Write(f) == Put(f) /\ UNCHANGED << left, queue, bad, gen, faults >> /\ Step
\* the system writes less than asked: the rest is written by the next call (no step) unless the design forgets it
ShortWrite(f) == Fault = "short_ignored" /\ UNCHANGED << final, temp, left, queue, bad, gen, faults >> /\ Step
Join(f) == /\ queue[f] = 0 \/ bad[f]
           /\ \/ (~bad[f] \/ Fault = "swallow") /\ queue' = [queue EXCEPT ![f] = 0] /\ UNCHANGED << final, temp, left, bad, gen, faults >> /\ Step
              \/ bad[f] /\ Fault # "swallow" /\ Give(f) /\ UNCHANGED faults
Rename(f) == /\ final' = [final EXCEPT ![f] = [gen |-> gen, n |-> temp[f].n, junk |-> temp[f].junk]]
             /\ temp' = [temp EXCEPT ![f].st = "renamed"]
Close(f) ==
  CASE temp[f].st = "renamed" -> UNCHANGED << final, temp, left, queue, bad, gen, faults >> /\ Step
    [] Fault = "unlink_first" /\ sub = 0 -> final' = [final EXCEPT ![f] = Absent] /\ sub' = 1 /\ UNCHANGED << temp, left, queue, bad, pc, status, gen, faults >>
    [] Fault = "copy" /\ sub < temp[f].n -> /\ final' = [final EXCEPT ![f] = [gen |-> gen, n |-> sub + 1, junk |-> FALSE]] /\ sub' = sub + 1
                                            /\ UNCHANGED << temp, left, queue, bad, pc, status, gen, faults >>
    [] OTHER -> Rename(f) /\ UNCHANGED << left, queue, bad, gen, faults >> /\ Step
\* the thread of f writes a cluster
Work(f) == /\ status # "dead" /\ queue[f] > 0 /\ ~bad[f]
           /\ queue' = [queue EXCEPT ![f] = @ - 1] /\ Put(f)
           /\ UNCHANGED << left, bad, pc, sub, status, gen, faults >>
WorkFails(f) == /\ status # "dead" /\ queue[f] > 0 /\ ~bad[f] /\ faults < Faults
                /\ bad' = [bad EXCEPT ![f] = TRUE] /\ faults' = faults + 1
                /\ UNCHANGED << final, temp, left, queue, pc, sub, status, gen >>
Main == /\ status = "run"
        /\ LET f == Op[2] IN
           CASE Op[1] = "open" -> Open(f) [] Op[1] = "add" -> Add(f) [] Op[1] = "write" -> Write(f) \/ ShortWrite(f)
             [] Op[1] = "join" -> Join(f) [] Op[1] = "close" -> Close(f)
Fails == /\ status = "run" /\ Op[1] \in {"open", "write", "close"} /\ faults < Faults
         /\ faults' = faults + 1
         /\ \/ Give(Op[2])
            \/ /\ Fault = "rename_ignored" /\ Op[1] = "close" /\ Op[2] # "E"
               /\ UNCHANGED << final, temp, left, queue, bad, gen >> /\ Step
Dies == /\ status = "run" /\ status' = "dead"
        /\ left' = IF Fault = "fixed_temp" THEN [f \in Files |-> IF temp[f].st = "open" THEN temp[f].n ELSE left[f]] ELSE left
        /\ UNCHANGED << final, temp, queue, bad, pc, sub, gen, faults >>
Again == /\ status \in {"error", "dead", "ok"} /\ gen < 1 + Attempts
         /\ \A f \in Files : queue[f] = 0 \/ status = "dead" \/ bad[f]
         /\ gen' = gen + 1 /\ status' = "run" /\ pc' = 1 /\ sub' = 0 /\ faults' = 0
         /\ temp' = [f \in Files |-> Closed] /\ queue' = [f \in Files |-> 0] /\ bad' = [f \in Files |-> FALSE]
         /\ UNCHANGED << final, left >>
Next == Main \/ Fails \/ Dies \/ Again \/ (\E f \in Files : Work(f) \/ WorkFails(f))
Spec == Init /\ [][Next]_vars /\ WF_vars(Main) /\ \A f \in Files : WF_vars(Work(f))
-----------------------------------------------------------------------------
Whole(f) == final[f].n = Total(f) /\ ~final[f].junk
\* every path holds nothing or a complete file
NothingPartial == \A f \in Files : final[f] = Absent \/ Whole(f)
\* the entry point of this creation is there only with all its packs
EntryLast == final["E"].gen = gen => \A f \in Files : final[f].gen = gen /\ Whole(f)
\* success means that the new container is there
Success == status = "ok" => final["E"].gen = gen
\* what was at a path is never lost, only replaced
NeverLost == [][\A f \in Files : final[f] # Absent => final'[f] # Absent]_vars
\* an undisturbed creation ends
Ends == <>(status # "run")
\* the states of the final paths that can be found (for the coverage of the replay)
Vector == [f \in Files |-> IF final[f] = Absent THEN "absent" ELSE IF final[f].gen = 1 THEN "prev" ELSE "new"]
Emit == PrintT("CASE " \o ToJson([mode |-> Mode, extra |-> Extra, before |-> Before, status |-> status, v |-> Vector]))
=============================================================================
