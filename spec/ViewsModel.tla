----------------------------- MODULE ViewsModel ------------------------------
(***************************************************************************)
(* All sequences of operations on the views of a content of N bytes which  *)
(* starts at byte B of a source of L bytes: the absolute representation    *)
(* always shows the bytes of the range the user means.                     *)
(***************************************************************************)
EXTENDS Views, Json
CONSTANTS N, B, L, MaxSteps, MaxViews

VARIABLES vs, ws, hist, seen
vars == << vs, ws, hist, seen >>

\* `seen`: the bytes (positions of the source) the last operation showed, and the ones it had to show
Init == vs = << Whole(N) >> /\ ws = << I("region", B, B + N, 0) >> /\ hist = <<>> /\ seen = << <<>>, <<>> >>
Range(a, b) == [i \in 1..(b - a) |-> a + i - 1]
Do(o) ==
  LET v == vs[o.h]  w == ws[o.h] IN
  /\ Len(hist) < MaxSteps
  /\ Allowed(v, o.op) /\ InRange(v, o)
  /\ hist' = Append(hist, o)
  /\ IF o.op \in Creates
     THEN /\ Len(vs) < MaxViews
          /\ vs' = Append(vs, New(v, o)) /\ ws' = Append(ws, INew(w, o))
          /\ seen' = << <<>>, <<>> >>
     ELSE IF o.op = "get"
     THEN /\ UNCHANGED << vs, ws >>
          /\ seen' = << Range(B + v.lo + o.o, B + v.lo + o.o + o.s), Range(w.b + o.o, w.b + o.o + o.s) >>
     ELSE \* a read returns at most what is left, and something if it can
          \E k \in (IF o.op = "toend" THEN { v.hi - v.cur }
                    ELSE IF Min(o.s, v.hi - v.cur) = 0 THEN { 0 } ELSE 1..Min(o.s, v.hi - v.cur)) :
            LET j == IF Fault = "overrun" /\ o.op = "read" THEN o.s ELSE k IN
            /\ vs' = [vs EXCEPT ![o.h].cur = @ + k] /\ ws' = [ws EXCEPT ![o.h].c = @ + j]
            /\ seen' = << Range(B + v.cur, B + v.cur + k), Range(w.c, w.c + j) >>
Op(op, h, o, s) == [op |-> op, h |-> h, o |-> o, s |-> s]
Next == \/ \E h \in 1..Len(vs), o \in 0..N, s \in 0..N : Do(Op("cut", h, o, s))
        \/ \E h \in 1..Len(vs), o \in 0..N, s \in 0..N : Do(Op("get", h, o, s))
        \/ \E h \in 1..Len(vs), op \in { "as_slice", "to_region" } : Do(Op(op, h, 0, 0))
        \/ \E h \in 1..Len(vs), op \in { "stream", "into_stream" } : Do(Op(op, h, 0, 0))
        \/ \E h \in 1..Len(vs), s \in 0..N + 1 : Do(Op("read", h, 0, s))
        \/ \E h \in 1..Len(vs) : Do(Op("toend", h, 0, 0))
Spec == Init /\ [][Next]_vars
View == << vs, ws, seen, Len(hist) >>

SameBytes == seen[1] = seen[2]
SameSizes == \A h \in 1..Len(vs) : Told(vs[h]) = ITold(ws[h])
Inside == \A h \in 1..Len(vs) : LET v == vs[h] IN
            /\ 0 <= v.lo /\ v.lo <= v.hi /\ v.hi <= N
            /\ v.k = "stream" => v.lo <= v.cur /\ v.cur <= v.hi
            /\ B <= ws[h].b /\ ws[h].e <= B + N
Emit == Len(hist) = MaxSteps => PrintT("CASE " \o ToJson([hist |-> hist]))
=============================================================================
