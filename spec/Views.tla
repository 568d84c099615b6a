-------------------------------- MODULE Views --------------------------------
(***************************************************************************)
(* The views of a stored content: region, slice and stream.  (C13)         *)
(*                                                                         *)
(* A content is the bytes [base, base + n) of a source.  A view is         *)
(* [k, lo, hi, cur]: a kind ("region", "slice", "stream"), a range of the  *)
(* content and, for a stream, the position of the next byte (relative to   *)
(* the content).  This is what a user means.                               *)
(* The implementation holds, for each view, an absolute region of the      *)
(* source and an absolute cursor: [k, b, e, c].                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Fault       \* "none", or a planted design fault

V(k, lo, hi, cur) == [k |-> k, lo |-> lo, hi |-> hi, cur |-> cur]
Size(v) == v.hi - v.lo
Whole(n) == V("region", 0, n, 0)

\* operations: o = [op, h, o, s], h is the index of the view it is applied to
CanCut(v) == v.k \in { "region", "slice" }
Creates == { "cut", "as_slice", "to_region", "stream", "into_stream" }
Allowed(v, op) ==
  CASE op = "cut" -> CanCut(v)
    [] op = "get" -> CanCut(v)
    [] op = "as_slice" -> v.k = "region"
    [] op = "to_region" -> v.k = "slice"
    [] op = "stream" -> CanCut(v)
    [] op = "into_stream" -> v.k = "region"
    [] op = "read" -> v.k = "stream"
    [] op = "toend" -> v.k = "stream"
InRange(v, o) == o.op \in { "cut", "get" } => o.o + o.s <= Size(v)

\* the view an operation creates
New(v, o) ==
  CASE o.op = "cut" -> V("slice", v.lo + o.o, v.lo + o.o + o.s, 0)
    [] o.op = "as_slice" -> V("slice", v.lo, v.hi, 0)
    [] o.op = "to_region" -> V("region", v.lo, v.hi, 0)
    [] o.op \in { "stream", "into_stream" } -> V("stream", v.lo, v.hi, v.lo)
\* what sizes are told: a stream also tells what is left and where it is
Told(v) == IF v.k = "stream" THEN << Size(v), v.hi - v.cur, v.cur - v.lo >> ELSE << Size(v) >>

\* ------------------------------------------------------------ the implementation
I(k, b, e, c) == [k |-> k, b |-> b, e |-> e, c |-> c]
INew(w, o) ==
  CASE o.op = "cut" -> LET b == IF Fault = "cutabs" THEN o.o ELSE w.b + o.o IN I("slice", b, b + o.s, 0)
    [] o.op = "as_slice" -> I("slice", w.b, w.e, 0)
    [] o.op = "to_region" -> I("region", w.b, w.e, 0)
    [] o.op = "stream" -> I("stream", w.b, w.e, w.b)
    [] o.op = "into_stream" -> I("stream", w.b, w.e, IF Fault = "zero" THEN 0 ELSE w.b)
ITold(w) == IF w.k = "stream" THEN << w.e - w.b, w.e - w.c, IF Fault = "absoffset" THEN w.c ELSE w.c - w.b >> ELSE << w.e - w.b >>
Min(a, b) == IF a < b THEN a ELSE b
=============================================================================
