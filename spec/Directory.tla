----------------------------- MODULE Directory -----------------------------
(***************************************************************************)
(* The logical model of a directory pack: schemas, entries, sorting,       *)
(* references between entries, handles, index windows and lookups.         *)
(*                                                                         *)
(* A directory specification D is a record                                 *)
(*   stores : sequence of [common, variants, sort, rows]                   *)
(*   idx    : sequence of [name, store, count, off]                        *)
(* common is a sequence of properties <<kind, name, ..>> (kind "u" "s" "a" *)
(* "c", or <<"p", size>> for padding), variants a sequence of              *)
(* <<name, properties>>, sort a sequence of property names (empty when the *)
(* store keeps insertion order) and rows a sequence of [v, vals].          *)
(* The positions of the rows are unknown to the creator: `pos[s][r]` is    *)
(* the final (0 based) position of row r of store s.                       *)
(***************************************************************************)
EXTENDS Bytes

\* ----- values ----------------------------------------------------------
\* A written value, given the final positions and the addresses of contents
Resolve(v, pos, addrs) ==
  IF v[1] \in {"ref", "wref"} THEN << "u", LE8(pos[v[2] + 1][v[3] + 1]) >>
  ELSE IF v[1] = "sref" THEN << "s", LE8(pos[v[2] + 1][v[3] + 1]) >>
  ELSE IF v[1] = "lc" THEN << "c", addrs[v[2] + 1][1], addrs[v[2] + 1][2] >>
  ELSE v

ValueCmp(a, b) ==
  IF a[1] = "u" THEN UCmp(a[2], b[2]) ELSE IF a[1] = "s" THEN SCmp(a[2], b[2]) ELSE LexCmp(a[2], b[2])

RECURSIVE KeyCmpFrom(_, _, _, _)
KeyCmpFrom(keys, a, b, i) ==
  IF i > Len(keys) THEN 0
  ELSE LET c == ValueCmp(a[keys[i]], b[keys[i]])
       IN IF c # 0 THEN c ELSE KeyCmpFrom(keys, a, b, i + 1)
\* Compare two rows (records of values) on a list of property names
KeyCmp(keys, a, b) == KeyCmpFrom(keys, a, b, 1)

\* ----- rows --------------------------------------------------------------
VarIndex(st, name) == IF st.variants = <<>> THEN -1
                      ELSE (CHOOSE i \in 1..Len(st.variants) : st.variants[i][1] = name) - 1
\* What the reader must show for a row
ExpRow(st, row, pos, addrs) ==
  [ v |-> VarIndex(st, row.v), vn |-> IF st.variants = <<>> THEN "" ELSE row.v,
    vals |-> [k \in DOMAIN row.vals |-> Resolve(row.vals[k], pos, addrs)] ]
SameRow(e, x) ==
  /\ e.v = x.v
  /\ e.vn = x.vn
  /\ DOMAIN e.vals = DOMAIN x.vals
  /\ \A k \in DOMAIN x.vals : e.vals[k] = x.vals[k]

IsPerm(h, n) == /\ Len(h) = n
                /\ { h[i] : i \in 1..n } = 0..(n - 1)

\* pos is compatible with the declared order of store s
InOrder(st, rowsAt) ==   \* rowsAt: sequence (by position) of records of values
  \A i \in 1..(Len(rowsAt) - 1) : KeyCmp(st.sort, rowsAt[i].vals, rowsAt[i + 1].vals) <= 0

\* ----- windows and lookups -----------------------------------------------
Window(full, off, count) == SubSeq(full, off + 1, off + count)

Carries(e, keys, vals) == \A i \in 1..Len(keys) : ValueCmp(e.vals[keys[i]], vals[i]) = 0
Written(win, keys, vals) == \E i \in 1..Len(win) : Carries(win[i], keys, vals)
\* answer: -1 for "not found", else a position relative to the window
FindOk(win, keys, vals, answer) ==
  IF Written(win, keys, vals)
  THEN answer \in 0..(Len(win) - 1) /\ Carries(win[answer + 1], keys, vals)
  ELSE answer = -1
=============================================================================
