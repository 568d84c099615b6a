------------------------------ MODULE ViewCase -------------------------------
(***************************************************************************)
(* Conformance: sequences of operations on the views of a real content.    *)
(*                                                                         *)
(* event: n   - size of the content                                        *)
(*        ops - the operations (Views), with real offsets and sizes        *)
(*        res - for each operation: [ok, told, got, at]                    *)
(*              told - what each view tells after the operation            *)
(*              got  - number of bytes returned                            *)
(*              at   - the positions of the content where these bytes are  *)
(*                     found (all of them; empty when got = 0)             *)
(*        first - what the whole region tells before any operation         *)
(***************************************************************************)
EXTENDS Views, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Clause(n, b) == IF b THEN TRUE ELSE PrintT("CLAUSE " \o n) /\ FALSE
Tells(vs) == [h \in 1..Len(vs) |-> Told(vs[h])]
Found(r, pos) == r.got = 0 \/ \E i \in 1..Len(r.at) : r.at[i] = pos

RECURSIVE Follow(_, _, _)
Follow(e, vs, i) ==
  IF i > Len(e.ops) THEN TRUE
  ELSE LET o == e.ops[i]  r == e.res[i]  v == vs[o.h] IN
    /\ Clause("done", r.ok)
    /\ IF o.op \in Creates
       THEN LET nv == TLCEval(Append(vs, New(v, o))) IN Clause("told", r.told = Tells(nv)) /\ Follow(e, nv, i + 1)
       ELSE IF o.op = "get"
       THEN /\ Clause("bytes", r.got = o.s /\ Found(r, v.lo + o.o))
            /\ Clause("told", r.told = Tells(vs))
            /\ Follow(e, vs, i + 1)
       ELSE LET left == v.hi - v.cur
                nv == TLCEval([vs EXCEPT ![o.h].cur = @ + r.got]) IN
            /\ Clause("length", IF o.op = "toend" THEN r.got = left
                                ELSE IF Min(o.s, left) = 0 THEN r.got = 0 ELSE 1 <= r.got /\ r.got <= Min(o.s, left))
            /\ Clause("bytes", Found(r, v.cur))
            /\ Clause("told", r.told = Tells(nv))
            /\ Follow(e, nv, i + 1)
Judge(e) == /\ Clause("whole", e.ok /\ Len(e.res) = Len(e.ops) /\ e.first = << << e.n >> >>)
            /\ Follow(e, << Whole(e.n) >>, 1)

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ IF Judge(Trace[l]) THEN TRUE ELSE PrintT("CASE-REJECTED " \o ToString(l))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Judged == PrintT("CASES-JUDGED " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
