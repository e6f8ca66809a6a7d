----------------------------- MODULE TracePython -----------------------------
(* Calls on the Python interface recorded from the implementation (C31-C42):  *)
(* one step per call.  State: the objects made so far.  A call gives what it  *)
(* gives in the specification and changes no other object.                    *)
EXTENDS Texts, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, j, h
vars == <<i, j, h>>
S == Log[i]

RECURSIVE Matches(_, _)
Matches(e, l) ==
  CASE e.t \in {"none", "obj", "str"} -> l.t = e.t /\ ("texts" \in DOMAIN S /\ "of" \in DOMAIN e => TextOK(e, l.n))
    [] e.t \in {"int", "bool"} -> l.t = e.t /\ l.v = e.v
    [] e.t = "num" -> l.t = "num" /\ Same(e.v, l.v)
    [] e.t = "root" -> l.t = "num" /\ Same(e.v, l.sq) /\ (IsNaN(l.v) \/ l.v[1] >= 0)
    [] e.t = "arr" -> l.t = "arr" /\ l.shape = e.shape /\ ("v" \in DOMAIN e => SameSeq(e.v, l.v))
    [] e.t = "seq" -> l.t = "seq" /\ Len(l.v) = Len(e.v) /\ \A k \in 1..Len(e.v) : Matches(e.v[k], l.v[k])
    [] e.t = "dict" -> l.t = "dict" /\ DOMAIN l.v = DOMAIN e.v /\ \A k \in DOMAIN e.v : Same(e.v[k], l.v[k])
    [] e.t = "grid" ->
         /\ l.t = "grid" /\ l.cells = e.g.cells
         /\ \A d \in 1..3 : e.g.kind = "cart" \/ d = 3 => SameSeq(Centres(e.g, d), l.pos[d])
         /\ SameSeq(e.st.val, l.val) /\ SameSeq(e.st.wt, l.wt)
    [] e.t = "roots" ->
         /\ l.t = "grid" /\ l.cells = e.g.cells
         /\ SameSeq(e.st.val, l.sq) /\ SameSeq(e.st.wt, l.wt)
         /\ \A k \in DOMAIN l.val : IsNaN(l.val[k]) \/ l.val[k][1] >= 0
    [] e.t = "vec" ->
         /\ l.t = "vec" /\ l.cells = e.g.cells
         /\ \A d \in 1..3 : e.g.kind = "cart" \/ d = 3 => SameSeq(Centres(e.g, d), l.pos[d])
         /\ \A d \in 1..3 : SameSeq(e.st[d].val, l.val[d])
    [] e.t = "images" -> l.t = "images" /\ Len(l.v) = Len(e.v) /\ \A k \in 1..Len(e.v) : l.v[k][1] = e.v[k][1] /\ Same(e.v[k][2], l.v[k][2])
    [] e.t = "fig" ->
         /\ FigureOK(e, l)
         /\ Len(l.updates) = Len(e.updates)
         /\ \A k \in 1..Len(e.updates) : \A p \in 1..2 :
              l.updates[k][p].t = e.updates[k][p].t /\ (l.updates[k][p].t = "dict" => l.updates[k][p].v = e.updates[k][p].v)

Expect(cond, e, got) == Refuse(cond, <<"REJECTED", i, j, S.calls[j].c>>, <<"expected", e, "got", got>>)

Call ==
  /\ j <= Len(S.calls)
  /\ LET c == S.calls[j]
         o == Outcome(h, S.files, c)
         r == S.out[j]
     IN /\ Expect(r.ok = o.ok, IF o.ok THEN "success" ELSE "refusal", r)
        /\ Expect(r.changed = <<>>, "no other object changes", r)
        /\ r.ok => Expect(Matches(o.e, r.res), o.e, r.res)
        /\ h' = After(o)
  /\ j' = j + 1 /\ i' = i
Leave == j > Len(S.calls) /\ i' = i + 1 /\ j' = 1 /\ h' = <<>>
Init == i = 1 /\ j = 1 /\ h = <<>>
Next == i <= Len(Log) /\ (Call \/ Leave)
Spec == Init /\ [][Next]_vars

RECURSIVE Calls(_)
Calls(k) == IF k = 0 THEN 0 ELSE Calls(k - 1) + Len(Log[k].calls) + 1
Accepted == TLCGet("stats").diameter - 1 = Calls(Len(Log))
=============================================================================
