------------------------------ MODULE TraceMisc ------------------------------
(* Single calls recorded from the implementation: selectors with a history of *)
(* window updates (C06), time lookups (C20), numeric helpers (C22), rotations *)
(* (C23), comparisons of two datasets (C24).  One step per session.           *)
EXTENDS Analyses, Helpers, Tolerance, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, j, win   \* session, query of the session, time window of the selector
vars == <<i, j, win>>
S == Log[i]

Expect(cond, e, got) == Refuse(cond, <<"REJECTED", i, j, S.kind>>, <<"expected", e, "got", got>>)

-----------------------------------------------------------------------------
\* one query to a selector; the window last set is part of the state
SelectorDefault(s) == "default" \in DOMAIN s.sel
Answer(s, q) ==
  CASE q.q = "particle" -> SelectorDefault(s) \/ ParticleOK(s.sel, q)
    [] q.q = "time" -> win = <<>> \/ (q.t >= win[1] /\ q.t <= win[2])
    [] q.q = "settime" -> TRUE
Window0(s) == IF s.kind # "selector" \/ SelectorDefault(s) THEN <<>> ELSE <<s.sel.time[1], s.sel.time[2]>>

SelectorStep ==
  /\ S.kind = "selector" /\ j <= Len(S.queries)
  /\ Expect(S.out[j] = Answer(S, S.queries[j]), Answer(S, S.queries[j]), S.queries[j])
  /\ win' = IF S.queries[j].q = "settime" THEN <<S.queries[j].a, S.queries[j].b>> ELSE win
  /\ j' = j + 1 /\ i' = i

-----------------------------------------------------------------------------
TimeOKs(s) ==
  /\ Len(s.out) = Len(s.queries)
  /\ \A k \in 1..Len(s.queries) :
       LET c == Closest(s.times, s.queries[k])
       IN Expect(IF c = {} THEN s.out[k] = 0 ELSE s.out[k] \in c, c, <<s.queries[k], s.out[k]>>)

HelperOK(s) ==
  CASE s.what = "stats" ->
         Expect(Same(MeanOf(s.vals), s.out.mean) /\ Same(VarianceOf(s.vals), s.out.var) /\ s.out.nonneg,
                <<MeanOf(s.vals), VarianceOf(s.vals)>>, s.out)
    [] s.what = "minmax" -> Expect(s.out = <<R(Lowest(s.vals)), R(Highest(s.vals))>>, <<Lowest(s.vals), Highest(s.vals)>>, s.out)
    [] s.what = "meshgrid" ->
         Expect(/\ s.out.shape = <<Len(s.x), Len(s.y)>> /\ s.out.shape2 = <<Len(s.x), Len(s.y)>>
                /\ s.out.a = MeshA(s.x, s.y) /\ s.out.b = MeshB(s.x, s.y), "mesh grid", s.out)
    [] s.what = "meshgrid3d" ->
         LET sh == <<Len(s.x), Len(s.y), Len(s.z)>>
         IN Expect(/\ s.out.shape = sh /\ s.out.shape2 = sh /\ s.out.shape3 = sh
                   /\ s.out.a = Mesh3(s.x, s.y, s.z, 1) /\ s.out.b = Mesh3(s.x, s.y, s.z, 2) /\ s.out.c = Mesh3(s.x, s.y, s.z, 3),
                   "mesh grid", s.out)
    [] s.what = "flatten2d" ->
         LET t == Transposed2(Nums(s.vals), s.shape[1], s.shape[2])
         IN Expect(s.out = <<Nums(s.vals), t, t>>, <<Nums(s.vals), t>>, s.out)
    [] s.what = "flatten3d" ->
         LET t == Reversed3(Nums(s.vals), s.shape[1], s.shape[2], s.shape[3])
         IN Expect(s.out = <<Nums(s.vals), t>>, <<Nums(s.vals), t>>, s.out)

RotateOK(s) ==
  LET p == RotatePosition(Nums(s.pos), s.angles, Nums(s.anchor))
      v == TurnAll(Nums(s.vel), s.angles)
  IN Expect(SameSeq(p, s.out.pos) /\ SameSeq(v, s.out.vel), <<p, v>>, s.out)

ThresholdOK(s) ==
  IF ~QuantileLegal(s.q) THEN Expect(~s.out.ok, "refused", s.out)
  ELSE Expect(s.out.ok /\ SameSeq(Threshold(s.vals, s.q), s.out.vals), Threshold(s.vals, s.q), s.out)

CompareOK(s) ==
  LET o == [op |-> "velocity", g |-> s.g, mode |-> s.mode, vmin |-> s.vmin, vmax |-> s.vmax]
      f(ds) == FieldOf(o, Upto(o, ds, Len(ds.steps))).val
  IN /\ Expect(s.out.made /\ s.out.refused, "grid of the comparison", s.out)
     /\ IF s.mode \notin VelocityModes THEN Expect(~s.out.ok, "refused", s.out)
        ELSE Expect(s.out.ok /\ SameSeq(f(s.ds), s.out.res[1]) /\ SameSeq(f(s.ds2), s.out.res[2]), <<f(s.ds), f(s.ds2)>>, s.out)

SessionOK(s) ==
  CASE s.kind = "selector" -> TRUE
    [] s.kind = "time" -> TimeOKs(s)
    [] s.kind = "helper" -> HelperOK(s)
    [] s.kind = "rotate" -> RotateOK(s)
    [] s.kind = "threshold" -> ThresholdOK(s)
    [] s.kind = "compare" -> CompareOK(s)

Queries(s) == IF s.kind = "selector" THEN Len(s.queries) ELSE 0
Init == i = 1 /\ j = 1 /\ win = IF Len(Log) = 0 THEN <<>> ELSE Window0(Log[1])
Leave ==
  /\ j = Queries(S) + 1
  /\ SessionOK(S)
  /\ i' = i + 1 /\ j' = 1
  /\ win' = IF i + 1 <= Len(Log) THEN Window0(Log[i + 1]) ELSE <<>>
Next == i <= Len(Log) /\ (SelectorStep \/ Leave)
Spec == Init /\ [][Next]_vars

RECURSIVE Steps(_)
Steps(k) == IF k = 0 THEN 0 ELSE Steps(k - 1) + Queries(Log[k]) + 1
Accepted == TLCGet("stats").diameter - 1 = Steps(Len(Log))
=============================================================================
