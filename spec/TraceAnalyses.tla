--------------------------- MODULE TraceAnalyses ---------------------------
(* Analyses recorded from the implementation (C07-C19, C21).  A session is a  *)
(* dataset and the analyses run on it one after the other.  The specification *)
(* runs its own machine over the time steps; it can leave an analysis only    *)
(* with the logged result, and only if the dataset was not modified.          *)
EXTENDS Analyses, Tolerance, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i,    \* session
          j,    \* analysis of the session
          n,    \* time steps consumed
          acc   \* accumulators
vars == <<i, j, n, acc>>

S == Log[i]
O == S.ops[j]
T == Len(S.ds.steps)

Expect(cond, e, r) == Refuse(cond, <<"REJECTED", i, j, O.op>>, <<"expected", e, "got", r>>)

SameField(g, e, l) == l.cells = g.cells /\ SameStore(e, l)

ResultOK(o, ds, a, l) ==
  CASE o.op \in {"velocity", "number", "occupancy", "msdfield", "concentration"} ->
         LET e == FieldOf(o, a) IN Expect(SameField(o.g, e, l), e, l)
    [] o.op = "gtemp" -> LET e == FieldOf(o, a) IN Expect((SameField(o.g, e, l) /\ l.nonneg), e, l)
    [] o.op = "vector" -> LET e == VectorOf(o, a) IN Expect((Len(l) = 3 /\ \A k \in 1..3 : SameField(o.g, e[k], l[k])), e, l)
    [] o.op = "dispersion" ->
         LET e == FieldOf(o, a) IN Expect((SameField(o.g, e, l.field) /\ Same(Efficiency(e), l.eff)), <<e, Efficiency(e)>>, l)
    [] o.op = "homogeneity" -> LET e == HomogeneitySq(o.g, FieldOf(o, a)) IN Expect((Same(e, l.sq) /\ l.nonneg), e, l)
    [] o.op = "showcase" -> Expect(Same(Norm(a.sum, a.n), l), Norm(a.sum, a.n), l)
    [] o.op = "meanvel" -> Expect(Same(R(ds.vmag[2]), l), ds.vmag[2], l)
    [] o.op = "histogram" ->
         Expect((SameSeq([k \in 1..o.bins |-> R(a[k])], l.counts) /\ SameSeq(HistEdges(o, ds), l.edges)), <<a, HistEdges(o, ds)>>, l)
    [] o.op = "lacey" -> Expect((SameSeq(a.times, l.times) /\ SameSeq(a.index, l.index)), a, l)
    [] o.op = "extract" -> Expect((Len(a) = Len(l) /\ \A k \in 1..Len(a) : SameSeq(a[k], l[k])), a, l)
    [] o.op = "circ" -> Expect(SameSeq([k \in 1..Len(a.done) |-> R(a.done[k])], l), a.done, l)
    [] o.op = "circ2" ->
         Expect((Len(a.done) = Len(l) /\ \A k \in 1..Len(l) : SameSeq(<<R(a.done[k][1]), R(a.done[k][2])>>, l[k])), a.done, l)
    [] o.op = "msd" ->
         LET lags == MsdLags(o)
             e == [k \in 1..o.steps |-> MsdAt(o, ds, lags[k][1])]     \* the sessions have whole lags
         IN Expect((SameSeq(lags, l.lags) /\ SameSeq(e, l.msd)), <<lags, e>>, l)

Init == i = 1 /\ j = 1 /\ n = 0 /\ acc = <<>>

Call ==
  /\ i <= Len(Log) /\ j <= Len(S.ops) /\ n = 0
  /\ n' = 1 /\ acc' = IF Legal(O, S.ds) THEN Begin(O, S.ds) ELSE <<>>
  /\ UNCHANGED <<i, j>>

Step ==
  /\ i <= Len(Log) /\ j <= Len(S.ops) /\ n >= 1 /\ n <= T
  /\ acc' = IF Legal(O, S.ds) THEN Consume(O, S.ds, acc, n) ELSE acc
  /\ n' = n + 1 /\ UNCHANGED <<i, j>>

Return ==
  /\ i <= Len(Log) /\ j <= Len(S.ops) /\ n = T + 1
  /\ LET r == S.out[j]
     IN /\ Expect(r.ok = Legal(O, S.ds), <<"success", Legal(O, S.ds)>>, r)
        /\ Expect(r.intact, "dataset unchanged", r)
        /\ r.ok => ResultOK(O, S.ds, acc, r.res)
  /\ n' = 0 /\ acc' = <<>>
  /\ IF j = Len(S.ops) THEN i' = i + 1 /\ j' = 1 ELSE i' = i /\ j' = j + 1

Next == Call \/ Step \/ Return
Spec == Init /\ [][Next]_vars

RECURSIVE Steps(_)
Steps(k) == IF k = 0 THEN 0 ELSE Steps(k - 1) + Len(Log[k].ops) * (Len(Log[k].ds.steps) + 2)
Accepted == TLCGet("stats").diameter - 1 = Steps(Len(Log))
=============================================================================
