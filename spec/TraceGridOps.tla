---------------------------- MODULE TraceGridOps ----------------------------
(* Histories of grid operations recorded from the implementation (C03, C04,   *)
(* C05).  The specification replays every history on its own stores; each     *)
(* recorded operation is one step, which is possible only if the observed     *)
(* values and weights (and results) are those of the specification.           *)
EXTENDS GridStore, Tolerance, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i,    \* session
          j,    \* operations of the session already replayed
          st    \* the stores (one, or three of a vector grid)
vars == <<i, j, st>>

S == Log[i]
NStores(s) == IF s.vector = 1 THEN 3 ELSE 1
Fresh(s) == [k \in 1..NStores(s) |-> [val |-> s.init[k].val, wt |-> s.init[k].wt]]

Reduced(g, ss, o) ==
  CASE o.what = "collapse" -> [k \in DOMAIN ss |-> Collapse(g, ss[k], o.a)]
    [] o.what = "cw"       -> [k \in DOMAIN ss |-> CollapseW(g, ss[k], o.a)]
    [] o.what = "c2"       -> [k \in DOMAIN ss |-> CollapseTwo(g, ss[k], o.a, o.b)]
    [] o.what = "c2w"      -> [k \in DOMAIN ss |-> CollapseTwoW(g, ss[k], o.a, o.b)]
    [] o.what = "sliceidx" -> [k \in DOMAIN ss |-> SliceIdx(g, ss[k], o.a, o.i)]
    [] o.what = "slice"    -> [k \in DOMAIN ss |-> SliceIdx(g, ss[k], o.a, SliceOf(g, o.a, o.x))]
    [] o.what = "get"      -> [k \in DOMAIN ss |-> LET c == CellNo(g, o.pos) IN << IF c = 0 THEN NaN ELSE ss[k].val[c] >>]
    [] o.what = "vcw"      -> [k \in DOMAIN ss |-> CollapseW(g, ss[1], o.a)]
    [] o.what = "vc2"      -> [k \in DOMAIN ss |-> CollapseTwo(g, ss[1], o.a, o.b)]
    [] o.what = "vc2w"     -> [k \in DOMAIN ss |-> CollapseTwoW(g, ss[1], o.a, o.b)]

ResultOK(g, ss, o, r) ==
  CASE o.op = "observe" ->
         LET e == Reduced(g, ss, o)
         IN Len(r.res) = Len(ss) /\ \A k \in 1..Len(ss) : SameSeq(e[k], r.res[k])
    [] o.op = "zeros" -> r.res.geometry /\ SameStores(ss, r.res.orig)
    [] o.op = "refused" -> r.res = TRUE
    [] OTHER -> TRUE

Expect(cond, o, e, r) == Refuse(cond, <<"REJECTED", i, j>>, <<o, "expected", e, "got", r>>)

Init == i = 1 /\ j = 0 /\ st = IF Len(Log) = 0 THEN <<>> ELSE Fresh(Log[1])

\* the history starts from the stores the session asked for
Start ==
  /\ i <= Len(Log) /\ j = 0
  /\ Expect(SameStores(Fresh(S), S.out.start), "start", Fresh(S), S.out.start)
  /\ j' = 1 /\ UNCHANGED <<i, st>>

Replay ==
  /\ i <= Len(Log) /\ j >= 1 /\ j <= Len(S.ops)
  /\ LET o == S.ops[j]
         e == [k \in DOMAIN st |-> Apply(S.g, st[k], o)]
     IN /\ Expect(Len(S.out.steps) >= j, o, "a result", "none")
        /\ LET r == S.out.steps[j]
           IN Expect(r.ok /\ SameStores(e, r.after) /\ ResultOK(S.g, st, o, r),
                     o, IF o.op = "observe" THEN Reduced(S.g, st, o) ELSE e, r)
        /\ st' = e
  /\ j' = j + 1 /\ i' = i

NextSession ==
  /\ i <= Len(Log) /\ j = Len(S.ops) + 1
  /\ i' = i + 1 /\ j' = 0
  /\ st' = IF i + 1 <= Len(Log) THEN Fresh(Log[i + 1]) ELSE <<>>

Next == Start \/ Replay \/ NextSession
Spec == Init /\ [][Next]_vars

RECURSIVE Steps(_)
Steps(k) == IF k = 0 THEN 0 ELSE Steps(k - 1) + Len(Log[k].ops) + 2
Accepted == TLCGet("stats").diameter - 1 = Steps(Len(Log))
=============================================================================
