---------------------------- MODULE TraceReader ----------------------------
(* Sequences of reads recorded from the HDF5 data managers (C25, C26): one    *)
(* step per call.  State: the buffers that were set up.  Whatever was read    *)
(* before, and through whichever buffer, a read gives the recorded step.      *)
EXTENDS Files, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, j, ready
vars == <<i, j, ready>>
S == Log[i]
Refuse(cond, where, what) == IF cond THEN TRUE ELSE PrintT(where) /\ PrintT(what) /\ FALSE
Expect(cond, e, got) == Refuse(cond, <<"REJECTED", i, j>>, <<"expected", e, "got", got>>)

Given(c) ==
  CASE c.c \in {"get", "single"} -> StepRead(S, c.t)
    [] c.c = "buffer" -> StepRead(S, c.t)
    [] c.c = "setup" -> [ok |-> TRUE]
    [] c.c = "stats" -> StatsRead(S)

Call ==
  /\ j <= Len(S.calls)
  /\ LET c == S.calls[j]
     IN /\ c.c = "buffer" => c.b \in ready
        /\ Expect(S.out.ok /\ S.out.res[j] = Given(c), <<c, Given(c)>>, IF S.out.ok THEN S.out.res[j] ELSE "not opened")
        /\ ready' = IF c.c = "setup" THEN ready \cup {c.b} ELSE ready
  /\ j' = j + 1 /\ i' = i
Leave == j > Len(S.calls) /\ i' = i + 1 /\ j' = 1 /\ ready' = {}
Init == i = 1 /\ j = 1 /\ ready = {}
Next == i <= Len(Log) /\ (Call \/ Leave)
Spec == Init /\ [][Next]_vars

RECURSIVE Steps(_)
Steps(k) == IF k = 0 THEN 0 ELSE Steps(k - 1) + Len(Log[k].calls) + 1
Accepted == TLCGet("stats").diameter - 1 = Steps(Len(Log))
=============================================================================
