---------------------------- MODULE TraceConvert ----------------------------
(* Conversions recorded from the real converters (C27 to C30): one step per   *)
(* session.                                                                   *)
EXTENDS Convert, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
S == Log[i]
Fields(e) == DOMAIN e
Wrong(e, g) == IF DOMAIN e # DOMAIN g THEN {"outcome"} ELSE {f \in Fields(e) : e[f] # g[f]}
Judge ==
  LET e == Converted(S)
      w == Wrong(e, S.out)
      je == IF w = {} \/ "outcome" \in w THEN e ELSE Judged(S, e)
      jg == IF w = {} \/ "outcome" \in w THEN S.out ELSE Judged(S, S.out)
      ww == IF w = {} \/ "outcome" \in w THEN w ELSE Wrong(je, jg)
  IN IF ww = {} THEN TRUE
     ELSE PrintT(<<"REJECTED", i, 1, ww>>)
          /\ PrintT(<<"expected", IF "outcome" \in ww THEN e.ok ELSE [f \in ww |-> je[f]],
                      "got", IF "outcome" \in ww THEN S.out.ok ELSE [f \in ww |-> jg[f]]>>) /\ FALSE
Init == i = 1
Next == i <= Len(Log) /\ Judge /\ i' = i + 1
Spec == Init /\ [][Next]_i
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
