---------------------------- MODULE TracePyConvert ----------------------------
(* Conversions called from Python, recorded (C37): one step per session.      *)
EXTENDS ConvertCall, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
S == Log[i]
Wrong(e, g) == IF DOMAIN e # DOMAIN g THEN {"outcome"} ELSE {f \in DOMAIN e : e[f] # g[f]}
Judge ==
  LET e == Written(S)
      g == Seen(S, S.out)
      w == Wrong(e, g)
  IN IF w = {} THEN TRUE
     ELSE PrintT(<<"REJECTED", i, 1, S.call.c, w>>)
          /\ PrintT(<<"expected", IF "outcome" \in w THEN e.ok ELSE [f \in w |-> e[f]],
                      "got", IF "outcome" \in w THEN S.out.ok ELSE [f \in w |-> g[f]]>>) /\ FALSE
Init == i = 1
Next == i <= Len(Log) /\ Judge /\ i' = i + 1
Spec == Init /\ [][Next]_i
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
