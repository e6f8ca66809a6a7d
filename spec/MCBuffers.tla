----------------------------- MODULE MCBuffers -----------------------------
(* Every sequence of reads through the main buffer and two further ones, for  *)
(* every number of steps: whatever the windows went through, the slot a read  *)
(* returns lies within the buffer and holds the step asked for.  With EMIT    *)
(* set every complete sequence is printed and replayed on both data managers. *)
EXTENDS Buffers, TLC, Json, IOUtils
CONSTANTS MaxT, Depth, Emitted     \* printed: sequences on files of this many steps

VARIABLES T, main, extra, hist, last
vars == <<T, main, extra, hist, last>>
Ids == {3, 1}                      \* names of the buffers, given by the caller

\* steps around the edges of chunks and of the file
Asked == {t \in 0..(T - 1) : t % B \in {0, B - 1} \/ t \in {T - 1, T - 2, B + 1}}

Init ==
  /\ T \in 1..MaxT
  /\ main = Filled(EmptyBuffer, 0, B, T)
  /\ extra = [x \in {} |-> EmptyBuffer]
  /\ hist = <<>> /\ last = [t |-> 0, got |-> 0, slot |-> 0]

More == Len(hist) < Depth
Get(t) ==
  /\ main' = Moved(main, t, MainSize(main), T)
  /\ last' = [t |-> t, got |-> Held(main', t), slot |-> Slot(main', t)]
  /\ hist' = Append(hist, [c |-> "get", t |-> t]) /\ UNCHANGED <<T, extra>>
\* setting up a buffer again starts it over
Setup(x) ==
  /\ LET old == IF x \in DOMAIN extra THEN extra[x] ELSE EmptyBuffer
     IN extra' = [y \in DOMAIN extra \cup {x} |-> IF y = x THEN Filled(old, 0, B, T) ELSE extra[y]]
  /\ hist' = Append(hist, [c |-> "setup", b |-> x]) /\ UNCHANGED <<T, main, last>>
Read(x, t) ==
  /\ x \in DOMAIN extra
  /\ extra' = [extra EXCEPT ![x] = Moved(@, t, B, T)]
  /\ last' = [t |-> t, got |-> Held(extra'[x], t), slot |-> Slot(extra'[x], t)]
  /\ hist' = Append(hist, [c |-> "buffer", b |-> x, t |-> t]) /\ UNCHANGED <<T, main>>
Next == More /\ ((\E t \in Asked : Get(t)) \/ \E x \in Ids : Setup(x) \/ \E t \in Asked : Read(x, t))
Spec == Init /\ [][Next]_vars

Window(b) == b.lo < b.hi /\ b.hi <= T /\ b.hi - b.lo <= B /\ \A k \in b.lo..(b.hi - 1) : b.slot[k - b.lo] = k
Windows == Window(main) /\ \A x \in DOMAIN extra : Window(extra[x])
Right == last.got = last.t /\ last.slot \in 0..(B - 1)

Session == [calls |-> hist, T |-> T]
Emit == ("EMIT" \in DOMAIN IOEnv /\ ~More /\ T = Emitted) => PrintT("SESSION " \o ToJson(Session))
=============================================================================
