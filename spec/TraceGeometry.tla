---------------------------- MODULE TraceGeometry ----------------------------
(* Lookups recorded from the implementation against the grid geometry (C01,   *)
(* C02).  One step per session; a session that the specification does not     *)
(* allow cannot be taken.                                                     *)
EXTENDS Geometry, Tolerance, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i

IdxSeq(n, Op(_)) == [k \in 1..n |-> Op(k - 1)]

CartReport(g, o) ==
  /\ o.xpos = IdxSeq(g.cells[1], LAMBDA k : AxisCentre(g.lim[1][1], g.lim[1][2], g.cells[1], k))
  /\ o.ypos = IdxSeq(g.cells[2], LAMBDA k : AxisCentre(g.lim[2][1], g.lim[2][2], g.cells[2], k))
  /\ o.zpos = IdxSeq(g.cells[3], LAMBDA k : AxisCentre(g.lim[3][1], g.lim[3][2], g.cells[3], k))
  /\ o.limout = << R(g.lim[1][1]), R(g.lim[1][2]), R(g.lim[2][1]), R(g.lim[2][2]), R(g.lim[3][1]), R(g.lim[3][2]) >>

\* rings of equal area: squared radii R^2 k/n
CylReport(g, o) ==
  LET rr == CylR(g) * CylR(g)
      n == g.cells[1]
  IN /\ o.rin = IdxSeq(n, LAMBDA k : Norm(rr * k, n))
     /\ o.rout = IdxSeq(n, LAMBDA k : Norm(rr * (k + 1), n))
     /\ o.midok
     /\ o.opos = IdxSeq(g.cells[2], LAMBDA k : Norm(2 * (k + 1) - g.cells[2], g.cells[2]))
     /\ o.zpos = IdxSeq(g.cells[3], LAMBDA k : AxisUpper(g.lim[3][1], g.lim[3][2], g.cells[3], k))
     /\ o.limout = << RZero, R(CylR(g)), R(-1), ROne, R(g.lim[3][1]), R(g.lim[3][2]) >>

LookupOK(g, p, r) ==
  LET c == CellNo(g, p)
  IN /\ r.inside = (IF c # 0 THEN 1 ELSE 0)
     /\ r.cell = (IF c # 0 THEN c ELSE -1)
     /\ r.get = (IF c # 0 THEN R(c) ELSE NaN)
     /\ r.add = (IF c # 0 THEN <<c>> ELSE <<>>)
     /\ r.ins = (IF c # 0 THEN <<c>> ELSE <<>>)
     /\ (g.kind = "cyl" /\ Defined(p)) =>
          /\ r.cyl = << R(CylX(g, p)), R(CylY(g, p)), R(p[3]) >>
          /\ r.rsq = R(CylX(g, p) * CylX(g, p) + CylY(g, p) * CylY(g, p))

SessionOK(s) ==
  /\ s.out.built
  /\ s.out.cellsout = s.g.cells
  /\ IF s.g.kind = "cart" THEN CartReport(s.g, s.out) ELSE CylReport(s.g, s.out)
  /\ \A k \in 1..Len(s.pos) :
       Check(LookupOK(s.g, s.pos[k], s.out.lookups[k]),
             <<"LOOKUP", k, s.pos[k], "expected cell", CellNo(s.g, s.pos[k]), "got", s.out.lookups[k]>>)

Init == i = 1
Next == i <= Len(Log) /\ Check(SessionOK(Log[i]), <<"REJECTED", i>>) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
