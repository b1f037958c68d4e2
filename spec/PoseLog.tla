------------------------------ MODULE PoseLog ------------------------------
(***************************************************************************)
(* P21.  The pose log.  States published by steps are queued for the logger *)
(* thread; it writes, in order, those at least one log period after the     *)
(* last one written.  A clear discards what is still waiting and starts new *)
(* files; shutdown first writes what is waiting (module LogRule).           *)
(***************************************************************************)
EXTENDS Mat
PDue(s, last, rate) == MLe(MRound(MDiv(Num(1), rate)), MRound(s.st \ominus last))
PTime(s) == s.st
Row(rows, k) == Blk(rows, k - 1, 0, 1, MCols(rows))
RowOk(kind, r, s) ==
   /\ MSame(Blk(r, 0, 0, 1, 1), s.st)
   /\ CASE kind = "pose" -> /\ MSame(MT(Blk(r, 0, 1, 1, 3)), Blk(s.X, 0, 4, 3, 1))
                            /\ MClose(QuatR(VCat(MT(Blk(r, 0, 7, 1, 1)), MT(Blk(r, 0, 4, 1, 3)))), Blk(s.X, 0, 0, 3, 3), 9, Num(1))
        [] kind = "vel" -> MSame(MT(Blk(r, 0, 1, 1, 3)), Blk(s.X, 0, 3, 3, 1))
        [] kind = "body" -> LET v == Blk(s.X, 0, 3, 3, 1) IN MClose(MT(Blk(r, 0, 1, 1, 3)), MT(Blk(s.X, 0, 0, 3, 3)) \otimes v, 12, MMax(v))
RowsOk(kind, rows, g) == MRows(rows) = Len(g) /\ \A k \in 1..Len(g) : RowOk(kind, Row(rows, k), g[k])
PCount(f) == MRows(f.pose)
PHolds(f, g) == \A kind \in {"pose", "vel", "body"} : RowsOk(kind, f[kind], g)
INSTANCE LogRule WITH Due <- PDue, TimeOf <- PTime, Count <- PCount, Holds <- PHolds
=============================================================================
