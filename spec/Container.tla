------------------------------ MODULE Container ------------------------------
(***************************************************************************)
(* The state container: a mean with base columns and augmented columns, a   *)
(* bias vector, a covariance laid out (base, augmented, biases), a process  *)
(* noise of the same layout, stamps, flags, and the index handed out for    *)
(* every augmented vector that has an owner (own: handle -> column).        *)
(* A state is [X, th, P, Qc, t, tp, w, ben, slip, own].                     *)
(***************************************************************************)
EXTENDS Mat
NewS(X, th, P) == [X |-> X, th |-> th, P |-> P, Qc |-> MZero(MCols(P), MCols(P)), t |-> Num(0), tp |-> Num(0), w |-> Zero3, ben |-> FALSE, slip |-> 0, own |-> <<>>]
PDim(X, th) == 3 * MCols(X) - 6 + MRows(th)
Default == NewS(MId(5), MZero(6, 1), MId(15))
Row(col) == 3 * (col - 2)                          \* first row of a column's block in the covariance
BiasRow(S) == MCols(S.P) - MRows(S.th)
SetSub(M, k, B) == SetBlk(M, k, k, B)
Cov(S, k) == Blk(S.P, k, k, 3, 3)
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
\* insert three rows and columns before the last t ones
InsertBefore(A, t, M) == LET n == MRows(A) - t IN
   VCat(VCat(HCat(HCat(Blk(A, 0, 0, n, n), MZero(n, 3)), Blk(A, 0, n, n, t)),
             HCat(HCat(MZero(3, n), M), MZero(3, t))),
        HCat(HCat(Blk(A, n, 0, t, n), MZero(t, 3)), Blk(A, n, n, t, t)))
Grow(A, M) == LET n == MRows(A) IN VCat(HCat(A, MZero(n, 3)), HCat(MZero(3, n), M))
AddAug(S, h, a, P, N) == LET n == MCols(S.X) IN
   [S EXCEPT !.X = SetBlk(SetBlk(MId(n + 1), 0, 0, S.X), 0, n, a), !.P = P, !.Qc = InsertBefore(S.Qc, MRows(S.th), N),
             !.own = IF h = 0 THEN @ ELSE (h :> n) @@ @]
Column(S, h) == IF h > 0 THEN S.own[h] ELSE -h       \* a handle, or minus a column number
DelAug(S, col) ==
   [S EXCEPT !.X = Drop(S.X, col, 1), !.P = Drop(S.P, Row(col), 3), !.Qc = Drop(S.Qc, Row(col), 3),
             !.own = LET f == [x \in {y \in DOMAIN @ : @[y] # col} |-> @[x]] IN [x \in DOMAIN f |-> IF f[x] > col THEN f[x] - 1 ELSE f[x]]]
BiasAt(col) == 6 + 3 * (col - 5)
DropRows(v, k, n) == VCat(Seg(v, 0, k), Seg(v, k + n, MRows(v) - k - n))
ClearS(S) == [Default EXCEPT !.t = S.t, !.tp = S.tp, !.ben = S.ben, !.slip = S.slip]
RECURSIVE Diag(_, _, _)
Diag(A, n, X) == IF n = 0 THEN A ELSE
   Diag(VCat(HCat(A, MZero(MRows(A), MCols(X))), HCat(MZero(MRows(X), MCols(A)), X)), n - 1, X)
Inv(X) == LET n == MCols(X) Rt == MT(Blk(X, 0, 0, 3, 3)) IN SetBlk(MId(n), 0, 0, HCat(Rt, MNeg(Rt \otimes Blk(X, 0, 3, 3, n - 3))))

\* the transition of one call ev; St maps the objects to their states
Apply(St, ev) ==
   LET S == St[ev.k] x == ev.x IN
   CASE ev.f = "new" -> Default
     [] ev.f \in {"newX", "newG"} -> NewS(x, MZero(6, 1), MId(PDim(x, MZero(6, 1))))
     [] ev.f \in {"newXT", "newGT"} -> NewS(x, ev.th, MId(PDim(x, ev.th)))
     [] ev.f \in {"newXTP", "newGTP"} -> NewS(x, ev.th, ev.P)
     [] ev.f = "copy" -> [St[ev.a] EXCEPT !.own = <<>>]
     [] ev.f = "rotation" -> [S EXCEPT !.X = SetBlk(@, 0, 0, x)]
     [] ev.f = "velocity" -> [S EXCEPT !.X = SetBlk(@, 0, 3, x)]
     [] ev.f = "position" -> [S EXCEPT !.X = SetBlk(@, 0, 4, x)]
     [] ev.f = "gbias" -> [S EXCEPT !.th = SetBlk(@, 0, 0, x)]
     [] ev.f = "abias" -> [S EXCEPT !.th = SetBlk(@, 3, 0, x)]
     [] ev.f = "rate" -> [S EXCEPT !.w = x]
     [] ev.f = "X" -> [S EXCEPT !.X = x]
     [] ev.f = "P" -> [S EXCEPT !.P = x]
     [] ev.f = "Qc" -> [S EXCEPT !.Qc = x]
     [] ev.f = "theta" -> [S EXCEPT !.th = x]
     [] ev.f = "Rcov" -> [S EXCEPT !.P = SetSub(@, 0, x)]
     [] ev.f = "vcov" -> [S EXCEPT !.P = SetSub(@, 3, x)]
     [] ev.f = "pcov" -> [S EXCEPT !.P = SetSub(@, 6, x)]
     [] ev.f = "gcov" -> [S EXCEPT !.P = SetSub(@, BiasRow(S), x)]
     [] ev.f = "acov" -> [S EXCEPT !.P = SetSub(@, BiasRow(S) + 3, x)]
     [] ev.f = "time" -> [S EXCEPT !.t = x]
     [] ev.f = "ptime" -> [S EXCEPT !.tp = x]
     [] ev.f = "ben" -> [S EXCEPT !.ben = x]
     [] ev.f = "slip" -> [S EXCEPT !.slip = x]
     [] ev.f = "add" -> AddAug(S, ev.h, x, ev.P, ev.N)
     [] ev.f = "set" -> [S EXCEPT !.X = SetBlk(@, 0, Column(S, ev.h), x)]
     [] ev.f = "del" -> DelAug(S, Column(S, ev.h))
     [] ev.f = "addbias" -> [S EXCEPT !.th = VCat(@, x)]
     [] ev.f = "delbias" -> [S EXCEPT !.th = DropRows(@, BiasAt(ev.c), 3)]
     [] ev.f = "addcov" -> [S EXCEPT !.P = Grow(@, x)]
     [] ev.f = "delcov" -> [S EXCEPT !.P = Drop(@, Row(ev.c), 3)]
     [] ev.f = "delnoise" -> [S EXCEPT !.Qc = Drop(@, Row(ev.c), 3)]
     [] ev.f = "clear" -> ClearS(S)
     [] ev.f \in {"look", "diag"} -> S
=============================================================================
