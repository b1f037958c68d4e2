---------------------------- MODULE ContainerTrace ----------------------------
(***************************************************************************)
(* P23.  Recorded calls of state containers: after every call every getter  *)
(* must show the state module Container prescribes.                         *)
(***************************************************************************)
EXTENDS Container
CONSTANTS Props, File
VARIABLES tr, i, W, bad
Put(f, k, v) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = v] ELSE f @@ (k :> v)
Close(a, b) == MRows(a) = MRows(b) /\ MCols(a) = MCols(b) /\ MClose(a, b, 12, Num(1))
\* aspects of the observation that differ from the state S
Mis(S, o) ==
   LET M(k, ok) == IF ok THEN {} ELSE {k}
       n == MCols(S.X) R == Blk(S.X, 0, 0, 3, 3) v == Blk(S.X, 0, 3, 3, 1) p == Blk(S.X, 0, 4, 3, 1) Rt == MT(R) nb == BiasRow(S)
       hs == {o.hs[j] : j \in DOMAIN o.hs}
   IN  M("mean", MSame(o.X, S.X)) \cup M("biases", MSame(o.th, S.th)) \cup M("covariance", MSame(o.P, S.P)) \cup M("process noise", MSame(o.Qc, S.Qc))
  \cup M("time", MSame(o.t, S.t)) \cup M("propagation time", MSame(o.tp, S.tp)) \cup M("body rate", MSame(o.w, S.w)) \cup M("bias flag", o.ben = S.ben) \cup M("slip flag", o.slip = S.slip)
  \cup M("dimensions", o.dX = n /\ o.dT = MRows(S.th) /\ o.dP = MCols(S.P) /\ o.dQ = MCols(S.Qc))
  \cup M("rotation", MSame(o.R, R)) \cup M("velocity", MSame(o.v, v)) \cup M("position", MSame(o.p, p))
  \cup M("gyroscope bias", MSame(o.bg, Seg(S.th, 0, 3))) \cup M("accelerometer bias", MSame(o.ba, Seg(S.th, 3, 3)))
  \cup M("rotation covariance", MSame(o.cR, Cov(S, 0))) \cup M("velocity covariance", MSame(o.cv, Cov(S, 3))) \cup M("position covariance", MSame(o.cp, Cov(S, 6)))
  \cup (IF "cg" \in DOMAIN o THEN M("gyroscope bias covariance", MSame(o.cg, Cov(S, nb))) \cup M("accelerometer bias covariance", MSame(o.ca, Cov(S, nb + 3))) ELSE {})
  \cup M("state type", o.type = 0)
  \cup M("world view", MSame(o.wX, S.X) /\ MSame(o.wR, R) /\ MSame(o.wv, v) /\ MSame(o.wp, p))
  \cup M("inverse", Close(o.Xi, Inv(S.X)) /\ Close(o.bX, Inv(S.X)))
  \cup M("body view", Close(o.bR, Rt) /\ Close(o.bv, Rt \otimes v) /\ Close(o.bp, Rt \otimes p))
  \cup M("vectors", Len(o.vs) = n - 3 /\ \A j \in 1..(n - 3) : MSame(o.vs[j], Blk(S.X, 0, 2 + j, 3, 1)) /\ MSame(o.as[j], Blk(S.X, 0, 2 + j, 3, 1)))
  \cup M("vector covariances", \A j \in DOMAIN o.cs : MSame(o.cs[j], Cov(S, Row(2 + j))))
  \cup M("augmented biases", Len(o.ab) = (MRows(S.th) - 6) \div 3 /\ \A j \in DOMAIN o.ab : MSame(o.ab[j], Seg(S.th, 3 + 3 * j, 3)))
  \cup M("indices handed out", hs = {<<h, S.own[h]>> : h \in DOMAIN S.own})
E0(ev) == IF "x" \in DOMAIN ev THEN ev ELSE ev @@ [x |-> Zero3]
Do(w, ev) ==
   LET S == Apply(w, E0(ev))
       d == IF ev.f # "diag" THEN {} ELSE IF Close(ev.y, Diag(ev.x, ev.n, IF ev.inv THEN Inv(S.X) ELSE S.X)) THEN {} ELSE {"block copies"}
       c == IF ev.f = "add" /\ ev.col # MCols(S.X) - 1 THEN {"index returned"} ELSE {}
   IN [W |-> Put(w, ev.k, S), b |-> {<<"P23", ev.f \o ": " \o m>> : m \in Mis(S, ev.st) \cup d \cup c}]
B == INSTANCE TraceBase WITH W0 <- <<>>, DoEvent <- Do
Spec == B!Spec
Conforms == B!Conforms
View == B!View
Short == B!Short
=============================================================================
