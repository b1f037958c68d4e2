------------------------------- MODULE LieTrace -------------------------------
(***************************************************************************)
(* P24.  The Lie-group functions against their defining series (module     *)
(* Mat) and identities, and the SE_2(3) class as a machine whose state is  *)
(* the matrix of every object.                                             *)
(***************************************************************************)
EXTENDS InEKF
CONSTANTS Props, File
VARIABLES tr, i, W, bad
C(ok, what) == IF ok THEN {} ELSE {<<"P24", what>>}
\* x within eps (e-14) (10 + size) of y
Near(x, y, e, size) == MRows(x) = MRows(y) /\ MCols(x) = MCols(y) /\ MLe(MDist(x, y), Lit(e) \otimes (Num(10) \oplus size))
Len3(w) == MSqrt(Norm2(w))
Group(X) == LET n == MCols(X) R == Blk(X, 0, 0, 3, 3) IN
   /\ Near(R \otimes MT(R), I3, "3e-14", Num(0)) /\ MLt(Num(0), Dot(Cross(Vc(X, 0), Vc(X, 1)), Vc(X, 2)))
   /\ MSame(Blk(X, 3, 0, n - 3, n), HCat(MZero(n - 3, 3), MId(n - 3)))
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN Num(1) ELSE Num(n) \otimes Fact(n - 1)
DoLie(ev) ==
   CASE ev.f = "skew" -> C(MSame(ev.y, Skew(ev.x)), "skew")
     [] ev.f = "gamma" -> C(Near(ev.y, MPhi(Skew(ev.x), ev.m), "2e-14", Len3(ev.x)), "Gamma_SO3")
     [] ev.f = "exp" -> C(Near(ev.y, MExp(Skew(ev.x)), "2e-14", Len3(ev.x)), "Exp_SO3") \cup C(Group(SetBlk(MId(4), 0, 0, ev.y)), "Exp_SO3 is not a rotation")
     [] ev.f = "lj" -> C(Near(ev.y, MPhi(Skew(ev.x), 1), "2e-14", Len3(ev.x)), "LeftJacobian_SO3")
     [] ev.f = "rj" -> C(Near(ev.y, MPhi(MNeg(Skew(ev.x)), 1), "2e-14", Len3(ev.x)), "RightJacobian_SO3")
     [] ev.f = "expk" -> LET s == Len3(Seg(ev.x, 0, 3)) \otimes (Num(1) \oplus MMax(ev.x)) \oplus MMax(ev.x) IN
            C(Near(ev.y, ExpSEK(ev.x), "2e-14", s), "Exp_SEK3") \cup C(MCols(ev.y) >= 3 /\ Group(ev.y), "Exp_SEK3 is not a group element")
     [] ev.f = "adj" -> C(Near(ev.y, Adj(ev.x), "1e-14", MMax(ev.x)), "Adjoint_SEK3")
     [] ev.f = "conj" -> LET s == (Num(1) \oplus MMax(ev.X)) \otimes (Num(1) \oplus MMax(ev.Y)) t == s \otimes (Num(1) \oplus MMax(ev.A)) \otimes (Num(1) \oplus MMax(ev.x)) IN
            C(Near(ev.AB, ev.A \otimes ev.B, "1e-13", s), "adjoint of a product")
       \cup C(Near(ev.E, ev.X \otimes ev.Y \otimes XInv(ev.X), "1e-13", t), "adjoint and conjugation")
       \cup C(Group(ev.X) /\ Group(ev.Y), "Exp_SEK3 is not a group element")
     [] ev.f = "fact" -> C(MSame(ev.y, Fact(ev.m)), "factorial")

\* objects of the SE_2(3) class: columns 3 and 4 are called p and v
Put(f, k, v) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = v] ELSE f @@ (k :> v)
Pose(R, p, v) == SetBlk(SetBlk(SetBlk(MId(5), 0, 0, R), 0, 3, p), 0, 4, v)
DoGrp(w, ev) ==
   LET X == w[ev.k]
       n == CASE ev.f = "new" -> MId(5)
              [] ev.f \in {"newX", "setX"} -> ev.x
              [] ev.f = "newRp" -> Pose(ev.x, ev.p, Zero3)
              [] ev.f = "newRpv" -> Pose(ev.x, ev.p, ev.v)
              [] ev.f = "setR" -> SetBlk(X, 0, 0, ev.x)
              [] ev.f = "setp" -> SetBlk(X, 0, 3, ev.x)
              [] ev.f = "setv" -> SetBlk(X, 0, 4, ev.x)
              [] ev.f = "setK" -> X
              [] ev.f = "mul" -> w[ev.a] \otimes w[ev.b]
              [] ev.f = "inv" -> XInv(w[ev.a])
       w1 == Put(w, ev.k, n)
       ob(o) == /\ (IF o.k = ev.k /\ ev.f \in {"mul", "inv"} THEN Near(o.X, w1[o.k], "1e-13", Num(1) \oplus MMax(w[ev.a]) \otimes MMax(IF ev.f = "mul" THEN w[ev.b] ELSE w[ev.a])) ELSE MSame(o.X, w1[o.k]))
                /\ MSame(o.R, Blk(o.X, 0, 0, 3, 3)) /\ MSame(o.p, Vc(o.X, 3)) /\ MSame(o.v, Vc(o.X, 4)) /\ o.dim = MRows(o.X)
       I == {ev.all[j].k : j \in DOMAIN ev.all}
       obs == [k \in I |-> LET o == CHOOSE x \in {ev.all[j] : j \in DOMAIN ev.all} : x.k = k IN o.X]
   IN [W |-> obs, b |-> C(I = DOMAIN w1 /\ \A j \in DOMAIN ev.all : ob(ev.all[j]), "SEK3 " \o ev.f)]

Do(w, ev) == IF ev.e = "lie" THEN [W |-> w, b |-> DoLie(ev)] ELSE DoGrp(w, ev)
B == INSTANCE TraceBase WITH W0 <- <<>>, DoEvent <- Do
Spec == B!Spec
Conforms == B!Conforms
View == B!View
Short == B!Short
=============================================================================
