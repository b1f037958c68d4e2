------------------------------ MODULE Kinematics ------------------------------
(***************************************************************************)
(* Leg kinematics of the Mini Cheetah: abduction about x, hip and knee      *)
(* about -y, for the legs front-right, front-left, hind-right, hind-left    *)
(* (l in 1..4); joint angles are listed leg by leg.                         *)
(***************************************************************************)
EXTENDS Mat
L(s) == Lit(s)
SideX(l) == IF l \in {1, 2} THEN L("0.19") ELSE L("-0.19")
SideY(l) == IF l \in {2, 4} THEN Num(1) ELSE Num(-1)
HipPos(l) == Vec3(SideX(l), SideY(l) \otimes L("0.049"), Num(0))
Abd(l) == Vec3(Num(0), SideY(l) \otimes L("0.062"), Num(0))
Thigh == Vec3(Num(0), Num(0), L("-0.209"))
Shank == Vec3(Num(0), Num(0), L("-0.2075"))
Ex == Vec3(Num(1), Num(0), Num(0))
Ey == Vec3(Num(0), Num(-1), Num(0))
Rx(a) == MExp(a \otimes Skew(Ex))
Ry(a) == MExp(a \otimes Skew(Ey))
Q(q, l) == Seg(q, 3 * (l - 1), 3)
\* foot of leg l: its position, its orientation and the derivative of the position, in the body frame
Leg(q, l) ==
   LET a == Q(q, l) A == Rx(El(a, 0)) H == A \otimes Ry(El(a, 1)) K == H \otimes Ry(El(a, 2))
       sh == K \otimes Shank th == (H \otimes Thigh) \oplus sh ab == (A \otimes Abd(l)) \oplus th
       p == HipPos(l) \oplus ab
       u == A \otimes Ey                                   \* axis of hip and knee
   IN [p |-> p, R |-> K, J |-> HCat(HCat(Cross(Ex, ab), Cross(u, th)), Cross(u, sh)), W |-> HCat(HCat(Ex, u), u)]
Wide(M, l) == SetBlk(MZero(MRows(M), 12), 0, 3 * (l - 1), M)
\* base velocity seen at a stance foot of leg l for the body rate w
StanceVel(q, dq, w, l) == LET g == Leg(q, l) IN MNeg((g.J \otimes Q(dq, l)) \oplus Cross(w, g.p))
Stance(c) == {l \in 1..4 : ~MSame(El(c, l - 1), Num(0))}
First(s) == CHOOSE l \in s : \A k \in s : l <= k
InitVelocity(q, dq, c, w) == LET s == Stance(c) IN IF s = {} THEN Zero3 ELSE StanceVel(q, dq, w, First(s))

\* lemmas of the specification itself, checked whenever it is used
LOCAL q1 == VCat(VCat(Vec3(Rat(1, 3), Rat(-2, 5), Rat(7, 4)), Vec3(Rat(-1, 3), Rat(-2, 5), Rat(7, 4))), VCat(Vec3(Rat(1, 3), Rat(-2, 5), Rat(7, 4)), Vec3(Rat(-1, 3), Rat(-2, 5), Rat(7, 4))))
LOCAL My == SetBlk(MId(3), 1, 1, Num(-1))
ASSUME MClose(Leg(q1, 1).p, My \otimes Leg(q1, 2).p, 28, Num(1))                                     \* right mirrors left
ASSUME MClose(Leg(q1, 1).p \ominus Leg(q1, 3).p, Vec3(L("0.38"), Num(0), Num(0)), 15, Num(1))        \* hind is front, shifted
LOCAL h1 == Lit("1e-12")
LOCAL dql(j) == SetBlk(MZero(12, 1), j, 0, h1)
ASSUME \A j \in 0..2 : MClose(MDiv(Leg(q1 \oplus dql(j), 1).p \ominus Leg(q1 \ominus dql(j), 1).p, Num(2) \otimes h1), Blk(Leg(q1, 1).J, 0, j, 3, 1), 15, Num(1))
=============================================================================
