------------------------------- MODULE KinTrace -------------------------------
(***************************************************************************)
(* P22.  A kinematics object: joint angles, joint velocities, contacts and  *)
(* the feet computed last; and the generated functions.                     *)
(***************************************************************************)
EXTENDS Kinematics
CONSTANTS Props, File
VARIABLES tr, i, W, bad
C(ok, what) == IF ok THEN {} ELSE {<<"P22", what>>}
Near(x, y) == MRows(x) = MRows(y) /\ MCols(x) = MCols(y) /\ MLe(MDist(x, y), Lit("1e-13"))
Z12 == MZero(12, 1)
New(q, dq, c) == [q |-> q, dq |-> dq, c |-> c, hq |-> <<>>]      \* hq: joint angles at the last computation
Feet(w) == IF w.hq = <<>> THEN [h |-> MZero(3, 4), J |-> MZero(3, 12)]
   ELSE LET g == [l \in 1..4 |-> Leg(w.hq[1], l)] IN
        [h |-> HCat(HCat(g[1].p, g[2].p), HCat(g[3].p, g[4].p)), J |-> HCat(HCat(g[1].J, g[2].J), HCat(g[3].J, g[4].J))]
DoKin(w0, ev) ==
   LET w == CASE ev.f = "new" -> New(Z12, <<>>, MZero(4, 1))
              [] ev.f = "ctor" -> New(ev.q, <<ev.dq>>, ev.c)
              [] ev.f = "q" -> [w0 EXCEPT !.q = ev.q]
              [] ev.f = "dq" -> [w0 EXCEPT !.dq = <<ev.dq>>]
              [] ev.f = "c" -> [w0 EXCEPT !.c = ev.c]
              [] ev.f = "compute" -> [w0 EXCEPT !.hq = <<w0.q>>]
              [] ev.f = "look" -> w0
       F == Feet(w)
       b == C(MSame(ev.oq, w.q), "joint angles") \cup C(MSame(ev.oc, w.c), "contacts") \cup C(ev.n = 4, "number of legs")
            \cup C(Near(ev.h, F.h), "foot position") \cup C(Near(ev.J, F.J), "foot Jacobian")
            \cup (IF "iv" \in DOMAIN ev THEN LET v == InitVelocity(w.q, w.dq[1], w.c, ev.w) IN
                  C(MLe(MDist(ev.iv, v), Lit("1e-13") \otimes (Num(1) \oplus MMax(w.dq[1]) \oplus MMax(ev.w))), "initial velocity") ELSE {})
   IN [W |-> w, b |-> b]
DoRaw(ev) ==
   UNION {LET g == Leg(ev.q, l) Rt == MT(g.R) J == Wide(g.J, l) Wl == Wide(g.W, l)
              \* velocity of the body-fixed point at the body origin moving with the foot
              Vs == J \oplus (Skew(g.p) \otimes Wl) IN
        C(Near(ev.p[l], g.p), "p") \cup C(Near(ev.R[l], g.R), "R") \cup C(Near(ev.H[l], SetBlk(SetBlk(MId(4), 0, 0, g.R), 0, 3, g.p)), "H")
   \cup C(Near(ev.Jp[l], J), "Jp") \cup C(Near(ev.Jws[l], Wl), "Jws") \cup C(Near(ev.Jwb[l], Rt \otimes Wl), "Jwb")
   \cup C(Near(ev.Jvb[l], Rt \otimes J), "Jvb") \cup C(Near(ev.Jvs[l], Vs), "Jvs")
   \cup C(Near(ev.Jb[l], VCat(Rt \otimes Wl, Rt \otimes J)), "Jb") \cup C(Near(ev.Js[l], VCat(Wl, Vs)), "Js") : l \in 1..4}
Do(w, ev) == IF ev.f = "raw" THEN [W |-> w, b |-> DoRaw(ev)] ELSE DoKin(w, ev)
B == INSTANCE TraceBase WITH W0 <- <<>>, DoEvent <- Do
Spec == B!Spec
Conforms == B!Conforms
View == B!View
Short == B!Short
=============================================================================
