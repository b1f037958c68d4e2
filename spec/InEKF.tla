-------------------------------- MODULE InEKF --------------------------------
(***************************************************************************)
(* Numeric content of the transitions of the invariant EKF.                *)
(*                                                                         *)
(* A state S is a record                                                   *)
(*   X   extended pose, SE_{2+n}(3): columns R, v, p, d_1 .. d_n           *)
(*   th  biases (gyroscope; accelerometer)                                 *)
(*   P   covariance of (xi_R, xi_v, xi_p, xi_d.., zeta_g, zeta_a)          *)
(*   Qc  continuous process noise, same layout as P                        *)
(*   t, tp   stamp and time up to which the state has been propagated      *)
(*   w   body angular rate at initialisation                               *)
(*   ben TRUE iff the biases are estimated                                 *)
(*   own <<owner_1 .. owner_n>>: which (source, leg) each d_k belongs to   *)
(*   ax, ap  error amplification of the step in double arithmetic: factor  *)
(*       on the mean, absolute scale on the covariance (tolerances only)   *)
(*                                                                         *)
(* A component configuration c is [id, kind, q, et, keys]; keys holds the  *)
(* settings present in its file, everything else takes the default below.  *)
(***************************************************************************)
EXTENDS Mat

K(c, k, d) == IF k \in DOMAIN c.keys THEN c.keys[k] ELSE d
Ident4 == VCat(Num(1), Zero3)
Var(c, k, d) == Sq(K(c, k, Lit(d)))                 \* standard deviations act as squares

\* propagation settings
GyroVar(c)   == Var(c, "noises.gyroscope_std", "0.1")
AccVar(c)    == Var(c, "noises.accelerometer_std", "0.1")
GyroBVar(c)  == Var(c, "noises.gyroscope_bias_std", "0.1")
AccBVar(c)   == Var(c, "noises.accelerometer_bias_std", "0.1")
RotIB(c)     == QuatR(K(c, "settings.rotation_imu2body", Ident4))
LeverIB(c)   == K(c, "settings.translation_imu2body", Zero3)
BiasUpd(c)   == K(c, "settings.enable_imu_bias_update", FALSE)
UseOri(c)    == K(c, "settings.use_imu_ori_to_init", FALSE)
StaticB(c)   == K(c, "settings.static_bias_initialization", TRUE)
BiasN(c)     == K(c, "settings.init_bias_size", 0)
PriorBg(c)   == K(c, "priors.gyroscope_bias", Zero3)
PriorBa(c)   == K(c, "priors.accelerometer_bias", Zero3)
\* velocity correction settings
VelVar(c)    == Var(c, "noises.velocity_std", "0.1")
RotVB(c)     == QuatR(K(c, "settings.rotation_vel2body", Ident4))
VelScale(c)  == K(c, "settings.velocity_scale", Num(1))
Thres(c)     == K(c, "settings.correction_time_threshold", Lit("0.3"))
\* leg kinematics settings ("contact_std" is the name the shipped files use)
EncVar(c)    == Var(c, "noises.encoder_std", "0.01")
KinAddVar(c) == Var(c, "noises.kinematics_additive_std", "0.05")
ContactVar(c) == IF "noises.contact_noise_std" \in DOMAIN c.keys THEN Sq(c.keys["noises.contact_noise_std"])
                 ELSE Var(c, "noises.contact_std", "0.1")
\* estimator settings: absent keys are default *covariances*
RotCov0(c) == IF "state.rotation_std_value" \in DOMAIN c.keys THEN Sq(c.keys["state.rotation_std_value"]) ELSE Lit("0.03")
VelCov0(c) == IF "state.velocity_std_value" \in DOMAIN c.keys THEN Sq(c.keys["state.velocity_std_value"]) ELSE Lit("0.01")
PosCov0(c) == IF "state.position_std_value" \in DOMAIN c.keys THEN Sq(c.keys["state.position_std_value"]) ELSE Lit("0.00001")

Gravity == Vec3(Num(0), Num(0), Lit("-9.80"))

----------------------------------------------------------------------------
\* views
Rm(S) == Blk(S.X, 0, 0, 3, 3)
Vc(X, i) == Blk(X, 0, i, 3, 1)
Vm(S) == Vc(S.X, 3)
Pm(S) == Vc(S.X, 4)
DimX(S) == MCols(S.X)
DimP(S) == MCols(S.P)
NB(S) == DimP(S) - 6                                \* rows before the biases
Bg(S) == Seg(S.th, 0, 3)
Ba(S) == Seg(S.th, 3, 3)
XInv(X) == LET n == MCols(X) Rt == MT(Blk(X, 0, 0, 3, 3)) IN
   SetBlk(MId(n), 0, 0, HCat(Rt, MNeg(Rt \otimes Blk(X, 0, 3, 3, n - 3))))

Fresh == [X |-> MId(5), th |-> MZero(6, 1), P |-> MId(15), Qc |-> MZero(15, 15),
          t |-> Num(0), tp |-> Num(0), w |-> Zero3, ben |-> FALSE, own |-> <<>>, ax |-> Num(1), ap |-> Num(0)]

RECURSIVE AdjCols(_, _, _, _)
AdjCols(A, X, R, i) == IF i = MCols(X) THEN A
   ELSE AdjCols(SetBlk(SetBlk(A, 3*i - 6, 3*i - 6, R), 3*i - 6, 0, Skew(Vc(X, i)) \otimes R), X, R, i + 1)
\* adjoint of X in SE_K(3)
Adj(X) == LET R == Blk(X, 0, 0, 3, 3) n == 3 * MCols(X) - 6 IN AdjCols(SetBlk(MZero(n, n), 0, 0, R), X, R, 3)
AdjB(X) == LET A == Adj(X) n == MCols(A) IN SetBlk(MId(n + 6), 0, 0, A)   \* acting on biases as identity

\* exponential of SE_K(3): xi = (phi, rho_1 .. rho_K)
RECURSIVE ExpCols(_, _, _, _)
ExpCols(X, J, xi, k) == IF 3 + k = MCols(X) THEN X
   ELSE ExpCols(SetBlk(X, 0, 3 + k, J \otimes Seg(xi, 3 + 3*k, 3)), J, xi, k + 1)
ExpSEK(xi) == LET n == MRows(xi) \div 3 - 1 A == Skew(Seg(xi, 0, 3)) IN
   ExpCols(SetBlk(MId(3 + n), 0, 0, MExp(A)), MPhi(A, 1), xi, 0)

----------------------------------------------------------------------------
(* Propagation over one sample m: the sample's rate and force are constant over the interval. *)
Rate(c, S, m)  == (RotIB(c) \otimes m.w) \ominus Bg(S)
Force(c, S, m) == LET w == Rate(c, S, m) IN
   ((RotIB(c) \otimes m.a) \ominus Ba(S)) \ominus Cross(w, Cross(w, LeverIB(c)))

PropMean(X, w, a, dt) ==
   LET R == Blk(X, 0, 0, 3, 3) v == Vc(X, 3) p == Vc(X, 4) W == dt \otimes Skew(w)
       v1 == v \oplus (dt \otimes ((R \otimes MPhi(W, 1) \otimes a) \oplus Gravity))
       p1 == p \oplus (dt \otimes v) \oplus (Sq(dt) \otimes ((R \otimes MPhi(W, 2) \otimes a) \oplus (Rat(1, 2) \otimes Gravity)))
   IN SetBlk(SetBlk(SetBlk(X, 0, 0, R \otimes MExp(W)), 0, 3, v1), 0, 4, p1)

\* generator of the left-invariant error dynamics, d/dt (xi, zeta) = A (xi, zeta)
RECURSIVE GenFeet(_, _, _, _)
GenFeet(A, nW, i, n) == IF i = n THEN A ELSE GenFeet(SetBlk(A, 3*i - 6, 3*i - 6, nW), nW, i + 1, n)
LeftGen(nx, w, a, ben) ==
   LET np == 3*nx nW == MNeg(Skew(w)) nb == np - 6
       A0 == SetBlk(SetBlk(SetBlk(SetBlk(SetBlk(MZero(np, np), 0, 0, nW), 3, 0, MNeg(Skew(a))), 3, 3, nW), 6, 3, I3), 6, 6, nW)
       A1 == GenFeet(A0, nW, 5, nx)
   IN IF ben THEN SetBlk(SetBlk(A1, 0, nb, MNeg(I3)), 3, nb + 3, MNeg(I3)) ELSE A1

Transition(et, X, X1, w, a, dt, ben) ==
   LET L == MExp(dt \otimes LeftGen(MCols(X), w, a, ben)) IN
   IF et = "L" THEN L ELSE AdjB(X1) \otimes L \otimes AdjB(XInv(X))

NoiseC(c, S) == LET n == NB(S) Q0 == SetBlk(SetBlk(S.Qc, 0, 0, GyroVar(c) \otimes I3), 3, 3, AccVar(c) \otimes I3) IN
   IF BiasUpd(c) THEN SetBlk(SetBlk(Q0, n, n, GyroBVar(c) \otimes I3), n + 3, n + 3, AccBVar(c) \otimes I3) ELSE Q0

PropCov(c, S, X1, w, a, dt) ==
   LET ben == BiasUpd(c) n == NB(S)
       F  == Transition(c.et, S.X, X1, w, a, dt, ben)
       FG == IF c.et = "R" THEN F \otimes AdjB(S.X) ELSE F
       P1 == Sandwich(F, S.P) \oplus (dt \otimes Sandwich(FG, NoiseC(c, S)))
       \* without bias estimation the biases are kept uncorrelated, with unit covariance
       P0 == LET Fn == Blk(F, 0, 0, n, n) Gn == Blk(FG, 0, 0, n, n) IN
             SetBlk(MId(n + 6), 0, 0, Sandwich(Fn, Blk(S.P, 0, 0, n, n)) \oplus (dt \otimes Sandwich(Gn, Blk(NoiseC(c, S), 0, 0, n, n))))
   IN IF ben THEN P1 ELSE P0

PropState(c, S, m) ==
   LET dt == m.t \ominus S.tp w == Rate(c, S, m) a == Force(c, S, m)
       X1 == PropMean(S.X, w, a, dt)
   IN [S EXCEPT !.X = X1, !.P = PropCov(c, S, X1, w, a, dt), !.t = m.t, !.tp = m.t]

----------------------------------------------------------------------------
(* Invariant Kalman update for an observation that is linear in the right-invariant error. *)
YawBias == 2
Update(et, S, Z, H, N) ==
   LET n  == NB(S) np == DimP(S)
       P0 == IF S.ben THEN S.P ELSE SetBlk(Lit("0.0001") \otimes MId(np), 0, 0, Blk(S.P, 0, 0, n, n))
       P1 == IF et = "L" THEN Sandwich(AdjB(S.X), P0) ELSE P0
       Si == MInv(Sandwich(H, P1) \oplus N)
       Kg == P1 \otimes MT(H) \otimes Si
       dl == Kg \otimes Z
       X1 == ExpSEK(Seg(dl, 0, n)) \otimes S.X
       th == S.th \oplus SetBlk(Seg(dl, n, 6), YawBias, 0, Num(0))          \* yaw-rate bias held
       J  == MId(np) \ominus (Kg \otimes H)
       P2 == Sandwich(J, P1) \oplus Sandwich(Kg, N)                        \* Joseph form
       yb == n + YawBias
       P3 == SetBlk(SetBlk(SetBlk(P2, yb, 0, MZero(1, np)), 0, yb, MZero(np, 1)), yb, yb, Lit("0.0001"))
       P4 == IF et = "L" THEN Sandwich(AdjB(XInv(X1)), P3) ELSE P3
       big == MMax(IF et = "L" THEN Sandwich(MAbs(AdjB(S.X)), MAbs(P0)) ELSE P0)
       cond == Num(1) \oplus (big \otimes MMax(Si))
       kz == Num(1) \oplus ((Num(1) \oplus MMax(Kg)) \otimes MMax(Z))
   IN [S EXCEPT !.X = X1, !.th = th, !.P = P4, !.ax = @ \otimes cond \otimes kz,
                !.ap = (@ \oplus big) \otimes cond \otimes S.ax \otimes (IF et = "L" THEN Sq(Num(1) \oplus MMax(X1)) ELSE Num(1))]

(* Kalman update for an observation that is linear in the left-invariant error.  The covariance of a  *)
(* right-invariant filter is expressed in left-invariant coordinates for the update, and back after.  *)
UpdateLeft(et, S, Z, H, N) ==
   LET n  == NB(S) np == DimP(S)
       P0 == IF S.ben THEN S.P ELSE SetBlk(Lit("0.0001") \otimes MId(np), 0, 0, Blk(S.P, 0, 0, n, n))
       P1 == IF et = "R" THEN Sandwich(AdjB(XInv(S.X)), P0) ELSE P0
       Si == MInv(Sandwich(H, P1) \oplus N)
       Kg == P1 \otimes MT(H) \otimes Si
       dl == Kg \otimes Z
       X1 == S.X \otimes ExpSEK(Seg(dl, 0, n))
       P2 == Sandwich(MId(np) \ominus (Kg \otimes H), P1) \oplus Sandwich(Kg, N)
       P4 == IF et = "R" THEN Sandwich(AdjB(X1), P2) ELSE P2
       big == MMax(IF et = "R" THEN Sandwich(MAbs(AdjB(XInv(S.X))), MAbs(P0)) ELSE P0)
       cond == Num(1) \oplus (big \otimes MMax(Si))
       kz == Num(1) \oplus ((Num(1) \oplus MMax(Kg)) \otimes MMax(Z))
   IN [S EXCEPT !.X = X1, !.th = S.th \oplus Seg(dl, n, 6), !.P = P4, !.ax = @ \otimes cond \otimes kz,
                !.ap = (@ \oplus big) \otimes cond \otimes S.ax \otimes (IF et = "R" THEN Sq(Num(1) \oplus MMax(X1)) ELSE Num(1))]

VelState(c, S, m) ==
   LET R == Rm(S)
       Z == (R \otimes RotVB(c) \otimes (VelScale(c) \otimes m.v)) \ominus Vm(S)
       H == SetBlk(MZero(3, DimP(S)), 0, 3, I3)
   IN Update(c.et, [S EXCEPT !.t = m.t], Z, H, VelVar(c) \otimes I3)       \* R (s I) R' = s I

----------------------------------------------------------------------------
(* Leg kinematics.  Legs are numbered 1..n here; owner <<source, leg>>.                    *)
Legs(m) == 1..Len(m.c)
OwnIdx(S, src, leg) == LET I == {k \in 1..Len(S.own) : S.own[k] = <<src, leg>>} IN IF I = {} THEN 0 ELSE CHOOSE k \in I : TRUE
FootCov(c, m, i) == (EncVar(c) \otimes m.J[i] \otimes MT(m.J[i])) \oplus (KinAddVar(c) \otimes I3)

\* stacked observation for the legs in list, H/Z/N accumulated from E
RECURSIVE Stack(_, _, _, _, _)
Stack(c, S, m, list, E) ==
   IF list = <<>> THEN E ELSE
   LET i == Head(list) k == OwnIdx(S, c.id, i) R == Rm(S)
       Hi == SetBlk(SetBlk(MZero(3, DimP(S)), 0, 6, MNeg(I3)), 0, 3 * (4 + k) - 6, I3)
       Zi == (R \otimes m.h[i]) \ominus (Vc(S.X, 4 + k) \ominus Pm(S))
       Ni == Sandwich(R, FootCov(c, m, i))
       r  == MRows(E.N)
       N1 == VCat(HCat(E.N, MZero(r, 3)), HCat(MZero(3, r), Ni))
   IN Stack(c, S, m, Tail(list), [H |-> VCat(E.H, Hi), Z |-> VCat(E.Z, Zi), N |-> N1])

DropFoot(S, k) == [S EXCEPT !.X = Drop(S.X, 4 + k, 1), !.P = Drop(S.P, 3 * (4 + k) - 6, 3), !.Qc = Drop(S.Qc, 3 * (4 + k) - 6, 3),
                            !.own = [j \in 1..(Len(S.own) - 1) |-> IF j < k THEN S.own[j] ELSE S.own[j + 1]]]
RECURSIVE DropAll(_, _, _)
DropAll(c, S, list) == IF list = <<>> THEN S ELSE DropAll(c, DropFoot(S, OwnIdx(S, c.id, Head(list))), Tail(list))

\* matrix that inserts three rows before the last six
Insert3(A, M) == LET n == MRows(A) - 6 q == MCols(A) - 6 IN
   VCat(VCat(HCat(HCat(Blk(A, 0, 0, n, q), MZero(n, 3)), Blk(A, 0, q, n, 6)),
             HCat(HCat(MZero(3, q), M), MZero(3, 6))),
        HCat(HCat(Blk(A, n, 0, 6, q), MZero(6, 3)), Blk(A, n, q, 6, 6)))
AddFoot(c, S, m, i) ==
   LET n == NB(S) np == DimP(S) nx == DimX(S) R == Rm(S)
       X1 == SetBlk(SetBlk(MId(nx + 1), 0, 0, S.X), 0, nx, Pm(S) \oplus (R \otimes m.h[i]))
       row0 == SetBlk(MZero(3, np), 0, 6, I3)
       row == IF c.et = "R" THEN row0 ELSE SetBlk(row0, 0, 0, MNeg(Skew(m.h[i])))
       F  == VCat(VCat(Blk(MId(np), 0, 0, n, np), row), Blk(MId(np), n, 0, 6, np))
       Gr == IF c.et = "R" THEN R ELSE I3
       G  == SetBlk(MZero(np + 3, 3), n, 0, Gr)
   IN [S EXCEPT !.X = X1, !.P = Sandwich(F, S.P) \oplus Sandwich(G, FootCov(c, m, i)),
                !.Qc = Insert3(S.Qc, ContactVar(c) \otimes I3), !.own = Append(S.own, <<c.id, i>>)]
RECURSIVE AddAll(_, _, _, _)
AddAll(c, S, m, list) == IF list = <<>> THEN S ELSE AddAll(c, AddFoot(c, S, m, Head(list)), m, Tail(list))

Sel(m, T(_)) == SelectSeq([i \in Legs(m) |-> i], T)
LegState(c, S0, m) ==
   LET S == [S0 EXCEPT !.t = m.t]
       has(i) == OwnIdx(S, c.id, i) # 0
       upd == Sel(m, LAMBDA i : m.c[i] /\ has(i))
       rem == Sel(m, LAMBDA i : ~m.c[i] /\ has(i))
       new == Sel(m, LAMBDA i : m.c[i] /\ ~has(i))
       E == Stack(c, S, m, upd, [H |-> MZero(0, DimP(S)), Z |-> MZero(0, 1), N |-> MZero(0, 0)])
       S1 == IF upd = <<>> THEN S ELSE Update(c.et, S, E.Z, E.H, E.N)
   IN AddAll(c, DropAll(c, S1, rem), m, new)

----------------------------------------------------------------------------
(* Initialisation. *)
BodyFromOri(c, m) == QuatR(m.qt) \otimes MT(RotIB(c))        \* orientation of the body in the world
InitImu(c, S, m, bg, ba) ==
   LET n == NB(S) R0 == IF UseOri(c) THEN BodyFromOri(c, m) ELSE I3 IN
   [S EXCEPT !.X = SetBlk(SetBlk(S.X, 0, 0, R0), 0, 4, Zero3), !.th = VCat(bg, ba), !.ben = BiasUpd(c), !.t = m.t, !.tp = m.t,
             !.w = RotIB(c) \otimes m.w,
             !.P = SetBlk(SetBlk(S.P, n, n, GyroBVar(c) \otimes I3), n + 3, n + 3, AccBVar(c) \otimes I3)]
InitVel(c, S, m) == [S EXCEPT !.X = SetBlk(S.X, 0, 3, Rm(S) \otimes RotVB(c) \otimes (VelScale(c) \otimes m.v)), !.t = m.t]
\* body velocity implied by leg kinematics: minus the velocity of a stance foot relative to the body
LegVelocity(S, m) ==
   IF m.k = "leg" THEN m.iv \oplus S.w
   ELSE LET st == {i \in Legs(m) : m.c[i]} IN
        IF st = {} THEN Zero3
        ELSE LET i == CHOOSE j \in st : \A k \in st : j <= k IN
             MNeg((m.J[i] \otimes Seg(m.dq, 3 * (i - 1), 3)) \oplus Cross(S.w, m.h[i]))
InitLeg(c, S, m) == [S EXCEPT !.X = SetBlk(S.X, 0, 3, Rm(S) \otimes LegVelocity(S, m)), !.t = m.t]
InitCov(e, S) == [S EXCEPT !.P = SetBlk(SetBlk(SetBlk(S.P, 0, 0, RotCov0(e) \otimes I3), 3, 3, VelCov0(e) \otimes I3), 6, 6, PosCov0(e) \otimes I3)]

\* one calibration sample, gravity removed: (rate; residual force) in the body frame
CalSample(c, m) ==
   LET w == RotIB(c) \otimes m.w
       a == (RotIB(c) \otimes m.a) \ominus Cross(w, Cross(w, LeverIB(c)))
       R == IF UseOri(c) THEN BodyFromOri(c, m) ELSE I3
   IN VCat(w, a \oplus (MT(R) \otimes Gravity))
RECURSIVE VSum(_, _)
VSum(s, n) == IF n = 0 THEN MZero(6, 1) ELSE VSum(s, n - 1) \oplus s[n]
CalMean(s) == MDiv(VSum(s, Len(s)), Num(Len(s)))
=============================================================================
