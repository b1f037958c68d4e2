----------------------------- MODULE MeasureTrace -----------------------------
(***************************************************************************)
(* P26.  Measurement objects: header (stamp, sequence, frame), type, and    *)
(* the values of every kind; seq and frame are known once they were set.    *)
(***************************************************************************)
EXTENDS Mat
CONSTANTS Props, File
VARIABLES tr, i, W, bad
Put(f, k, v) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = v] ELSE f @@ (k :> v)
C(ok, what) == IF ok THEN {} ELSE {<<"P26", what>>}
TypeNo == [base |-> 0, imu |-> 1, imuf |-> 1, leg |-> 2, vel |-> 3, velf |-> 3, ang |-> 4, angf |-> 4, joint |-> 5, contact |-> 6, odom |-> 7]
TypeName == <<"UNKNOWN", "IMU", "LEGGED_KINEMATICS", "VELOCITY", "ANGULAR_VELOCITY", "JOINT_STATE", "CONTACT", "ODOM">>
E4 == VCat(Num(1), Zero3)
Empty == MZero(0, 1)
Z12 == MZero(12, 1)
Z4 == MZero(4, 1)
New(t, n) == [kind |-> t, type |-> n, stamp |-> Num(0), seq |-> <<>>, frame |-> <<>>,
              q |-> E4, w |-> Zero3, a |-> Zero3, v |-> Zero3, pos |-> IF t = "leg" THEN Z12 ELSE Empty, vel |-> Empty, eff |-> Empty,
              c |-> IF t = "leg" THEN Z4 ELSE Empty, tr |-> Zero3, R |-> I3, T |-> MId(4)]
PoseOf(R, p) == SetBlk(SetBlk(MId(4), 0, 0, R), 0, 3, p)
Q2(q) == Norm2(q)
\* the squared norm of a rejected quaternion is off by 1e-5 or more; within eps of the bound either is right
Off(q) == LET d == Q2(q) \ominus Num(1) IN SMax(d, MNeg(d))
Eps(m) == IF m.kind = "imuf" THEN Lit("1e-6") ELSE Lit("1e-13")
MustReject(m, q) == MLe(Lit("1e-5") \oplus Eps(m), Off(q)) \/ ~MFinite(Q2(q))
MayReject(m, q) == MLe(Lit("1e-5"), Off(q) \oplus Eps(m)) \/ ~MFinite(Q2(q))
Apply(w, ev) ==
   LET m == w[ev.k] IN
   CASE ev.f = "new" -> IF ev.t = "typed" THEN New("base", ev.n) ELSE New(ev.t, TypeNo[ev.t])
     [] ev.f = "newodom" -> [New("odom", 7) EXCEPT !.tr = ev.p, !.R = QuatR(ev.q), !.T = PoseOf(QuatR(ev.q), ev.p), !.seq = <<ev.sq>>, !.stamp = ev.st, !.frame = <<ev.fr>>]
     [] ev.f = "newleg" -> [New("leg", 2) EXCEPT !.pos = ev.q, !.c = ev.c0]
     [] ev.f = "time" -> [m EXCEPT !.stamp = ev.x]
     [] ev.f = "header" -> [m EXCEPT !.seq = <<ev.sq>>, !.stamp = ev.st, !.frame = <<ev.fr>>]
     [] ev.f = "header2" -> [m EXCEPT !.seq = w[ev.src].seq, !.stamp = w[ev.src].stamp, !.frame = w[ev.src].frame]
     [] ev.f = "quat" -> IF ev.thrown THEN m ELSE [m EXCEPT !.q = ev.x]
     [] ev.f = "angvel" -> [m EXCEPT !.w = ev.x]
     [] ev.f = "acc" -> [m EXCEPT !.a = ev.x]
     [] ev.f = "vel" -> [m EXCEPT !.v = ev.x]
     [] ev.f = "joints" -> [m EXCEPT !.pos = ev.p, !.vel = ev.v0, !.eff = ev.u]
     [] ev.f = "encoders" -> [m EXCEPT !.pos = ev.p]
     [] ev.f = "contacts" -> [m EXCEPT !.c = ev.x]
     [] ev.f = "legq" -> [m EXCEPT !.pos = ev.x]
     [] ev.f = "trans" -> [m EXCEPT !.tr = ev.x]
     [] ev.f = "rot" -> [m EXCEPT !.R = QuatR(ev.x)]
     [] ev.f = "pose" -> [m EXCEPT !.T = PoseOf(m.R, m.tr)]
Tol(m) == IF m.kind \in {"imuf", "velf", "angf"} THEN 5 ELSE 13
Vector(m, ev) ==
   LET n == MSqrt(Norm2(m.v)) z == MSame(n, Num(0)) IN
        C(MSame(ev.v, m.v), "vector") \cup C(MClose(ev.mag, n, Tol(m), Num(0)), "magnitude")
   \cup C(IF z THEN MSame(ev.unit, Zero3) ELSE MClose(ev.unit, MDiv(m.v, n), Tol(m), Num(0)), "unit vector")
Do(w, ev) ==
   LET m == Apply(w, ev) tn == TypeName[m.type + 1]
       b == C(MSame(ev.stamp, m.stamp) /\ MSame(ev.hstamp, m.stamp), "time stamp")
       \cup C(m.seq = <<>> \/ ev.seq = m.seq[1], "sequence number") \cup C(m.frame = <<>> \/ ev.frame = m.frame[1], "frame")
       \cup C(ev.type = m.type, "type") \cup C(ev.print = "Measurement type: " \o tn \o " ", "printed type")
       \cup C(ev.f # "quat" \/ (IF ev.thrown THEN MayReject(w[ev.k], ev.x) ELSE ~MustReject(w[ev.k], ev.x)), "quaternion validation")
       \cup (CASE m.kind \in {"imu", "imuf"} -> C(MSame(ev.q, m.q), "quaternion") \cup C(MSame(ev.w, m.w), "angular velocity") \cup C(MSame(ev.a, m.a), "linear acceleration")
                                       \cup C(MClose(ev.R, QuatR(m.q), Tol(m), Num(1)), "rotation matrix")
              [] m.kind \in {"vel", "velf", "ang", "angf"} -> Vector(m, ev)
              [] m.kind = "joint" -> C(MSame(ev.pos, m.pos), "joint positions") \cup C(MSame(ev.vel, m.vel), "joint velocities") \cup C(MSame(ev.eff, m.eff), "joint efforts")
              [] m.kind = "contact" -> C(MSame(ev.c, m.c), "contacts")
              [] m.kind = "leg" -> C(MSame(ev.pos, m.pos), "encoders") \cup C(MSame(ev.c, m.c), "contacts")
              [] m.kind = "odom" -> C(MClose(ev.T, m.T, 13, Num(1)), "pose matrix")
              [] OTHER -> {})
   IN [W |-> Put(w, ev.k, m), b |-> b]
B == INSTANCE TraceBase WITH W0 <- <<>>, DoEvent <- Do
Spec == B!Spec
Conforms == B!Conforms
View == B!View
Short == B!Short
=============================================================================
