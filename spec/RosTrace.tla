------------------------------ MODULE RosTrace ------------------------------
(***************************************************************************)
(* The ROS wrappers, on top of the concurrent behaviour of Conc.            *)
(*   P27  every message of a subscribed topic becomes one measurement (an   *)
(*        odometry source: one per message after its first; a short wheel   *)
(*        message of Fetch: none), in the order of arrival, in the buffers  *)
(*        of its subscription, with the message's header and values.        *)
(*   P28  every state taken from the queue becomes one pose message, in     *)
(*        order; the path is every n-th pose; topics, frame, rates and      *)
(*        sequence numbers are the configured ones.                         *)
(***************************************************************************)
EXTENDS Conc
CONSTANTS Props, File
VARIABLES tr, i, W, bad
V0 == [c |-> Conc0, on |-> TRUE, srcs |-> <<>>, exp |-> <<>>, got |-> <<>>, prev |-> <<>>,
       pc |-> <<>>, rate |-> <<>>, np |-> 0, ph |-> <<>>, npath |-> 0, plen |-> 0, nl |-> <<>>]
\* ---- subscriptions --------------------------------------------------------------------------------
Takes == [imu |-> {"imu"}, fimu |-> {"fimu"}, vel |-> {"vel"}, velc |-> {"velc"}, joint |-> {"dd1", "dd2", "fl", "fa"}, odom |-> {"odom"}, leg |-> {"leg"}]
For(v, ev) == {k \in 1..Len(v.srcs) : /\ v.srcs[k].k \in Takes[ev.k] /\ v.srcs[k].topic = ev.topic
                                      /\ (v.srcs[k].topic2 = "" \/ v.srcs[k].topic2 = ev.topic2)}
Yields(v, k, ev) == CASE v.srcs[k].k \in {"fl", "fa"} -> MRows(ev.v) > 2
                      [] v.srcs[k].k = "odom" -> k \in DOMAIN v.prev
                      [] OTHER -> TRUE
RECURSIVE Deliver(_, _, _)
Deliver(v, ks, ev) == IF ks = {} THEN v ELSE
   LET k == CHOOSE x \in ks : TRUE s == v.srcs[k]
       x == [k |-> s.k, s |-> s.x, m |-> ev, p |-> IF s.k = "odom" THEN Get(v.prev, k, ev) ELSE ev]
       e1 == IF Yields(v, k, ev) THEN Put(v.exp, s.q, Append(v.exp[s.q], x)) ELSE v.exp
       e2 == IF Yields(v, k, ev) /\ s.q2 # "" THEN Put(e1, s.q2, Append(e1[s.q2], [x EXCEPT !.k = "ang"])) ELSE e1 IN
   Deliver([v EXCEPT !.exp = e2, !.prev = IF s.k = "odom" THEN Put(@, k, ev) ELSE @], ks \ {k}, ev)
Abs(a) == SMax(a, MNeg(a))
Near(a, b, tol) == MLe(MDist(a, b), tol)
Stamp(m) == m.sec \oplus (Lit("1e-9") \otimes m.nsec)
HeadOk(it, m) == /\ Near(it.st, Stamp(m), Lit("5e-16") \otimes Stamp(m)) /\ MSame(it.sq, m.sq) /\ it.fr = m.fr
Zeros(q) == MLe(MMax(q), Num(0))
Wheel(v, k) == At(v, k, 0)
\* both sides of the robot: front and rear wheels averaged; Fetch has one wheel a side
Right(x) == LET v == x.m.v r == At(x.s, 0, 0) IN IF MRows(x.s) > 0 /\ x.four THEN Rat(1, 2) \otimes (Wheel(v, 1) \oplus Wheel(v, 3)) \otimes r ELSE Wheel(v, 1) \otimes r
Left(x) == LET v == x.m.v r == At(x.s, 0, 0) IN IF x.four THEN Rat(1, 2) \otimes (Wheel(v, 0) \oplus Wheel(v, 2)) \otimes r ELSE Wheel(v, 0) \otimes r
WheelScale(x) == MMax(x.m.v) \otimes Abs(At(x.s, 0, 0))
Forward(it, x) == LET e == Rat(1, 2) \otimes (Right(x) \oplus Left(x)) IN
   Near(it.v, Vec3(e, Num(0), Num(0)), Lit("1e-14") \otimes WheelScale(x)) /\ MSame(Seg(it.v, 1, 2), MZero(2, 1))
Turn(it, x) == LET d == At(x.s, 1, 0) e == MDiv(Right(x) \ominus Left(x), d) IN
   Near(it.w, Vec3(Num(0), Num(0), e), Lit("1e-14") \otimes MDiv(WheelScale(x), Abs(d))) /\ MSame(Seg(it.w, 0, 2), MZero(2, 1))
\* ---- velocity from two poses of an odometry source mounted at M: log(M^-1 A^-1 B M) / dt ----------------
Pose4(q, p) == SetBlk(SetBlk(MId(4), 0, 0, QuatR(q)), 0, 3, p)
QuatOf(R) == LET w == Rat(1, 2) \otimes MSqrt(Num(1) \oplus At(R, 0, 0) \oplus At(R, 1, 1) \oplus At(R, 2, 2)) IN
   VCat(w, MDiv(Vec3(At(R, 2, 1) \ominus At(R, 1, 2), At(R, 0, 2) \ominus At(R, 2, 0), At(R, 1, 0) \ominus At(R, 0, 1)), Num(4) \otimes w))
RECURSIVE Halve(_, _)
Halve(q, n) == IF n = 0 THEN q ELSE LET w == MSqrt(Rat(1, 2) \otimes (Num(1) \oplus El(q, 0))) IN Halve(VCat(w, MDiv(Seg(q, 1, 3), Num(2) \otimes w)), n - 1)
RotLog(R) == LET h == Halve(QuatOf(R), 12) t == MDiv(Seg(h, 1, 3), El(h, 0)) y == Norm2(t)
                 ser == Num(1) \ominus (Rat(1, 3) \otimes y) \oplus (Rat(1, 5) \otimes y \otimes y) \ominus (Rat(1, 7) \otimes y \otimes y \otimes y) IN
   Num(8192) \otimes t \otimes ser
Travel(T) == MInv(MPhi(Skew(RotLog(Blk(T, 0, 0, 3, 3))), 1)) \otimes Blk(T, 0, 3, 3, 1)
OdomOk(it, x) ==
   LET M == Pose4(Seg(x.s, 3, 4), Seg(x.s, 0, 3)) A == Pose4(x.p.q, x.p.p) B == Pose4(x.m.q, x.m.p)
       dt == Stamp(x.m) \ominus Stamp(x.p) e == MDiv(Travel(MInv(M) \otimes MInv(A) \otimes B \otimes M), dt)
       tol == MDiv((Lit("1e-11") \otimes (Num(1) \oplus MMax(x.s) \oplus MMax(x.p.p) \oplus MMax(x.m.p))) \oplus (Lit("1e-15") \otimes Stamp(x.m) \otimes MMax(e)), Abs(dt)) IN
   Near(it.v, e, tol)
ASSUME MClose(RotLog(MExp(Skew(Vec3(Num(1), Num(-2), Rat(1, 2))))), Vec3(Num(1), Num(-2), Rat(1, 2)), 25, Num(1))
Content(it, x) ==
   CASE x.k = "imu" -> MSame(it.w, x.m.w) /\ MSame(it.a, x.m.a) /\ MSame(it.qt, IF Zeros(x.m.q) THEN VCat(Num(1), Zero3) ELSE x.m.q)
     [] x.k = "fimu" -> MSame(it.w, MRound(x.m.w \oplus x.m.o)) /\ MSame(it.a, x.m.a) /\ MSame(it.qt, IF Zeros(x.m.q) THEN VCat(Num(1), Zero3) ELSE x.m.q)
     [] x.k \in {"vel", "velc"} -> MSame(it.v, x.m.v)
     [] x.k \in {"dd1", "dd2", "fl", "fa"} -> Forward(it, x @@ [four |-> x.k \in {"dd1", "dd2"}])
     [] x.k = "ang" -> Turn(it, x @@ [four |-> MRows(x.m.v) = 4])
     [] x.k = "odom" -> OdomOk(it, x)
     [] x.k = "leg" -> MSame(it.c, x.m.c) /\ MSame(it.p, x.m.p) /\ MSame(it.v, x.m.v)
Arrived(v, ev) ==
   LET n == Get(v.got, ev.q, 0) + 1 IN
   IF n > Len(v.exp[ev.q]) THEN {<<"P27", "a measurement without its message in " \o ev.q>>}
   ELSE LET x == v.exp[ev.q][n] IN
        K("P27", HeadOk(ev, x.m), "header of a measurement is not its message's") \cup K("P27", Content(ev, x), "values of a measurement are not its message's")
\* ---- publisher ----------------------------------------------------------------------------------------
Skip(v) == MFloor(MDiv(At(v.pc.x, 0, 0), At(v.pc.x, 1, 0)))
Taken(v) == SelectSeq(v.c.cons, LAMBDA o : o.q = "out" /\ o.op \notin {"oclear", "clear"})
IntOf(n) == Num(n)
HdrPub(ev, sq, fr) == MSame(ev.sq, Num(sq)) /\ ev.fr = fr
StampPub(ev, t) == Near(Stamp(ev), t, Lit("1.001e-9") \oplus (Lit("3e-16") \otimes Abs(t))) /\ MLt(ev.nsec, Num(1000000000))
CovIdx == <<6, 7, 8, 0, 1, 2>>
CovOk(C, P) == \A a, b \in 1..6 : MSame(At(C, a - 1, b - 1), At(P, CovIdx[a], CovIdx[b]))
PoseIs(ev, st) == /\ MSame(ev.p, st.wp) /\ MClose(QuatR(ev.q), st.wR, 9, Num(1)) /\ MClose(Norm2(ev.q), Num(1), 9, Num(1))
PubPose(v, ev) ==
   LET n == v.np + 1 t == Taken(v) IN
   K("P28", n <= Len(t), "a pose without a state")
   \cup (IF n > Len(t) THEN {} ELSE LET st == v.c.made[t[n].id] IN
        K("P28", ev.topic = v.pc.pose /\ HdrPub(ev, n - 1, v.pc.fr) /\ StampPub(ev, st.st), "header of a pose message")
        \cup K("P28", PoseIs(ev, st), "a pose message is not the pose of the state taken")
        \cup K("P28", CovOk(ev.C, st.P), "covariance of a pose message")
        \cup K("P28", MSame(Get(v.rate, ev.t, Num(0)), At(v.pc.x, 0, 0)), "rate of the pose messages"))
SamePose(a, b) == MSame(a.sq, b.sq) /\ MSame(a.sec, b.sec) /\ MSame(a.nsec, b.nsec) /\ a.fr = b.fr /\ MSame(a.p, b.p) /\ MSame(a.q, b.q)
\* a long path is recorded as its length, whether it begins with the path before it, and the poses after that
PathLen(ev) == IF "n" \in DOMAIN ev THEN ev.n ELSE Len(ev.poses)
PubPath(v, ev) ==
   LET n == PathLen(ev) long == "n" \in DOMAIN ev off == IF long /\ ev.pre THEN v.plen ELSE 0
       k == Skip(v) least == IF ev.t \in DOMAIN v.nl /\ v.nl[ev.t] > 0 THEN (v.nl[ev.t] - 1) \div k ELSE 0
       last == IF long THEN ev.end ELSE ev.poses[n] IN
   K("P28", ev.topic = v.pc.path /\ HdrPub(ev, v.npath, v.pc.fr), "header of a path message")
   \cup K("P28", n > 0 /\ n >= v.plen /\ n >= least /\ n * k <= v.np, "number of poses of a path message")
   \cup K("P28", n * k > v.np \/ (/\ Len(ev.poses) = n - off /\ \A x \in 1..Len(ev.poses) : SamePose(ev.poses[x], v.ph[(x + off) * k])), "the path is not every n-th pose")
   \cup K("P28", n = 0 \/ (MSame(ev.sec, last.sec) /\ MSame(ev.nsec, last.nsec)), "stamp of a path message")
   \cup K("P28", MSame(Get(v.rate, ev.t, Num(0)), At(v.pc.x, 1, 0)), "rate of the path messages")
Keep(ev) == [x \in {"sq", "sec", "nsec", "fr", "p", "q"} |-> ev[x]]
\* ---- events ---------------------------------------------------------------------------------------------
Do(v, ev) ==
   CASE ev.e = "src" -> [W |-> [v EXCEPT !.srcs = Append(@, [k |-> ev.k, q |-> ev.q, q2 |-> ev.q2, topic |-> ev.topic, topic2 |-> ev.topic2, x |-> ev.x]),
                                         !.exp = IF ev.q2 = "" THEN Put(@, ev.q, <<>>) ELSE Put(Put(@, ev.q, <<>>), ev.q2, <<>>)], b |-> {}]
     [] ev.e = "msg" -> [W |-> IF v.on THEN Deliver(v, For(v, ev), ev) ELSE v, b |-> {}]
     [] ev.e = "unsub" -> [W |-> [v EXCEPT !.on = FALSE], b |-> {}]
     [] ev.e = "drained" -> [W |-> v, b |-> K("P27", ev.ok, "messages were not taken under a fair schedule")
                               \cup K("P27", ~ev.ok \/ \A q \in DOMAIN v.exp : Get(v.got, q, 0) = Len(v.exp[q]), "not every message became a measurement")]
     [] ev.e = "item" /\ ev.q \in DOMAIN v.exp -> LET r == Step(v.c, ev) IN [W |-> [v EXCEPT !.c = r.W, !.got = Put(@, ev.q, Get(@, ev.q, 0) + 1)], b |-> r.b \cup Arrived(v, ev)]
     [] ev.e = "pubc" -> [W |-> [v EXCEPT !.pc = ev], b |-> {}]
     [] ev.e = "rate" -> [W |-> [v EXCEPT !.rate = Put(@, ev.t, ev.hz)], b |-> {}]
     [] ev.e = "pub" /\ ev.k = "pose" -> [W |-> [v EXCEPT !.np = @ + 1, !.ph = Append(@, Keep(ev))], b |-> PubPose(v, ev)]
     [] ev.e = "pub" /\ ev.k = "path" -> [W |-> [v EXCEPT !.npath = @ + 1, !.plen = PathLen(ev)], b |-> PubPath(v, ev)]
     [] ev.e = "pub" /\ ev.k = "other" -> [W |-> v, b |-> {<<"P28", "a message of another kind">>}]
     [] ev.e = "pubdone" -> [W |-> v, b |-> K("P28", v.np = ev.n, "not every state was published") \cup K("P28", v.plen = ev.n \div Skip(v), "the path does not reach the last pose")]
     [] ev.e = "pubend" -> [W |-> v, b |-> K("P28", v.np = Len(Taken(v)), "a state was taken and not published")]
     [] ev.e = "rok" -> [W |-> v, b |-> {}]
     [] ev.e = "lock" -> LET r == Step(v.c, ev) IN [W |-> [v EXCEPT !.c = r.W, !.nl = Put(@, ev.t, v.np)], b |-> r.b]
     [] ev.e \in {"q", "qd"} /\ ev.q \in DOMAIN v.exp -> LET r == Step(v.c, ev) n == Len(v.c.cons) IN
           [W |-> [v EXCEPT !.c = r.W], b |-> r.b \cup K("P27", \A x \in (n + 1)..Len(r.W.cons) : r.W.cons[x].op # "", "the subscriber took a measurement away")]
     [] OTHER -> LET r == Step(v.c, ev) IN [W |-> [v EXCEPT !.c = r.W], b |-> r.b]
B == INSTANCE TraceBase WITH W0 <- V0, DoEvent <- Do
Spec == B!Spec
Conforms == B!Conforms
View == B!View
Short == B!Short
=============================================================================
