------------------------------- MODULE ImuFilter -------------------------------
(***************************************************************************)
(* The IMU filter: start-up, mode selection, which waiting measurement one *)
(* iteration takes, accepts, rejects or leaves, and what it emits.  Time   *)
(* and the numeric content are parameters (ImuFilterMC: small integers,    *)
(* ImuFilterTrace: the Kalman filter on recorded executions).              *)
(*                                                                         *)
(* Configuration c: gyro, single, ang  buffer names ("" if not attached);  *)
(*   imus  the attached correction IMUs in order; nimu, nang  how many     *)
(*   were attached one by one; mode0  the configured mode; walk.           *)
(* Filter f: [mode, init, cal, S, lastp, latest, prevw]; Qs: buffers.      *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences
CONSTANTS Lt(_, _), TooOld(_, _, _),       \* TooOld(c, lastp, t): older than the last propagation by more than the threshold
          OnGyro(_, _, _, _), OnWalk(_, _), OnImu(_, _, _), OnAng(_, _, _),   \* effects on the estimate
          OnCal(_, _), RateOf(_), Sample(_, _, _),   \* calibration; gyro rate of a sample; emitted sample (state, accepted, carrier)
          StaticOf(_), SizeOf(_)

NoneF == [has |-> FALSE]
SomeF(x) == [has |-> TRUE, m |-> x]
Modes == {"SPA", "SINGLE", "MULTI", "ANG"}
SelectMode(c, f) == IF c.nimu = 0 /\ c.nang = 1 THEN "ANG" ELSE IF c.nimu = 1 /\ c.nang = 0 THEN "SINGLE"
                    ELSE IF c.nimu = 1 /\ c.nang = 1 THEN "SPA" ELSE IF c.nimu > 1 /\ c.nang = 0 THEN "MULTI" ELSE f.mode
PopF(Qs, n) == [Qs EXCEPT ![n] = Tail(@)]
Empty(Qs, ns) == [n \in DOMAIN Qs |-> IF n \in ns THEN <<>> ELSE Qs[n]]
ModeImus(c, mode) == IF mode = "MULTI" THEN c.imus ELSE IF mode \in {"SPA", "SINGLE"} THEN <<c.single>> ELSE <<>>
ModeAng(c, mode) == IF mode \in {"SPA", "ANG"} THEN <<c.ang>> ELSE <<>>
Used(c, mode) == {ModeImus(c, mode)[k] : k \in DOMAIN ModeImus(c, mode)} \cup {ModeAng(c, mode)[k] : k \in DOMAIN ModeAng(c, mode)}
GyroSet(c) == IF c.gyro = "" THEN {} ELSE {c.gyro}
Attached(c) == GyroSet(c) \cup ({c.single, c.ang} \ {""}) \cup {c.imus[k] : k \in DOMAIN c.imus}

\* one iteration before the filter is initialised
StartUp(c, f, Qs) ==
   LET f1 == [f EXCEPT !.mode = SelectMode(c, f)]
       src == IF c.single # "" THEN c.single ELSE c.gyro
   IN IF StaticOf(c) /\ Len(f1.cal) < SizeOf(c)
      THEN IF src = "" \/ (src # "" /\ Qs[src] = <<>>) THEN [f |-> f1, Qs |-> Qs]
           ELSE LET m == Head(Qs[src]) Q1 == PopF(Qs, src) f2 == [f1 EXCEPT !.cal = Append(@, m)] IN
                IF src = c.gyro THEN [f |-> [f2 EXCEPT !.prevw = RateOf(m)], Qs |-> Q1]
                ELSE IF c.gyro # "" /\ Q1[c.gyro] # <<>> THEN [f |-> [f2 EXCEPT !.prevw = RateOf(Head(Q1[c.gyro]))], Qs |-> PopF(Q1, c.gyro)]
                ELSE [f |-> f2, Qs |-> Q1]
      ELSE IF StaticOf(c) /\ f1.cal # <<>>
      THEN [f |-> [f1 EXCEPT !.init = TRUE, !.S = OnCal(f1.S, f1.cal)], Qs |-> Empty(Qs, GyroSet(c) \cup Used(c, f1.mode))]
      ELSE [f |-> [f1 EXCEPT !.init = TRUE], Qs |-> Qs]

\* prediction
Predict(c, f, Qs) ==
   IF c.gyro # ""
   THEN IF Qs[c.gyro] = <<>> THEN [f |-> f, Qs |-> Qs]
        ELSE LET m == Head(Qs[c.gyro]) IN
             [f |-> [f EXCEPT !.lastp = SomeF(m.t), !.latest = IF f.mode = "ANG" THEN SomeF(m) ELSE @, !.S = OnGyro(c, @, m, f.prevw), !.prevw = RateOf(m)],
              Qs |-> PopF(Qs, c.gyro)]
   ELSE IF \E n \in Used(c, f.mode) : Qs[n] # <<>> THEN [f |-> [f EXCEPT !.S = OnWalk(c, @)], Qs |-> Qs]
   ELSE [f |-> f, Qs |-> Qs]

Old(c, f, t) == f.lastp.has /\ TooOld(c, f.lastp.m, t)
AcceptImu(c, r, m) == LET S1 == OnImu(c, r.f.S, m) IN [r EXCEPT !.f.S = S1, !.out = Append(@, Sample(S1, m, m))]
AcceptAng(c, r, m) == LET S1 == OnAng(c, r.f.S, m) IN [r EXCEPT !.f.S = S1, !.out = Append(@, Sample(S1, m, r.f.latest.m))]
RECURSIVE Fresh1(_, _, _)
Fresh1(c, f, q) == IF q = <<>> THEN q ELSE IF Old(c, f, Head(q).t) THEN Fresh1(c, f, Tail(q)) ELSE q
\* r: [f, Qs, out]
Single(c, r) ==
   LET n == c.single q == Fresh1(c, r.f, r.Qs[n]) r1 == [r EXCEPT !.Qs[n] = q] IN
   IF q = <<>> THEN r1
   ELSE IF c.gyro = "" \/ (r.f.lastp.has /\ ~Lt(r.f.lastp.m, Head(q).t)) THEN AcceptImu(c, [r1 EXCEPT !.Qs[n] = Tail(q)], Head(q))
   ELSE r1
RECURSIVE Multi(_, _, _)
Multi(c, r, ns) ==
   IF ns = <<>> THEN r
   ELSE LET n == Head(ns) IN
        IF r.Qs[n] = <<>> THEN Multi(c, r, Tail(ns))
        ELSE LET m == Head(r.Qs[n]) r1 == [r EXCEPT !.Qs = PopF(@, n)] IN
             Multi(c, IF Old(c, r.f, m.t) THEN r1 ELSE AcceptImu(c, r1, m), Tail(ns))
TakeAng(c, r, gated) ==
   LET m == Head(r.Qs[c.ang]) r1 == [r EXCEPT !.Qs = PopF(@, c.ang)] IN
   IF ~r.f.latest.has \/ (gated /\ Old(c, r.f, m.t)) THEN r1 ELSE AcceptAng(c, r1, m)
SingleAng(c, r) ==
   LET qi == r.Qs[c.single] qa == r.Qs[c.ang] IN
   IF qi = <<>> /\ qa = <<>> THEN r
   ELSE IF qi # <<>> /\ (qa = <<>> \/ ~Lt(Head(qa).t, Head(qi).t))
   THEN LET m == Head(qi) r1 == [r EXCEPT !.Qs = PopF(@, c.single), !.f.latest = SomeF(m)] IN IF Old(c, r.f, m.t) THEN r1 ELSE AcceptImu(c, r1, m)
   ELSE TakeAng(c, r, TRUE)
Correct(c, r) == CASE r.f.mode = "SINGLE" -> Single(c, r) [] r.f.mode = "MULTI" -> Multi(c, r, c.imus)
                   [] r.f.mode = "SPA" -> SingleAng(c, r) [] OTHER -> IF r.Qs[c.ang] = <<>> THEN r ELSE TakeAng(c, r, FALSE)

\* one iteration: [f, Qs, out] with the samples emitted
RunF(c, f, Qs) ==
   IF ~f.init THEN LET r == StartUp(c, f, Qs) IN [f |-> r.f, Qs |-> r.Qs, out |-> <<>>]
   ELSE LET p == Predict(c, f, Qs) IN Correct(c, [f |-> p.f, Qs |-> p.Qs, out |-> <<>>])
ClearF(c, Qs) == Empty(Qs, Attached(c))
=============================================================================
