------------------------------- MODULE Control -------------------------------
(***************************************************************************)
(* Control layer of the estimator: which waiting sample each call consumes,*)
(* discards, applies or leaves, and what is published.  Time, state        *)
(* contents and the effect of each step are parameters, so that the same   *)
(* operators are model-checked over small abstract domains (EstimatorMC)   *)
(* and evaluated with real numbers on recorded executions (EstTrace).      *)
(*                                                                         *)
(* Component c: [id, kind, q, ...]; measurement m: [id, t, ...];           *)
(* Qs: queue name -> sequence of waiting measurements;                     *)
(* estimator e: [en, bo, cal, bg, ba, prev, S].                            *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences
CONSTANTS Lt(_, _), Diff(_, _), NegT(_), ZeroT,       \* time
          ThresOf(_), TimeOf(_),                      \* threshold of a correction; propagation time of a state
          OnProp(_, _, _), OnVel(_, _, _), OnLeg(_, _, _),
          OnInitImu(_, _, _, _, _), OnInitVel(_, _, _), OnInitLeg(_, _, _), OnInitCov(_, _),
          CalOf(_, _), MeanOf(_), Split1(_), Split2(_),
          StaticOf(_), SizeOf(_), FreshS, ClearS(_)

None == [has |-> FALSE]
Some(m) == [has |-> TRUE, m |-> m]

\* the velocity gate: strictly before the propagation time, not older than the threshold
RECURSIVE VelGate(_, _, _)
VelGate(q, tp, thr) ==
   IF q = <<>> THEN [q |-> q, m |-> None]
   ELSE LET d == Diff(Head(q).t, tp) IN
        IF ~Lt(d, ZeroT) THEN [q |-> q, m |-> None]
        ELSE IF Lt(d, NegT(thr)) THEN VelGate(Tail(q), tp, thr)
        ELSE [q |-> Tail(q), m |-> Some(Head(q))]
\* the leg-kinematics gate: within the threshold on both sides; one that is too new is discarded
RECURSIVE LegGate(_, _, _)
LegGate(q, tp, thr) ==
   IF q = <<>> THEN [q |-> q, m |-> None]
   ELSE LET d == Diff(Head(q).t, tp) IN
        IF Lt(d, NegT(thr)) THEN LegGate(Tail(q), tp, thr)
        ELSE IF Lt(thr, d) THEN [q |-> Tail(q), m |-> None]
        ELSE [q |-> Tail(q), m |-> Some(Head(q))]

Gate(c, S, q) == IF c.kind = "vel" THEN VelGate(q, TimeOf(S), ThresOf(c)) ELSE LegGate(q, TimeOf(S), ThresOf(c))
Apply(c, S, m) == IF c.kind = "vel" THEN OnVel(c, S, m) ELSE OnLeg(c, S, m)

\* one propagation: the sample taken is integrated next time, its predecessor now
DoProp(c, r) ==
   IF r.Qs[c.q] = <<>> THEN [r EXCEPT !.ret = FALSE]
   ELSE [S |-> OnProp(c, r.S, r.prev), prev |-> Head(r.Qs[c.q]), Qs |-> [r.Qs EXCEPT ![c.q] = Tail(@)],
         ret |-> TRUE, did |-> Append(r.did, [k |-> "prop", c |-> c.id])]
DoCor(c, r) ==
   LET g == Gate(c, r.S, r.Qs[c.q]) IN
   IF g.m.has THEN [r EXCEPT !.S = Apply(c, r.S, g.m.m), !.Qs = [r.Qs EXCEPT ![c.q] = g.q], !.ret = TRUE,
                             !.did = Append(@, [k |-> c.kind, c |-> c.id])]
   ELSE [r EXCEPT !.Qs = [r.Qs EXCEPT ![c.q] = g.q], !.ret = FALSE]
RECURSIVE DoCors(_, _)
DoCors(cs, r) == IF cs = <<>> THEN r ELSE DoCors(Tail(cs), DoCor(Head(cs), r))
\* RunOnce: propagation, then every correction in the order added
Step(ec, e, Qs) ==
   LET r0 == [S |-> e.S, prev |-> e.prev, Qs |-> Qs, ret |-> FALSE, did |-> <<>>]
       r == DoCors(ec.cors, DoProp(ec.prop, r0))
   IN [e |-> [e EXCEPT !.S = r.S, !.prev = r.prev], Qs |-> r.Qs, did |-> r.did, pub |-> r.did # <<>>]

\* InitBias: one calibration sample per call, then one call that averages
Calibrate(c, e, Qs) ==
   IF ~StaticOf(c) \/ SizeOf(c) = 0 THEN [e |-> [e EXCEPT !.bo = TRUE], Qs |-> Qs]
   ELSE IF Len(e.cal) < SizeOf(c)
   THEN IF Qs[c.q] = <<>> THEN [e |-> e, Qs |-> Qs]
        ELSE [e |-> [e EXCEPT !.cal = Append(@, CalOf(c, Head(Qs[c.q]))), !.prev = Head(Qs[c.q])], Qs |-> [Qs EXCEPT ![c.q] = Tail(@)]]
   ELSE LET mean == MeanOf(e.cal) IN
        [e |-> [e EXCEPT !.bo = TRUE, !.bg = Split1(mean), !.ba = Split2(mean)], Qs |-> Qs]

\* InitState: oldest IMU sample, newest sample of every correction (which must be available)
InitImuStep(c, e, Qs) ==
   LET m == Head(Qs[c.q]) IN
   [e |-> [e EXCEPT !.S = OnInitImu(c, e.S, m, e.bg, e.ba), !.prev = m], Qs |-> [Qs EXCEPT ![c.q] = Tail(@)]]
InitCorStep(c, S, Qs) ==
   LET m == Qs[c.q][Len(Qs[c.q])] IN
   [S |-> IF c.kind = "vel" THEN OnInitVel(c, S, m) ELSE OnInitLeg(c, S, m), Qs |-> [Qs EXCEPT ![c.q] = <<>>]]
RECURSIVE InitCors(_, _, _)
InitCors(cs, S, Qs) == IF cs = <<>> THEN [S |-> S, Qs |-> Qs]
                       ELSE LET r == InitCorStep(Head(cs), S, Qs) IN InitCors(Tail(cs), r.S, r.Qs)
CanInit(ec, Qs) == \A k \in 1..Len(ec.cors) : Qs[ec.cors[k].q] # <<>> /\ \A j \in 1..(k - 1) : ec.cors[j].q # ec.cors[k].q
Initialise(ec, e, Qs) ==
   IF Qs[ec.prop.q] = <<>> THEN [e |-> e, Qs |-> Qs, pub |-> FALSE]
   ELSE LET a == InitImuStep(ec.prop, e, Qs)
            b == InitCors(ec.cors, a.e.S, a.Qs)
        IN [e |-> [a.e EXCEPT !.S = OnInitCov(ec, b.S), !.en = TRUE], Qs |-> b.Qs, pub |-> TRUE]

Clear(ec, e, Qs) ==
   LET qs == {ec.prop.q} \cup {ec.cors[k].q : k \in 1..Len(ec.cors)} IN
   [e |-> [e EXCEPT !.en = FALSE, !.S = ClearS(e.S)], Qs |-> [n \in DOMAIN Qs |-> IF n \in qs THEN <<>> ELSE Qs[n]]]
=============================================================================
