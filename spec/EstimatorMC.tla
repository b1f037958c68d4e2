----------------------------- MODULE EstimatorMC -----------------------------
(***************************************************************************)
(* Exhaustive model of the control layer (module Control) over small       *)
(* integer time: every sequence of arrivals and calls up to MaxOps.        *)
(* The invariants are P01-P06 (control part); in Emit mode every           *)
(* transition of the graph is printed as an operation sequence, which the  *)
(* harness replays on the real estimator.                                  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxOps, MaxQ, Kinds, ImuSteps, VelOffs, LegOffs, NBias, Emit, Rich
VARIABLES e, Qs, now, hist, out, g
vars == <<e, Qs, now, hist, out, g>>

ThrVel == 2
ThrLeg == 1
ILt(a, b) == a < b
IDiff(a, b) == a - b
INeg(a) == -a
IThr(c) == IF c.kind = "vel" THEN ThrVel ELSE ThrLeg
ITime(S) == S.tp
F0 == [t |-> 0, tp |-> 0, feet |-> {}, log |-> <<>>]
IProp(c, S, m) == [S EXCEPT !.t = m.t, !.tp = m.t, !.log = Append(@, [k |-> "prop", id |-> m.id, t |-> m.t, tp |-> S.tp])]
IVel(c, S, m) == [S EXCEPT !.t = m.t, !.log = Append(@, [k |-> "vel", id |-> m.id, t |-> m.t, tp |-> S.tp])]
ILeg(c, S, m) == [S EXCEPT !.t = m.t, !.feet = m.c, !.log = Append(@, [k |-> "leg", id |-> m.id, t |-> m.t, tp |-> S.tp])]
IInitImu(c, S, m, bg, ba) == [S EXCEPT !.t = m.t, !.tp = m.t, !.log = Append(@, [k |-> "init", id |-> m.id, t |-> m.t, tp |-> m.t])]
IInitCor(c, S, m) == [S EXCEPT !.t = m.t]
IInitCov(c, S) == S
ICal(c, m) == m.id
IMean(s) == s
IId(s) == s
IStatic(c) == NBias > 0
ISize(c) == NBias
IClear(S) == F0
INSTANCE Control WITH Lt <- ILt, Diff <- IDiff, NegT <- INeg, ZeroT <- 0, ThresOf <- IThr, TimeOf <- ITime,
   OnProp <- IProp, OnVel <- IVel, OnLeg <- ILeg, OnInitImu <- IInitImu, OnInitVel <- IInitCor, OnInitLeg <- IInitCor, OnInitCov <- IInitCov,
   CalOf <- ICal, MeanOf <- IMean, Split1 <- IId, Split2 <- IId, StaticOf <- IStatic, SizeOf <- ISize, FreshS <- F0, ClearS <- IClear

C(k) == [id |-> k, kind |-> k, q |-> k]
EC == [prop |-> C("imu"), cors |-> [k \in 1..Len(Kinds) |-> C(Kinds[k])]]
Names == {"imu"} \cup {Kinds[k] : k \in 1..Len(Kinds)}
E0 == [en |-> FALSE, bo |-> FALSE, cal |-> <<>>, bg |-> <<>>, ba |-> <<>>, prev |-> [id |-> 0, t |-> 0], S |-> F0]
\* ghosts: every id pushed per buffer since it was last cleared, ids discarded by a gate (with the gate's time)
G0 == [pushed |-> [n \in Names |-> <<>>], drop |-> {}, cal |-> {}, nid |-> 1, inits |-> 0, eff |-> 0, clr |-> FALSE]
Init == e = E0 /\ Qs = [n \in Names |-> <<>>] /\ now = 4 /\ hist = <<>> /\ out = <<>> /\ g = G0

SeqIds(q) == [k \in DOMAIN q |-> q[k].id]
IdSet(q) == {q[k].id : k \in DOMAIN q}
Op(o) == hist' = Append(hist, o)
Push(n, m, o) == /\ Len(Qs[n]) < MaxQ
                 /\ Qs' = [Qs EXCEPT ![n] = Append(@, m)]
                 /\ g' = [g EXCEPT !.pushed[n] = Append(@, m.id), !.nid = @ + 1]
                 /\ Op(o) /\ UNCHANGED <<e, out>>
PushImu(d) == Push("imu", [id |-> g.nid, t |-> now + d], <<"imu", now + d>>) /\ now' = now + d
PushVel(d) == "vel" \in Names /\ Push("vel", [id |-> g.nid, t |-> now + d], <<"vel", now + d>>) /\ UNCHANGED now
PushLeg(d, c) == "leg" \in Names /\ Push("leg", [id |-> g.nid, t |-> now + d, c |-> c], <<"leg", now + d, 1 \in c, 2 \in c>>) /\ UNCHANGED now
Gone(n, Q) == {Qs[n][k] : k \in 1..(Len(Qs[n]) - Len(Q[n]))}
Run == /\ e.S.log # <<>> \/ e.en        \* after initialisation
       /\ LET r == Step(EC, e, Qs) new == SubSeq(r.e.S.log, Len(e.S.log) + 1, Len(r.e.S.log)) IN
          /\ e' = r.e /\ Qs' = r.Qs
          /\ out' = IF r.pub THEN Append(out, r.e.S) ELSE out
          /\ g' = [g EXCEPT !.eff = IF r.did # <<>> THEN @ + 1 ELSE @,
                            !.drop = @ \cup UNION {{[n |-> n, id |-> m.id, t |-> m.t, tp |-> r.e.S.tp] :
                                        m \in {x \in Gone(n, r.Qs) : \A k \in DOMAIN new : new[k].id # x.id}} : n \in Names \ {"imu"}}]
       /\ Op(<<"run">>) /\ UNCHANGED now
Bias == /\ ~e.en /\ ~e.bo
        /\ LET r == Calibrate(EC.prop, e, Qs) IN e' = r.e /\ Qs' = r.Qs /\ g' = [g EXCEPT !.cal = @ \cup {m.id : m \in Gone("imu", r.Qs)}]
        /\ Op(<<"bias">>) /\ UNCHANGED <<now, out>>
InitState == /\ ~e.en /\ (Qs["imu"] = <<>> \/ CanInit(EC, Qs))
             /\ LET r == Initialise(EC, e, Qs) IN
                /\ e' = r.e /\ Qs' = r.Qs /\ out' = IF r.pub THEN Append(out, r.e.S) ELSE out
                /\ g' = [g EXCEPT !.inits = IF r.pub THEN @ + 1 ELSE @, !.eff = IF r.pub THEN @ + 1 ELSE @,
                          !.cal = @ \cup UNION {{m.id : m \in Gone(n, r.Qs)} : n \in Names \ {"imu"}}]
             /\ Op(<<"init">>) /\ UNCHANGED now
ClearAll == /\ e.en
            /\ LET r == Clear(EC, e, Qs) IN e' = r.e /\ Qs' = r.Qs
            /\ out' = <<>> /\ g' = [G0 EXCEPT !.nid = g.nid, !.clr = TRUE]
            /\ Op(<<"clear">>) /\ UNCHANGED now
Next == /\ Len(hist) < MaxOps
        /\ \/ \E d \in ImuSteps : PushImu(d)
           \/ \E d \in VelOffs : PushVel(d)
           \/ \E d \in LegOffs, c \in (IF Rich THEN {{}, {1}, {2}, {1, 2}} ELSE {{1}}) : PushLeg(d, c)
           \/ Run \/ Bias \/ InitState \/ ClearAll
Spec == Init /\ [][Next]_vars

\* behaviours for replay: one per transition
EmitT == Emit => PrintT("B " \o ToString(hist'))
Rel(q) == [k \in DOMAIN q |-> <<q[k].t - e.S.tp, IF "c" \in DOMAIN q[k] THEN q[k].c ELSE {}>>]
View == <<e.en, e.bo, Len(e.cal), IF e.en THEN <<e.S.t - e.S.tp, e.prev.t - e.S.tp, now - e.S.tp>> ELSE <<0, 0, 0>>, e.S.feet,
          [n \in Names |-> Rel(Qs[n])], g.clr, g.eff > 1>>

----------------------------------------------------------------------------
Log(k) == SelectSeq(e.S.log, LAMBDA x : x.k = k)
Applied == {e.S.log[k].id : k \in DOMAIN e.S.log}
\* P01
Enabled == e.en = (g.inits > 0)
\* P02: samples integrated are exactly the pushed ones in order, over contiguous intervals; the last taken waits as prev
P02Order == LET p == Log("prop") i0 == Log("init") IN
   /\ \A k \in DOMAIN p : k > 1 => p[k].tp = p[k - 1].t
   /\ i0 # <<>> => /\ Len(i0) = 1
                   /\ SeqIds(p) \o <<e.prev.id>> \o SeqIds(Qs["imu"]) = SelectSeq(g.pushed["imu"], LAMBDA x : x \notin g.cal)
                   /\ (p # <<>> => p[1].id = i0[1].id /\ p[1].t = i0[1].t)
                   /\ e.S.tp = IF p = <<>> THEN i0[1].t ELSE p[Len(p)].t
\* P03 / P04: gates
Mono(s) == \A a, b \in DOMAIN s : a < b => s[a].id < s[b].id
P03Gate == /\ \A k \in DOMAIN Log("vel") : LET x == Log("vel")[k] IN x.t < x.tp /\ x.t >= x.tp - ThrVel
           /\ Mono(Log("vel")) /\ \A d \in g.drop : d.n = "vel" => d.t < d.tp - ThrVel
P04Gate == /\ \A k \in DOMAIN Log("leg") : LET x == Log("leg")[k] IN x.t <= x.tp + ThrLeg /\ x.t >= x.tp - ThrLeg
           /\ Mono(Log("leg")) /\ \A d \in g.drop : d.n = "leg" => d.t < d.tp - ThrLeg \/ d.t > d.tp + ThrLeg
\* every measurement is waiting, applied, discarded by its gate or used by calibration/initialisation: exactly one of them
Once == \A n \in Names : \A id \in {g.pushed[n][k] : k \in DOMAIN g.pushed[n]} :
   Cardinality({x \in {"w", "a", "d", "c", "p"} :
      \/ x = "w" /\ id \in IdSet(Qs[n])
      \/ x = "a" /\ id \in {s.id : s \in {e.S.log[k] : k \in {j \in DOMAIN e.S.log : e.S.log[j].k # "init"}}}
      \/ x = "d" /\ \E d \in g.drop : d.id = id
      \/ x = "c" /\ id \in g.cal
      \/ x = "p" /\ n = "imu" /\ e.prev.id = id /\ id \notin g.cal /\ (e.en \/ e.S.log # <<>>)}) = 1
\* P06
Published == Len(out) = g.eff /\ (out # <<>> => out[Len(out)] = e.S)
Inv == Enabled /\ P02Order /\ P03Gate /\ P04Gate /\ Once /\ Published
=============================================================================
