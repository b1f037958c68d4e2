------------------------------- MODULE EstTrace -------------------------------
(***************************************************************************)
(* Conformance of recorded executions of the estimator and its components. *)
(* Each event of a trace is one public call with the state observed after  *)
(* it; the event must be the transition Control/InEKF prescribe from the   *)
(* state observed before it.  A deviation is a clause <<property, what>>;  *)
(* a run of this module judges the properties in Props.                    *)
(***************************************************************************)
EXTENDS InEKF, FiniteSets
CONSTANTS Props, File
VARIABLES tr, i, W, bad
vars == <<tr, i, W, bad>>

TLt(a, b) == MLt(a, b)
TDiff(a, b) == MRound(a \ominus b)
TNeg(a) == MNeg(a)
TZero == Num(0)
TTime(S) == S.tp
Split1Of(v) == Seg(v, 0, 3)
Split2Of(v) == Seg(v, 3, 3)
ClearOf(S) == [Fresh EXCEPT !.ben = S.ben, !.t = S.t, !.tp = S.tp]
INSTANCE Control WITH Lt <- TLt, Diff <- TDiff, NegT <- TNeg, ZeroT <- TZero, ThresOf <- Thres, TimeOf <- TTime,
   OnProp <- PropState, OnVel <- VelState, OnLeg <- LegState, OnInitImu <- InitImu, OnInitVel <- InitVel, OnInitLeg <- InitLeg,
   OnInitCov <- InitCov, CalOf <- CalSample, MeanOf <- CalMean, Split1 <- Split1Of, Split2 <- Split2Of,
   StaticOf <- StaticB, SizeOf <- BiasN, FreshS <- Fresh, ClearS <- ClearOf

Traces == ReadTraces(File)
Has(r, f) == f \in DOMAIN r
Put(f, k, v) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = v] ELSE f @@ (k :> v)
Ran(s) == {s[k] : k \in DOMAIN s}
W0 == [comps |-> <<>>, ecs |-> <<>>, ests |-> <<>>, pc |-> <<>>, states |-> <<>>, Qs |-> <<>>, dead |-> FALSE, hist |-> <<>>]

Ids(q) == [k \in DOMAIN q |-> q[k].id]
AllProps == {"P01","P02","P03","P04","P05","P06","P07","P08","P09","P10","P11","P12","P13","P14","P15","P25","P30"}

----------------------------------------------------------------------------
\* observed state; the owners of the feet are the specification's
Obs(ev, old, own) == IF Has(ev, "st")
   THEN [X |-> ev.st.X, th |-> ev.st.th, P |-> ev.st.P, Qc |-> ev.st.Qc, t |-> ev.st.t, tp |-> ev.st.tp, w |-> ev.st.w, ben |-> ev.st.ben, own |-> own, ax |-> Num(1), ap |-> Num(0)]
   ELSE [old EXCEPT !.own = own, !.ax = Num(1), !.ap = Num(0)]
SameDim(x, o) == /\ MCols(x.X) = MCols(o.X) /\ MRows(o.X) = MCols(o.X) /\ MCols(x.P) = MCols(o.P) /\ MRows(o.P) = MCols(o.P)
                 /\ MCols(x.Qc) = MCols(o.Qc) /\ MRows(x.th) = MRows(o.th)
Scale(x) == Num(1) \oplus MMax(x.X)
\* aspects in which the observed state o differs from the specified state x
\* (a filter that diverged beyond the range of numbers has no specified numbers any more)
Numbers(x) == MFinite(x.X) /\ MFinite(x.P) /\ MFinite(x.th)
Mis(x, o) ==
   IF ~SameDim(x, o) THEN {"dim"} ELSE
   IF ~Numbers(x) THEN (IF MSame(o.t, x.t) THEN {} ELSE {"t"}) \cup (IF MSame(o.tp, x.tp) THEN {} ELSE {"tp"}) ELSE
   LET n == MCols(x.X)
       tR == SMax(Lit("1e-10"), Lit("1e-13") \otimes x.ax)
       tX == SMax(Lit("1e-9"), Lit("1e-13") \otimes x.ax) \otimes Scale(x)
       tT == SMax(Lit("1e-11"), Lit("1e-13") \otimes x.ax)
       In(a, b, t) == MLe(MDist(a, b), t) IN
     (IF In(Blk(o.X, 0, 0, 3, 3), Rm(x), tR) THEN {} ELSE {"R"})
   \cup (IF In(Vm(o), Vm(x), tX) THEN {} ELSE {"v"})
   \cup (IF In(Pm(o), Pm(x), tX) THEN {} ELSE {"p"})
   \cup (IF In(Blk(o.X, 0, 5, 3, n - 5), Blk(x.X, 0, 5, 3, n - 5), tX) THEN {} ELSE {"d"})
   \cup (IF MClose(Blk(o.X, 3, 0, n - 3, n), Blk(x.X, 3, 0, n - 3, n), 12, Num(1)) THEN {} ELSE {"form"})
   \cup (IF In(o.th, x.th, tT) THEN {} ELSE {"th"})
   \cup (IF MCloseCov(o.P, x.P, 8, 12, Lit("1e-13") \otimes x.ap) THEN {} ELSE {"P"})
   \cup (IF MClose(o.Qc, x.Qc, 12, Num(0)) THEN {} ELSE {"Qc"})
   \cup (IF MSame(o.t, x.t) THEN {} ELSE {"t"})
   \cup (IF MSame(o.tp, x.tp) THEN {} ELSE {"tp"})
   \cup (IF MClose(o.w, x.w, 12, Lit("0.001")) THEN {} ELSE {"w"})
   \cup (IF o.ben = x.ben THEN {} ELSE {"ben"})
Mean == {"R", "v", "p", "d", "form", "th"}
Tag(ps, mis) == {<<p, m>> : p \in ps, m \in mis}

\* queue names whose contents differ from the specification
\* (an event marked "br" reports length, first and last entry of what would be a long sequence)
Brief(s) == IF s = <<>> THEN <<0>> ELSE <<Len(s), s[1], s[Len(s)]>>
BriefQ(s) == IF s = <<>> THEN <<0>> ELSE <<Len(s), s[1].id, s[Len(s)].id>>
QMis(Qs, ev) == IF Has(ev, "br") THEN {n \in DOMAIN Qs : BriefQ(Qs[n]) # ev.q[n]} ELSE {n \in DOMAIN Qs : Ids(Qs[n]) # ev.q[n]}
SeqIs(ev, obs, s) == IF Has(ev, "br") THEN obs = Brief(s) ELSE obs = s
SeqOf(ev, obs, s) == IF Has(ev, "br") THEN s ELSE obs          \* what to believe afterwards
QProps(n, cs) == UNION {CASE c.kind = "imu" -> {"P02"} [] c.kind = "vel" -> {"P03"} [] OTHER -> {"P04"} : c \in {d \in cs : d.q = n}}
Comps(ec) == {ec.prop} \cup Ran(ec.cors)
QBad(Qs, ev, cs) == {<<p, "queue">> : p \in UNION {QProps(n, cs) \cup (IF \E c \in cs : c.q = n THEN {} ELSE {"P15"}) : n \in QMis(Qs, ev)}}
QAny(Qs, ev, ps) == IF QMis(Qs, ev) = {} THEN {} ELSE {<<p, "queue">> : p \in ps}

\* state integrity (P12) of an observed state o where x is specified; psd holds while time never ran backwards.
\* What the specified step itself loses in double arithmetic, and what it makes of an asymmetry
\* that was there before it, is allowed for.
Slack(x) == IF Numbers(x) /\ MRows(x.P) = MCols(x.P) THEN MDist(x.P, MT(x.P)) \oplus (Lit("1e-13") \otimes x.ap) ELSE Num(0)
Integrity(o, x, psd) ==
   LET n == MCols(o.X) R == Rm(o) np == MCols(o.P) mx == MMax(o.P) sl == Slack(x) IN
   IF ~(MFinite(o.X) /\ MFinite(o.P) /\ MFinite(o.th)) THEN {<<"P12", "not finite">>} ELSE
     (IF MRows(o.X) = n /\ np = 3 * n /\ MRows(o.P) = np /\ MCols(o.Qc) = np /\ MRows(o.Qc) = np /\ MRows(o.th) = 6 THEN {} ELSE {<<"P12", "dimensions">>})
   \cup (IF MClose(R \otimes MT(R), I3, 9, Num(1)) /\ MLt(Num(0), Dot(Cross(Vc(o.X, 0), Vc(o.X, 1)), Vc(o.X, 2))) THEN {} ELSE {<<"P12", "rotation">>})
   \cup (IF MClose(Blk(o.X, 3, 0, n - 3, n), HCat(MZero(n - 3, 3), MId(n - 3)), 12, Num(1)) THEN {} ELSE {<<"P12", "pose structure">>})
   \cup (IF MLe(MDist(o.P, MT(o.P)), (Lit("1e-9") \otimes mx) \oplus sl) THEN {} ELSE {<<"P12", "asymmetric">>})
   \cup (IF psd /\ ~MLe((Lit("-1e-9") \otimes mx) \ominus sl, MMinEig(o.P)) THEN {<<"P12", "negative eigenvalue">>} ELSE {})
Views(ev, o) ==
   IF ~Has(ev, "view") THEN {} ELSE
   LET v == ev.view n == MCols(o.X) nb == MCols(o.P) - 6 Xi == XInv(o.X) s == Scale(o)
       C(k, b) == IF b THEN {} ELSE {<<"P12", "view " \o k>>}
       pb(k) == Blk(o.P, k, k, 3, 3) IN
        C("R", MSame(v.R, Rm(o))) \cup C("v", MSame(v.v, Vm(o))) \cup C("p", MSame(v.p, Pm(o))) \cup C("bg", MSame(v.bg, Bg(o))) \cup C("ba", MSame(v.ba, Ba(o)))
   \cup C("Xinv", MClose(v.Xi, Xi, 10, s)) \cup C("world", MSame(v.wX, o.X) /\ MSame(v.wR, Rm(o)) /\ MSame(v.wv, Vm(o)) /\ MSame(v.wp, Pm(o)))
   \cup C("bodyX", MClose(v.bX, Xi, 10, s)) \cup C("bodyR", MClose(v.bR, MT(Rm(o)), 10, Num(1)))
   \cup C("bodyv", MClose(v.bv, MT(Rm(o)) \otimes Vm(o), 10, s)) \cup C("bodyp", MClose(v.bp, MT(Rm(o)) \otimes Pm(o), 10, s))
   \cup C("PR", MSame(v.PR, pb(0))) \cup C("Pv", MSame(v.Pv, pb(3))) \cup C("Pp", MSame(v.Pp, pb(6))) \cup C("Pg", MSame(v.Pg, pb(nb))) \cup C("Pa", MSame(v.Pa, pb(nb + 3)))
   \cup C("aug", Len(v.aug) = n - 5 /\ \A k \in 1..Len(v.aug) : MSame(v.aug[k], Vc(o.X, 4 + k)) /\ MSame(v.augP[k], pb(6 + 3 * k)))
   \cup C("dims", v.dX = n /\ v.dP = nb + 6 /\ v.dQ = nb + 6 /\ v.dT = 6)

----------------------------------------------------------------------------
(* Attribution of a state deviation after a step that performed did, from a state and waiting *)
(* measurements; cs are the corrections that were tried.                                      *)
Blame(mis, did, chg, waiting) ==
   LET ks == {did[k].k : k \in DOMAIN did} mean == mis \cap Mean cov == mis \cap {"P"} IN
     (IF "prop" \in ks /\ ks = {"prop"} THEN Tag({"P02", "P08"}, mean) \cup Tag({"P09"}, cov) ELSE {})
   \cup (IF "prop" \in ks THEN Tag({"P02"}, mis \cap {"tp"}) ELSE {})
   \cup (IF ks \subseteq {"prop"} THEN Tag({"P02"}, mis \cap {"t"}) ELSE {})
   \cup (IF "vel" \in ks THEN Tag({"P10"}, mean \cup cov) \cup Tag({"P03"}, mis \cap {"t"}) ELSE {})
   \cup (IF "leg" \in ks THEN Tag({"P11"}, mean \cup cov) \cup Tag({"P04"}, mis \cap {"t"}) \cup (IF chg THEN Tag({"P05"}, mean \cup cov) ELSE {}) ELSE {})
   \cup (IF "vel" \notin ks /\ "vel" \in waiting THEN Tag({"P03"}, mis \cap (Mean \cup {"P", "t"})) ELSE {})
   \cup (IF "leg" \notin ks /\ "leg" \in waiting THEN Tag({"P04"}, mis \cap (Mean \cup {"P", "t"})) ELSE {})
   \cup Tag({"P05"}, mis \cap {"dim", "Qc"}) \cup Tag({"P11"}, mis \cap {"dim"}) \cup Tag({"P12"}, mis \cap {"dim"})
   \cup Tag({"P02", "P10", "P11"}, mis \cap {"w", "ben"})

After7(e, b) == b \cup (IF e.clr THEN {<<"P07", c[2]>> : c \in b} ELSE {})

----------------------------------------------------------------------------
(* Each operator returns [W, b]: next bookkeeping and the clauses broken. *)
NewE(ec) == [en |-> FALSE, bo |-> FALSE, cal |-> <<>>, bg |-> PriorBg(ec.prop), ba |-> PriorBa(ec.prop), prev |-> <<>>, S |-> Fresh,
             out |-> <<>>, held |-> <<>>, d |-> "", hist |-> <<>>, clr |-> FALSE, rem |-> FALSE, mono |-> TRUE]

\* common part of every estimator event: flags, queues, publication; x the specified estimator, Q the specified queues
EstCommon(ev, ec, e, x, Q, pub, statebad, qprops, flagprops) ==
   LET o == Obs(ev, e.S, x.S.own)
       out1 == IF ev.e = "clear" THEN <<>> ELSE IF pub THEN Append(e.out, ev.d) ELSE e.out
       ob == IF SeqIs(ev, ev.out, out1) /\ SeqIs(ev, ev.held, e.held) THEN {} ELSE {<<"P06", "output queue">>}
       flags == (IF ev.en = x.en THEN {} ELSE {<<"P01", "enabled">>})
             \cup (IF ev.bo = x.bo THEN {} ELSE {<<"P01", "bias initialised">>, <<"P13", "bias initialised">>})
       dimok == SameDim(x.S, o)
       b == statebad \cup flags \cup ob \cup (IF Cardinality(QMis(Q, ev)) = 0 THEN {} ELSE qprops) \cup Integrity(o, x.S, x.mono) \cup Views(ev, o)
       clr == x.clr
       b7 == IF e.clr \/ ev.e = "clear" THEN b \cup {<<"P07", c[2]>> : c \in b} ELSE b
       e1 == [x EXCEPT !.S = o, !.d = ev.d, !.out = SeqOf(ev, ev.out, out1), !.en = ev.en, !.bo = ev.bo,
                       !.hist = IF ev.e = "clear" THEN <<>> ELSE IF pub THEN Append(@, ev.d) ELSE @,
                       !.held = SeqOf(ev, ev.held, e.held)]
   IN [W |-> [W EXCEPT !.ests = Put(@, ev.E, e1), !.Qs = Q, !.dead = ~dimok \/ QMis(Q, ev) # {}], b |-> b7]

DoEnew(ev) ==
   LET ec == W.ecs[ev.E] x == NewE(ec)
       o == Obs(ev, Fresh, <<>>)
       m == Mis(Fresh, o) \ {"t", "tp"}
   IN EstCommon(ev, ec, x, x, W.Qs, FALSE, Tag({"P01", "P07"}, m), {<<"P15", "queue">>}, {})

DoRun(ev) ==
   LET ec == W.ecs[ev.E] e == W.ests[ev.E] r == Step(ec, e, W.Qs)
       Q == r.Qs
       x0 == r.e
       o == Obs(ev, e.S, x0.S.own)
       waiting == {c.kind : c \in {d \in Ran(ec.cors) : W.Qs[d.q] # <<>>}}
       gone == Len(x0.S.own) < Len(e.S.own) \/ \E k \in DOMAIN e.S.own : e.S.own[k] \notin Ran(x0.S.own)
       chg == e.rem \/ x0.S.own # e.S.own
       back == MLt(x0.S.tp, e.S.tp)
       x == [x0 EXCEPT !.rem = @ \/ gone, !.mono = @ /\ ~back]
       sb == IF r.did = <<>>
             THEN IF ev.d = e.d THEN {} ELSE {<<"P15", "idle step changed the state">>, <<"P02", "idle step changed the state">>}
                                            \cup {<<IF k = "vel" THEN "P03" ELSE "P04", "idle step changed the state">> : k \in waiting}
             ELSE Blame(Mis(x.S, o), r.did, chg, waiting)
   IN EstCommon(ev, ec, e, x, Q, r.pub, sb, QBad(Q, ev, Comps(ec)), {})

DoBias(ev) ==
   LET ec == W.ecs[ev.E] e == W.ests[ev.E] r == Calibrate(ec.prop, e, W.Qs)
   IN EstCommon(ev, ec, e, r.e, r.Qs, FALSE, IF ev.d = e.d THEN {} ELSE {<<"P13", "state changed">>, <<"P01", "state changed">>}, {<<"P13", "queue">>}, {})

DoInit(ev) ==
   LET ec == W.ecs[ev.E] e == W.ests[ev.E] r == Initialise(ec, e, W.Qs)
       o == Obs(ev, e.S, r.e.S.own)
       mis == Mis(r.e.S, o)
       sb == IF ~r.pub THEN IF ev.d = e.d THEN {} ELSE {<<"P01", "init without data">>, <<"P14", "init without data">>}
             ELSE Tag({"P14"}, mis) \cup Tag({"P13"}, mis \cap {"th"})
   IN EstCommon(ev, ec, e, [r.e EXCEPT !.mono = TRUE, !.rem = FALSE], r.Qs, r.pub, sb, {<<"P14", "queue">>, <<"P01", "queue">>}, {})

DoClear(ev) ==
   LET ec == W.ecs[ev.E] e == W.ests[ev.E] r == Clear(ec, e, W.Qs)
       o == Obs(ev, e.S, <<>>)
       mis == Mis(r.e.S, o) \ {"t", "tp"}
       x == [r.e EXCEPT !.clr = TRUE, !.rem = FALSE]
   IN EstCommon(ev, ec, e, x, r.Qs, FALSE, Tag({"P01", "P07"}, mis), {<<"P01", "queue">>}, {})

DoEnable(ev) ==
   LET ec == W.ecs[ev.E] e == W.ests[ev.E] IN
   EstCommon(ev, ec, e, [e EXCEPT !.en = TRUE], W.Qs, FALSE, IF ev.d = e.d THEN {} ELSE {<<"P01", "state changed">>}, {<<"P01", "queue">>}, {})
DoTake(ev) ==   \* the consumer removes the k oldest snapshots and keeps them
   LET ec == W.ecs[ev.E] e == W.ests[ev.E] k == Len(e.out) - (IF Has(ev, "br") THEN ev.out[1] ELSE Len(ev.out))
       h1 == IF k < 0 THEN e.held ELSE e.held \o SubSeq(e.out, 1, k)
       o1 == IF k < 0 THEN e.out ELSE SubSeq(e.out, k + 1, Len(e.out))
       okk == k >= 0 /\ SeqIs(ev, ev.held, h1) /\ SeqIs(ev, ev.out, o1)
       e1 == [e EXCEPT !.out = SeqOf(ev, ev.out, o1), !.held = SeqOf(ev, ev.held, h1)]
   IN EstCommon(ev, ec, e1, e1, W.Qs, FALSE, (IF ev.d = e.d THEN {} ELSE {<<"P06", "state changed">>}) \cup (IF okk THEN {} ELSE {<<"P06", "snapshot changed">>}), {<<"P06", "queue">>}, {})
DoEset(ev) ==   \* the harness overwrote the numeric contents of the state
   LET ec == W.ecs[ev.E] e == W.ests[ev.E] o == Obs(ev, e.S, e.S.own) e1 == [e EXCEPT !.S = o] IN
   EstCommon(ev, ec, e1, [e1 EXCEPT !.S = o], W.Qs, FALSE, {}, {<<"P15", "queue">>}, {})

----------------------------------------------------------------------------
(* Components used directly *)
PState(ev) == W.states[ev.S].S
SetState(ev, o, d) == Put(W.states, ev.S, [S |-> o, d |-> d])
DoState(ev) == LET o == Obs(ev, Fresh, <<>>) IN
   [W |-> [W EXCEPT !.states = SetState(ev, o, ev.d)], b |-> Tag({"P12"}, Mis(Fresh, o) \ {"t", "tp"})]
DoSset(ev) == LET o == Obs(ev, PState(ev), PState(ev).own) IN [W |-> [W EXCEPT !.states = SetState(ev, o, ev.d)], b |-> {}]
DoScopy(ev) == LET f == W.states[ev.from] o == Obs(ev, f.S, f.S.own) IN
   [W |-> [W EXCEPT !.states = SetState(ev, o, ev.d)], b |-> IF ev.d = f.d THEN {} ELSE {<<"P12", "copy differs">>}]
DoUpd(ev) ==                   \* a generic observation, given with its matrices
   LET S == PState(ev) o == Obs(ev, S, S.own)
       x == IF ev.side = "R" THEN Update(ev.et, S, ev.Z, ev.H, ev.N) ELSE UpdateLeft(ev.et, S, ev.Z, ev.H, ev.N)
   IN [W |-> [W EXCEPT !.states = SetState(ev, o, ev.d), !.dead = ~SameDim(x, o)], b |-> Tag({"P30"}, Mis(x, o)) \cup {<<"P30", c[2]>> : c \in Integrity(o, x, TRUE)}]
DoComp(ev, chgAlways) ==       \* one Propagate or Correct on an explicit state
   LET c == W.comps[ev.C] S == PState(ev)
       prev == IF c.kind = "imu" THEN W.pc[ev.C].prev ELSE <<>>
       r0 == [S |-> S, prev |-> prev, Qs |-> W.Qs, ret |-> FALSE, did |-> <<>>]
       r == IF c.kind = "imu" THEN DoProp(c, r0) ELSE DoCor(c, r0)
       o == Obs(ev, S, r.S.own)
       waiting == IF W.Qs[c.q] = <<>> THEN {} ELSE {c.kind}
       gateP == CASE c.kind = "imu" -> "P02" [] c.kind = "vel" -> "P03" [] OTHER -> "P04"
       numP == CASE c.kind = "imu" -> {"P08", "P09"} [] c.kind = "vel" -> {"P10"} [] OTHER -> {"P11"}
       sb == IF ~r.ret THEN IF ev.d = W.states[ev.S].d THEN {} ELSE {<<gateP, "state changed">>}
             ELSE Blame(Mis(r.S, o), r.did, r.S.own # S.own \/ chgAlways, waiting)
       b == sb \cup (IF ev.ret = r.ret THEN {} ELSE {<<gateP, "result">>}) \cup QAny(r.Qs, ev, {gateP})
            \cup Views(ev, o)
       W1 == [W EXCEPT !.states = SetState(ev, o, ev.d), !.Qs = r.Qs, !.dead = ~SameDim(r.S, o) \/ QMis(r.Qs, ev) # {}]
   IN [W |-> IF c.kind = "imu" THEN [W1 EXCEPT !.pc[ev.C].prev = r.prev] ELSE W1, b |-> b]
DoInitP(ev) ==
   LET c == W.comps[ev.C] S == PState(ev) e == [W.pc[ev.C] EXCEPT !.S = S]
       ok == W.Qs[c.q] # <<>>
       r == IF ok THEN InitImuStep(c, e, W.Qs) ELSE [e |-> e, Qs |-> W.Qs]
       o == Obs(ev, S, S.own) mis == Mis(r.e.S, o)
       b == (IF ok THEN Tag({"P14"}, mis) \cup Tag({"P13"}, mis \cap {"th"}) ELSE IF ev.d = W.states[ev.S].d THEN {} ELSE {<<"P14", "state changed">>})
            \cup (IF ev.ret = ok THEN {} ELSE {<<"P14", "result">>}) \cup QAny(r.Qs, ev, {"P14"})
   IN [W |-> [W EXCEPT !.states = SetState(ev, o, ev.d), !.Qs = r.Qs, !.pc[ev.C] = r.e, !.dead = ~SameDim(r.e.S, o) \/ QMis(r.Qs, ev) # {}], b |-> b]
DoInitC(ev) ==
   LET c == W.comps[ev.C] S == PState(ev) ok == W.Qs[c.q] # <<>>
       r == IF ok THEN InitCorStep(c, S, W.Qs) ELSE [S |-> S, Qs |-> W.Qs]
       o == Obs(ev, S, S.own)
       b == (IF ok THEN Tag({"P14"}, Mis(r.S, o)) ELSE IF ev.d = W.states[ev.S].d THEN {} ELSE {<<"P14", "state changed">>})
            \cup (IF ev.ret = ok THEN {} ELSE {<<"P14", "result">>}) \cup QAny(r.Qs, ev, {"P14"})
   IN [W |-> [W EXCEPT !.states = SetState(ev, o, ev.d), !.Qs = r.Qs, !.dead = QMis(r.Qs, ev) # {}], b |-> b]
DoCbias(ev) ==
   LET c == W.comps[ev.C] r == Calibrate(c, W.pc[ev.C], W.Qs)
       ok == MFinite(ev.bg) /\ MFinite(ev.ba) /\ MClose(ev.bg, r.e.bg, 11, Lit("0.01")) /\ MClose(ev.ba, r.e.ba, 11, Lit("0.01"))
       b == (IF ok THEN {} ELSE {<<"P13", "bias value">>}) \cup (IF ev.bo = r.e.bo THEN {} ELSE {<<"P13", "bias initialised">>}) \cup QAny(r.Qs, ev, {"P13"})
   IN [W |-> [W EXCEPT !.pc[ev.C] = [r.e EXCEPT !.bg = ev.bg, !.ba = ev.ba], !.Qs = r.Qs, !.dead = QMis(r.Qs, ev) # {}], b |-> b]
DoCclr(ev) ==
   LET c == W.comps[ev.C] Q == [W.Qs EXCEPT ![c.q] = <<>>] IN
   [W |-> [W EXCEPT !.Qs = Q, !.dead = QMis(Q, ev) # {}], b |-> QAny(Q, ev, {"P01"})]

----------------------------------------------------------------------------
\* cmp: the published histories of two estimators since their last clear, or named digests, must be identical
DoCmp(ev) ==
   LET a == W.ests[ev.a].hist b == W.ests[ev.b].hist IN
   [W |-> W, b |-> IF a = b THEN {} ELSE {<<ev.p, ev.why>>}]

DoEvent(ev) ==
   CASE ev.e = "begin" -> [W |-> W0, b |-> {}]
     [] ev.e = "mkq" -> [W |-> [W EXCEPT !.Qs = Put(@, ev.q, <<>>)], b |-> {}]
     [] ev.e = "comp" -> [W |-> [W EXCEPT !.comps = Put(@, ev.id, ev), !.pc = IF ev.kind = "imu" THEN Put(@, ev.id, NewE([prop |-> ev])) ELSE @], b |-> {}]
     [] ev.e = "estc" -> [W |-> [W EXCEPT !.ecs = Put(@, ev.id, [prop |-> W.comps[ev.prop], cors |-> [k \in DOMAIN ev.cors |-> W.comps[ev.cors[k]]], et |-> ev.et, keys |-> ev.keys])], b |-> {}]
     [] ev.e = "push" -> [W |-> [W EXCEPT !.Qs[ev.q] = Append(@, ev.m)], b |-> {}]
     [] ev.e = "enew" -> DoEnew(ev)
     [] ev.e = "run" -> DoRun(ev)
     [] ev.e = "bias" -> DoBias(ev)
     [] ev.e = "init" -> DoInit(ev)
     [] ev.e = "clear" -> DoClear(ev)
     [] ev.e = "enable" -> DoEnable(ev)
     [] ev.e = "take" -> DoTake(ev)
     [] ev.e = "eset" -> DoEset(ev)
     [] ev.e = "state" -> DoState(ev)
     [] ev.e = "sset" -> DoSset(ev)
     [] ev.e = "scopy" -> DoScopy(ev)
     [] ev.e = "cprop" -> DoComp(ev, FALSE)
     [] ev.e = "upd" -> DoUpd(ev)
     [] ev.e = "ccor" -> DoComp(ev, FALSE)
     [] ev.e = "cinitp" -> DoInitP(ev)
     [] ev.e = "cinitc" -> DoInitC(ev)
     [] ev.e = "cbias" -> DoCbias(ev)
     [] ev.e = "cclr" -> DoCclr(ev)
     [] ev.e = "cmp" -> DoCmp(ev)
     [] ev.e \in {"except", "crash"} -> [W |-> [W EXCEPT !.dead = TRUE], b |-> {<<p, IF ev.e = "crash" THEN "abnormal end: " \o ev.why ELSE "exception: " \o ev.what>> : p \in AllProps}]

\* P25 is judged on traces that differ from a conforming one in configuration only: there every clause is its own
Relevant(b) == IF "P25" \in Props THEN {<<"P25", c[2]>> : c \in b} ELSE {c \in b : c[1] \in Props}
Name(k) == Traces[k][1].name
Init == tr \in 1..Len(Traces) /\ i = 1 /\ W = W0 /\ bad = {}
Next == /\ i <= Len(Traces[tr]) /\ bad = {} /\ ~W.dead
        /\ LET r == DoEvent(Traces[tr][i]) IN
           /\ W' = r.W
           /\ bad' = Relevant(r.b)
        /\ i' = i + 1 /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
Short == [trace |-> Name(tr), event |-> i - 1, op |-> IF i = 1 THEN "" ELSE Traces[tr][i - 1].e, bad |-> bad]
Conforms == bad = {} \/ Verdict(Short)
View == <<tr, i>>
=============================================================================
