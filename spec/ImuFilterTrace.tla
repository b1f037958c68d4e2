----------------------------- MODULE ImuFilterTrace -----------------------------
(***************************************************************************)
(* Conformance of recorded executions of the IMU filter with ImuFilter,    *)
(* the estimate being a linear Kalman filter over (rate; bias).            *)
(***************************************************************************)
EXTENDS Mat, FiniteSets
CONSTANTS Props, File
VARIABLES tr, i, W, bad
vars == <<tr, i, W, bad>>

K(c, k, d) == IF k \in DOMAIN c.keys THEN c.keys[k] ELSE d
Var(c, k, d) == Sq(K(c, k, Lit(d)))
RBodyToImu(c) == MT(QuatR(K(c, "settings.rotation_imu2body", VCat(Num(1), Zero3))))
Diag2(a, b) == SetBlk(SetBlk(MZero(6, 6), 0, 0, a \otimes I3), 3, 3, b \otimes I3)
P0(c) == Diag2(Var(c, "noises.ang_vel_std", "0.01"), Var(c, "noises.ang_vel_bias_std", "0.01"))
Qn(c) == Diag2(Var(c, "noises.filter_std", "0.01"), Var(c, "noises.filter_bias_std", "0.01"))
\* on flat ground all three axes are observed, otherwise the yaw axis alone
Axes(c) == IF K(c, "settings.flat_ground", FALSE) THEN I3 ELSE SetBlk(MZero(3, 3), 2, 2, Num(1))
HImu(c) == HCat(Axes(c), Axes(c))
HEnc(c) == HCat(Axes(c), MZero(3, 3))
TStatic(c) == K(c, "settings.static_bias_initialization", FALSE)
TSize(c) == K(c, "settings.init_bias_size", 250)
TThr(c) == K(c, "settings.t_threshold", Lit("0.03"))
TMode(c) == LET m == K(c, "settings.correction_method", 0) IN CASE m = 0 -> "SPA" [] m = 1 -> "SINGLE" [] m = 2 -> "MULTI" [] m = 3 -> "ANG"
Prior(c) == IF TStatic(c) THEN Zero3 ELSE K(c, "priors.ang_vel_bias", Zero3)

TLt(a, b) == MLt(a, b)
TTooOld(c, lp, t) == MLt(TThr(c), MRound(lp \ominus t))
Kal(S, z, H, N) == LET G == S.P \otimes MT(H) \otimes MInv(Sandwich(H, S.P) \oplus (N \otimes I3)) IN
   [x |-> S.x \oplus (G \otimes (z \ominus (H \otimes S.x))), P |-> (MId(6) \ominus (G \otimes H)) \otimes S.P]
TGyro(c, S, m, w) == [x |-> S.x \oplus VCat(m.w \ominus w, Zero3), P |-> S.P \oplus Qn(c)]
TWalk(c, S) == [S EXCEPT !.P = @ \oplus Qn(c)]
TImu(c, S, m) == Kal(S, m.w, HImu(c), Var(c, "noises.imu_meas_noise_std", "0.1"))
TAng(c, S, m) == Kal(S, RBodyToImu(c) \otimes m.w, HEnc(c), Var(c, "noises.encoder_meas_noise_std", "0.1"))
RECURSIVE WSum(_, _)
WSum(s, n) == IF n = 0 THEN Zero3 ELSE WSum(s, n - 1) \oplus s[n].w
TCal(S, cal) == [S EXCEPT !.x = VCat(Zero3, MDiv(WSum(cal, Len(cal)), Num(Len(cal))))]
TRate(m) == m.w
TSample(S, m, l) == [t |-> m.t, w |-> Seg(S.x, 0, 3), a |-> l.a, qt |-> l.qt]
INSTANCE ImuFilter WITH Lt <- TLt, TooOld <- TTooOld, OnGyro <- TGyro, OnWalk <- TWalk, OnImu <- TImu, OnAng <- TAng, OnCal <- TCal,
   RateOf <- TRate, Sample <- TSample, StaticOf <- TStatic, SizeOf <- TSize

Traces == ReadTraces(File)
Put(f, k, v) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = v] ELSE f @@ (k :> v)
Ids(q) == [k \in DOMAIN q |-> q[k].id]
W0 == [cs |-> <<>>, fs |-> <<>>, Qs |-> <<>>, dead |-> FALSE]
AllProps == {"P15", "P16", "P17", "P18", "P25"}
NewF(c) == [mode |-> TMode(c), init |-> FALSE, cal |-> <<>>, S |-> [x |-> VCat(Zero3, Prior(c)), P |-> P0(c)], lastp |-> NoneF, latest |-> NoneF, prevw |-> Zero3,
            out |-> <<>>, held |-> <<>>, hist |-> <<>>]
Numeric(r, o) == MClose(o.w, r.w, 9, Num(1) \oplus MMax(r.w))
Carried(r, o) == MSame(o.t, r.t) /\ MSame(o.a, r.a) /\ MSame(o.qt, r.qt)
\* (an event marked "br" reports length, first and last entry of what would be a long sequence)
Br(ev) == "br" \in DOMAIN ev
Brief(s) == IF s = <<>> THEN <<0>> ELSE <<Len(s), s[1], s[Len(s)]>>
BriefQ(s) == IF s = <<>> THEN <<0>> ELSE <<Len(s), s[1].id, s[Len(s)].id>>
SeqIs(ev, obs, s) == IF Br(ev) THEN obs = Brief(s) ELSE obs = s
QMis(Q, ev) == IF Br(ev) THEN {n \in DOMAIN Q : BriefQ(Q[n]) # ev.q[n]} ELSE {n \in DOMAIN Q : Ids(Q[n]) # ev.q[n]}
Newd(ev) == IF Br(ev) THEN ev.nd ELSE [k \in DOMAIN ev.new |-> ev.od[Len(ev.od) - Len(ev.new) + k]]

\* f0: filter before, r: [f, Qs, out] specified
Judge(ev, f0, r, qp) ==
   LET nnew == Len(r.out)
       P == IF f0.init THEN "P16" ELSE "P18"
       okn == Len(ev.new) = nnew
       b == (IF QMis(r.Qs, ev) = {} THEN {} ELSE {<<qp, "queue">>})
            \cup (IF okn THEN {} ELSE {<<P, "number of emitted samples">>})
            \cup (IF okn /\ (\E k \in 1..nnew : ~Carried(r.out[k], ev.new[k])) THEN {<<P, "contents of an emitted sample">>} ELSE {})
            \cup (IF okn /\ (\E k \in 1..nnew : ~Numeric(r.out[k], ev.new[k])) THEN {<<"P17", "rate of an emitted sample">>} \cup (IF f0.hist = <<>> THEN {<<"P18", "rate of the first sample">>} ELSE {}) ELSE {})
            \cup (IF (IF Br(ev) THEN ev.od = Brief(f0.out \o ev.nd) ELSE SubSeq(ev.od, 1, Len(ev.od) - Len(ev.new)) = f0.out) THEN {} ELSE {<<"P16", "earlier samples changed">>})
            \cup (IF SeqIs(ev, ev.held, f0.held) THEN {} ELSE {<<"P16", "taken samples changed">>})
   IN b
Upd(ev, f) == [f EXCEPT !.out = IF Br(ev) THEN @ \o ev.nd ELSE ev.od, !.hist = @ \o Newd(ev)]
RunR(c, f, Q) == LET r == RunF(c, f, Q) IN [f |-> r.f, Qs |-> r.Qs, out |-> r.out]
DoRun(ev) ==
   LET c == W.cs[ev.F] f == W.fs[ev.F] r == RunR(c, f, W.Qs)
       b == Judge(ev, f, r, IF f.init THEN "P16" ELSE "P18") \cup
            (IF \E n \in QMis(r.Qs, ev) : n \notin Attached(c) THEN {<<"P15", "queue of another filter">>} ELSE {})
   IN [W |-> [W EXCEPT !.fs = Put(@, ev.F, Upd(ev, r.f)), !.Qs = r.Qs, !.dead = QMis(r.Qs, ev) # {}], b |-> b]
DoClearF(ev) ==
   LET c == W.cs[ev.F] f == W.fs[ev.F] Q == ClearF(c, W.Qs)
       b == (IF QMis(Q, ev) = {} THEN {} ELSE {<<"P18", "queue">>}) \cup (IF SeqIs(ev, ev.od, <<>>) /\ SeqIs(ev, ev.held, f.held) THEN {} ELSE {<<"P18", "output not cleared">>})
   IN [W |-> [W EXCEPT !.fs = Put(@, ev.F, [f EXCEPT !.out = IF Br(ev) THEN <<>> ELSE ev.od, !.hist = <<>>]), !.Qs = Q, !.dead = QMis(Q, ev) # {}], b |-> b]
DoTakeF(ev) ==
   LET f == W.fs[ev.F] k == Len(f.out) - (IF Br(ev) THEN ev.od[1] ELSE Len(ev.od))
       o1 == IF k < 0 THEN f.out ELSE SubSeq(f.out, k + 1, Len(f.out))
       h1 == IF k < 0 THEN f.held ELSE f.held \o SubSeq(f.out, 1, k)
       ok == k >= 0 /\ SeqIs(ev, ev.od, o1) /\ SeqIs(ev, ev.held, h1)
   IN [W |-> [W EXCEPT !.fs = Put(@, ev.F, [f EXCEPT !.out = IF Br(ev) THEN o1 ELSE ev.od, !.held = IF Br(ev) THEN h1 ELSE ev.held])], b |-> IF ok THEN {} ELSE {<<"P16", "taken samples changed">>}]
\* the filter ran in its own thread and was destroyed: some number of iterations
RECURSIVE Reaches(_, _, _, _, _)
Reaches(c, ev, f0, r, n) ==
   IF Judge(ev, f0, r, "P16") = {} THEN TRUE
   ELSE IF n = 0 \/ Len(r.out) > Len(ev.new) THEN FALSE
   ELSE LET s == RunR(c, r.f, r.Qs) IN Reaches(c, ev, f0, [s EXCEPT !.out = r.out \o @], n - 1)
DoThread(ev) ==
   LET c == W.cs[ev.F] f == W.fs[ev.F] r0 == [f |-> f, Qs |-> W.Qs, out |-> <<>>]
       n == Cardinality(UNION {{<<q, k>> : k \in DOMAIN W.Qs[q]} : q \in DOMAIN W.Qs}) * 2 + 12
       ok == Reaches(c, ev, f, r0, n)
   IN [W |-> [W EXCEPT !.dead = TRUE], b |-> IF ok THEN {} ELSE {<<"P18", "output of the thread">>, <<"P16", "output of the thread">>}]
DoCmp(ev) == [W |-> W, b |-> IF W.fs[ev.a].hist = W.fs[ev.b].hist THEN {} ELSE {<<ev.p, ev.why>>}]

DoEvent(ev) ==
   CASE ev.e = "begin" -> [W |-> W0, b |-> {}]
     [] ev.e = "mkq" -> [W |-> [W EXCEPT !.Qs = Put(@, ev.q, <<>>)], b |-> {}]
     [] ev.e = "fcfg" -> [W |-> [W EXCEPT !.cs = Put(@, ev.F, ev), !.fs = Put(@, ev.F, NewF(ev))], b |-> {}]
     [] ev.e = "push" -> [W |-> [W EXCEPT !.Qs[ev.q] = Append(@, ev.m)], b |-> {}]
     [] ev.e = "frun" -> DoRun(ev)
     [] ev.e = "fclear" -> DoClearF(ev)
     [] ev.e = "ftake" -> DoTakeF(ev)
     [] ev.e = "fthread" -> DoThread(ev)
     [] ev.e = "fdel" -> [W |-> W, b |-> {}]
     [] ev.e = "cmp" -> DoCmp(ev)
     [] ev.e \in {"except", "crash"} -> [W |-> [W EXCEPT !.dead = TRUE],
            b |-> {<<p, IF ev.e = "crash" THEN "abnormal end: " \o ev.why ELSE "exception: " \o ev.what>> : p \in {"P18"} \cup (IF \E n \in DOMAIN W.fs : W.fs[n].init THEN AllProps ELSE {})}]

Name(k) == Traces[k][1].name
Relevant(b) == IF "P25" \in Props THEN {<<"P25", c[2]>> : c \in b} ELSE {c \in b : c[1] \in Props}
Init == tr \in 1..Len(Traces) /\ i = 1 /\ W = W0 /\ bad = {}
Next == /\ i <= Len(Traces[tr]) /\ bad = {} /\ ~W.dead
        /\ LET r == DoEvent(Traces[tr][i]) IN W' = r.W /\ bad' = Relevant(r.b)
        /\ i' = i + 1 /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
Short == [trace |-> Name(tr), event |-> i - 1, op |-> IF i = 1 THEN "" ELSE Traces[tr][i - 1].e, bad |-> bad]
Conforms == bad = {} \/ Verdict(Short)
View == <<tr, i>>
=============================================================================
