------------------------------ MODULE ImuFilterMC ------------------------------
(***************************************************************************)
(* Every sequence of arrivals and iterations of the IMU filter up to       *)
(* MaxOps, over integer time, for one choice of sources.  The invariants   *)
(* are P16 and P18; behaviours are emitted for replay on the real filter.  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxOps, MaxQ, Gyro, NImu, NAng, Five, Static, NCal, Emit, Offs, Clears
VARIABLES f, Qs, now, hist, out, g
vars == <<f, Qs, now, hist, out, g>>
Thr == 2
ILt(a, b) == a < b
IOld(c, lp, t) == lp - t > Thr
ISt(S, k, m) == Append(S, [k |-> k, id |-> m.id])
IGyro(c, S, m, w) == Append(S, [k |-> "gyro", id |-> m.id, from |-> w])
IWalk(c, S) == Append(S, [k |-> "walk", id |-> 0])
IImu(c, S, m) == ISt(S, "imu", m)
IAng(c, S, m) == ISt(S, "ang", m)
ICal(S, cal) == Append(S, [k |-> "cal", id |-> Len(cal)])
IRate(m) == m.id
ISample(S, m, l) == [id |-> m.id, t |-> m.t, from |-> l.id, n |-> Len(S), lp |-> 0]
IStatic(c) == Static
ISize(c) == NCal
INSTANCE ImuFilter WITH Lt <- ILt, TooOld <- IOld, OnGyro <- IGyro, OnWalk <- IWalk, OnImu <- IImu, OnAng <- IAng, OnCal <- ICal,
   RateOf <- IRate, Sample <- ISample, StaticOf <- IStatic, SizeOf <- ISize

INames == IF NImu = 0 THEN <<>> ELSE IF NImu = 1 THEN <<"a">> ELSE <<"a", "b">>
C == [gyro |-> IF Gyro THEN "g" ELSE "", single |-> IF NImu > 0 THEN "a" ELSE "", ang |-> IF NAng > 0 THEN "w" ELSE "",
      imus |-> IF Five # "" THEN <<>> ELSE INames, nimu |-> IF Five # "" THEN 0 ELSE NImu, nang |-> IF Five # "" THEN 0 ELSE NAng]
Names == Attached(C)
F0 == [mode |-> IF Five # "" THEN Five ELSE "SPA", init |-> FALSE, cal |-> <<>>, S |-> <<>>, lastp |-> NoneF, latest |-> NoneF, prevw |-> 0]
\* ghosts: ids pushed per buffer, ids rejected (with the propagation time), ids cleared, ids of samples taken by prediction
G0 == [nid |-> 1, pushed |-> [n \in Names |-> <<>>], rej |-> {}, clr |-> {}, pred |-> {}, pre |-> {}, acc |-> <<>>]
Init == f = F0 /\ Qs = [n \in Names |-> <<>>] /\ now = 4 /\ hist = <<>> /\ out = <<>> /\ g = G0
Push(n, d) == /\ Len(Qs[n]) < MaxQ
              /\ Qs' = [Qs EXCEPT ![n] = Append(@, [id |-> g.nid, t |-> now + d])]
              /\ g' = [g EXCEPT !.nid = @ + 1, !.pushed[n] = Append(@, g.nid)]
              /\ now' = IF n = "g" THEN now + d ELSE now
              /\ hist' = Append(hist, <<"push", n, now + d>>) /\ UNCHANGED <<f, out>>
Gone(n, Q) == {Qs[n][k] : k \in 1..(Len(Qs[n]) - Len(Q[n]))}
Run == LET r == RunF(C, f, Qs) em == {r.out[k].id : k \in DOMAIN r.out}
           taken == UNION {Gone(n, r.Qs) : n \in Names \ {"g"}} IN
       /\ f' = r.f /\ Qs' = r.Qs /\ out' = out \o r.out
       /\ g' = [g EXCEPT !.pre = IF f.init THEN @ ELSE @ \cup {m.id : m \in UNION {Gone(n, r.Qs) : n \in Names}},
                         !.rej = IF ~f.init THEN @ ELSE @ \cup {[id |-> m.id, t |-> m.t, lp |-> r.f.lastp, lat |-> f.latest.has \/ r.f.latest.has] : m \in {x \in taken : x.id \notin em}},
                         !.pred = IF ~f.init \/ ~Gyro THEN @ ELSE @ \cup {m.id : m \in Gone("g", r.Qs)},
                         !.acc = @ \o [k \in DOMAIN r.out |-> [id |-> r.out[k].id, t |-> r.out[k].t, lp |-> r.f.lastp]]]
       /\ hist' = Append(hist, <<"run">>) /\ UNCHANGED now
ClearAll == /\ Clears /\ Qs' = ClearF(C, Qs) /\ out' = <<>>
            /\ g' = [g EXCEPT !.clr = @ \cup UNION {{Qs[n][k].id : k \in DOMAIN Qs[n]} : n \in Names}, !.acc = <<>>]
            /\ hist' = Append(hist, <<"clear">>) /\ UNCHANGED <<f, now>>
Next == /\ Len(hist) < MaxOps
        /\ \/ \E n \in Names \ {"g"}, d \in Offs : Push(n, d)
           \/ Gyro /\ \E d \in {0, 1, 3} : Push("g", d)
           \/ Run \/ ClearAll
Spec == Init /\ [][Next]_vars
EmitT == Emit => PrintT("B " \o ToString(hist'))
Rel(q) == [k \in DOMAIN q |-> q[k].t - now]
View == <<f.mode, f.init, Len(f.cal), IF f.lastp.has THEN <<f.lastp.m - now>> ELSE <<>>, f.latest.has, [n \in Names |-> Rel(Qs[n])], out # <<>>,
          IF hist = <<>> THEN "" ELSE hist[Len(hist)][1]>>
----------------------------------------------------------------------------
IdSet(q) == {q[k].id : k \in DOMAIN q}
Mono(s) == \A a, b \in DOMAIN s : a < b => s[a] < s[b]
AccIds == [k \in DOMAIN g.acc |-> g.acc[k].id]
Of(n) == {g.pushed[n][k] : k \in DOMAIN g.pushed[n]}
\* P16: one emitted sample per accepted measurement, never twice, in arrival order of each source; accepted and rejected by the gate only
P16 == /\ Cardinality(IdSet(out)) = Len(out) /\ AccIds = [k \in DOMAIN out |-> out[k].id]
       /\ \A n \in Names : Mono(SelectSeq(AccIds, LAMBDA x : x \in Of(n)))
       /\ \A k \in DOMAIN g.acc : f.mode # "ANG" /\ g.acc[k].lp.has => g.acc[k].lp.m - g.acc[k].t <= Thr
       /\ \A x \in g.rej : (x.lp.has /\ x.lp.m - x.t > Thr) \/ (~x.lat /\ x.id \in Of("w"))
       /\ \A x \in g.rej : f.mode = "ANG" => ~x.lat
\* every pushed measurement is in exactly one place
Once == \A n \in Names : \A id \in Of(n) :
   Cardinality({p \in {"wait", "emit", "rej", "clr", "pred", "pre"} :
       \/ (p = "wait" /\ id \in IdSet(Qs[n]))
       \/ (p = "emit" /\ \E k \in DOMAIN f.S : f.S[k].id = id /\ f.S[k].k \in {"imu", "ang"})
       \/ (p = "rej" /\ \E x \in g.rej : x.id = id)
       \/ (p = "clr" /\ id \in g.clr) \/ (p = "pred" /\ id \in g.pred) \/ (p = "pre" /\ id \in g.pre)}) = 1
\* P18
P18 == /\ ~f.init => out = <<>> /\ f.S = <<>>
       /\ Len(f.cal) <= NCal
       /\ f.init /\ Static /\ NCal > 0 => Len(f.cal) = NCal /\ f.S[1] = [k |-> "cal", id |-> NCal]
       /\ Five = "" /\ (f.init \/ f.cal # <<>>) => f.mode = IF NImu = 0 THEN "ANG" ELSE IF NImu > 1 THEN "MULTI" ELSE IF NAng = 0 THEN "SINGLE" ELSE "SPA"
\* the increments of the gyro telescope: each prediction starts from the previous one's rate
Chain == LET p == SelectSeq(f.S, LAMBDA x : x.k = "gyro") IN \A k \in DOMAIN p : k > 1 => p[k].from = p[k - 1].id
Inv == P16 /\ Once /\ P18 /\ Chain
=============================================================================
