------------------------------ MODULE WheelTrace ------------------------------
(***************************************************************************)
(* P29.  Wheel odometry: per instance the two input buffers, the pose and   *)
(* its time, and the rows due in the log file.                              *)
(***************************************************************************)
EXTENDS Mat
CONSTANTS Props, File
VARIABLES tr, i, W, bad
C(ok, what) == IF ok THEN {} ELSE {<<"P29", what>>}
Key(cfg, k, d) == IF k \in DOMAIN cfg THEN cfg[k] ELSE d
New(cfg) == [R |-> I3, p |-> Zero3, t |-> Num(0), on |-> FALSE, prev |-> Num(0), last |-> Num(0), len |-> Num(1),
             vq |-> <<>>, aq |-> <<>>, rows |-> <<>>, rate |-> Key(cfg, "logger.pose_log_rate", Num(10)), log |-> cfg["logger.enable_pose_logger"]]
Ids(q) == [x \in 1..Len(q) |-> q[x].id]
BriefIds(q) == IF q = <<>> THEN <<0>> ELSE <<Len(q), q[1].id, q[Len(q)].id>>        \* how long buffers are reported
\* one step: waits until both buffers hold something, takes the front pair
Run(o) ==
   IF o.vq = <<>> \/ o.aq = <<>> THEN o ELSE
   LET v == o.vq[1] a == o.aq[1] o1 == [o EXCEPT !.vq = Tail(@), !.aq = Tail(@)] IN
   IF ~o.on THEN [o1 EXCEPT !.on = TRUE, !.prev = v.st, !.t = v.st]       \* the first pair only sets the clock
   ELSE LET dt == MRound(v.st \ominus o.prev) t == MRound(o.t \oplus dt)
            p == o.p \oplus (o.R \otimes v.v \otimes dt)
            R == o.R \otimes MExp(Skew(a.v \otimes dt))
            o2 == [o1 EXCEPT !.prev = v.st, !.t = t, !.R = R, !.p = p, !.len = @ \oplus MMax(v.v \otimes dt)] IN
        IF o.log /\ MLe(MRound(MDiv(Num(1), o.rate)), MRound(t \ominus o.last))
        THEN [o2 EXCEPT !.last = t, !.rows = Append(@, [t |-> t, R |-> R, p |-> p, len |-> o2.len])] ELSE o2
RowOk(r, g) ==
   /\ MClose(Blk(r, 0, 0, 1, 1), g.t, 15, Num(0))
   /\ MLe(MDist(MT(Blk(r, 0, 1, 1, 3)), g.p), Lit("1e-11") \otimes g.len)
   /\ MLe(MDist(QuatR(VCat(Blk(r, 0, 7, 1, 1), MT(Blk(r, 0, 4, 1, 3)))), g.R), Lit("1e-10"))
Do(w0, ev) ==
   IF ev.e = "cfg" THEN [W |-> [w0 EXCEPT !.cfg = [x \in DOMAIN @ \cup {ev.o} |-> IF x = ev.o THEN ev.keys ELSE @[x]]], b |-> {}]
   ELSE
   LET o0 == IF ev.f = "new" THEN New(w0.cfg[ev.o]) ELSE w0.os[ev.o]
       o == CASE ev.f = "vel" -> [o0 EXCEPT !.vq = Append(@, [id |-> ev.id, st |-> ev.st, v |-> ev.v])]
              [] ev.f = "ang" -> [o0 EXCEPT !.aq = Append(@, [id |-> ev.id, st |-> ev.st, v |-> ev.v])]
              [] ev.f = "run" -> Run(o0)
              [] OTHER -> o0
       S(q) == IF "br" \in DOMAIN ev THEN BriefIds(q) ELSE Ids(q)
       b == C(ev.vq = S(o.vq) /\ ev.aq = S(o.aq), "what is left in the buffers") \cup C(ev.free, "a mutex stays locked")
            \cup (IF ev.f # "log" THEN {} ELSE
                  C(ev.there = o.log /\ ~ev.bad, "log file") \cup
                  (IF MRows(ev.rows) # Len(o.rows) THEN {<<"P29", "number of poses in the log">>}
                   ELSE C(\A k \in 1..Len(o.rows) : RowOk(Blk(ev.rows, k - 1, 0, 1, 8), o.rows[k]), "pose in the log")))
   IN [W |-> [w0 EXCEPT !.os = [x \in DOMAIN @ \cup {ev.o} |-> IF x = ev.o THEN o ELSE @[x]]], b |-> b]
B == INSTANCE TraceBase WITH W0 <- [cfg |-> <<>>, os |-> <<>>], DoEvent <- Do
Spec == B!Spec
Conforms == B!Conforms
View == B!View
Short == B!Short
=============================================================================
