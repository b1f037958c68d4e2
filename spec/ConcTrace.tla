------------------------------ MODULE ConcTrace ------------------------------
(* Recorded concurrent executions checked against Conc and PoseLog. *)
EXTENDS Conc, PoseLog
CONSTANTS Props, File
VARIABLES tr, i, W, bad
\* besides the concurrent state: the states published by steps per period, the log files read back, the log rate
V0 == [c |-> Conc0, per |-> <<<<>>>>, files |-> <<>>, rate |-> Num(0)]
F0 == [pose |-> MZero(0, 8), vel |-> MZero(0, 4), body |-> MZero(0, 4)]
Fine(f) == f.there /\ ~f.bad
LogOk(v) == Match(v.per, [k \in 1..Len(v.per) |-> v.files[k]], 1, Num(0), v.rate, TRUE)
\* what was waiting when the estimator was destroyed has been written: as many records as the states of the last period give
RECURSIVE LastLogged(_, _)
LastLogged(v, k) == IF k = 0 THEN Num(0) ELSE LET r == v.files[k].pose n == MRows(r) IN IF n > 0 THEN At(r, n - 1, 0) ELSE LastLogged(v, k - 1)
Drained(v) == LET n == Len(v.per) IN \A kind \in {"pose", "vel", "body"} : MRows(v.files[n][kind]) = Len(Logged(v.per[n], LastLogged(v, n - 1), v.rate))
Do(v, ev) ==
   IF ev.e = "lograte" THEN [W |-> [v EXCEPT !.rate = ev.r], b |-> {}]
   ELSE IF ev.e = "log" THEN
      [W |-> [v EXCEPT !.files = Put(@, ev.n, [Get(@, ev.n, F0) EXCEPT ![ev.k] = ev.rows])],
       b |-> K("P21", ev.there, "log file missing") \cup K("P21", ~ev.bad, "malformed log record")]
   ELSE IF ev.e = "logged" THEN [W |-> v, b |-> K("P21", LogOk(v), "log files are not the states published by steps") \cup K("P20", Drained(v), "states waiting at the end were not logged")]
   ELSE LET r == Step(v.c, ev) n == Len(r.W.outs) m == Len(v.c.outs)
            new == SelectSeq(SubSeq(r.W.outs, m + 1, n), LAMBDA o : o.q = "out" /\ o.op = "run")
            p1 == IF new = <<>> THEN v.per ELSE [v.per EXCEPT ![Len(v.per)] = @ \o [x \in 1..Len(new) |-> r.W.made[new[x].id]]]
            p2 == IF ev.e = "op" /\ ev.f = "clear" THEN Append(p1, <<>>) ELSE p1 IN
        [W |-> [v EXCEPT !.c = r.W, !.per = p2], b |-> r.b]
B == INSTANCE TraceBase WITH W0 <- V0, DoEvent <- Do
Spec == B!Spec
Conforms == B!Conforms
View == B!View
Short == B!Short
=============================================================================
