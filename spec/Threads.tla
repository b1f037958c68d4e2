------------------------------ MODULE Threads ------------------------------
(***************************************************************************)
(* The threads of a running system, at the grain of critical sections:      *)
(*   P  sensor drivers: put the measurements of Prog in the buffers         *)
(*   E  the filter thread: initialise, step, clear, destroy, in any order   *)
(*   G  the estimator's logger                                              *)
(*   C  whoever takes the published states                                  *)
(* Each operation on a shared buffer happens under its lock, so it is one   *)
(* action; the two locks of the log are explicit.  TLC explores every       *)
(* interleaving: nothing is lost, duplicated or reordered (P19), no set of  *)
(* threads blocks and everything ends (P20), the log is what LogRule allows *)
(* (P21), intervals and gates as in module Control (P02, P03).  With Emit,  *)
(* one schedule of every distinct outcome is printed and replayed on the    *)
(* real code.  Bug selects a deliberately wrong variant (each must fail).   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Prog,        \* what the drivers put, in order: <<"i" or "v", time>>
          Runs, Clears, Takes, Period, Th, Emit, Bug
VARIABLES p, c, e, pc, m, I, V, Out, L, per, files, lq, lf, g, stop, gone, put, ivl, hist, ops
core == <<p, c, e, pc, m, I, V, Out, L, per, files, lq, lf, g, stop, gone, put, ivl>>
vars == <<p, c, e, pc, m, I, V, Out, L, per, files, lq, lf, g, stop, gone, put, ivl, hist, ops>>
NoRec == [n |-> 0, t |-> 0, life |-> 0]
E0 == [en |-> FALSE, t |-> 0, tp |-> 0, prev |-> 0, ready |-> FALSE, runs |-> Runs, clears |-> Clears, life |-> 1, n |-> 0]
Init == /\ p = 1 /\ c = Takes /\ e = E0 /\ pc = "idle" /\ m = <<>> /\ I = <<>> /\ V = <<>> /\ Out = <<>> /\ L = <<>>
        /\ per = <<<<>>>> /\ files = <<<<>>>> /\ lq = "" /\ lf = "" /\ stop = FALSE
        /\ g = [at |-> "look", seen |-> FALSE, rec |-> NoRec, last |-> 0]
        /\ gone = [i |-> <<>>, v |-> <<>>, o |-> <<>>] /\ put = <<>> /\ ivl = <<>> /\ hist = "" /\ ops = ""
By(t) == hist' = IF Emit THEN hist \o t ELSE hist          \* whose critical section ends (g: begins)
\* ---- drivers and consumers --------------------------------------------------------------------
Driver == /\ p <= Len(Prog) /\ By("P") /\ p' = p + 1
          /\ IF Prog[p][1] = "i" THEN I' = Append(I, [id |-> p, t |-> Prog[p][2]]) /\ UNCHANGED V ELSE V' = Append(V, [id |-> p, t |-> Prog[p][2]]) /\ UNCHANGED I
          /\ UNCHANGED <<c, e, pc, m, Out, L, per, files, lq, lf, g, stop, gone, put, ivl, ops>>
Consumer == /\ c > 0 /\ By("C") /\ c' = c - 1
            /\ IF Out = <<>> THEN UNCHANGED <<Out, gone>> ELSE Out' = Tail(Out) /\ gone' = [gone EXCEPT !.o = Append(@, Head(Out))]
            /\ UNCHANGED <<p, e, pc, m, I, V, L, per, files, lq, lf, g, stop, put, ivl, ops>>
\* ---- the filter thread ------------------------------------------------------------------------
Rest == UNCHANGED <<p, c>> /\ By("E")
Say(o) == ops' = IF Emit THEN ops \o o ELSE ops
MoreV == V # <<>> \/ \E k \in p..Len(Prog) : Prog[k][1] = "v"
Choose == /\ pc = "idle"
          /\ \/ ~e.en /\ MoreV /\ e.runs > 0 /\ pc' = "init1" /\ e' = [e EXCEPT !.runs = @ - 1] /\ Say("i") /\ UNCHANGED stop
             \/ e.en /\ e.runs > 0 /\ pc' = "run1" /\ e' = [e EXCEPT !.runs = @ - 1] /\ Say("r") /\ UNCHANGED stop
             \/ e.en /\ e.clears > 0 /\ pc' = "clr1" /\ e' = [e EXCEPT !.clears = @ - 1] /\ Say("c") /\ UNCHANGED stop
             \/ (e.runs = 0 \/ ~e.en \/ e.clears = 0) /\ pc' = "join" /\ stop' = TRUE /\ Say("e") /\ UNCHANGED e
          /\ UNCHANGED <<p, c, m, I, V, Out, L, per, files, lq, lf, g, gone, put, ivl, hist>>
Ids(s) == [k \in 1..Len(s) |-> s[k].id]
Init1 == /\ pc = "init1" /\ Rest
         /\ IF I = <<>> THEN pc' = "idle" /\ UNCHANGED <<e, I, gone>>
            ELSE /\ pc' = "init2" /\ I' = Tail(I) /\ gone' = [gone EXCEPT !.i = Append(@, Head(I).id)]
                 /\ e' = [e EXCEPT !.t = Head(I).t, !.tp = Head(I).t, !.prev = Head(I).t]
         /\ UNCHANGED <<m, V, Out, L, per, files, lq, lf, g, stop, put, ivl, ops>>
Init2 == /\ pc = "init2" /\ V # <<>> /\ Rest          \* waits for a measurement
         /\ pc' = "init3" /\ V' = <<>> /\ gone' = [gone EXCEPT !.v = @ \o Ids(V)] /\ e' = [e EXCEPT !.t = V[Len(V)].t]
         /\ UNCHANGED <<m, I, Out, L, per, files, lq, lf, g, stop, put, ivl, ops>>
Snapshot == [n |-> e.n + 1, t |-> e.t, life |-> e.life]
Publish(next) == /\ Out' = Append(Out, Snapshot) /\ put' = Append(put, Snapshot) /\ e' = [e EXCEPT !.n = @ + 1, !.en = TRUE, !.ready = FALSE] /\ pc' = next
Init3 == /\ pc = "init3" /\ Rest /\ Publish("idle")
         /\ UNCHANGED <<m, I, V, L, per, files, lq, lf, g, stop, gone, ivl, ops>>
Run1 == /\ pc = "run1" /\ Rest /\ pc' = "run2"
        /\ IF I = <<>> THEN UNCHANGED <<e, I, gone, ivl>>
           ELSE /\ I' = Tail(I) /\ gone' = [gone EXCEPT !.i = Append(@, Head(I).id)]
                /\ e' = [e EXCEPT !.t = e.prev, !.tp = e.prev, !.prev = Head(I).t, !.ready = TRUE]
                /\ ivl' = Append(ivl, <<e.life, e.tp, e.prev>>)
        /\ UNCHANGED <<m, V, Out, L, per, files, lq, lf, g, stop, put, ops>>
Fresh(s) == LET old == {k \in 1..Len(s) : \A j \in 1..k : e.tp - s[j].t > Th} IN Cardinality(old)
Run2 == /\ pc = "run2" /\ Rest
        /\ LET k == Fresh(V) s == SubSeq(V, k + 1, Len(V)) use == s # <<>> /\ s[1].t < e.tp IN
           /\ V' = IF use THEN Tail(s) ELSE s
           /\ gone' = [gone EXCEPT !.v = @ \o SubSeq(Ids(V), 1, k + (IF use THEN 1 ELSE 0))]
           /\ e' = IF use THEN [e EXCEPT !.t = s[1].t, !.ready = TRUE] ELSE e
           /\ pc' = IF e.ready \/ use THEN "run3" ELSE "idle"
        /\ UNCHANGED <<m, I, Out, L, per, files, lq, lf, g, stop, put, ivl, ops>>
Run3 == /\ pc = "run3" /\ Rest /\ Publish("run4") /\ m' = <<Snapshot>>
        /\ per' = [per EXCEPT ![e.life] = Append(@, Snapshot)]
        /\ UNCHANGED <<I, V, L, files, lq, lf, g, stop, gone, ivl, ops>>
Run4 == /\ pc = "run4" /\ lq = "" /\ Rest /\ L' = Append(L, m[1]) /\ m' = <<>> /\ pc' = "idle"
        /\ UNCHANGED <<e, I, V, Out, per, files, lq, lf, g, stop, gone, put, ivl, ops>>
Clr1 == /\ pc = "clr1" /\ Rest /\ I' = <<>> /\ gone' = [gone EXCEPT !.i = @ \o Ids(I)] /\ pc' = "clr2"
        /\ UNCHANGED <<e, m, V, Out, L, per, files, lq, lf, g, stop, put, ivl, ops>>
Clr2 == /\ pc = "clr2" /\ Rest /\ V' = <<>> /\ gone' = [gone EXCEPT !.v = @ \o Ids(V)] /\ pc' = "clr3"
        /\ UNCHANGED <<e, m, I, Out, L, per, files, lq, lf, g, stop, put, ivl, ops>>
Clr3 == /\ pc = "clr3" /\ Rest /\ Out' = <<>> /\ gone' = [gone EXCEPT !.o = @ \o Out] /\ pc' = CASE Bug = "files first" -> "clr5" [] Bug = "crossed locks" -> "x1" [] OTHER -> "clr4"
        /\ e' = [e EXCEPT !.en = FALSE, !.t = 0, !.tp = 0]
        /\ UNCHANGED <<m, I, V, L, per, files, lq, lf, g, stop, put, ivl, ops>>
Clr4 == /\ pc = "clr4" /\ lq = "" /\ Rest /\ L' = <<>> /\ pc' = IF Bug = "files first" THEN "idle" ELSE "clr5"
        /\ UNCHANGED <<e, m, I, V, Out, per, files, lq, lf, g, stop, gone, put, ivl, ops>>
Clr5 == /\ pc = "clr5" /\ lf = "" /\ Rest /\ files' = Append(files, <<>>) /\ per' = Append(per, <<>>) /\ pc' = IF Bug = "files first" THEN "clr4" ELSE "idle"
        /\ e' = [e EXCEPT !.life = @ + 1]
        /\ UNCHANGED <<m, I, V, Out, L, lq, lf, g, stop, gone, put, ivl, ops>>
\* a wrong variant: both locks of the log held at once, taken in the order opposite to the logger's
X1 == /\ pc = "x1" /\ lf = "" /\ Rest /\ lf' = "E" /\ pc' = "x2" /\ UNCHANGED <<e, m, I, V, Out, L, per, files, lq, g, stop, gone, put, ivl, ops>>
X2 == /\ pc = "x2" /\ lq = "" /\ Rest /\ lf' = "" /\ L' = <<>> /\ files' = Append(files, <<>>) /\ per' = Append(per, <<>>) /\ pc' = "idle" /\ e' = [e EXCEPT !.life = @ + 1]
      /\ UNCHANGED <<m, I, V, Out, lq, g, stop, gone, put, ivl, ops>>
Join == /\ pc = "join" /\ g.at = "ended" /\ pc' = "done"
        /\ UNCHANGED <<p, c, hist, e, m, I, V, Out, L, per, files, lq, lf, g, stop, gone, put, ivl, ops>>
Filter == Choose \/ Init1 \/ Init2 \/ Init3 \/ Run1 \/ Run2 \/ Run3 \/ Run4 \/ Clr1 \/ Clr2 \/ Clr3 \/ Clr4 \/ Clr5 \/ X1 \/ X2 \/ Join
\* ---- the logger -------------------------------------------------------------------------------
Log == UNCHANGED <<p, c, e, pc, m, I, V, Out, per, stop, gone, put, ivl, ops>>
Look == /\ g.at = "look" /\ Log /\ g' = [g EXCEPT !.seen = stop, !.at = IF Bug = "no drain" /\ stop THEN "ended" ELSE "get"] /\ UNCHANGED <<L, files, lq, lf, hist>>
Get == /\ g.at = "get" /\ lq = "" /\ Log /\ By(IF L = <<>> THEN "G" ELSE "g")
       /\ IF L = <<>> THEN /\ g' = [g EXCEPT !.at = IF g.seen THEN "ended" ELSE "look"] /\ UNCHANGED <<L, lq>>
          ELSE /\ g' = [g EXCEPT !.rec = Head(L), !.at = IF Bug = "no hand over" THEN "file2" ELSE "file"] /\ L' = Tail(L) /\ lq' = IF Bug = "no hand over" THEN "" ELSE "G"
       /\ UNCHANGED <<files, lf>>
File == /\ g.at \in {"file", "file2"} /\ lf = "" /\ Log /\ By("G") /\ lf' = "G" /\ lq' = "" /\ g' = [g EXCEPT !.at = "write"] /\ UNCHANGED <<L, files>>
Write == /\ g.at = "write" /\ Log /\ By("G") /\ lf' = "" /\ UNCHANGED <<L, lq>>
         /\ LET due == g.rec.t - g.last >= Period IN
            /\ files' = IF due THEN [files EXCEPT ![Len(files)] = Append(@, g.rec)] ELSE files
            /\ g' = [g EXCEPT !.last = IF due THEN g.rec.t ELSE @, !.rec = NoRec, !.at = "look"]
Logger == Look \/ Get \/ File \/ Write
\* ------------------------------------------------------------------------------------------------
AllDone == pc = "done" /\ p > Len(Prog) /\ c = 0
Shown == AllDone' /\ Emit => PrintT("B " \o ops' \o " " \o hist')
Next == (Driver \/ Consumer \/ Filter \/ Logger) /\ Shown
Spec == Init /\ [][Next]_vars /\ WF_core(Driver) /\ WF_core(Consumer) /\ WF_core(Filter) /\ WF_core(Look) /\ WF_core(Get) /\ WF_core(File) /\ WF_core(Write)
View == core
\* ---- P19 ------------------------------------------------------------------------------------------
Of(b) == SelectSeq([k \in 1..(p - 1) |-> IF Prog[k][1] = b THEN k ELSE 0], LAMBDA x : x > 0)
ExactlyOnce == /\ gone.i \o Ids(I) = Of("i") /\ gone.v \o Ids(V) = Of("v") /\ gone.o \o Out = put
Locks == Bug = "" => (lq = "G") = (g.at = "file") /\ (lf = "G") = (g.at = "write")
\* ---- P02: intervals are contiguous within a life -----------------------------------------------------
Contiguous == \A k \in 1..(Len(ivl) - 1) : ivl[k][1] = ivl[k + 1][1] => ivl[k][3] = ivl[k + 1][2]
\* ---- P21 ------------------------------------------------------------------------------------------
TDue(s, last, rate) == s.t - last >= rate
TTime(s) == s.t
TCount(f) == Len(f)
THolds(f, s) == f = s
LR == INSTANCE LogRule WITH Due <- TDue, TimeOf <- TTime, Count <- TCount, Holds <- THolds
LogOk == LR!Match(per, files, 1, 0, Period, pc = "done")
\* ---- P20 ------------------------------------------------------------------------------------------
Ends == <>(pc = "done")
NoDeadlock == AllDone \/ ENABLED Next
=============================================================================
