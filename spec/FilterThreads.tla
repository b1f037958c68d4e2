--------------------------- MODULE FilterThreads ---------------------------
(***************************************************************************)
(* The threads around the IMU filter, at the grain of critical sections:    *)
(*   P  sensor drivers: put the samples of Prog in the two buffers          *)
(*   F  the filter's own thread: looks at both buffers, chooses the earlier *)
(*      sample, takes it, emits the filtered one                            *)
(*   C  whoever takes the filtered samples                                  *)
(*   K  a clear from outside, buffer by buffer                              *)
(* and the destructor, which stops F at any point of its loop.  TLC         *)
(* explores every interleaving: every sample is taken or cleared exactly    *)
(* once, in order, and only what was taken is emitted (P19); the thread     *)
(* ends, and what waits is taken when nobody stops it (P20); of two samples *)
(* seen at once the earlier goes first (P16).  Bug: wrong variants.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Prog,        \* what the drivers put, in order: <<"i" or "w", time>>
          Takes, Clears, Emit, Bug
VARIABLES p, c, k, kc, A, W, O, f, stop, goneA, goneW, goneO, put, emit, bad, hist
core == <<p, c, k, kc, A, W, O, f, stop, goneA, goneW, goneO, put, emit, bad>>
vars == <<p, c, k, kc, A, W, O, f, stop, goneA, goneW, goneO, put, emit, bad, hist>>
Init == /\ p = 1 /\ c = Takes /\ k = Clears /\ kc = "idle" /\ A = <<>> /\ W = <<>> /\ O = <<>> /\ stop = FALSE
        /\ f = [at |-> "top", a |-> 0, w |-> 0, have |-> FALSE] /\ goneA = <<>> /\ goneW = <<>> /\ goneO = <<>> /\ put = <<>> /\ emit = <<>> /\ bad = "" /\ hist = ""
By(t) == hist' = IF Emit THEN hist \o t ELSE hist
Time(x) == Prog[x][2]
Driver == /\ p <= Len(Prog) /\ By("P") /\ p' = p + 1
          /\ IF Prog[p][1] = "i" THEN A' = Append(A, p) /\ UNCHANGED W ELSE W' = Append(W, p) /\ UNCHANGED A
          /\ UNCHANGED <<c, k, kc, O, f, stop, goneA, goneW, goneO, put, emit, bad>>
Consumer == /\ c > 0 /\ By("C") /\ c' = c - 1
            /\ IF O = <<>> THEN UNCHANGED <<O, goneO>> ELSE O' = Tail(O) /\ goneO' = Append(goneO, Head(O))
            /\ UNCHANGED <<p, k, kc, A, W, f, stop, goneA, goneW, put, emit, bad>>
\* ---- clear: the first imu is cleared once as the only one and once as one of all --------------------
ClearRest == UNCHANGED <<p, c, f, stop, put, emit, bad>> /\ By("K")
Clear == \/ kc = "idle" /\ k > 0 /\ k' = k - 1 /\ kc' = "again" /\ A' = <<>> /\ goneA' = goneA \o A /\ UNCHANGED <<W, O, goneW, goneO>> /\ ClearRest
         \/ kc = "again" /\ kc' = "w" /\ A' = <<>> /\ goneA' = goneA \o A /\ UNCHANGED <<k, W, O, goneW, goneO>> /\ ClearRest
         \/ kc = "w" /\ kc' = "o" /\ W' = <<>> /\ goneW' = goneW \o W /\ UNCHANGED <<k, A, O, goneA, goneO>> /\ ClearRest
         \/ kc = "o" /\ kc' = "idle" /\ O' = <<>> /\ goneO' = goneO \o O /\ UNCHANGED <<k, A, W, goneA, goneW>> /\ ClearRest
\* ---- the filter's thread ----------------------------------------------------------------------------
Rest == UNCHANGED <<p, c, k, kc, stop>>
Peek(q) == IF q = <<>> THEN 0 ELSE Head(q)
Go(at) == f' = [f EXCEPT !.at = at]
Top == /\ f.at = "top" /\ Rest /\ Go(IF stop /\ Bug # "no stop" THEN "ended" ELSE "some1") /\ UNCHANGED <<A, W, O, goneA, goneW, goneO, put, emit, bad, hist>>
\* is there something to do? (decides on the process noise only)
Some == \/ f.at = "some1" /\ Rest /\ By("F") /\ Go("some2") /\ UNCHANGED <<A, W, O, goneA, goneW, goneO, put, emit, bad>>
        \/ f.at = "some2" /\ Rest /\ By("F") /\ Go("look1") /\ UNCHANGED <<A, W, O, goneA, goneW, goneO, put, emit, bad>>
Look == \/ f.at = "look1" /\ Rest /\ By("F") /\ f' = [f EXCEPT !.at = "look2", !.a = Peek(A)] /\ UNCHANGED <<A, W, O, goneA, goneW, goneO, put, emit, bad>>
        \/ /\ f.at = "look2" /\ Rest /\ By("F")
           /\ LET a == f.a w == Peek(W)
                  first == IF a # 0 /\ w # 0 THEN (IF Time(a) <= Time(w) \/ Bug = "imu first" THEN "a" ELSE "w") ELSE IF a # 0 THEN "a" ELSE IF w # 0 THEN "w" ELSE "" IN
              /\ f' = [f EXCEPT !.at = CASE first = "a" -> "takeA" [] first = "w" -> "takeW" [] OTHER -> "top", !.w = w]
              /\ bad' = IF bad = "" /\ a # 0 /\ w # 0 /\ ((first = "a" /\ Time(w) < Time(a)) \/ (first = "w" /\ Time(a) < Time(w))) THEN "order" ELSE bad
           /\ UNCHANGED <<A, W, O, goneA, goneW, goneO, put, emit>>
\* the chosen sample is taken unless a clear took it meanwhile
TakeA == /\ f.at = "takeA" /\ Rest /\ By("F") /\ UNCHANGED <<W, O, goneW, goneO, put>>
         /\ IF Peek(A) = f.a \/ Bug = "blind take"
            THEN /\ A' = IF A = <<>> THEN A ELSE Tail(A)
                 /\ bad' = IF A = <<>> THEN "pop of nothing" ELSE bad
                 /\ goneA' = IF A = <<>> THEN goneA ELSE Append(goneA, Head(A))
                 /\ f' = [f EXCEPT !.at = "push", !.have = TRUE] /\ emit' = Append(emit, f.a)
            ELSE Go("top") /\ UNCHANGED <<A, goneA, emit, bad>>
TakeW == /\ f.at = "takeW" /\ Rest /\ By("F") /\ UNCHANGED <<A, O, goneA, goneO, put>>
         /\ IF Peek(W) = f.w \/ Bug = "blind take"
            THEN /\ W' = IF W = <<>> THEN W ELSE Tail(W)
                 /\ bad' = IF W = <<>> THEN "pop of nothing" ELSE bad
                 /\ goneW' = IF W = <<>> THEN goneW ELSE Append(goneW, Head(W))
                 /\ IF f.have THEN Go("push") /\ emit' = Append(emit, f.w) ELSE Go("top") /\ UNCHANGED emit   \* accelerations come from an imu sample
            ELSE Go("top") /\ UNCHANGED <<W, goneW, emit, bad>>
Push == /\ f.at = "push" /\ Rest /\ By("F") /\ O' = Append(O, emit[Len(emit)]) /\ put' = Append(put, emit[Len(emit)]) /\ Go("top")
        /\ UNCHANGED <<A, W, goneA, goneW, goneO, emit, bad>>
Filter == Top \/ Some \/ Look \/ TakeA \/ TakeW \/ Push
Stop == /\ ~stop /\ p > Len(Prog) /\ c = 0 /\ k = 0 /\ kc = "idle" /\ stop' = TRUE /\ UNCHANGED <<p, c, k, kc, A, W, O, f, goneA, goneW, goneO, put, emit, bad, hist>>
AllDone == stop /\ f.at = "ended"
Shown == AllDone' /\ Emit => PrintT("B " \o hist')
Next == (Driver \/ Consumer \/ Clear \/ Filter \/ Stop) /\ Shown
Spec == Init /\ [][Next]_vars /\ WF_core(Driver) /\ WF_core(Consumer) /\ WF_core(Clear) /\ WF_core(Filter) /\ WF_core(Stop)
Unstopped == Init /\ [][Next /\ ~stop']_vars /\ WF_core(Driver) /\ WF_core(Consumer) /\ WF_core(Clear) /\ WF_core(Filter)
View == core
----------------------------------------------------------------------------
Of(b) == SelectSeq([j \in 1..(p - 1) |-> IF Prog[j][1] = b THEN j ELSE 0], LAMBDA x : x > 0)
Range(s) == {s[j] : j \in 1..Len(s)}
ExactlyOnce == goneA \o A = Of("i") /\ goneW \o W = Of("w") /\ goneO \o O = put                  \* P19
OnlyTaken == Range(emit) \subseteq Range(goneA) \cup Range(goneW) /\ Cardinality(Range(emit)) = Len(emit) /\ put = SubSeq(emit, 1, Len(put)) /\ Len(emit) - Len(put) <= 1
Sound == bad = ""                                                                                \* P16, P19
NoDeadlock == AllDone \/ ENABLED Next
Ends == <>AllDone                                                                                \* P20
Drains == <>[](A = <<>> /\ W = <<>>)
=============================================================================
