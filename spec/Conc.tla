-------------------------------- MODULE Conc --------------------------------
(***************************************************************************)
(* Concurrent behaviour.  The specification's state is the happens-before   *)
(* order (a vector clock per thread, the clock last released through every  *)
(* mutex and atomic), the owner of every mutex, and the contents of every   *)
(* shared buffer.  Its transitions are the synchronisation operations, the  *)
(* memory accesses and the changes of buffers of a recorded execution, in   *)
(* the order in which the scheduler let them happen.                        *)
(*   P19  no unordered conflicting accesses; buffers change only under      *)
(*        their mutex, grow at the back and shrink at the front; nothing is *)
(*        consumed twice or invented; what the filter thread takes becomes  *)
(*        exactly one output each, in order.                                *)
(*   P20  no deadlock; everything ends.                                     *)
(***************************************************************************)
EXTENDS Mat
NT == 16
C0 == [t \in 0..NT |-> 0]
Join(a, b) == [t \in 0..NT |-> IF a[t] < b[t] THEN b[t] ELSE a[t]]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = v] ELSE f @@ (k :> v)
Conc0 == [C |-> [t \in 0..NT |-> [C0 EXCEPT ![t] = 1]],   \* what each thread knows of the others
          L |-> <<>>,                                      \* what a mutex or atomic passes on
          own |-> <<>>,                                    \* owner of each mutex
          Wr |-> <<>>, Rd |-> <<>>,                        \* last write of each location, reads since
          mx |-> <<>>,                                     \* mutex of each named buffer
          Q |-> <<>>, seen |-> {},                         \* buffers; <<buffer, identity>> ever seen
          put |-> <<>>,                                    \* identity -> buffer and stamp a producer gave it
          made |-> <<>>,                                   \* identity -> what the library made
          cons |-> <<>>, outs |-> <<>>,                    \* what left a buffer, what the library put in one, in order
          op |-> [t \in 0..NT |-> ""], fin |-> FALSE]
RECURSIVE FoldR(_, _, _), FoldW(_, _, _)
FoldR(w, t, ls) == IF ls = <<>> THEN w ELSE
   LET a == Head(ls) IN FoldR([w EXCEPT !.Rd = Put(@, a, [Get(@, a, C0) EXCEPT ![t] = w.C[t][t]])], t, Tail(ls))
FoldW(w, t, ls) == IF ls = <<>> THEN w ELSE
   LET a == Head(ls) IN FoldW([w EXCEPT !.Wr = Put(@, a, <<t, w.C[t][t]>>), !.Rd = Put(@, a, C0)], t, Tail(ls))
WriteRace(w, t, a) == a \in DOMAIN w.Wr /\ w.Wr[a][1] # t /\ w.C[t][w.Wr[a][1]] < w.Wr[a][2]
ReadRace(w, t, a) == a \in DOMAIN w.Rd /\ \E u \in 0..NT : u # t /\ w.C[t][u] < w.Rd[a][u]
K(p, ok, what) == IF ok THEN {} ELSE {<<p, what>>}
Same(w) == [W |-> w, b |-> {}]
Mem(w, ev) ==
   LET rr == {x \in 1..Len(ev.r) : WriteRace(w, ev.t, ev.r[x])}
       ww == {x \in 1..Len(ev.w) : WriteRace(w, ev.t, ev.w[x]) \/ ReadRace(w, ev.t, ev.w[x])}
       pcs == {ev.rp[x] : x \in rr} \cup {ev.wp[x] : x \in ww} IN
   [W |-> FoldW(FoldR(w, ev.t, ev.r), ev.t, ev.w),
    b |-> IF pcs = {} THEN {} ELSE {<<"P19", "unordered conflicting accesses", pcs>>}]
Acquire(w, t, s) == [w EXCEPT !.C[t] = Join(@, Get(w.L, s, C0))]
Release(w, t, s) == [w EXCEPT !.L = Put(@, s, w.C[t]), !.C[t][t] = @ + 1]
Atom(w, ev) ==     \* an operation on an atomic: a load, a store or a read-modify-write of the given memory order
   LET a == IF ev.acq THEN Acquire(w, ev.t, ev.s) ELSE w IN
   IF ev.k = "L" THEN a
   ELSE IF ev.k = "S" THEN IF ev.rel THEN Release(a, ev.t, ev.s) ELSE [a EXCEPT !.L = Put(@, ev.s, C0)]
   ELSE IF ev.rel THEN [a EXCEPT !.L = Put(@, ev.s, Join(Get(@, ev.s, C0), a.C[ev.t])), !.C[ev.t][ev.t] = @ + 1] ELSE a
\* ---- buffers ------------------------------------------------------------------------------------
IsPrefix(s, l) == Len(s) <= Len(l) /\ SubSeq(l, 1, Len(s)) = s
Rng(s) == {s[x] : x \in 1..Len(s)}
Distinct(s) == \A x, y \in 1..Len(s) : s[x] = s[y] => x = y
Cuts(a, b) == {k \in 0..Len(a) : IsPrefix(SubSeq(a, k + 1, Len(a)), b)}     \* k elements left the front
Made == 1000000                                              \* greater identities were given to what the library made
\* k elements left the front of a buffer and new ones came at its back
Moved(w, ev, old, k, new, now) ==
   [W |-> [w EXCEPT !.Q = Put(@, ev.q, now), !.seen = @ \cup {<<ev.q, x>> : x \in Rng(new)},
                    !.cons = @ \o [x \in 1..k |-> [q |-> ev.q, id |-> old[x], t |-> ev.t, op |-> w.op[ev.t]]],
                    !.outs = @ \o SelectSeq([x \in 1..Len(new) |-> [q |-> ev.q, id |-> new[x], t |-> ev.t, op |-> w.op[ev.t]]], LAMBDA o : o.id > Made)],
    b |-> K("P19", ev.q \notin DOMAIN w.mx \/ Get(w.own, w.mx[ev.q], -1) = ev.t, "buffer " \o ev.q \o " changed without its mutex")
          \cup K("P19", Distinct(new) /\ \A x \in Rng(new) : <<ev.q, x>> \notin w.seen, "something was in buffer " \o ev.q \o " twice")
          \cup K("P19", \A x \in Rng(new) : IF x > Made THEN x \in DOMAIN w.made ELSE x \in DOMAIN w.put /\ w.put[x].q = ev.q /\ w.put[x].t = ev.t, "buffer " \o ev.q \o " holds what nobody put there")]
Change(w, ev) ==
   LET old == Get(w.Q, ev.q, <<>>) cs == Cuts(old, ev.ids) IN
   IF cs = {} THEN [W |-> w, b |-> {<<"P19", "buffer " \o ev.q \o " lost its order">>}]
   ELSE LET k == CHOOSE x \in cs : \A y \in cs : x <= y IN
        Moved(w, ev, old, k, SubSeq(ev.ids, Len(old) - k + 1, Len(ev.ids)), ev.ids)
\* long buffers are recorded by their changes
Diff(w, ev) ==
   LET old == Get(w.Q, ev.q, <<>>) IN
   IF ev.k > Len(old) \/ ev.len # Len(old) - ev.k + Len(ev.n) THEN [W |-> w, b |-> {<<"P19", "buffer " \o ev.q \o " lost its order">>}]
   ELSE Moved(w, ev, old, ev.k, ev.n, SubSeq(old, ev.k + 1, Len(old)) \o ev.n)
\* under a random walk every measurement taken by the filter thread is one output, in order; an angular velocity needs an earlier IMU sample
RECURSIVE Expect(_, _)
Expect(c, known) == IF c = <<>> THEN <<>> ELSE
   IF c[1].imu THEN <<<<c[1].st>>>> \o Expect(Tail(c), TRUE)
   ELSE (IF known THEN <<<<>>>> ELSE <<>>) \o Expect(Tail(c), known)
FilterOut(w, ev) ==
   LET c == SelectSeq(w.cons, LAMBDA x : x.t # 0 /\ x.q \in {"a", "b", "c", "w"})
       e == Expect([x \in 1..Len(c) |-> [imu |-> c[x].q # "w", st |-> w.put[c[x].id].st]], FALSE)
       o == SelectSeq(w.outs, LAMBDA x : x.q = ev.q) IN
   K("P19", Len(o) = Len(e), "not one filtered sample for each measurement taken")
   \cup K("P19", Len(o) # Len(e) \/ \A x \in 1..Len(o) : e[x] = <<>> \/ MSame(w.made[o[x].id].st, e[x][1]), "filtered samples are not in the order of the measurements")
Step(w, ev) ==
   CASE ev.e = "mem" -> Mem(w, ev)
     [] ev.e = "lock" -> [W |-> [Acquire(w, ev.t, ev.s) EXCEPT !.own = Put(@, ev.s, ev.t)], b |-> K("P20", Get(w.own, ev.s, -1) = -1, "a mutex was locked while held")]
     [] ev.e = "unlock" -> [W |-> [Release(w, ev.t, ev.s) EXCEPT !.own = Put(@, ev.s, -1)], b |-> {}]
     [] ev.e = "badunlock" -> [W |-> w, b |-> {<<"P19", "a mutex was unlocked by a thread that does not hold it">>}]
     [] ev.e = "atom" -> Same(Atom(w, ev))
     [] ev.e = "fork" -> Same([w EXCEPT !.C[ev.u] = Join(@, w.C[ev.t]), !.C[ev.t][ev.t] = @ + 1])
     [] ev.e = "join" -> Same([w EXCEPT !.C[ev.t] = Join(@, w.C[ev.u])])
     [] ev.e = "exit" -> Same(w)
     [] ev.e = "mutex" -> Same([w EXCEPT !.mx = Put(@, ev.q, ev.s)])
     [] ev.e = "push" -> Same([w EXCEPT !.put = Put(@, ev.id, [q |-> ev.q, st |-> ev.st, t |-> ev.t])])
     [] ev.e = "item" -> Same([w EXCEPT !.made = Put(@, ev.id, ev)])
     [] ev.e = "q" -> Change(w, ev)
     [] ev.e = "qd" -> Diff(w, ev)
     [] ev.e = "op" -> Same([w EXCEPT !.op[ev.t] = ev.f])
     [] ev.e = "ret" -> Same([w EXCEPT !.op[ev.t] = ""])
     [] ev.e = "deadlock" -> [W |-> w, b |-> {<<"P20", "deadlock", ev.threads>>}]
     [] ev.e = "stuck" -> [W |-> w, b |-> {<<"P20", "no end under a fair schedule", ev.threads>>}]
     [] ev.e = "expect" -> [W |-> w, b |-> FilterOut(w, ev)]
     [] ev.e = "done" -> Same([w EXCEPT !.fin = TRUE])
=============================================================================
