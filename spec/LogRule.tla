------------------------------ MODULE LogRule ------------------------------
(***************************************************************************)
(* Which states the log holds (P21), for times of any kind: Threads uses    *)
(* it over integers, PoseLog over the recorded numbers.                     *)
(*   per    for each period between clears the states published by steps    *)
(*   files  for each period what its log holds                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt
CONSTANTS Due(_, _, _),      \* state, time of the last record, rate: is the state to be written
          TimeOf(_),         \* time of a state
          Count(_),          \* number of records of a log
          Holds(_, _)        \* the log holds exactly these states
Logged(s, last, rate) ==
   FoldLeft(LAMBDA acc, x : IF Due(x, acc.last, rate) THEN [g |-> Append(acc.g, x), last |-> TimeOf(x)] ELSE acc, [g |-> <<>>, last |-> last], s).g
LastOf(g, last) == IF g = <<>> THEN last ELSE TimeOf(g[Len(g)])
\* A clear may discard any number of the last states of its period, so its records are a prefix of those the whole period
\* gives; the last period is complete once the estimator is gone.
RECURSIVE Match(_, _, _, _, _, _)
Match(per, files, k, last, rate, done) ==
   IF k > Len(per) THEN TRUE ELSE
   LET all == Logged(per[k], last, rate)
       m == Count(files[k])
       g == SubSeq(all, 1, m) IN
   /\ IF k = Len(per) /\ done THEN m = Len(all) ELSE m <= Len(all)
   /\ Holds(files[k], g)
   /\ Match(per, files, k + 1, LastOf(g, last), rate, done)
=============================================================================
