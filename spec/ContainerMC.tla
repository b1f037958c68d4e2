----------------------------- MODULE ContainerMC -----------------------------
(***************************************************************************)
(* Exhaustive model of the bookkeeping of augmented columns: columns are    *)
(* tokens; every sequence of additions (owned or not), removals, writes and *)
(* clears.  Invariant: every owner's index names its own vector, the mean,  *)
(* covariance and noise list the same vectors in the same order.            *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxOps, MaxCols
VARIABLES cols, noise, idx, nid, hist
vars == <<cols, noise, idx, nid, hist>>
\* cols: tokens of the augmented columns; idx: handle -> position; a token is <<handle or 0, birth>>
Init == cols = <<>> /\ noise = <<>> /\ idx = <<>> /\ nid = 1 /\ hist = <<>>
Cut(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Op(o) == hist' = Append(hist, o)
Add(own) == /\ Len(cols) < MaxCols
            /\ LET tok == <<IF own THEN nid ELSE 0, nid>> IN
               cols' = Append(cols, tok) /\ noise' = Append(noise, tok) /\ idx' = IF own THEN (nid :> Len(cols) + 1) @@ idx ELSE idx
            /\ nid' = nid + 1 /\ Op(<<"add", IF own THEN nid ELSE 0>>)
DelAt(k, o) == /\ cols' = Cut(cols, k) /\ noise' = Cut(noise, k)
               /\ idx' = [h \in {x \in DOMAIN idx : idx[x] # k} |-> IF idx[h] > k THEN idx[h] - 1 ELSE idx[h]]
               /\ UNCHANGED nid /\ Op(o)
Del == \/ \E h \in DOMAIN idx : DelAt(idx[h], <<"del", h>>)
       \/ \E k \in DOMAIN cols : cols[k][1] = 0 /\ DelAt(k, <<"delcol", k>>)
Clr == cols # <<>> /\ cols' = <<>> /\ noise' = <<>> /\ idx' = <<>> /\ UNCHANGED nid /\ Op(<<"clear">>)
Next == Len(hist) < MaxOps /\ (Add(TRUE) \/ Add(FALSE) \/ Del \/ Clr)
Spec == Init /\ [][Next]_vars
Inv == /\ cols = noise
       /\ \A h \in DOMAIN idx : idx[h] \in DOMAIN cols /\ cols[idx[h]][1] = h
       /\ \A k \in DOMAIN cols : cols[k][1] # 0 => idx[cols[k][1]] = k
       /\ \A a, b \in DOMAIN cols : a < b => cols[a][2] < cols[b][2]         \* order of addition
EmitT == PrintT("B " \o ToString(hist'))
View == <<[k \in DOMAIN cols |-> cols[k][1] # 0], hist>>
=============================================================================
