------------------------------ MODULE SameTrace ------------------------------
(***************************************************************************)
(* Two recordings of the same script must be the same behaviour, bit for   *)
(* bit (the second one ran with other contents of uninitialised memory).   *)
(***************************************************************************)
EXTENDS Mat
CONSTANTS Props, File, File2, Clause
VARIABLES tr, i, bad
vars == <<tr, i, bad>>
A == ReadTraces(File)
B == ReadTraces(File2)
Init == tr \in 1..Len(A) /\ i = 1 /\ bad = {}
Same(k) == /\ Len(B) >= tr /\ Len(B[tr]) >= k /\ A[tr][k] = B[tr][k]
           /\ (k = Len(A[tr]) => Len(B[tr]) = k /\ Len(A) = Len(B))
Next == /\ i <= Len(A[tr]) /\ bad = {}
        /\ bad' = (IF Same(i) THEN {} ELSE {<<p, Clause>> : p \in Props})
        /\ i' = i + 1 /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
Short == [trace |-> A[tr][1].name, event |-> i - 1, op |-> IF i = 1 THEN "" ELSE A[tr][i - 1].e, bad |-> bad]
Conforms == bad = {} \/ Verdict(Short)
View == <<tr, i>>
=============================================================================
