------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* Skeleton of the simple trace specifications: W is what the specification *)
(* knows after the first i-1 events of trace tr; DoEvent(W, ev) gives the   *)
(* next W and the clauses the event breaks.                                 *)
(***************************************************************************)
EXTENDS Mat, FiniteSets
CONSTANTS Props, File, W0, DoEvent(_, _)
VARIABLES tr, i, W, bad
vars == <<tr, i, W, bad>>
Traces == ReadTraces(File)
Init == tr \in 1..Len(Traces) /\ i = 1 /\ W = W0 /\ bad = {}
Next == /\ i <= Len(Traces[tr]) /\ bad = {}
        /\ LET ev == Traces[tr][i]
               r == IF ev.e = "begin" THEN [W |-> W0, b |-> {}]
                    ELSE IF ev.e = "crash" THEN [W |-> W, b |-> {<<p, "abnormal end: " \o ev.why>> : p \in Props}]
                    ELSE DoEvent(W, ev) IN
           W' = r.W /\ bad' = {c \in r.b : c[1] \in Props}
        /\ i' = i + 1 /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
Op(ev) == IF "f" \in DOMAIN ev THEN ev.e \o " " \o ev.f ELSE ev.e
Short == [trace |-> Traces[tr][1].name, event |-> i - 1, op |-> IF i = 1 THEN "" ELSE Op(Traces[tr][i - 1]), bad |-> bad]
Conforms == bad = {} \/ Verdict(Short)
View == <<tr, i>>
=============================================================================
