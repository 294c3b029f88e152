------------------------------ MODULE MC_Budget ------------------------------
(* Training loops, for all small numbers of sweeps and measuring frequencies *)
EXTENDS Budget, TLC, Json
CONSTANTS MaxN, MaxF, Emit
VARIABLES kind, n, f, made, points, pc, quit
vars == <<kind, n, f, made, points, pc, quit>>
Init == kind \in Kinds /\ n \in 1..MaxN /\ f \in 0..MaxF /\ made = 0 /\ points = <<>> /\ pc = "start" /\ quit = FALSE
Ask == pc = "start" /\ pc' = "go" /\ (Emit => PrintT("@@SCN " \o ToJson([kind |-> kind, n |-> n, f |-> f]))) /\ UNCHANGED <<kind, n, f, made, points, quit>>
Note(label, after) == points' = Append(points, [label |-> label, after |-> after])
Segment == /\ pc = "go" /\ kind \in Collapsed /\ Len(points) < Segments(n, f) - 1
           /\ made' = made + f /\ Note(Len(points) * f, made')
           /\ \/ UNCHANGED <<pc, quit>>
              \/ Tests(kind, n, f, Len(points')) /\ pc' = "end" /\ quit' = TRUE
           /\ UNCHANGED <<kind, n, f>>
Rest == /\ pc = "go" /\ kind \in Collapsed /\ Len(points) = Segments(n, f) - 1
        /\ made' = made + (n - f * (Segments(n, f) - 1)) /\ Note(n - 1, made') /\ pc' = "end"
        /\ UNCHANGED <<kind, n, f, quit>>
Sweep == /\ pc = "go" /\ kind \notin Collapsed /\ made < n /\ made' = made + 1
         /\ IF kind \in Mixtures /\ f > 0 /\ made % f = 0
            THEN /\ Note(made, made')
                 /\ \/ UNCHANGED <<pc, quit>>
                    \/ Tests(kind, n, f, Len(points')) /\ pc' = "end" /\ quit' = TRUE
            ELSE UNCHANGED <<points, pc, quit>>
         /\ UNCHANGED <<kind, n, f>>
Stop == pc = "go" /\ kind \notin Collapsed /\ made = n /\ pc' = "end" /\ UNCHANGED <<kind, n, f, made, points, quit>>
Next == Ask \/ Segment \/ Rest \/ Sweep \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ended == pc = "end"
AllMade == Ended /\ ~ quit => made = n
Prescribed == IsPrefix(points, Points(kind, n, f)) /\ (Ended /\ ~ quit => points = Points(kind, n, f))
Rising == \A i \in 1..(Len(points) - 1) : points[i].label < points[i + 1].label /\ points[i].after < points[i + 1].after
Within == made <= n /\ \A i \in 1..Len(points) : points[i].after <= made /\ points[i].label \in 0..(n - 1)
NoQuitUnlogged == f = 0 => ~ quit
Ends == <>(pc = "end")
=============================================================================
