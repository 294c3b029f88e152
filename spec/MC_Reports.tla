----------------------------- MODULE MC_Reports -----------------------------
(* Experiments leave files, one after another; reports are asked for at any time *)
EXTENDS Reports, TLC, Json
CONSTANTS Folds, Ks, Ps, MaxFiles, Others
VARIABLES files, reports, asks, emitted
vars == <<files, reports, asks, emitted>>

Init == files = <<>> /\ reports = [c \in {} |-> {}] /\ asks = <<>> /\ emitted = FALSE

Save == /\ Len(files) < MaxFiles /\ asks = <<>>
        /\ \E kind \in Kinds \cup Others, b \in Bounds, k \in Ks, p \in Ps, f \in Folds, ok \in BOOLEAN :
             LET x == [kind |-> kind, bound |-> b, k |-> k, p |-> p, fold |-> f, ok |-> ok] IN
             /\ ~ \E i \in 1..Len(files) : files[i] = x
             /\ files' = Append(files, x)
        /\ UNCHANGED <<reports, asks, emitted>>

Ask == /\ Len(asks) < 2
       /\ \E kind \in Kinds, bs \in {Bounds} \cup {{b} : b \in Bounds} :
            LET cs == {c \in Configs(kind, bs, Ks, Ps) : Outputs(files, c) # {}} IN
            /\ reports' = [c \in DOMAIN reports \cup cs |-> IF c \in cs THEN Outputs(files, c) ELSE reports[c]]
            /\ asks' = Append(asks, [kind |-> kind, bounds |-> bs])
       /\ UNCHANGED <<files, emitted>>
Emit == /\ Len(asks) = 2 /\ Len(files) = MaxFiles /\ ~emitted /\ emitted' = TRUE
        /\ PrintT("@@SCN " \o ToJson([files |-> files, asks |-> asks]))
        /\ UNCHANGED <<files, reports, asks>>
Next == Save \/ Ask \/ Emit
Spec == Init /\ [][Next]_vars

\* every file is in the report of its own configuration, and in no other
OneReportEach == \A i \in 1..Len(files) : \A c, d \in DOMAIN reports : i \in reports[c] /\ i \in reports[d] => c = d
NoneLost == \A i \in 1..Len(files) :
  (files[i].ok /\ files[i].kind \in Kinds /\ \E a \in Range(asks) : a.kind = files[i].kind /\ files[i].bound \in a.bounds)
    => (ConfigOf(files[i]) \in DOMAIN reports /\ i \in reports[ConfigOf(files[i])])
NoStrangers == \A c \in DOMAIN reports : reports[c] # {} /\ \A i \in reports[c] : files[i].ok /\ ConfigOf(files[i]) = c
=============================================================================
