--------------------------- MODULE MC_Experiment ---------------------------
(* Every way in which the repetitions of an experiment may go: each fails at one of its steps, or doesn't *)
EXTENDS Experiment, Json
CONSTANTS MaxFolds, Steps
VARIABLES n, stop, fails, done, sum, files, emitted
vars == <<n, stop, fails, done, sum, files, emitted>>

Value(f) == 10 * f + 7      \* what fold f has to add

Init == /\ n \in 1..MaxFolds /\ stop \in 0..MaxFolds
        /\ fails = <<>> /\ done = <<>> /\ sum = 0 /\ files = {} /\ emitted = FALSE

Over == Len(fails) = n \/ (Len(done) > 0 /\ Len(done) = Wanted(n, stop))

\* what the repetition has made by the step at which it fails is dropped
Fail == /\ ~Over
        /\ \E s \in 1..Steps : fails' = Append(fails, s)
        /\ UNCHANGED <<n, stop, done, sum, files, emitted>>
Succeed == /\ ~Over
           /\ fails' = Append(fails, 0)
           /\ done' = Append(done, Len(fails))
           /\ sum' = sum + Value(Len(fails))
           /\ files' = files \cup {Len(fails)}
           /\ UNCHANGED <<n, stop, emitted>>
Emit == /\ Over /\ ~emitted /\ emitted' = TRUE
        /\ PrintT("@@SCN " \o ToJson([n |-> n, stop |-> stop, fails |-> fails]))
        /\ UNCHANGED <<n, stop, fails, done, sum, files>>
Next == Fail \/ Succeed \/ Emit
Spec == Init /\ [][Next]_vars

OnlyFinished == sum = SumTo(Len(done), LAMBDA i : Value(done[i]))
FilesOfFinished == files = Range(done)
NoMoreThanWanted == Len(done) <= Wanted(n, stop)
\* how many were tried follows from which were finished
TriedAreKnown == Over => Len(fails) = Attempted(done, n, stop)
FailuresAreTheRest == Over => Cardinality({i \in 1..Len(fails) : fails[i] # 0}) = Attempted(done, n, stop) - Len(done)
InOrder == Rising(done)
=============================================================================
