----------------------------- MODULE MC_Results -----------------------------
(* The reader: which line it has in hand decides what it looks for next. A log of a few runs is written, with
   blank lines, comments and other output between, and read line by line. *)
EXTENDS Results, TLC, Json
CONSTANTS MaxRuns, MaxNoise, Emit
VARIABLES phase, runs, lines, noise, at, state, got
vars == <<phase, runs, lines, noise, at, state, got>>
Order == <<"perp", "precs", "recs", "mrr", "map">>
L(k, r) == [kind |-> k, run |-> r]
Rank(k) == IF k = "title" THEN 0 ELSE CHOOSE i \in 1..5 : Order[i] = k

Init == phase = "write" /\ runs = <<>> /\ lines = <<>> /\ noise = 0 /\ at = 1 /\ state = "title" /\ got = <<>>
Last == IF lines = <<>> THEN "start" ELSE lines[Len(lines)].kind
LastKind == LET s == SelectSeq(lines, LAMBDA x : x.kind \notin {"blank", "comment", "noise"}) IN IF s = <<>> THEN "start" ELSE s[Len(s)].kind
\* a run without an average precision is followed by a blank line
Over == runs = <<>> \/ LastKind = "map" \/ (LastKind = "mrr" /\ "map" \notin runs[Len(runs)])
Closed == Over /\ (LastKind = "mrr" => Last = "blank")
Title == /\ phase = "write" /\ Closed /\ Len(runs) < MaxRuns
         /\ \E f \in SUBSET Fields : MayHave(f) /\ runs' = Append(runs, f)
         /\ lines' = Append(lines, L("title", Len(runs) + 1)) /\ UNCHANGED <<phase, noise, at, state, got>>
Report == /\ phase = "write" /\ runs # <<>> /\ ~ Over
          /\ \E k \in runs[Len(runs)] :
               /\ Rank(k) > Rank(LastKind)
               /\ \A j \in runs[Len(runs)] : Rank(j) > Rank(LastKind) => Rank(k) <= Rank(j)
               /\ lines' = Append(lines, L(k, Len(runs)))
          /\ UNCHANGED <<phase, runs, noise, at, state, got>>
\* between runs: blank lines and comments; between measures (but the last two): anything else too
Noise == /\ phase = "write" /\ noise < MaxNoise /\ noise' = noise + 1
         /\ \E k \in {"blank", "comment", "noise"} :
              /\ k = "noise" => ~ Over /\ LastKind \notin {"mrr", "title"}
              /\ k # "noise" => Over \/ LastKind # "mrr"
              /\ k = "comment" => (LastKind = "mrr" => Last = "blank")
              /\ lines' = Append(lines, L(k, 0))
         /\ UNCHANGED <<phase, runs, at, state, got>>
Written == /\ phase = "write" /\ Over /\ runs # <<>> /\ phase' = "read"
           /\ (Emit => PrintT("@@SCN " \o ToJson([runs |-> runs, lines |-> lines])))
           /\ UNCHANGED <<runs, lines, noise, at, state, got>>

Line == lines[at]
More == phase = "read" /\ at <= Len(lines)
NextOf(k) == CASE k = "perp" -> "precs" [] k = "precs" -> "recs" [] k = "recs" -> "mrr" [] k = "mrr" -> "map" [] k = "map" -> "title"
SkipTitle == /\ More /\ state \in {"title", "first"} /\ Line.kind \in {"blank", "comment"} /\ at' = at + 1 /\ UNCHANGED <<phase, runs, lines, noise, state, got>>
ReadTitle == /\ More /\ state = "title" /\ Line.kind \notin {"blank", "comment"}
             /\ got' = Append(got, [title |-> Line.run, kinds |-> {}, of |-> {}]) /\ at' = at + 1 /\ state' = "first" /\ UNCHANGED <<phase, runs, lines, noise>>
First == /\ More /\ state = "first" /\ Line.kind \notin {"blank", "comment"} /\ state' = "perp" /\ UNCHANGED <<phase, runs, lines, noise, at, got>>
Want == state \in Fields
Found == /\ More /\ Want /\ Line.kind = state
         /\ got' = [got EXCEPT ![Len(got)] = [@ EXCEPT !.kinds = @ \cup {state}, !.of = @ \cup {Line.run}]]
         /\ at' = at + 1 /\ state' = NextOf(state) /\ UNCHANGED <<phase, runs, lines, noise>>
\* the measure after the one looked for, or a blank line instead of the last, means that there is none
Missing == /\ More /\ Want /\ Line.kind # state
           /\ (state # "map" /\ Line.kind = NextOf(state)) \/ (state = "map" /\ Line.kind = "blank")
           /\ state' = NextOf(state) /\ UNCHANGED <<phase, runs, lines, noise, at, got>>
Skip == /\ More /\ Want /\ Line.kind # state /\ ~ (state # "map" /\ Line.kind = NextOf(state)) /\ ~ (state = "map" /\ Line.kind = "blank")
        /\ at' = at + 1 /\ UNCHANGED <<phase, runs, lines, noise, state, got>>
Next == Title \/ Report \/ Noise \/ Written \/ SkipTitle \/ ReadTitle \/ First \/ Found \/ Missing \/ Skip
Spec == Init /\ [][Next]_vars
\* every run, in turn, with all it reports and nothing of another
Own == phase = "read" => \A i \in 1..Len(got) : got[i].title = i /\ got[i].of \subseteq {i}
All == phase = "read" /\ at > Len(lines) => Len(got) = Len(runs) /\ \A i \in 1..Len(runs) : got[i].kinds = runs[i]
=============================================================================
