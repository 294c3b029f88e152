---------------------------- MODULE MC_Selection ----------------------------
(* Shares are dealt out in rounds: in each, every group with messages left gives an equal part of what is
   still wanted, or all that it has left; the groups are visited in any order. Then users are taken one at
   a time, in any order, until their group's share is reached. *)
EXTENDS Selection, TLC, Json
CONSTANTS G, MaxSupply, MaxTarget, Emit
VARIABLES supply, target, share, round, waiting, part, phase, taken
vars == <<supply, target, share, round, waiting, part, phase, taken>>
Groups == 1..G
Left(g) == supply[g] - share[g]
Live == {g \in Groups : Left(g) > 0}
Init == /\ supply \in [Groups -> 0..MaxSupply] /\ target \in 0..MaxTarget
        /\ share = [g \in Groups |-> 0] /\ round = 0 /\ waiting = {} /\ part = 0 /\ phase = "deal" /\ taken = {}
NewRound == /\ phase = "deal" /\ waiting = {} /\ TotalOf(share) < target /\ Live # {}
            /\ part' = 1 + (target - TotalOf(share)) \div Cardinality(Live)
            /\ waiting' = Live /\ round' = round + 1 /\ UNCHANGED <<supply, target, share, phase, taken>>
Give == /\ phase = "deal"
        /\ \E g \in waiting : share' = [share EXCEPT ![g] = @ + Least(part, Left(g))] /\ waiting' = waiting \ {g}
        /\ UNCHANGED <<supply, target, round, part, phase, taken>>
Dealt == /\ phase = "deal" /\ waiting = {} /\ (TotalOf(share) >= target \/ Live = {})
         /\ phase' = "take" /\ (Emit => PrintT("@@SCN " \o ToJson([supply |-> supply, target |-> target])))
         /\ UNCHANGED <<supply, target, share, round, waiting, part, taken>>
\* the users of group 1 wrote one message, two messages, ... and the last the rest
Users == LET s == supply[1]
             n == IF s = 0 THEN 0 ELSE IF s < 3 THEN 1 ELSE IF s < 6 THEN 2 ELSE 3
         IN [u \in 1..n |-> IF u < n THEN u ELSE s - (n * (n - 1)) \div 2]
Take == /\ phase = "take" /\ Messages(Users, taken) < share[1]
        /\ \E u \in DOMAIN Users \ taken : taken' = taken \cup {u}
        /\ UNCHANGED <<supply, target, share, round, waiting, part, phase>>
Next == NewRound \/ Give \/ Dealt \/ Take
Spec == Init /\ [][Next]_vars
Sound == OnOffer(supply, share)
Fair == phase = "take" => Enough(supply, share, target) /\ Even(supply, share)
Rounds == round <= G + MaxTarget
Selected == phase = "take" /\ Messages(Users, taken) >= share[1] => Chosen(Users, share[1], taken)
Never == phase = "take" /\ ~ Messages(Users, taken) >= share[1] => taken # DOMAIN Users
=============================================================================
