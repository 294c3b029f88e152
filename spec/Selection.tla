------------------------------ MODULE Selection ------------------------------
(* Choosing users whose messages make up a corpus of a wanted size, with about the same share from every
   group of users. A table gives, for each group, how many messages each of its users wrote. *)
EXTENDS Integers, Sequences, FiniteSets, Sums

Least(a, b) == IF a < b THEN a ELSE b

(* ---- reading the table: lines [count, group, user] --------------------------------------------- *)
GroupsOf(lines) == {lines[i].group : i \in 1..Len(lines)}
UsersOf(lines, g) == {lines[i].user : i \in {j \in 1..Len(lines) : lines[j].group = g}}
Wrote(lines, g, u) == SumSet({i \in 1..Len(lines) : lines[i].group = g /\ lines[i].user = u}, LAMBDA i : lines[i].count)
\* only users who wrote more than the least and less than the most are kept; groups are kept even without users
Kept(lines, lo, hi, g) == {u \in UsersOf(lines, g) : lo < Wrote(lines, g, u) /\ Wrote(lines, g, u) < hi}

(* ---- shares: supply and share are functions of groups ------------------------------------------- *)
TotalOf(f) == SumSet(DOMAIN f, LAMBDA g : f[g])
OnOffer(supply, share) == \A g \in DOMAIN supply : 0 <= share[g] /\ share[g] <= supply[g]
\* as much as was asked for, or all there is; give or take one for each group
Enough(supply, share, target) == LET n == Cardinality(DOMAIN supply)  most == Least(target, TotalOf(supply)) IN
  /\ TotalOf(share) > most - n
  /\ TotalOf(share) <= target + n
\* groups that are not used up give the same, and those that are no more
Even(supply, share) == \A g, k \in DOMAIN supply : share[g] < supply[g] => share[k] <= share[g]

(* ---- choosing: whole users, until a group's share is reached ------------------------------------- *)
Messages(of, users) == SumSet(users, LAMBDA u : of[u])
Chosen(of, share, users) ==
  /\ users \subseteq DOMAIN of
  /\ Messages(of, users) >= share \/ users = DOMAIN of
  \* none too many: without one of them the share isn't reached
  /\ users # {} => \E u \in users : Messages(of, users \ {u}) < share
=============================================================================
