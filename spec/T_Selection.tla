----------------------------- MODULE T_Selection -----------------------------
(* Recorded choices of users against Selection. Tables are sequences of [group, users], with users a
   sequence of [name, messages]. *)
EXTENDS Selection, TLC
VARIABLES ti, l, st, bad

Unique(s) == \A i, j \in 1..Len(s) : s[i][1] = s[j][1] => i = j
Keys(s) == {s[i][1] : i \in 1..Len(s)}
At(s, k) == s[(CHOOSE i \in 1..Len(s) : s[i][1] = k)][2]
AsFun(s) == [k \in Keys(s) |-> At(s, k)]

ReadClause(ev) ==
  CASE ~ Unique(ev.out) \/ Keys(ev.out) # GroupsOf(ev.lines) -> "Groups"
    [] \E g \in GroupsOf(ev.lines) : LET us == At(ev.out, g) IN ~ Unique(us) \/ Keys(us) # Kept(ev.lines, ev.lo, ev.hi, g) -> "Users"
    [] \E g \in GroupsOf(ev.lines) : \E u \in Keys(At(ev.out, g)) : At(At(ev.out, g), u) # Wrote(ev.lines, g, u) -> "Messages"
    [] OTHER -> ""
Supply(table) == [g \in Keys(table) |-> TotalOf(AsFun(At(table, g)))]
ShareClause(ev) ==
  LET supply == Supply(ev.table) share == AsFun(ev.out) IN
  CASE ~ Unique(ev.out) \/ Keys(ev.out) # Keys(ev.table) -> "EveryGroup"
    [] ~ OnOffer(supply, share) -> "OnOffer"
    [] ~ Enough(supply, share, ev.target) -> "Enough"
    [] ~ Even(supply, share) -> "Even"
    [] ~ ev.kept -> "TableChanged"
    [] OTHER -> ""
\* users of several groups may share a name: then each group's selection can't be told apart
ChooseClause(ev) ==
  LET out == {ev.out[i] : i \in 1..Len(ev.out)} IN
  CASE Cardinality(out) # Len(ev.out) -> "Once"
    [] ~ (out \subseteq UNION {Keys(At(ev.table, g)) : g \in Keys(ev.share)}) -> "OnOffer"
    [] ev.apart /\ \E g \in Keys(ev.share) : LET of == AsFun(At(ev.table, g)) IN ~ Chosen(of, At(ev.share, g), out \cap DOMAIN of) -> "Chosen"
    \* the most prolific first, when asked to
    [] ev.sort /\ ev.apart /\ \E g \in Keys(ev.share) : LET of == AsFun(At(ev.table, g)) IN
         \E u \in out \cap DOMAIN of, v \in DOMAIN of \ out : of[v] > of[u] -> "MostProlificFirst"
    [] ~ ev.apart /\ \E g \in Keys(ev.share) : LET of == AsFun(At(ev.table, g)) us == out \cap DOMAIN of IN
         Messages(of, us) < At(ev.share, g) /\ us # DOMAIN of -> "Reached"
    [] ~ ev.kept -> "TableChanged"
    [] OTHER -> ""
SInit(init) == init
SVerdict(s, ev) ==
  CASE ev.exc # "" -> "Raised" \o ev.exc
    [] ev.op = "read" -> ReadClause(ev)
    [] ev.op = "share" -> ShareClause(ev)
    [] ev.op = "choose" -> ChooseClause(ev)
    [] OTHER -> "UnknownOperation"
SNext(s, ev) == s
SEnd(s) == ""
INSTANCE TraceKit WITH TInit <- SInit, TVerdict <- SVerdict, TNext <- SNext, TEnd <- SEnd
=============================================================================
