--------------------------- MODULE T_Bibliography ---------------------------
(* Recorded readings of papers and names against Bibliography *)
EXTENDS Bibliography, TLC
VARIABLES ti, l, st, bad

Form(words, low) == Canonical(words, low, IF Len(words) = 1 THEN words ELSE <<>>)
RECURSIVE Before(_, _)
Before(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE Head(a) < Head(b) \/ (Head(a) = Head(b) /\ Before(Tail(a), Tail(b)))

\* the record's own values, of those keys that matter
Value(pairs, keys) == LET is == {i \in 1..Len(pairs) : pairs[i][1] \in keys} IN IF is = {} THEN "" ELSE pairs[(CHOOSE i \in is : \A j \in is : i <= j)][2]
PaperClause(ev) ==
  LET pairs == Read(ev.lines).got
      keys == {pairs[i][1] : i \in 1..Len(pairs)}
      full == "title" \in keys /\ keys \cap {"author", "authors"} # {}
      names == Names(ev.authors)
      g == ev.got
  IN CASE ~ full -> IF ev.exc = "ValueError" THEN "" ELSE "IncompleteAccepted"
       [] ev.exc # "" -> "Raised" \o ev.exc
       [] g.id # ev.id \/ g.year # ev.year -> "Identity"
       [] g.title # Value(pairs, {"title"}) -> "Title"
       [] g.venue # ev.venue -> "Venue"
       [] g.authors # names -> "Authors"
       [] LET low(i) == Names(ev.low)[i]
              want == << <<"id", ToString(ev.id)>>, <<"title", g.title>>,
                         <<"author", Joined([i \in 1..Len(names) |-> Form(names[i], low(i))], "; ")>> >>
                      \o (IF g.venue = "" THEN <<>> ELSE << <<"venue", g.venue>> >>) \o << <<"year", ToString(ev.year)>> >>
          IN ev.out # want -> "Written"
       [] OTHER -> ""
IdsClause(ev) ==
  LET want == {Form(ev.authors[i], ev.low[i]) : i \in 1..Len(ev.authors)}
      n == Len(ev.out)
  IN CASE {ev.out[i][2] : i \in 1..n} # want -> "EveryAuthor"
       [] n # Cardinality(want) -> "OneIdentifier"
       [] \E i \in 1..n : ev.out[i][1] # i -> "Numbered"
       [] \E i \in 1..(n - 1) : ~ Before(ev.out[i][3], ev.out[i + 1][3]) -> "Sorted"
       [] OTHER -> ""
SInit(init) == init
SVerdict(s, ev) ==
  CASE ev.op = "paper" -> PaperClause(ev)
    [] ev.exc # "" -> "Raised" \o ev.exc
    [] ev.op = "parens" -> IF ev.out = Outside(ev.text) THEN "" ELSE "Parentheses"
    [] ev.op = "plain" -> IF ev.out = Plain(ev.text) THEN "" ELSE "Accents"
    [] ev.op = "name" -> IF ev.out = Canonical(ev.words, ev.low, ev.parts) THEN "" ELSE "Name"
    [] ev.op = "lines" -> LET r == Read(ev.lines) IN IF ev.got # r.got THEN "KeysAndValues" ELSE IF ev.left # r.left THEN "LinesLeft" ELSE ""
    [] ev.op = "ids" -> IdsClause(ev)
    [] OTHER -> "UnknownOperation"
SNext(s, ev) == s
SEnd(s) == ""
INSTANCE TraceKit WITH TInit <- SInit, TVerdict <- SVerdict, TNext <- SNext, TEnd <- SEnd
=============================================================================
