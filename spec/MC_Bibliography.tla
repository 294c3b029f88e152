--------------------------- MODULE MC_Bibliography ---------------------------
(* All short texts with parentheses, lists of authors, names, and records, written a piece at a time *)
EXTENDS Bibliography, TLC, Json
CONSTANTS MaxText, MaxAuthors, MaxName, MaxLines
VARIABLES kind, text
vars == <<kind, text>>
Init == kind \in {"parens", "authors", "name", "lines"} /\ text = <<>>
Say(x) == PrintT("@@SCN " \o ToJson(x))
Parens == kind = "parens" /\ Len(text) < MaxText /\ \E c \in {"a", "(", ")", " "} : text' = Append(text, c) /\ UNCHANGED kind /\ Say([kind |-> kind, text |-> text'])
Authors == kind = "authors" /\ Len(text) < MaxAuthors /\ \E c \in {"w", ",", "and", "(", ")"} :
             text' = Append(text, c) /\ UNCHANGED kind /\ (WellFormed(text') => Say([kind |-> kind, text |-> text']))
Name == kind = "name" /\ Len(text) < MaxName /\ \E c \in {"ann", "b.", "de", "van", "jr", "o"} : text' = Append(text, c) /\ UNCHANGED kind /\ Say([kind |-> kind, text |-> text'])
Lines == kind = "lines" /\ Len(text) < MaxLines /\
           \E c \in {"pair", "more", "blank", "dashes", "marker"} :
             /\ c = "more" => text # <<>> /\ text[Len(text)].kind \in {"pair", "more"}
             /\ text' = Append(text, [kind |-> c, key |-> IF c = "pair" THEN "k" ELSE "", text |-> IF c \in {"pair", "more"} THEN "t" ELSE ""])
             /\ UNCHANGED kind /\ Say([kind |-> kind, text |-> [i \in 1..Len(text') |-> text'[i].kind]])
Next == Parens \/ Authors \/ Name \/ Lines
Spec == Init /\ [][Next]_vars

Count(s, c) == Cardinality({i \in 1..Len(s) : s[i] = c})
Depth(s, n) == Count(SubSeq(s, 1, n), "(") - Count(SubSeq(s, 1, n), ")")
Balanced(s) == Depth(s, Len(s)) = 0 /\ \A n \in 0..Len(s) : Depth(s, n) >= 0
NoneLeft == kind = "parens" => LET o == Outside(text) IN
  /\ Count(o, "(") = 0 /\ Outside(o) = o
  /\ (Count(text, "(") = 0 => o = text)
  /\ (Balanced(text) => Count(o, ")") = 0 /\ o = SelectSeq([i \in 1..Len(text) |-> IF Depth(text, i) = 0 /\ text[i] # ")" THEN text[i] ELSE "x"], LAMBDA c : c # "x"))
\* what is balanced can be left out by itself
Parts == kind = "parens" => \A n \in 0..Len(text) : Balanced(SubSeq(text, 1, n)) => Outside(text) = Outside(SubSeq(text, 1, n)) \o Outside(SubSeq(text, n + 1, Len(text)))
EveryWord == kind = "authors" /\ WellFormed(text) => LET ns == Names(text) o == Outside(text) IN
  /\ \A i \in 1..Len(ns) : ns[i] # <<>>
  /\ LET F[i \in 0..Len(ns)] == IF i = 0 THEN 0 ELSE F[i - 1] + Len(ns[i]) IN F[Len(ns)] = Count(o, "w")
  /\ Len(ns) = 1 + Cardinality({i \in 1..Len(o) : o[i] \in Separators /\ o[i + 1] \notin Separators})
\* a name's words are all kept, the surname first
Rotated == kind = "name" /\ text # <<>> => LET s == Surname(text) IN
  /\ s \in 1..3 /\ (Len(text) > 1 => s < Len(text)) /\ (Len(text) > 1 => Canonical(text, text, <<>>) # "")
  /\ (s > 1 => Len(text) >= 3 /\ (text[Len(text)] \in Suffixes \/ text[Len(text) - s + 1] \in Particles))
InTurn == kind = "lines" => LET r == Read(text)
                                stop == {i \in 1..Len(text) : text[i].kind = "marker"}
                                n == IF stop = {} THEN Len(text) ELSE (CHOOSE i \in stop : \A j \in stop : i <= j)
  IN /\ Len(r.got) = Cardinality({i \in 1..n : text[i].kind = "pair"})
     /\ r.left = Len(text) - n
=============================================================================
