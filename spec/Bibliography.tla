---------------------------- MODULE Bibliography ----------------------------
(* Records of papers: keys and values, one to a line or more; lists of authors; and names of authors in the
   form that bibliographies are sorted by. Texts are sequences of characters, words or lines. *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Joined(_, _)
Joined(s, by) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o by \o Joined(Tail(s), by)

(* ---- leaving out what is in parentheses -------------------------------------------------------------- *)
RECURSIVE OutsideFrom(_, _)
OutsideFrom(text, depth) ==
  IF text = <<>> THEN <<>>
  ELSE LET c == Head(text) IN
       IF depth > 0 THEN OutsideFrom(Tail(text), IF c = ")" THEN depth - 1 ELSE IF c = "(" THEN depth + 1 ELSE depth)
       ELSE IF c = "(" THEN OutsideFrom(Tail(text), 1)
       ELSE <<c>> \o OutsideFrom(Tail(text), 0)
Outside(text) == OutsideFrom(text, 0)

(* ---- accents: a backslash and the sign or letter of an accent ------------------------------------------- *)
Accents == {"'", "`", "^", "\"", "H", "~", "c", "k", "l", "=", "b", ".", "d", "r", "u", "v", "t", "o", "i"}
RECURSIVE Plain(_)
Plain(text) == IF text = <<>> THEN <<>>
               ELSE IF Len(text) > 1 /\ text[1] = "\\" /\ text[2] \in Accents THEN Plain(SubSeq(text, 3, Len(text)))
               ELSE <<text[1]>> \o Plain(Tail(text))

(* ---- lists of authors: words, commas, "and"s and parentheses ---------------------------------------------- *)
Separators == {",", "and"}
RECURSIVE NamesFrom(_, _)
NamesFrom(words, name) ==
  IF words = <<>> THEN (IF name = <<>> THEN <<>> ELSE <<name>>)
  ELSE IF Head(words) \in Separators THEN (IF name = <<>> THEN <<>> ELSE <<name>>) \o NamesFrom(Tail(words), <<>>)
  ELSE NamesFrom(Tail(words), Append(name, Head(words)))
Names(words) == NamesFrom(Outside(words), <<>>)
\* begins and ends with names; separated by a comma, by "and", or by both
WellFormed(words) == LET w == Outside(words) n == Len(w) IN
  /\ Len(Outside(Append(words, "w"))) = n + 1 /\ \A i \in 1..n : w[i] # ")"       \* parentheses are balanced
  /\ n > 0 /\ w[1] \notin Separators /\ w[n] \notin Separators
  /\ \A i \in 1..(n - 1) : w[i] \in Separators /\ w[i + 1] \in Separators => w[i] = "," /\ w[i + 1] = "and" /\ (i + 2 <= n => w[i + 2] \notin Separators)

(* ---- names: low are the words in lower case; parts those of a single word, between its full stops --------------- *)
Suffixes == {"i", "ii", "iii", "jr", "jr.", "sr", "sr.", "phd", "phd."}
Particles == {"mc", "mac", "o", "d'", "de", "del", "della", "di", "van", "von"}
\* how many of the last words are the surname
Surname(low) == LET n == Len(low)
                    s == IF n >= 3 /\ low[n] \in Suffixes THEN 2 ELSE 1
                IN IF n - s >= 2 /\ n >= 3 /\ low[n - s] \in Particles THEN s + 1 ELSE s
Canonical(words, low, parts) ==
  LET n == Len(words) s == Surname(low) m == Len(parts) IN
  IF n = 1 THEN (IF m = 1 THEN words[1] ELSE parts[m] \o ", " \o Joined(SubSeq(parts, 1, m - 1), ". ") \o ".")
  ELSE Joined(SubSeq(words, n - s + 1, n), " ") \o ", " \o Joined(SubSeq(words, 1, n - s), " ")

(* ---- keys and values: lines [kind, key, text], where further lines of a value begin with spaces -------------------- *)
\* what each call gives until nothing is left or the abstract begins, and the lines then left
RECURSIVE ReadFrom(_, _)
ReadFrom(lines, got) ==
  IF lines = <<>> THEN [got |-> got, left |-> 0]
  ELSE LET l == Head(lines) IN
       CASE l.kind \in {"blank", "dashes"} -> ReadFrom(Tail(lines), got)
         [] l.kind = "marker" -> [got |-> got, left |-> Len(lines) - 1]
         [] l.kind = "pair" -> LET more == {n \in 0..(Len(lines) - 1) : \A i \in 2..(n + 1) : lines[i].kind = "more"}
                                   n == CHOOSE x \in more : \A y \in more : y <= x
                               IN ReadFrom(SubSeq(lines, n + 2, Len(lines)),
                                           Append(got, <<l.key, Joined([i \in 1..(n + 1) |-> lines[i].text], " ")>>))
Read(lines) == ReadFrom(lines, <<>>)
=============================================================================
