------------------------------- MODULE Tokens -------------------------------
(* A bag of words expanded into tokens *)
EXTENDS Integers, Sequences, FiniteSets, Sums
\* words: document by word counts;  toks: sequence of word identifiers (0-based)
RowTotal(row) == SumFun([j \in 1..Len(row) |-> row[j]])
Times(x, toks) == Cardinality({i \in 1..Len(toks) : toks[i] = x})
\* toks holds every word exactly as often as row counts it, and nothing else
SameBag(row, toks) == /\ Len(toks) = RowTotal(row)
                      /\ \A j \in 1..Len(row) : Times(j - 1, toks) = row[j]
Offset(words, d) == SumFun([e \in 1..(d - 1) |-> RowTotal(words[e])])

\* tallies of weights z[d][n][k] of the tokens toks[d][n]
DocTopic(toks, z, d, k) == SumFun([n \in 1..Len(toks[d]) |-> z[d][n][k]])
TopicWord(toks, z, k, t) == SumFun([d \in 1..Len(toks) |-> SumFun([n \in 1..Len(toks[d]) |-> IF toks[d][n] = t THEN z[d][n][k] ELSE 0])])
Topic(toks, z, k) == SumFun([d \in 1..Len(toks) |-> DocTopic(toks, z, d, k)])
=============================================================================
