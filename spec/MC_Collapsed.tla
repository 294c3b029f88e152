---------------------------- MODULE MC_Collapsed ----------------------------
(* The bookkeeping of collapsed variational training: totals are kept by adding the difference every time
   an occurrence moves, trained counts are put underneath a query's own while it sweeps, and are taken
   away again, or merged, when it is done. Occurrences move anywhere at all (in halves). *)
EXTENDS Collapsed, TLC, Json
CONSTANTS Calls, Emit
VARIABLES model, q, pos, mode, hist

vars == <<model, q, pos, mode, hist>>
K == 2
T == 2
Corpora == << <<  <<1, 2>>, <<1>> >>,  << <<2>> >> >>
Half == One \div 2
Z == {<<0, One>>, <<Half, Half>>, <<One, 0>>}
First(w) == [d \in 1..Len(w) |-> [n \in 1..Len(w[d]) |-> <<Half, Half>>]]

\* the totals of a query hold the counts of the model underneath while it sweeps
New(x) == LET w == Corpora[x] t == Totals(K, T, w, First(w))
          IN [x |-> x, w |-> w, z |-> First(w), dk |-> t.dk, kt |-> t.kt, k |-> t.k]
None == [x |-> 0]
Untrained == [fits |-> <<>>, kt |-> Nothing(K, T).kt, k |-> Zero(K), dk |-> <<>>]

Init == model = Untrained /\ q = [x \in {1, 2} |-> None] /\ pos = <<0, 0, 0>> /\ mode = "" /\ hist = <<>>

\* a new call, on a new state of the documents or on one there is
Begin(x, m, again) ==
  /\ mode = "" /\ Len(hist) < Calls
  /\ (m = "query" => model.fits # <<>>) /\ (again => q[x] # None)
  /\ LET n == IF again THEN q[x] ELSE New(x)
     IN q' = [q EXCEPT ![x] = [n EXCEPT !.kt = PlusM(@, model.kt), !.k = Plus(@, model.k)]]
  /\ mode' = m /\ pos' = <<x, 1, 1>> /\ hist' = Append(hist, [x |-> x, op |-> m, again |-> again])
  /\ UNCHANGED model
Move(z) ==
  /\ mode \in {"train", "query"} /\ pos[2] <= Len(Corpora[pos[1]])
  /\ LET x == pos[1] d == pos[2] n == pos[3] s == q[x] t == s.w[d][n] diff == Minus(z, s.z[d][n])
     IN /\ q' = [q EXCEPT ![x] = [s EXCEPT !.z[d][n] = z, !.dk[d] = Plus(@, diff), !.k = Plus(@, diff),
                                           !.kt = [k \in 1..K |-> [s.kt[k] EXCEPT ![t] = @ + diff[k]]]]]
        /\ pos' = IF n < Len(s.w[d]) THEN <<x, d, n + 1>> ELSE <<x, d + 1, 1>>
  /\ UNCHANGED <<model, mode, hist>>
Ended == mode \in {"train", "query"} /\ pos[2] > Len(Corpora[pos[1]])
Trained == /\ Ended /\ mode = "train" /\ mode' = ""
           /\ LET x == pos[1] s == q[x]
              IN /\ model' = [fits |-> Append(model.fits, x), kt |-> s.kt, k |-> s.k, dk |-> model.dk \o s.dk]
                 /\ q' = [q EXCEPT ![x] = [s EXCEPT !.kt = MinusM(@, model.kt), !.k = Minus(@, model.k)]]
           /\ UNCHANGED <<pos, hist>>
Queried == /\ Ended /\ mode = "query" /\ mode' = ""
           /\ LET x == pos[1] s == q[x]
              IN q' = [q EXCEPT ![x] = [s EXCEPT !.kt = MinusM(@, model.kt), !.k = Minus(@, model.k)]]
           /\ UNCHANGED <<model, pos, hist>>
Tell == /\ mode = "" /\ Len(hist) = Calls /\ mode' = "told"
        /\ (Emit => PrintT("@@SCN " \o ToJson([calls |-> hist])))
        /\ UNCHANGED <<model, q, pos, hist>>
Next == (\E x \in {1, 2}, m \in {"train", "query"}, again \in BOOLEAN : Begin(x, m, again))
        \/ (\E z \in Z : Move(z)) \/ Trained \/ Queried \/ Tell
Spec == Init /\ [][Next]_vars

Base(x) == IF mode \in {"train", "query"} /\ pos[1] = x THEN [kt |-> model.kt, k |-> model.k] ELSE Nothing(K, T)
\* what is kept by differences is what it should be
Tally == \A x \in {1, 2} : q[x] # None =>
           LET t == Totals(K, T, q[x].w, q[x].z)
           IN q[x].dk = t.dk /\ q[x].kt = PlusM(t.kt, Base(x).kt) /\ q[x].k = Plus(t.k, Base(x).k)
TopicTotals == \A k \in 1..K : model.k[k] = SumFun(model.kt[k])
WordTotals == LET count(x, t) == SumTo(Len(Corpora[x]), LAMBDA d : Cardinality({n \in 1..Len(Corpora[x][d]) : Corpora[x][d][n] = t}))
              IN \A t \in 1..T : SumFun(Column(model.kt, t)) = One * FoldLeft(LAMBDA a, x : a + count(x, t), 0, model.fits)
DocumentTotals == \A x \in {1, 2} : q[x] # None => \A d \in 1..Len(q[x].w) : SumFun(q[x].dk[d]) = One * Len(q[x].w[d])
\* no more and no fewer than one row for each document of each corpus
Rows == Len(model.dk) = FoldLeft(LAMBDA a, x : a + Len(Corpora[x]), 0, model.fits)
Fixed == [][mode = "query" => model' = model]_vars
=============================================================================
