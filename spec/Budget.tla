------------------------------- MODULE Budget -------------------------------
(* How many sweeps training makes, and where it takes measurements on the way. Asked for n sweeps and a
   measurement every f of them (0: none), collapsed models sweep in segments of f and make the rest at the
   end, which they measure in any case; mixtures measure after sweep 1, f+1, 2f+1, ... *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

Collapsed == {"LDA_CVB0", "LDA_CVB"}
Mixtures  == {"MOM_VB", "MOM_GIBBS"}
Silent    == {"LDA_VB_PYTHON_IMPL", "LDA_GIBBS"}          \* measure nothing
Kinds == Collapsed \cup Mixtures \cup Silent

Segments(n, f) == IF f = 0 \/ n < f THEN 1 ELSE n \div f
\* measurements: the label given to each, and the number of sweeps made by then
Points(kind, n, f) ==
  IF kind \in Collapsed
  THEN LET L == Segments(n, f) IN [s \in 1..L |-> IF s < L THEN [label |-> (s - 1) * f, after |-> s * f] ELSE [label |-> n - 1, after |-> n]]
  ELSE IF kind \in Mixtures /\ f > 0
  THEN [s \in 1..((n + f - 1) \div f) |-> [label |-> (s - 1) * f, after |-> (s - 1) * f + 1]]
  ELSE <<>>
\* Having measured at points 1..s, may training be given up, if perplexity (by sweeps made) no longer falls by one? The last scheduled point
\* of a collapsed model is the end anyway.
Patience(kind) == IF kind = "LDA_CVB" THEN 30 ELSE 50
Tests(kind, n, f, s) == /\ kind \in Collapsed \cup {"MOM_VB"} /\ s > 2
                        /\ Points(kind, n, f)[s].label > Patience(kind)
                        /\ (kind \in Collapsed => s < Len(Points(kind, n, f)))
=============================================================================
