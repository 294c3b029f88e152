-------------------------------- MODULE Sums --------------------------------
EXTENDS Integers, Functions
SumSet(S, f(_)) == FoldFunction(+, 0, [x \in S |-> f(x)])
SumTo(n, f(_)) == FoldFunction(+, 0, [x \in 1..n |-> f(x)])
SumFun(f) == FoldFunction(+, 0, f)
=============================================================================
