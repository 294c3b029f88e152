-------------------------------- MODULE Units --------------------------------
(* Reals in units of 10^-6 (with their logarithms in units of 10^-5 bits) *)
EXTENDS Logs, FiniteSets, FiniteSetsExt, SequencesExt

One == 1000000
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Digits(_, _, _, _)
Digits(q, r, b, n) == IF n = 0 THEN q ELSE Digits(10 * q + (10 * r) \div b, (10 * r) % b, b, n - 1)
\* a / b in units of 10^-6
Frac(a, b) == Digits(a \div b, a % b, b, 6)
Zero(n) == [i \in 1..n |-> 0]
Plus(a, b) == [k \in 1..Len(a) |-> a[k] + b[k]]

\* x (x + 1) ... (x + n - 1)
Rising(x, n) == SumTo(n, LAMBDA i : Log2(x + (i - 1) * One))
\* the distribution with these logarithms, but for a constant
Normal(bits) == LET top == Max({bits[k] : k \in DOMAIN bits})
                    e == [k \in DOMAIN bits |-> IF top - bits[k] > 2500000 THEN 0 ELSE Exp2Neg(top - bits[k])]
                    s == SumFun(e)
                IN [k \in DOMAIN bits |-> Frac(e[k], s)]
RECURSIVE Power(_, _)
Power(x, n) == IF n = 0 THEN 1 ELSE x * Power(x, n - 1)
\* all assignments of n things to K topics, numbered: the first thing is the least significant digit
Assignment(K, n, code) == [i \in 1..n |-> ((code \div Power(K, i - 1)) % K) + 1]
=============================================================================
