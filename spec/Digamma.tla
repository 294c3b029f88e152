------------------------------- MODULE Digamma -------------------------------
(* The logarithm of the gamma function and its derivative in fixed point. Arguments are in units of
   10^-6, from 0.005 to 1500; results in units of 10^-5 bits. Checked by MC_Digamma. *)
EXTENDS Units

\* 1 / x
Inv(x) == IF x >= 10000000 THEN 144269504 \div (x \div 1000) ELSE (Digits(144269504 \div x, 144269504 % x, x, 4) + 5) \div 10
\* both are found from their values at x + 8, or at x if it is that great
Steps(x) == IF x >= 8000000 THEN 0 ELSE 8
Psi(x) == LET n == Steps(x)
              y == x + n * One
          IN Log2(y) - Log2(One) - Inv(y) \div 2 - ((Inv(y) * 1000) \div (y \div 1000)) \div 12
             - SumTo(n, LAMBDA i : Inv(x + (i - 1) * One))
\* x times a number of bits
Of(x, b) == (x \div One) * b + LET f == x % One IN ((f \div 1000) * b) \div 1000 + ((f % 1000) * (b \div 1000)) \div 1000
HalfLog2TwoPi == 132575
LogGamma(x) == LET n == Steps(x)
                   y == x + n * One
                   l == Log2(y) - Log2(One)
               IN Of(y - One \div 2, l) - Of(y, 144270) + HalfLog2TwoPi + Inv(y) \div 12
                  - SumTo(n, LAMBDA i : Log2(x + (i - 1) * One) - Log2(One))
Psis(v) == [i \in 1..Len(v) |-> Psi(v[i])]
\* the logarithm of a sum of powers of two
LogSum(bits) == LET top == Max({bits[k] : k \in DOMAIN bits})
                IN top + Log2(SumFun([k \in DOMAIN bits |-> IF top - bits[k] > 2500000 THEN 0 ELSE Exp2Neg(top - bits[k])])) - 20 * U
\* the divergence of a Dirichlet distribution q from another, p
Divergence(q, p) == LET s == SumFun(q) e == Psi(s) n == Len(q)
  IN LogGamma(s) - SumTo(n, LAMBDA i : LogGamma(q[i])) - LogGamma(SumFun(p)) + SumTo(n, LAMBDA i : LogGamma(p[i]))
     + SumTo(n, LAMBDA i : Of(q[i] - p[i], Psi(q[i]) - e))
=============================================================================
