----------------------------- MODULE MC_Digamma -----------------------------
(* The fixed-point functions: recurrences, duplication, known values, order *)
EXTENDS Digamma, TLC
CONSTANT Points
VARIABLE x
\* a spread of arguments: one more than the last, and 3% more
Init == x = 5000
Next == x < 700000000 /\ x' = x + 1 + (x \div Points)
Grow == Next
Spec == Init /\ [][Grow]_x
Tol == 4 + 4
Recurrence == Abs(Psi(x + One) - Psi(x) - Inv(x)) <= 3 + 2
GammaRecurrence == Abs(LogGamma(x + One) - LogGamma(x) - (Log2(x) - Log2(One))) <= 24 + x \div 500000
\* psi(2x) = psi(x)/2 + psi(x + 1/2)/2 + ln 2 (which is one bit)
Duplication == Abs(2 * Psi(2 * x) - Psi(x) - Psi(x + One \div 2) - 2 * U) <= 10
\* gamma(x) gamma(x + 1/2) = 2^(1-2x) sqrt(pi) gamma(2x)
GammaDuplication == x < 20000000 =>
  Abs(LogGamma(x) + LogGamma(x + One \div 2) - U + 2 * Of(x, U) - 82575 - LogGamma(2 * x)) <= 40 + x \div 200000
Order == Psi(x) <= Psi(x + One) /\ Psi(x) <= Log2(x) - Log2(One) + 2
\* the slope of one is the other
Slope == x > 1000000 /\ x < 20000000 =>
   LET h == x \div 50 IN Abs((LogGamma(x + h) - LogGamma(x - h)) - Of(2 * h, Psi(x))) <= 30 + (LogGamma(x + h) - LogGamma(x - h)) \div 500 + x \div 20000
Known == /\ Abs(Psi(One) + 83275) <= 3
         /\ Abs(Psi(One \div 2) + 83275 + 200000) <= 4
         /\ Abs(Psi(10 * One) - 324859) <= 3
         /\ Abs(LogGamma(One)) <= 6 /\ Abs(LogGamma(2 * One)) <= 6
         /\ Abs(LogGamma(One \div 2) - 82575) <= 6
         /\ Abs(LogGamma(11 * One) - 2179106) <= 10
         /\ Abs(LogGamma(10000) - 663565) <= 10
=============================================================================
