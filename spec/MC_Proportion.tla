--------------------------- MODULE MC_Proportion ---------------------------
(* The arithmetic by which Collapsed says where an occurrence moves, against exact fractions *)
EXTENDS Collapsed, TLC
CONSTANTS MaxC
VARIABLES phase, a, b, c, v
vars == <<phase, a, b, c, v>>
Small == 1..MaxC
Init == phase = "counts" /\ a \in Small \X Small /\ b = <<1, 1>> /\ c = <<1, 1>> /\ v = 0
Words == phase = "counts" /\ phase' = "words" /\ b' \in Small \X Small /\ UNCHANGED <<a, c, v>>
Topics == phase = "words" /\ phase' = "moved" /\ c' \in {<<b[1] + i, b[2] + j>> : i \in 0..3, j \in 0..3} /\ UNCHANGED <<a, b, v>>
Variances == phase = "counts" /\ a[1] = 1 /\ phase' = "spread" /\ v' \in 0..(4 * MaxC) /\ UNCHANGED <<a, b, c>>
Next == Words \/ Topics \/ Variances
Spec == Init /\ [][Next]_vars

Moved == phase = "moved"
\* an occurrence evenly spread is taken out of totals that include it: alpha = beta = 1/2, two words
Half == One \div 2
Where(x, y, n) == Normal(FirstBits(Half, Half, 2, [k \in 1..2 |-> x[k] * One], [k \in 1..2 |-> y[k] * One],
                                   [k \in 1..2 |-> n[k] * One], <<Half, Half>>))
Z == Where(a, b, c)
Num == [k \in 1..2 |-> a[k] * b[k] * (2 * c[3 - k] + 1)]
Exact == Moved => \A k \in 1..2 : Abs(Z[k] - Digits(Num[k] \div (Num[1] + Num[2]), Num[k] % (Num[1] + Num[2]), Num[1] + Num[2], 7)) <= 600
SumsToOne == Moved => Abs(Z[1] + Z[2] - One) <= 2
Even == Moved /\ a[1] = a[2] /\ b[1] = b[2] /\ c[1] = c[2] => Abs(Z[1] - Half) <= 1
Monotone == Moved => Where(<<a[1] + 1, a[2]>>, b, c)[1] > Z[1]
Swap == Moved => Where(<<a[2], a[1]>>, <<b[2], b[1]>>, <<c[2], c[1]>>)[1] = Z[2]
\* half of v/m^2 nats in bits, exactly for quarters
Bits5(x, y) == Digits((144270 * x) \div y, (144270 * x) % y, y, 0)
Corrections == phase = "spread" =>
  LET m == a[2] IN Abs(Correction(v * (One \div 4), m * One) - Bits5(v, 8 * m * m)) <= 3 + Bits5(v, 8 * m * m) \div 1000
Products == phase = "words" => Abs(Times(One \div b[1], One \div b[2]) - One \div (b[1] * b[2])) <= 3
ASSUME MaxC <= 12
=============================================================================
