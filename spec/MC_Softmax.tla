----------------------------- MODULE MC_Softmax -----------------------------
(* Normalising the exponentials of a row in floating point whose range is limited: powers of two
   2^e with -E <= e <= E, larger ones overflow and smaller ones vanish. The largest element is found,
   every element is exponentiated less that, and the results are divided by their sum. *)
EXTENDS Integers, Sequences, Sums, TLC, Json
\* V and Shifts are given plus 100
CONSTANTS N, E, V, Shifts
VARIABLES x, shift, max, j, ex, phase
vars == <<x, shift, max, j, ex, phase>>
INF == -1
RECURSIVE Pow(_)
Pow(n) == IF n = 0 THEN 1 ELSE 2 * Pow(n - 1)
\* in units of 2^-E
Exp2(e) == IF e > E THEN INF ELSE IF e < -E THEN 0 ELSE Pow(e + E)

Init == /\ x \in [1..N -> {v - 100 : v \in V}] /\ shift \in {s - 100 : s \in Shifts} /\ max = x[1] + shift /\ j = 1 /\ ex = <<>> /\ phase = "scan"
Scan == /\ phase = "scan" /\ j <= N
        /\ max' = (IF x[j] + shift > max THEN x[j] + shift ELSE max) /\ j' = j + 1
        /\ UNCHANGED <<x, shift, ex, phase>>
Scanned == /\ phase = "scan" /\ j > N /\ phase' = "exp" /\ j' = 1 /\ UNCHANGED <<x, shift, max, ex>>
Exponentiate == /\ phase = "exp" /\ j <= N
                /\ ex' = Append(ex, Exp2(x[j] + shift - max)) /\ j' = j + 1
                /\ UNCHANGED <<x, shift, max, phase>>
Finish == /\ phase = "exp" /\ j > N /\ phase' = "done"
          /\ PrintT("@@SCN " \o ToJson([x |-> x, shift |-> shift]))
          /\ UNCHANGED <<x, shift, max, j, ex>>
Next == Scan \/ Scanned \/ Exponentiate \/ Finish
Spec == Init /\ [][Next]_vars

Total == SumFun([i \in 1..Len(ex) |-> ex[i]])
NoOverflow == \A i \in 1..Len(ex) : ex[i] # INF /\ ex[i] <= Pow(E)
\* the denominator is at least that of the largest element: no division by zero
Divisible == phase = "done" => Total >= Pow(E)
\* proportions: those which did not vanish are in the exact ratio, whatever the shift
Exact == phase = "done" => \A a, b \in 1..N :
           ex[a] > 0 /\ ex[b] > 0 /\ x[a] >= x[b] => ex[a] = ex[b] * Pow(x[a] - x[b])
\* only elements less than a 2^-E'th of the largest vanish
Vanish == phase = "done" => \A a \in 1..N : ex[a] = 0 <=> \E b \in 1..N : x[b] - x[a] > E
=============================================================================
