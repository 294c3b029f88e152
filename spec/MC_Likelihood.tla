--------------------------- MODULE MC_Likelihood ---------------------------
(* The arithmetic of Likelihood checked against facts about logarithms and probabilities, for
   every small document, mixture and pair of topics; and every request for a score. *)
EXTENDS Likelihood, TLC, Json
CONSTANTS MaxP, MaxN
VARIABLES phase, p, q, doc, y, c, req

vars == <<phase, p, q, doc, y, c, req>>
Eighth == E8 \div 8
\* topics over two words, in eighths
Tops == {<<a * Eighth, (8 - a) * Eighth>> : a \in 1..7}
None == [method |-> "", y |-> FALSE, qs |-> FALSE]

Init == phase = "logs" /\ p = 1 /\ q \in 1..MaxP /\ doc = <<>> /\ y = <<>> /\ c = <<>> /\ req = None
NextNumber == phase = "logs" /\ p < MaxP /\ p' = p + 1 /\ UNCHANGED <<phase, q, doc, y, c, req>>
Document == /\ phase = "logs" /\ p = 1 /\ q = 1 /\ phase' = "doc"
            /\ doc' \in {<<a, b>> : a \in 0..MaxN, b \in 0..MaxN} \ {<<0, 0>>}
            /\ UNCHANGED <<p, q, y, c, req>>
Topics == /\ phase = "doc" /\ phase' = "scored"
          /\ c' \in {<<a, b>> : a \in Tops, b \in Tops}
          /\ y' \in {<<a * Eighth, (8 - a) * Eighth>> : a \in 0..8}
          /\ UNCHANGED <<p, q, doc, req>>
Request == /\ phase = "logs" /\ p = 1 /\ q = 2 /\ phase' = "asked"
           /\ \E m \in Methods, a \in BOOLEAN, b \in BOOLEAN : req' = [method |-> m, y |-> a, qs |-> b]
           /\ UNCHANGED <<p, q, doc, y, c>>
Emit == /\ phase = "asked" /\ phase' = "done" /\ PrintT("@@SCN " \o ToJson(req))
        /\ UNCHANGED <<p, q, doc, y, c, req>>
Next == NextNumber \/ Document \/ Topics \/ Request \/ Emit
Spec == Init /\ [][Next]_vars

Abs(x) == IF x < 0 THEN -x ELSE x
LogOfProduct == phase = "logs" => Abs(Log2(p * q) - Log2(p) - Log2(q)) <= 4
LogMonotone  == phase = "logs" => Log2(p + 1) > Log2(p)
LogOfPowers  == phase = "logs" => \A n \in 0..29 : Log2(Two(n)) = n * U
ExpOfLog     == phase = "logs" => Abs(Exp2Neg(Log2(p)) * p - 1048576) <= 20 + 2 * p
Halving      == phase = "logs" => Abs(Mul8(E8 \div p, E8 \div q) - E8 \div (p * q)) <= 4

Scored == phase = "scored"
\* a mixture concentrated on one topic is the same thing either way
OneTopic == Scored /\ (y[1] = 0 \/ y[2] = 0) =>
              Abs(MixtureBits(doc, y, c) - AdmixtureBits(doc, y, c)) <= 2 * MixtureSlack(doc, y, c)
\* when the topics are the same the mixture does not matter
SameTopics == Scored /\ c[1] = c[2] =>
              LET one == AdmixtureBits(doc, <<E8, 0>>, c) IN
              /\ Abs(AdmixtureBits(doc, y, c) - one) <= 2 * AdmixtureSlack(doc, y, c)
              /\ Abs(MixtureBits(doc, y, c) - one) <= 2 * MixtureSlack(doc, y, c)
\* probabilities are at most one, and a single word is the same in both kinds of model
AtMostOne == Scored => AdmixtureBits(doc, y, c) <= 0 /\ MixtureBits(doc, y, c) <= 2
OneWord   == Scored /\ doc[1] + doc[2] = 1 =>
              Abs(AdmixtureBits(doc, y, c) - MixtureBits(doc, y, c)) <= 2 * MixtureSlack(doc, y, c)
\* Jensen: never less than the average of the topics' own
Jensen == Scored => LET a(k) == TopicBits(doc, <<E8, E8>>, c, k) IN
              MixtureBits(doc, y, c) * 8 + 100 >= (y[1] \div Eighth) * a(1) + (y[2] \div Eighth) * a(2)
MixtureSymmetric == Scored => Abs(MixtureBits(doc, y, c) - MixtureBits(doc, <<y[2], y[1]>>, <<c[2], c[1]>>)) <= 2
\* the product rule: two documents are as likely as both of them
Adds == Scored => Bits2(FALSE, <<doc, doc>>, <<y, y>>, c) = 2 * AdmixtureBits(doc, y, c)
=============================================================================
