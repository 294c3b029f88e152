------------------------------ MODULE Reports ------------------------------
(* What becomes of the files that experiments leave: each configuration of a model (its bound, its number of topics and,
   if it has features, its number of latent dimensions) has one report, of exactly the files of its folds.

   A file f is [kind, bound, k, p, fold, ok]: the kind of model that was saved in it ("ctm", "stm_yv", or any other), its settings,
   and whether it is such a file at all (there may be copies, parts and other files around it). *)
EXTENDS Integers, Sequences, FiniteSets

Range(s) == {s[i] : i \in DOMAIN s}

HasFeatures(kind) == kind = "stm_yv"
Config(kind, bound, k, p) == [kind |-> kind, bound |-> bound, k |-> k, p |-> IF HasFeatures(kind) THEN p ELSE 0]
ConfigOf(f) == Config(f.kind, f.bound, f.k, f.p)

\* those of the files 1..Len(files) which a configuration's report is made of
Outputs(files, c) == {i \in 1..Len(files) : files[i].ok /\ ConfigOf(files[i]) = c}

\* the model asked for may name its bound
Kinds == {"ctm", "stm_yv"}
Bounds == {"bouchard", "bohning"}
Asked(model) == CASE model = "ctm" -> [kind |-> "ctm", bounds |-> Bounds]          [] model = "stm_yv" -> [kind |-> "stm_yv", bounds |-> Bounds]
                  [] model = "ctm_bohning" -> [kind |-> "ctm", bounds |-> {"bohning"}] [] model = "ctm_bouchard" -> [kind |-> "ctm", bounds |-> {"bouchard"}]
                  [] model = "stm_yv_bohning" -> [kind |-> "stm_yv", bounds |-> {"bohning"}] [] model = "stm_yv_bouchard" -> [kind |-> "stm_yv", bounds |-> {"bouchard"}]
                  [] OTHER -> [kind |-> "", bounds |-> {}]
Configs(kind, bounds, ks, ps) == {Config(kind, b, k, p) : b \in bounds, k \in ks, p \in IF HasFeatures(kind) THEN ps ELSE {0}}

\* there are no sheets for tweets' models of other data
Refused(kind, dataset) == kind \notin Kinds \/ (kind = "ctm" /\ dataset # "tweets")
Sheet(kind, dataset) == IF kind = "ctm" THEN "ctm" ELSE IF dataset = "tweets" THEN "stm" ELSE "nips"
Title(bound) == IF bound = "bohning" THEN "Bohning" ELSE "Bouchard"
Module(kind, bound) == IF bound = "bohning" THEN kind \o "_bohning" ELSE kind

(* ---- tables of numbers ----------------------------------------------------------------------------- *)
\* a table is refused unless it has as many rows as were counted, and every row as many numbers as the first
Regular(rows, count) == Len(rows) = count /\ \A r \in Range(rows) : Len(r) = Len(rows[1])
Whole(rows) == \A r \in Range(rows) : \A i \in 1..Len(r) : r[i] % 1000 = 0
=============================================================================
