----------------------------- MODULE Experiment -----------------------------
(* An experiment repeats, for each of several folds: split the documents, copy the sample model, train the copy on
   one part, and measure it on the other. Nothing of one repetition reaches another but the sums it leaves.

   A step of a repetition may fail, and then that repetition, and only that, is given up: it adds to no sum and
   leaves no file. A run stops at the last fold, or as soon as the number of folds asked for are finished. *)
EXTENDS Corpus, RankEval, TLC

(* ---- which documents ------------------------------------------------------------------------------- *)
\* base is the order in which the documents are held
HeldOut(base, n, f)  == {base[p] : p \in Range(QueryIdx(Len(base), f, n))}
TrainDocs(base, n, f) == Range(base) \ HeldOut(base, n, f)

MinDistinct == 3
Kept(words, limit) == {d \in 1..Len(words) : (limit = 0 \/ d <= limit) /\ Distinct(words[d]) >= MinDistinct}

(* ---- which folds are tried, if `down` of these fail --------------------------------------------------- *)
Wanted(n, stop) == IF stop < 1 THEN n ELSE stop
\* done is the sequence of folds that finished
Attempted(done, n, stop) == IF Len(done) > 0 /\ Len(done) = Wanted(n, stop) THEN done[Len(done)] + 1 ELSE n
Rising(s) == \A i, j \in 1..Len(s) : i < j => s[i] < s[j]

(* ---- names of files ------------------------------------------------------------------------------------ *)
Plain(name) == CASE name = "stub" -> "stub" [] name = "lro/vb" -> "lro_vb" [] name = "stm-yv/bohning" -> "stm_yv_bohning"
                 [] name = "sim/lda/vb" -> "sim_lda_vb" [] name = "mtm2/vb" -> "mtm2_vb" [] name = "a-b/c" -> "a_b_c" [] OTHER -> name
Stem(name, K, P) == Plain(name) \o "_k_" \o ToString(K) \o "_p_" \o ToString(IF P < 0 THEN 0 ELSE P)
UsesLda(name) == name \in {"lro/vb", "sim/lda/vb", "mtm2/vb"}

(* ---- the model, and what it is told, for each name that may be given on the command line --------------------- *)
Leaf(cmd) == CASE cmd = "ctm_bouchard" -> "ctm" [] cmd = "ctm_bohning" -> "ctm_bohning" [] cmd = "stm_yv_bouchard" -> "stm_yv"
              [] cmd = "stm_yv_bohning" -> "stm_yv_bohning" [] cmd = "stm_uyv_bohning" -> "stm_uv_vec_y_bohning"
              [] cmd = "lda_cvb" -> "lda_cvb" [] cmd = "lda_cvb0" -> "lda_cvb0" [] cmd \in {"lda_vb", "lda_svb"} -> "lda_vb_python"
              [] cmd = "lda_gibbs" -> "lda_gibbs" [] cmd = "rtm_vb" -> "rtm" [] cmd = "mtm_vb" -> "mtm2" [] cmd = "mtm2_vb" -> "mtm3"
              [] cmd = "lro_vb" -> "lro_vb" [] cmd = "dmr" -> "dmr" [] cmd \in {"sim_lda_vb", "sim_tfidf"} -> "sim_based_rec"
              [] cmd = "mom_em" -> "mom_em" [] cmd = "mom_gibbs" -> "mom_gibbs" [] OTHER -> "?"
\* numbers are in millionths; options o in hundredths
Told(cmd, K, o) ==
  {<<"K", K * 1000000>>}
  \cup (IF cmd \in {"ctm_bouchard", "ctm_bohning", "stm_yv_bouchard", "stm_yv_bohning", "stm_uyv_bohning", "lda_vb", "lda_svb"} THEN {<<"vocabPrior", o.prior * 10000>>} ELSE {})
  \cup (IF cmd \in {"stm_yv_bouchard", "stm_yv_bohning"} THEN {<<"P", o.P * 1000000>>, <<"featVar", o.fv * 10000>>, <<"latFeatVar", o.lfv * 10000>>} ELSE {})
  \cup (IF cmd = "stm_uyv_bohning" THEN {<<"P", o.P * 1000000>>, <<"Q", o.Q * 1000000>>, <<"fv", o.fv * 10000>>, <<"lfv", o.lfv * 10000>>,
                                         <<"tv", o.tv * 10000>>, <<"ltv", o.ltv * 10000>>} ELSE {})
TypeName(t) == CASE t = "f4" -> "float32" [] t = "f8" -> "float64" [] t = "i4" -> "int32" [] OTHER -> t
=============================================================================
