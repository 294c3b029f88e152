#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit the statements)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=list(observe), hook_needed=hook)))

COMMON = "sidetopics/model/common.py"
SKL = "sidetopics/model/sklearn/lda_cvb.py"

prop("C01", "Cross-validation folds split the corpus without loss or leakage",
 "For every corpus of D documents and every fold k of K, the training and query parts are disjoint, together contain every document exactly once, and the query part has exactly ceil(D/K) documents; over the K folds every document is queried at least once, and exactly once when K divides D. Every document that lands in a part keeps its own words, features, out-links, labels and original position.",
 ["inputs", "configurations"], "every corpus size, every K>1, every fold id, every combination of present/absent features, links, labels, sparse or dense features, and every earlier re-ordering of the corpus",
 "No test calls the split except through one grid search with one corpus; the quantifier is over corpus sizes against fold counts (including non-dividing ones, which wrap around) and over side-matrices.",
 [COMMON], [("cross_valid_split_indices / cross_valid_split", COMMON)],
 [("DataSet", "aligned rows of words, feats, links, labels, order", COMMON)], ["DataSet.cross_valid_split()", "DataSet.order", "DataSet.words/feats/links/doc_categories"])

prop("C02", "Document-completion split conserves every word occurrence",
 "Splitting documents for document completion gives two corpora, aligned document by document, whose word counts are non-negative whole numbers that add up exactly to the original count of every word of every document that is kept. Documents are dropped (from both sides, together with their labels and order) exactly when either side has fewer distinct words than the minimum; a corpus with features is returned unchanged on both sides, each word is split in about the requested proportion, and the same seed gives the same split.",
 ["inputs", "configurations"], "every word-count matrix, seed, proportion, minimum vocabulary and set of labels",
 "No test exercises the split directly: rounding of the jittered counts only goes wrong for particular counts, seeds and proportions.",
 [COMMON], [("doc_completion_split", COMMON)], [], ["DataSet.doc_completion_split()"])

prop("C03", "Link-prediction splits partition the links exactly as documented",
 "A random link split puts every link, with its whole count, into exactly one of two link matrices whose sum is the original, half of the distinct links on each side (and both sides symmetric when asked for a symmetric split of a symmetric graph). A folded split does the same for every document with at least the minimum number of links, moving exactly floor(links/folds) of them to the query side and reporting precisely those documents, while documents with fewer links keep all of them on both sides; over all the folds no link is queried twice.",
 ["inputs", "configurations"], "every link matrix (square or not, counts or binary), seed, fold id, number of folds and minimum number of links",
 "No existing test reaches these functions; the quantifier is over degree sequences and fold counts.",
 [COMMON], [("link_prediction_split", COMMON), ("folded_link_prediction_split", COMMON)], [],
 ["DataSet.link_prediction_split()", "DataSet.folded_link_prediction_split()"])

prop("C04", "Corpus transformations keep documents whole and remember where they came from",
 "After any sequence of loading with an order or a limit, copying, pruning and shuffling, vocabulary trimming, splitting by feature, type conversion and adding an intercept, every row of the corpus holds the words, features, labels and links of one original document - namely the one that the recorded order says it is - with a square link matrix always relabelled on both axes. Exactly the documents and words that meet the stated minimums survive, the last intercept column is added exactly when no feature is one everywhere, and a deep copy is equal to, yet independent of, the original.",
 ["inputs", "histories"], "every sequence of transformations applied to every corpus with any mixture of features, links, labels and dictionary",
 "Tests only build corpora of one shape and never compose transformations; misalignment only appears when a second transformation composes with a non-trivial order.",
 [COMMON], [("from_files/limit/_reorder/prune_and_shuffle/words_with_min_freq/split_on_feature/add_intercept_to_feats_if_required/copy", COMMON)],
 [("order", "original index of every row", COMMON)], ["DataSet properties after each call"])

prop("C05", "Reciprocal-rank and average-precision scores equal their definitions",
 "For every set of expected links and every ranking containing them, mean reciprocal rank is the mean over all expected links of one over the link's position when candidates are sorted by decreasing probability, and mean average precision is the sum over documents of the average precision at the positions of their expected links, divided by the number of documents. Both scores are unaffected by the order in which candidates are stored and ignore everything about probabilities but their order.",
 ["inputs"], "every expected-link matrix with at least one link and every estimated-probability matrix without ties that contains the expected links",
 "The repository's evaluation functions have no unit tests that run; rankings are combinatorial.",
 ["sidetopics/model/evals.py"], [("mean_reciprocal_rank / mean_average_prec", "sidetopics/model/evals.py")], [], ["return values"])

prop("C06", "Precision and recall at M are exact, per group of documents",
 "Precision at M is hits among the M most probable candidates divided by M, recall at M those hits divided by the document's expected links, each averaged over the documents that have links; documents are counted in the first group whose inclusive range contains their number of links, and in the everything group exactly once. The caller's arguments are left unchanged.",
 ["inputs", "configurations"], "every expected-link matrix, probability matrix, list of cut-offs (single numbers included) and list of groups, with overlapping, partial or missing ranges",
 "No test runs the function; the group bookkeeping and the cut-off boundary depend on the combination of groups, cut-offs and out-degrees.",
 ["sidetopics/model/evals.py"], [("mean_prec_rec_at", "sidetopics/model/evals.py")], [], ["return values"])

prop("C07", "The estimator lifecycle: what may be resumed, refused or forgotten",
 "A model refuses to transform or score before a fit has succeeded, and refuses to resume unless its previous call kept its state and is given that very same corpus; a refused call changes nothing. A call which does not keep its state forgets any earlier one, fitting then transforming with a kept state yields the same topics as fit-transform, and a resumed fit of a then b iterations starts from the kept state rather than from scratch. Copies of a model are independent of it.",
 ["histories", "configurations"], "every sequence of fit, transform, fit_transform and score calls with any flags and corpora, for every kind of model",
 "Existing tests run one straight sequence for each kind; the refusals and forgetting depend on histories of calls.",
 [SKL], [("TopicModel.fit/transform/score/fit_transform", SKL)],
 [("persisted query state", "per-document posterior kept between calls", SKL)], ["public estimator API: return values, exceptions, topic matrix"])

prop("C08", "Inferring topics for documents never changes the learned model",
 "Transforming or scoring documents, any number of times and in any order, leaves the topics reported by a fitted model exactly as they were, so that the same documents are given the same topics again when deterministic inference is repeated. Only fitting changes the topics.",
 ["histories", "inputs"], "every sequence of transform and score calls on every kind of working model (including the models reached through their own query functions)",
 "Tests never compare the model before and after a query.",
 [SKL, "sidetopics/model/lda_cvb0.py", "sidetopics/model/lda_cvb.py", "sidetopics/model/lda_vb_python.py", "sidetopics/model/lda_gibbs.py", "sidetopics/model/mom_em.py", "sidetopics/model/mom_gibbs.py", "sidetopics/model/dmr.py"],
 [("query()", "sidetopics/model/*.py")], [("model state", "topic-word counts or distributions", "sidetopics/model/*.py")], ["TopicModel.components_", "query() of each model module"])

prop("C09", "Scores are the documented function of likelihood, and refuse ambiguous requests",
 "A score is the log-likelihood of the given documents under their given or inferred topics; a perplexity score is exactly exp(-log-likelihood / word count) of the documents evaluated. Scoring refuses a call that gives both known topics and kept topics, or known topics where expectations are to be used; document completion infers topics from the first half of each document and evaluates only the second, and the log-likelihood of a point estimate is the sum over words of count times log of the topic mixture's probability.",
 ["inputs", "histories", "configurations"], "every corpus, kind of model, scoring method and combination of arguments",
 "Tests only check that scores improve by more than a threshold on one corpus.",
 [SKL, "sidetopics/model/evals.py", "sidetopics/model/lda_cvb0.py", "sidetopics/model/mom_em.py"],
 [("TopicModel.score", SKL), ("perplexity_from_like", "sidetopics/model/evals.py"), ("log_likelihood_point", "sidetopics/model/*.py")], [], ["TopicModel.score", "module log_likelihood_point functions"])

prop("C10", "The same seed, corpus and settings always give the same results",
 "Two models created with the same settings and the same seed, and put through the same calls on equal corpora, report the same topics, document mixtures and scores, whatever other models were trained before they were created.",
 ["histories", "inputs", "configurations"], "every kind of model and seed, and whatever else was trained in the same process before",
 "Tests run each model once; interference needs interleavings of several models over shared global generators.",
 [SKL, "sidetopics/model/lda_gibbs_fast.pyx", "sidetopics/model/lda_gibbs.py", "sidetopics/model/mom_gibbs.py"], [("seed handling in fit()", SKL)], [("global random generators", "numpy and native generators", "sidetopics/model/lda_gibbs_fast.pyx")], ["public estimator API"])

prop("C11", "Everything reported as a distribution is one",
 "Every row of the topic matrix, and every document's topic mixture, consists of non-negative finite numbers adding up to one with one row for each topic or document and one column for each word or topic, for every kind of model after any fit, resumed fit or transform.",
 ["inputs", "histories", "configurations"], "every corpus of non-empty documents, every number of topics (from two up) and iterations (from one up) and every kind of model",
 "Tests check shapes and sums on one corpus at large iteration counts.",
 [SKL, "sidetopics/model/"], [("wordDists / topicDists", "sidetopics/model/*.py")], [], ["TopicModel.components_", "TopicModel.transform"])

prop("C12", "Training, inference and evaluation never alter the caller's data",
 "Fitting, transforming, scoring, splitting and evaluating leave the matrices, labels, order, dictionaries, prior vectors and lists passed in, and the results already returned, exactly as they were, apart from the operations documented as in-place, which alter nothing but the corpus they are called on.",
 ["inputs", "histories"], "every public operation on every corpus and every sequence of operations",
 "No test compares an input before and after.",
 [COMMON, SKL, "sidetopics/model/evals.py"], [("copies taken by each module", "sidetopics/model/*.py")], [], ["argument arrays before and after"])

prop("C13", "Collapsed variational counts always agree with the token assignments",
 "After any number of iterations of collapsed variational training every token occurrence carries a topic distribution that sums to one, and the document-topic, word-topic and topic totals equal the sums of the occurrences they summarise: document rows add to document lengths and word rows to word frequencies. Each sweep moves every occurrence to the documented proportion of the counts with that occurrence left out, and queries hold the trained counts fixed underneath their own.",
 ["inputs", "histories", "configurations"], "every corpus, number of topics, priors, iterations and sequence of fits, resumed fits and queries",
 "Tests check only that perplexity and inferred topics are reasonable for one corpus; a leak of counts is invisible there.",
 ["sidetopics/model/lda_cvb0.py", "sidetopics/model/lda_cvb0_fast.pyx", "sidetopics/model/lda_cvb.py", "sidetopics/model/lda_cvb_fast.pyx"],
 [("iterate_f32/iterate_f64", "sidetopics/model/lda_cvb0_fast.pyx"), ("train/query", "sidetopics/model/lda_cvb0.py")],
 [("n_dk, n_kt, n_k, z_dnk", "expected counts and token distributions", "sidetopics/model/lda_cvb0.py")], ["train()/query() return values"])

prop("C14", "Gibbs sampling visits tokens with the right conditional and averages the right samples",
 "Each sweep of the collapsed sampler leaves every token with exactly one valid topic and counts that tally with the assignments; a training plan of given iterations, burn-in and thinning averages precisely the samples that plan prescribes. Over many sweeps the frequency of every assignment agrees with the exact posterior of the model computed by enumeration.",
 ["inputs", "schedules", "configurations"], "every corpus, number of topics, priors, iteration/burn-in/thinning plan and sequence of random draws",
 "A sampler with a slightly wrong conditional still passes tests based on perplexity; only comparison with the exact posterior, or exact count bookkeeping, tells.",
 ["sidetopics/model/lda_gibbs.py", "sidetopics/model/lda_gibbs_fast.pyx", "sidetopics/model/mom_gibbs.py"],
 [("sample()", "sidetopics/model/lda_gibbs_fast.pyx"), ("train()", "sidetopics/model/lda_gibbs.py")],
 [("n_dk, n_kv, n_k", "counts", "sidetopics/model/lda_gibbs_fast.pyx")], ["train()/query() return values", "sample()"])

prop("C15", "Mixture-of-multinomials training conserves mass and implements its updates",
 "Each variational step of the mixture model assigns every document a distribution over topics proportional to its prior weight times the product of its words' expected probabilities, and each learning step sets topic and word parameters to the priors plus the documents and words so assigned, so total parameter mass equals the prior mass plus the documents and words seen. The sampled variant gives every document one topic at a time, drawn so that over many sweeps assignments agree with the exact posterior of the model; training reports its last draw, and queries average exactly the draws that the plan of iterations, burn-in and thinning prescribes.",
 ["inputs", "configurations"], "every corpus, number of topics, prior and number of iterations",
 "Tests compare perplexity on one corpus with a threshold.",
 ["sidetopics/model/mom_em.py", "sidetopics/model/mom_gibbs.py"], [("train/query", "sidetopics/model/mom_em.py")], [("wordDists, corpusTopicDist", "Dirichlet parameters", "sidetopics/model/mom_em.py")], ["train()/query() return values"])

prop("C16", "Variational LDA conserves mass and follows its mini-batch schedule",
 "Batch variational training ends with topic-word parameters whose total is the prior mass plus every word of the corpus, and document parameters whose total is the prior plus the document's length; no step lowers the evidence bound, and the bound reported is the evidence bound of the parameters reached. Mini-batch training visits documents in cyclic order in batches of the requested size, and after its b-th batch moves the topics the fraction (b + delay)^-forgetting (at most all) of the way to the estimate made from that batch; inference on new documents leaves the topics as they were.",
 ["inputs", "schedules", "configurations"], "every corpus, number of topics, priors, batch size, step schedule and number of iterations",
 "Tests check perplexity on one corpus in batch mode only.",
 ["sidetopics/model/lda_vb_python.py"], [("train/query", "sidetopics/model/lda_vb_python.py")], [("wordDists/topicDists", "Dirichlet parameters", "sidetopics/model/lda_vb_python.py")], ["train()/query() return values"])

prop("C17", "Training runs the requested number of iterations, whatever is logged",
 "A request for n iterations performs exactly n sweeps, for every logging frequency including none and including one larger than n; only models that document an early stop on convergence, and only when they log, may stop sooner, and then no sooner than documented (perplexity falls by less than one after iteration 50, or 30 for LDA_CVB). Turning logging on or off otherwise never changes the trained model. Logged points are recorded at the prescribed iterations in increasing order.",
 ["configurations", "inputs"], "every pair of iteration count and logging frequency for every kind of model",
 "Tests use one pair.",
 ["sidetopics/model/lda_cvb0.py", "sidetopics/model/lda_cvb.py", "sidetopics/model/lda_vb_python.py", "sidetopics/model/mom_em.py", "sidetopics/model/mom_gibbs.py"], [("train()", "sidetopics/model/*.py")], [], ["train() return values"])

prop("C18", "Feature-dependent topic counts stay consistent (Dirichlet-multinomial regression)",
 "Training the feature-dependent model gives every token exactly one valid topic, with document, topic and word counts that tally with the samples taken, and each document a prior that is the exponential of its features weighted per topic; over many sweeps assignments agree with the exact posterior under those priors. At the planned intervals the weights of each topic become the most probable given the samples since and their Gaussian prior. Querying leaves the learned weights and topics unchanged, and everything reported as a distribution is one.",
 ["inputs", "configurations"], "every corpus with features, number of topics and iterations",
 "The repository has a single non-stable experiment for it.",
 ["sidetopics/model/dmr.py", "sidetopics/model/dmr_fast.pyx"], [("train/query/sample", "sidetopics/model/dmr.py")], [], ["train()/query() return values"])

prop("C19", "Vec-transpose and its permutation matrix are the documented rearrangements",
 "The vec-transpose of a matrix rearranges exactly the documented elements: column c of a matrix of r-row columns becomes rows, with p consecutive elements forming a row of the result, for dense and sparse input of every element type and layout alike, and rearranging twice with the same size restores the original. The vec-transpose permutation matrix times the stacked columns of any matrix gives the stacked columns of its transpose.",
 ["inputs"], "every matrix shape whose row count is divisible by p, every dtype, dense, Fortran-ordered or sparse",
 "Existing tests use one size for each type.",
 ["sidetopics/util/vectrans.py", "sidetopics/util/vt_fast.pyx"], [("vec_transpose, vec_transpose_csr, sp_vec_trans_matrix", "sidetopics/util/vectrans.py")], [], ["return values"])

prop("C20", "Sparse element-wise products touch exactly the stored elements asked for",
 "Each sparse element-wise operation (quotient by a product of factors, product with its log, scalar product with log, for whole matrices or a window of rows) equals the dense computation at every stored element within the window, leaves the operands and the sparsity pattern alone, gives the same result for single and double precision and in place or out of place; the result for a window has the stored elements of the window's rows.",
 ["inputs", "configurations"], "every sparsity pattern, shape, dtype, output target and row window",
 "One test covers one operation on one full matrix.",
 ["sidetopics/util/sparse_elementwise.py", "sidetopics/util/se_fast.pyx"], [("sparseScalarQuotientOfDot, sparseScalarProductOf*", "sidetopics/util/sparse_elementwise.py")], [], ["return values, output arrays"])

prop("C21", "Overflow-safe numerics agree with exact arithmetic at every magnitude",
 "Normalising exponentials gives the exact proportions however large or small the inputs, log-sum-exponentials are exact whenever they can be represented, both follow when a constant is added to the inputs, they work in place where documented, and safe logarithms never produce a non-finite value while agreeing with the exact one for positive inputs. Sigmoid-based sums agree with exact values with and without compiled support.",
 ["inputs"], "every vector and matrix, of any magnitude, dtype and memory layout",
 "No stable test runs them; failures need extreme magnitudes or particular layouts.",
 ["sidetopics/util/overflow_safe.py", "sidetopics/util/sigmoid_utils.py", "sidetopics/util/misc.py"], [("rowwise_softmax, lse, safe_log", "sidetopics/util/overflow_safe.py")], [], ["return values"])

prop("C22", "Expanding a bag of words into tokens keeps the bag",
 "Turning a document-word matrix into token lists gives each document exactly its number of tokens, each word appearing exactly as often as it was counted, with offsets and lengths that delimit documents without gap or overlap; requested shuffling changes only the order within a document. Tallying tokens by topic counts each token exactly once.",
 ["inputs"], "every document-word matrix including documents of one word, repeated words and words never used, and every dtype",
 "Only indirectly exercised on one corpus.",
 ["sidetopics/model/lda_cvb0.py", "sidetopics/model/lda_gibbs.py", "sidetopics/model/lda_gibbs_fast.pyx", "sidetopics/model/lda_cvb_fast.pyx", "sidetopics/model/dmr.py"], [("toWordList, flatten, LdaGibbs query state", "sidetopics/model/*.py")], [], ["newQueryState()"])

prop("C23", "Selecting users yields whole users of every group, once each",
 "Reading the table of users keeps, for every group, exactly the users whose number of messages lies strictly between the bounds, with the counts of their files added up. The shares of groups never exceed what they have; groups that are not used up give the same amount and used-up ones no more than that, and the shares come to the requested total (to within one for each group) or to everything there is. Choosing users takes whole users only, each once and only those on offer, none more than is needed to reach the share of their group (the most prolific first when sorting), until it is reached or no user of the group is left. All of it terminates, and the tables given are left alone.",
 ["inputs", "schedules"], "every table of users, groups and amounts, every pair of bounds and every requested total",
 "No stable test; termination, shortfalls and duplicates depend on how supplies compare with the total asked for.",
 ["sidetopics/run/selectusers.py"], [("select_group_contribs", "sidetopics/run/selectusers.py")], [], ["return values"])

prop("C24", "Experiment results are parsed and averaged without loss",
 "Parsing a log of experiments yields every reported run with each of its measures (perplexity, precision and recall at every cut-off and group, mean reciprocal rank, mean average precision) attached to its own run, settings and fold; a run may lack measures. Averages of a group of documents over narrower groups are weighted by their numbers of documents, and averages over folds are over exactly the folds present. The table written has one row for each run, group and cut-off with those very values and settings, so that no run is dropped, repeated or attached to another's settings.",
 ["inputs", "histories"], "every sequence of result blocks, numbers of folds, cut-offs and groups",
 "No stable test; the parser is a state machine driven by the order of lines.",
 ["sidetopics/run/reshape_results.py"], [("parse and roll_up functions", "sidetopics/run/reshape_results.py")], [], ["output rows"])

prop("C25", "Bibliography records and author names are converted exactly",
 "Reading bibliography metadata yields every key with its value, continued lines joined, up to the abstract of each record, for every record in turn; records that lack a part are refused with an error. Parenthesised remarks and accents are removed from author lists, which are divided at commas and at the word and; names are turned into a canonical form, the surname first with its particle or suffix, that doesn't depend on spacing, so that one author written in equivalent ways gets one identifier. The records written list each paper's own authors, and the identifiers written are unique, in order and numbered from one.",
 ["inputs"], "every well-formed bibliography text and author list",
 "No stable test; a tokenizer must hold for every input text.",
 ["sidetopics/run/arxiv_to_aan.py", "sidetopics/run/arxiv_author_ids.py"], [("read_next_key_value, author parsing", "sidetopics/run/arxiv_to_aan.py")], [], ["return values"])

prop("C26", "Similarity recommenders rank exactly the candidates they score",
 "Similarity-based link recommendation scores every pair of documents by the cosine of their tf-idf weights, or by the inverse of the (Hellinger) distance of their topic mixtures, as configured; the threshold of each document is the score of its worst expected link (or none), exactly the candidates that reach a document's threshold are kept with their scores, and so none of the expected links is ever lost. Lists of documents select the rows of the result. Training and recommending never alter the corpus, and queries never alter the model.",
 ["inputs", "configurations"], "every corpus with links, similarity method and threshold",
 "The module has no stable test.",
 ["sidetopics/model/sim_based_rec.py"], [("train, query, link_probs, min_link_probs", "sidetopics/model/sim_based_rec.py")], [], ["return values"])

prop("C27", "Correlated and feature-driven topic models keep proper mixtures, learn each topic's words from them, and measure what they have learnt",
 "After any number of training sweeps and any query, the correlated topic models (plain, with Bohning's bound, the gradient variant) and those driven by documents' features (the same, and the vectorised one) have topics that are distributions over words, and mixtures of documents that are exactly the softmax of their inferred means; every sweep gives each topic the words that it is expected to account for under the mixtures and topics before it, plus the prior; the log likelihood reported is that of the mixtures and topics. Measurements taken in training are of the model at the sweep they name, with one bound and one likelihood each, as many as asked for; neither measuring nor debugging changes what is learnt. Training is repeatable from a seed, can be done in parts, and does not depend on the order of documents, words or (where topics are exchangeable) topics. Queries leave the model and corpus alone, treat documents independently and can be made in parts, and give a document without words the mixture that its prior or features imply; the bound leaves the means alone; copies of a model are equal and share nothing with it.",
 ["inputs", "histories", "configurations"], "every corpus with or without features (dense, sparse), number of topics, prior, covariance (full, diagonal), precision, number of sweeps and measuring interval, and sequence of training and queries",
 "No stable test trains these models.",
 ["sidetopics/model"], [("train, query, topicDists, log_likelihood, var_bound", "sidetopics/model/" + f) for f in ("ctm.py", "ctm_bohning.py", "ctm_grad_arb.py", "stm_yv.py", "stm_yv_bohning.py", "stm_uv_vecy_bohning.py")], [], ["model and query state", "return values"])

prop("C28", "Experiments measure a fresh model on documents it was not trained on, and report and save exactly what they measured",
 "Whatever the model, corpus and settings, and whichever step of whichever fold fails, an experiment run from the command line or in code trains, in each fold, a fresh copy of the sample model on that fold's training part (words, features and links as given, in the type asked for) and no other, as planned; asks it only about what was held out (half of the words of held-out documents, or all when there are features; documents some of whose tags are taken away; links taken out of the training links; documents with a feature that the training documents lack), and evaluates those answers against what was kept back. The perplexities, precisions and recalls at every cut-off and for every group, mean reciprocal ranks and mean average precisions printed for a fold are those of that fold; overall ones are over the documents of all finished folds. A fold that fails adds nothing to totals and leaves no file, and the others go on; no more folds are run than asked for. When asked to save, every finished fold has one file, named by model, size and fold, with the order of the documents, that fold's model, topics and measurements, and exactly the files made are returned. The sample model and the documents are not changed. On the command line the model named is the one used, with the settings, types, limits, features, iterations and trained LDA model given, on documents of three or more distinct words; a trained model of other documents is refused. Tags chosen are the most popular ones, and moving tags out of documents loses none.",
 ["inputs", "histories", "faults", "configurations"], "every corpus with or without features and links, model, type of evaluation, number of folds, limit on folds, settings, and failure of any step in any fold",
 "No stable test runs an experiment.",
 ["sidetopics/run/__main__.py"], [("run, cross_val_and_eval_perplexity, cross_val_and_eval_hashtag_prec_at_m, cross_val_and_eval_tag_prec_rec_at_m, link_split_map, link_split_prec_rec, insample_lro_style_prec_rec, outsample_lro_style_prec_rec, save_model, combine_map, soft_split_on_indices, popular_indices", "sidetopics/run/__main__.py")], [], ["calls made of the model", "printed results", "files", "return values"])
prop("C29", "A report gathers exactly the outputs of its own configuration, and converted tables hold the numbers of their text",
 "Reports are written for those configurations asked for (model, bound, number of topics and latent dimensions) of which experiments have left files under the names that they give them, with or without the number of dimensions for models that have none, and for no others: each names every file of its configuration, whatever its fold and date, once, and no file of another configuration, model or kind; it is made from the right template, built in or given, for the model and dataset, names its bound, its module, the folder of the files and that of the code. The number of files of each configuration asked for is returned, or from the command line the reports written; unknown models, or a dataset without a template, are refused before anything is written. Outputs, other reports, and conversion files that are already there are left alone; missing conversion files are copied. A text of numbers is converted, beside it, to a matrix with the same numbers, dense or sparse, in whole numbers if there are only such in it and otherwise in single precision; if it hasn't the number of lines counted, or a line has too many or too few numbers, it is refused and nothing is written.",
 ["inputs", "configurations"], "every folder of experiments' outputs, request for reports, and text of numbers",
 "The tests of the report generator fail at this commit; the conversion has none.",
 ["sidetopics/run/report_generator.py", "sidetopics/run/text_to_numpy.py"], [("run, generate_reports_ctm, generate_reports_stm_yv, _generate_report", "sidetopics/run/report_generator.py"), ("save_as_numpy, save_as_numpy_sparse, read_wc_l_output", "sidetopics/run/text_to_numpy.py")], [], ["files", "return values"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
