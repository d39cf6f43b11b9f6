"""The properties, in one place: gen_meta.py writes properties.jsonl and MANIFEST.json from it."""

SK = "sidetopics/model/sklearn/lda_cvb.py"
COMMON = "sidetopics/model/common.py"
KINDS = "all model kinds reachable through TopicModel (lda_cvb0, lda_cvb, lda_vb_python, lda_gibbs, mom_em, mom_gibbs)"

P = []


def prop(id, title, statement, over, quant, why, files, mechanism, technique, note, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                  files=files, mechanism=mechanism, technique=technique, note=note,
                  state=list(state), observe=list(observe)))


prop("C01", "Trained and inferred topic models are valid probability distributions",
     "After training, resumed training or inference on any valid corpus, with any number of topics, priors, "
     "iterations and seed, every topic's word distribution, every document's topic distribution and (for mixture models) the corpus "
     "topic distribution has finite, non-negative entries summing to one, one row per topic or document. "
     "This holds for the estimator's CVB, CVB0, Python variational LDA, Gibbs LDA and mixture (EM, Gibbs) kinds and for the same trainers called directly, "
     "in double (CVB and CVB0 also single) precision; empty documents and words that never occur included where the trainer accepts them.",
     ["inputs", "configurations", "histories"],
     "every corpus of counts, every model kind, K, prior, iteration count, dtype and seed",
     "The tests train a few kinds on one fixed corpus and only look at perplexity trends; a normaliser that is wrong for some shapes, priors or empty rows passes.",
     [SK, "sidetopics/model/lda_cvb.py", "sidetopics/model/lda_cvb0.py", "sidetopics/model/lda_gibbs.py",
      "sidetopics/model/lda_vb_python.py", "sidetopics/model/mom_em.py", "sidetopics/model/mom_gibbs.py"],
     [("wordDists / topicDists", "every trainer module"), ("TopicModel.fit_transform / transform", SK)],
     "property-based testing (Hypothesis): generated corpora and configurations against a distribution predicate",
     "random search over small corpora; no claim beyond the cases generated")

prop("C02", "Inference and scoring never change the trained model or the caller's data",
     "Transforming, scoring or querying with a trained model, on the training data or on other documents, leaves the "
     "model's topic-word and topic distributions, assignments already returned, the state of earlier queries (other than one that is resumed) and the input matrices exactly as they were, "
     "however many queries are run. Repeating a query from the same initial state and seed gives the same answer as the first time.",
     ["histories", "inputs"],
     "every sequence of fit / transform / score / predict / find_components calls, every model kind",
     "The tests make a single transform or score call after fit and never look at the model again, so a query that learns, or writes into the training data, is invisible.",
     [SK, "sidetopics/model/lda_vb_python.py", "sidetopics/model/lda_cvb_fast.pyx", "sidetopics/model/lda_cvb0_fast.pyx",
      "sidetopics/model/lda_gibbs_fast.pyx", "sidetopics/model/mom_em.py"],
     [("query", "every trainer module"), ("TopicModel.transform/score", SK)],
     "stateful property-based testing: generated call histories with snapshot comparison after every call",
     "histories of a few calls over small corpora; bit-for-bit snapshots")

prop("C03", "Collapsed variational trainers conserve token counts",
     "For the collapsed variational trainers (CVB and CVB0), after any sequence of training, continued training (with a new query state for the corpus) and querying, each document's expected "
     "topic counts sum to its length, the topic-word counts sum over topics to each word's frequency in the trained corpus, and the overall topic counts equal the margins of both. "
     "Splitting a run into logging segments, or training zero iterations, loses and duplicates no token, and a query adds nothing to the corpus counts.",
     ["inputs", "histories", "configurations"],
     "every corpus, K, iteration count, logging frequency, dtype, and every sequence of train/query calls",
     "Tests compare perplexities only; a count subtracted once and added twice drifts slowly and still improves perplexity.",
     ["sidetopics/model/lda_cvb.py", "sidetopics/model/lda_cvb0.py", "sidetopics/model/lda_cvb_fast.pyx", "sidetopics/model/lda_cvb0_fast.pyx"],
     [("iterate_f32 / iterate_f64 / query_*", "sidetopics/model/lda_cvb_fast.pyx, lda_cvb0_fast.pyx"),
      ("train / query", "sidetopics/model/lda_cvb.py, lda_cvb0.py")],
     "property-based testing: conservation invariants over generated corpora and call sequences",
     "counts compared with a tolerance relative to corpus size",
     state=[("n_dk, n_kt, n_k", "expected counts", "query and model state")])

prop("C04", "CVB and CVB0 follow the collapsed variational update",
     "Starting from a given state, one or more training or query iterations of CVB0 (and of CVB with its second-order correction) produce, document by document and in document "
     "order, exactly the responsibilities and counts of the published collapsed variational update with a symmetric topic prior (the mean of the prior given), up to floating point. Querying applies the "
     "same update with the corpus counts held fixed. The distributions reported are those counts normalised (CVB's topics with the vocabulary prior added). The bound of any assignment is the expected log joint at its counts plus its entropy: log p(w, z) where every token has its topic for certain.",
     ["inputs", "configurations"],
     "every corpus, starting assignment, prior, K, iteration count, dtype",
     "Any fixed-point iteration that increases likelihood on one corpus passes; tests never compare with the update they claim to implement.",
     ["sidetopics/model/lda_cvb0_fast.pyx", "sidetopics/model/lda_cvb_fast.pyx", "sidetopics/model/lda_cvb0.py", "sidetopics/model/lda_cvb.py"],
     [("iterate_f32/f64, query_f32/f64", "sidetopics/model/lda_cvb0_fast.pyx, lda_cvb_fast.pyx")],
     "differential property-based testing against a straightforward reference implementation",
     "reference written from the published update; small corpora; float tolerance")

prop("C05", "Variational LDA and EM mixture estimates satisfy their update equations",
     "One batch iteration of the Python variational LDA, and one EM iteration of the mixture-of-multinomials model, equals the textbook update computed directly from the data and the previous parameters; "
     "querying performs the same document step with the topics held fixed. The variational bound of the mixture model (Dirichlet priors on proportions and words) never decreases. The topics of these models and of the mixture sampler start from one count of each word plus whole documents, drawn at random until they hold a thousand words. The document step may stop early once its parameters move by less than 0.001 on average. When the variational LDA learns from mini-batches, each step blends the topics, with a rate (b + delay)^-forgetting of at most one, with those that the batch would give if it were scaled up to the whole corpus.",
     ["inputs", "configurations"],
     "every corpus, parameters, prior, K and iteration count",
     "Tests look only at one corpus and one trend; a mis-indexed prior or mis-normalised responsibility still improves fit.",
     ["sidetopics/model/lda_vb_python.py", "sidetopics/model/mom_em.py"],
     [("train/query", "sidetopics/model/lda_vb_python.py"), ("train/query", "sidetopics/model/mom_em.py")],
     "differential property-based testing against an explicit reference, plus a monotonicity relation",
     "small corpora; float tolerance")

prop("C06", "Gibbs samplers draw from the exact posterior",
     "Averaged over long runs, the collapsed Gibbs LDA sampler and the mixture-of-multinomials Gibbs sampler estimate the topic proportions and co-assignment probabilities that exact enumeration of the posterior gives on tiny corpora. "
     "Querying draws from the posterior given the fixed topics and, for mixtures, the topic prior and the query documents only. The LDA sampler's count tables always agree with its token assignments, and its reported statistics equal burn-in and thinning applied as requested.",
     ["inputs", "configurations"],
     "every tiny corpus for which the posterior can be enumerated, every prior; every corpus for the bookkeeping",
     "A sampler that forgets to remove the current token, or weights the prior wrongly, still yields plausible topics on a single corpus.",
     ["sidetopics/model/lda_gibbs.py", "sidetopics/model/lda_gibbs_fast.pyx", "sidetopics/model/mom_gibbs.py"],
     [("sample", "sidetopics/model/lda_gibbs_fast.pyx"), ("train/query", "sidetopics/model/mom_gibbs.py")],
     "property-based testing with a statistical oracle: exact posterior by enumeration over generated tiny corpora",
     "tolerances wide enough for Monte Carlo error at the number of samples used")

prop("C07", "Scores, likelihoods and perplexities equal the probability the model assigns",
     "For every model kind, the reported point-estimate log likelihood of the corpus equals the log probability of the observed word counts under the reported topic and word distributions (a document-level mixture for mixture models, a word-level mixture otherwise; wrapped scikit-learn and HDP models and document completion included), and "
     "perplexity equals exp(-log likelihood / number of tokens). Scoring a set of documents equals the sum of scoring its parts from the same topic assignments.",
     ["inputs", "configurations"],
     "every corpus, trained or constructed model, score method, and every split of the documents",
     "Tests check that perplexity falls, never its value; a dropped log, a wrong normaliser or a miscounted token passes.",
     [SK, "sidetopics/model/evals.py", "sidetopics/model/lda_cvb.py", "sidetopics/model/lda_cvb0.py", "sidetopics/model/lda_gibbs.py",
      "sidetopics/model/lda_vb_python.py", "sidetopics/model/mom_em.py", "sidetopics/model/mom_gibbs.py"],
     [("score", SK), ("log_likelihood_point / log_likelihood / perplexity_from_like", "trainer modules and evals.py")],
     "differential property-based testing against direct evaluation of the probability",
     "direct evaluation in double precision; float tolerance")

prop("C08", "Same seed, same data, same result",
     "Fitting, transforming and scoring with the same data, parameters and seed gives identical models, topic assignments and scores each time, whatever else was trained or sampled in the process before. "
     "Different seeds reach the random initialisation.",
     ["histories", "configurations"],
     "every model kind, corpus, seed, and every interleaving of other work before and between the two runs",
     "Tests run each configuration once in a fresh process.",
     [SK, COMMON, "sidetopics/model/lda_gibbs.py"],
     [("seed handling", SK)],
     "metamorphic property-based testing: two runs with generated unrelated work in between",
     "small corpora and iteration counts")

prop("C09", "Estimator life cycle: resume, persisted queries and refused calls",
     "Over any sequence of calls the estimator follows its documented life cycle: a second fit refines the first one's model, the query state is kept exactly when asked for, resuming (only with the same dataset object) continues from the kept state as if the run had never stopped, "
     "and copies behave as the original. Calls that the documentation rules out (using an unfitted model, resuming without kept state, contradictory or unknown score arguments) raise an error instead of returning a number, and leave the model and kept state as they were.",
     ["histories", "configurations"],
     "every sequence of fit / resume / transform / score / copy calls with every combination of flags",
     "Tests exercise two or three fixed call orders.",
     [SK],
     [("fit/fit_transform/transform/score/copy", SK)],
     "stateful (model-based) property-based testing against a model of the life cycle",
     "sequences of up to about eight calls",
     state=[("persisted query state, counters", "what resume continues from", SK)])

prop("C10", "Model copies are complete and independent",
     "A model created from an existing one (directly, by copying an estimator, or by copying a query state) holds the same values in every field, and later training or in-place changes of either side never show in the other.",
     ["histories", "inputs"],
     "every trainer module, every trained state, every later mutation",
     "No test copies a model; a shared or swapped array only shows after the original is trained further.",
     ["sidetopics/model/lda_cvb.py", "sidetopics/model/lda_cvb0.py", "sidetopics/model/lda_gibbs.py", "sidetopics/model/lda_vb_python.py",
      "sidetopics/model/mom_em.py", "sidetopics/model/mom_gibbs.py", "sidetopics/model/ctm.py", "sidetopics/model/stm_yv.py", "sidetopics/model/dmr.py"],
     [("newModelFromExisting", "every trainer module")],
     "property-based testing: copy, compare every field, mutate, compare again",
     "every module that offers the function and can build a model")

prop("C11", "Word-list form of a corpus is lossless",
     "Turning a document-term matrix into per-document word lists and counts (or flattened token lists) and back gives the same matrix: every token once, each under its own document and word, with document lengths equal to row sums. "
     "This holds for empty documents and every input type offered; other types are refused.",
     ["inputs"],
     "every non-negative integer matrix, dtype and batch of rows",
     "Tests never call these helpers directly; an off-by-one at an empty row shifts every following document silently.",
     ["sidetopics/model/lda_cvb.py", "sidetopics/model/lda_vb.py", "sidetopics/model/lda_gibbs_fast.pyx", "sidetopics/model/lda_vb_python.py"],
     [("toWordList", "sidetopics/model/lda_cvb.py"), ("flatten", "sidetopics/model/lda_gibbs_fast.pyx")],
     "property-based testing: round trip over generated matrices",
     "exact comparison")

prop("C12", "Results do not depend on how the corpus is stored or ordered",
     "Trained models, topic assignments and scores depend only on the counts: storing the same matrix with another supported dtype or with explicit zeros gives the same result. Nor does it matter how a prior is written: as any kind of number, or as a vector of it. For the models that infer each document on its own "
     "(Python variational LDA, EM mixture) and for scores of given topic assignments, so does storing column indices unsorted and passing documents in another order (correspondingly permuted), or alone; token-by-token trainers (CVB, CVB0, Gibbs) visit tokens in stored order.",
     ["inputs", "configurations"],
     "every corpus, representation and document permutation, for each model kind where the computation is order-free",
     "Tests use one freshly built canonical CSR matrix.",
     [SK, COMMON, "sidetopics/model/lda_cvb.py", "sidetopics/model/lda_vb_python.py", "sidetopics/model/mom_em.py", "sidetopics/model/evals.py"],
     [("toWordList", "sidetopics/model/lda_cvb.py"), ("query", "trainer modules")],
     "metamorphic property-based testing",
     "float tolerance where summation order may change")

prop("C13", "Cross-validation folds partition the documents and stay aligned",
     "For any dataset and number of folds F, every fold's query set has ceil(D/F) documents, its training set is exactly the complement, and together the query sets cover every document: exactly once when F divides D, with the last folds wrapping round to the first documents "
     "otherwise. In each part the words, features, links, categories and order entry of a row all belong to the same document, and the dataset being split is left as it was.",
     ["inputs", "configurations"],
     "every dataset with any combination of side information, every fold count and fold index",
     "No test calls the splitters; a document in both halves inflates every reported score silently.",
     [COMMON],
     [("cross_valid_split / folded_split", COMMON)],
     "property-based testing with row-identifying data: partition and alignment invariants",
     "exact comparison")

prop("C14", "Document completion splits conserve every token",
     "Splitting documents into an observed and a held-out part keeps every word count non-negative and the two parts sum to the original counts, row by row, with side information unchanged and rows aligned between the two parts. "
     "The same seed gives the same split.",
     ["inputs", "configurations"],
     "every dataset, split proportion and seed, including zero counts, one-word documents and large counts",
     "No test calls it; a count rounded below zero or lost only changes perplexity slightly.",
     [COMMON],
     [("doc_completion_split", COMMON)],
     "property-based testing: conservation laws over generated datasets",
     "exact comparison of counts")

prop("C15", "Dataset transformations keep all parts of a document together",
     "Reordering, pruning, copying, limiting, subsetting and combining operations on a dataset in any sequence always keep words, features, links, categories and order of a document together, change only what they are documented to change, "
     "and deep copies share no storage with the original; parts with different numbers of documents are refused. Conversions (dtype, intercept, undirected, binary or bibliographically coupled links) produce exactly the documented values.",
     ["histories", "inputs"],
     "every sequence of dataset operations on datasets with any combination of parts",
     "Tests never chain these operations; row misalignment produces no error, only wrong science.",
     [COMMON],
     [("DataSet methods", COMMON)],
     "stateful (model-based) property-based testing against a list-of-records model",
     "sequences of up to about eight operations")

prop("C16", "Splitting a link graph conserves its links",
     "Splitting links into a training and a query part puts every link with its weight in exactly one of the two and invents none. A directed random split cuts in half, a symmetric split keeps both parts symmetric, and a folded split gives each document that has the minimum number of links "
     "an equal share (1/folds, rounded down) of its links in the query part, no link in two folds, while documents with fewer keep all of theirs in training. Words, features, categories and order are untouched.",
     ["inputs"],
     "every directed or symmetric link matrix, seed and minimum link count",
     "No test calls it.",
     [COMMON],
     [("link_prediction_split / _split / _split_symm", COMMON)],
     "property-based testing: conservation laws over generated link graphs",
     "exact comparison")

prop("C17", "Feature splits and vocabulary pruning keep exactly what they promise",
     "Splitting a dataset on features sends each document to exactly the right side, and pruning words below a frequency (or dropping columns) keeps exactly the qualifying columns, in order, with their counts and dictionary entries unchanged.",
     ["inputs", "configurations"],
     "every dataset, set of features, threshold, with or without dictionary and side information",
     "No test calls these.",
     [COMMON],
     [("split_on_feature / words_with_min_freq / dropcols", COMMON)],
     "property-based testing against a direct reference",
     "exact comparison")

prop("C18", "Saved datasets load back as they were",
     "Words, features, links, categories and dictionaries written to disk load back with the same values and alignment, whatever their stored type or format; a row order or a limit given on loading selects exactly those documents in every part (rows and columns of a square link matrix), "
     "and the dictionary statistics offered for a dataset (documents per word, number of documents and tokens) are those of its words.",
     ["inputs", "configurations"],
     "every dataset with any subset of files, every order or limit",
     "No test loads a dataset from files.",
     [COMMON],
     [("from_files, gensim_dictionary", COMMON)],
     "property-based testing: round trip through files in a scratch directory",
     "exact comparison")

prop("C19", "Ranking metrics match their definitions",
     "Mean average precision, mean reciprocal rank and precision and recall at M equal their textbook definitions on any expected and estimated link matrices, lie in [0, 1], do not depend on entries outside the evaluated documents and never modify their arguments.",
     ["inputs"],
     "every pair of expected and estimated link matrices and every choice of cut-offs",
     "No test computes a metric by hand; a precision divided by the wrong count still looks plausible.",
     ["sidetopics/model/evals.py"],
     [("mean_average_prec, mean_prec_rec_at, mean_reciprocal_rank", "sidetopics/model/evals.py")],
     "differential property-based testing against brute-force definitions",
     "float tolerance 1e-9")

prop("C20", "Sparse element-wise kernels agree with the dense formula",
     "Each sparse kernel (quotient or product with a dot product, safe-log product, row ranges, output arguments, single, double and integer types, compiled or interpreted) returns exactly the values of the dense formula on the stored entries of its sparse operand, keeps its sparsity pattern and "
     "changes nothing but the output it was given. The dense sums in the same module (entropy of products, scaled log-one-plus-exp, self soft dot, log-sum-exp) equal their definitions.",
     ["inputs", "configurations"],
     "every sparse matrix with empty rows and unsorted indices, dtype, row range and output argument",
     "One test prints a difference without asserting on it; row ranges and output arguments are never exercised.",
     ["sidetopics/util/sparse_elementwise.py", "sidetopics/util/se_fast.pyx"],
     [("kernels", "sidetopics/util/se_fast.pyx"), ("dispatch by dtype", "sidetopics/util/sparse_elementwise.py")],
     "differential property-based testing against dense numpy",
     "float tolerance per dtype")

prop("C21", "Overflow-safe functions are accurate and never overflow",
     "The overflow-safe logarithms, log-one-plus-exp, x log x and determinant helpers return finite values within stated accuracy of the exact function over the whole range of finite inputs, including zero and both sides of every internal switch point. "
     "They change their argument only when asked to work in place.",
     ["inputs"],
     "every array of finite doubles and singles; every positive definite matrix of moderate size",
     "No test; an error near one switch point cannot be found with a handful of values.",
     ["sidetopics/util/overflow_safe.py", "sidetopics/util/se_fast.pyx"],
     [("piecewise approximations", "sidetopics/util/overflow_safe.py")],
     "differential property-based testing against numpy's accurate primitives, with branch-point boundary generation",
     "relative accuracy 1e-7 (double), absolute 1e-6 (single)")

prop("C22", "Softmax and soft-dot helpers equal their definitions",
     "Row-wise and column-wise softmax always give distributions equal to the exact softmax, unaffected by adding a constant and by extreme entries; self soft dot and its weighted form equal the (weighted) sum of row dot products for every dtype of matrix and weights. Output arguments receive the result and inputs stay unchanged otherwise.",
     ["inputs", "configurations"],
     "every real matrix including extreme values, dtype combination, output argument",
     "No test calls them; the weighted form ignored its weights unnoticed.",
     ["sidetopics/util/sigmoid_utils.py", "sidetopics/util/sig_fast.pyx"],
     [("selfSoftDot_*", "sidetopics/util/sig_fast.pyx"), ("rowwise_softmax", "sidetopics/util/sigmoid_utils.py")],
     "differential and metamorphic property-based testing",
     "float tolerance per dtype")

prop("C23", "Vec-transpose obeys its algebra for dense and sparse matrices",
     "Vec-transpose with scale p of any dense or sparse matrix equals stacking the column-wise reshapes, applying it twice gives back the original, and the vec-transpose matrix T satisfies T vec(A) = vec(A') and is the inverse of the one for the transposed shape.",
     ["inputs"],
     "every shape divisible by p, dtype, sparsity pattern",
     "Tests use a few square examples; the integer fallbacks raised unnoticed.",
     ["sidetopics/util/vectrans.py", "sidetopics/util/vt_fast.pyx"],
     [("vec_transpose, vec_transpose_csr, sp_vec_trans_matrix", "sidetopics/util/vectrans.py")],
     "property-based testing of algebraic laws and a reference definition",
     "exact comparison")

prop("C24", "Convergence test and array utilities do what they document",
     "Convergence is reported exactly when at least two measurements exist, the minimum number of iterations has passed, and the angle of the last bound change is below the threshold; measurements not yet made are ignored. "
     "Clamping, constant arrays, densifying and in-place row normalisation give exactly the documented values and types without touching other arguments.",
     ["inputs"],
     "every bound trace, threshold and minimum; every array and sparse format",
     "No test calls them.",
     ["sidetopics/util/misc.py", "sidetopics/util/array_utils.py"],
     [("converged, clamp, constantArray, to_dense_array, normalizerows_ip", "sidetopics/util/misc.py, array_utils.py")],
     "property-based testing against a direct reference",
     "cases within 1e-7 degrees of the threshold are not judged")

prop("C25", "Correlated and side-topic models train and infer consistently",
     "The correlated topic models (ctm, ctm_bohning and its two variants) and the feature-driven side-topic models (stm_yv, stm_yv_bohning, stm_uv_vecy_bohning) give finite means, positive variances, normalised topics and symmetric positive covariances on any corpus of two or more non-empty documents and any features, "
     "whatever the logging frequency and debugging, which change neither results nor the values logged, and whatever the order of documents and words. They infer each document's topics independently of the other documents in the query, leave model and data unchanged when querying, and report likelihoods equal to the probability they assign. "
     "An iteration never makes the words of topics less likely given the documents' topics, feature weights minimise the (regularised) squared error to the documents' means, and each step of training or querying maximises its quadratic bound on a document's topics, so that the Bohning models never lower a document's log posterior. Neither scoring nor debugging changes a state.",
     ["inputs", "configurations", "histories"],
     "every corpus, features, K, prior, iteration count, logging frequency and dtype",
     "Their tests cannot run here; training stopped with an index error unless the logging frequency divided the iteration count.",
     ["sidetopics/model/ctm.py", "sidetopics/model/ctm_bohning.py", "sidetopics/model/stm_yv.py", "sidetopics/model/stm_yv_bohning.py", "sidetopics/model/stm_uv_vecy_bohning.py"],
     [("train/query", "sidetopics/model/ctm.py, stm_yv.py, stm_yv_bohning.py")],
     "property-based testing: invariants, metamorphic relations (logging, reordering, splitting) and ascent of an explicit objective",
     "small corpora; float tolerance; models that stop on the whole query's perplexity are compared on reordered and duplicated queries only")

prop("C26", "Variational bound helpers are true bounds",
     "The tangent helpers used by the logistic-normal models satisfy their identities for every value of the variational parameter: the quadratic bound on log(1+exp(x)) built from them is never below the function and touches it at the expansion point, and per-document and whole-matrix variants agree.",
     ["inputs"],
     "every real x and variational parameter, zero and tiny values included",
     "No running test evaluates them.",
     ["sidetopics/model/ctm.py", "sidetopics/model/stm_yv.py"],
     [("negJakkola, negJakkolaOfDerivedXi, deriveXi", "sidetopics/model/ctm.py")],
     "property-based testing of inequalities and identities",
     "float tolerance")

prop("C27", "Link predictors report every candidate above the threshold, correctly scored",
     "For the link-prediction models (TF-IDF and LDA similarity, LRO, RTM, MTM3), the reported links of a document are exactly those of its candidates whose score under the reported topics reaches the document's minimum, with that score; "
     "the minimum of a document is the lowest score among its known links, so no known link is ever missed.",
     ["inputs", "configurations"],
     "every topic assignment, link graph and minimum",
     "No running test covers link prediction.",
     ["sidetopics/model/sim_based_rec.py", "sidetopics/model/lro_vb.py", "sidetopics/model/rtm.py", "sidetopics/model/mtm3.py"],
     [("min_link_probs, link_probs", "sidetopics/model/sim_based_rec.py, lro_vb.py, rtm.py, mtm3.py")],
     "differential property-based testing against brute-force scores",
     "float tolerance")

prop("C28", "Dirichlet-multinomial regression: gradient, samples and outputs are consistent",
     "The gradient handed to the optimiser is the derivative of the objective handed to it, which is the log posterior of a topic's weights, and an update of the weights moves every topic to its optimum. "
     "Every sample that training or querying keeps is the assignment of a sweep after burn-in, at the thinning asked for, under Dirichlet priors exp(features x weights); samples, topic and word distributions and sample counts agree with those assignments and stay within their arrays. "
     "Long runs agree with enumeration of the posterior, and a query leaves the model and its data unchanged.",
     ["inputs", "configurations", "histories"],
     "every weight vector, features, counts and prior; every corpus, iteration count, burn-in, thinning and update interval (at least the thinning interval)",
     "No running test covers the model; its sampler wrote past its sample array and used linear, possibly negative, priors.",
     ["sidetopics/model/dmr.py", "sidetopics/model/dmr_fast.pyx"],
     [("objective / gradient / updateWeights", "sidetopics/model/dmr.py"), ("train / query", "sidetopics/model/dmr.py"), ("sample", "sidetopics/model/dmr_fast.pyx")],
     "property-based testing (Hypothesis): finite differences, a token-count reference for every prefix of a run, enumeration of the posterior",
     "finite-difference tolerance; posteriors of corpora of at most seven tokens")

prop("C29", "Result files are parsed and rolled up without loss",
     "Reading a file of experiments' printed results keeps every figure (perplexity, MRR, MAP, document counts, precision and recall at each M) under the right experiment (algorithm, topic count, description) and group of feature counts; wider groups are the average of those they contain, weighted by documents; the table has one row for each experiment, group and M. Nothing is dropped, duplicated or attributed to another experiment.",
     ["inputs"],
     "every well-formed set of result records",
     "No test covers it.",
     ["sidetopics/run/reshape_results.py"],
     [("parsing and roll-up", "sidetopics/run/reshape_results.py")],
     "property-based testing: generated experiments rendered to text and parsed back",
     "float tolerance of the printed precision")

prop("C30", "Metadata conversion keeps titles, authors and identifiers together",
     "Converting article metadata between formats and resolving author identifiers keeps each record's fields together (accents written as LaTeX commands become plain letters), and maps the same author to the same identifier and different authors to different ones.",
     ["inputs"],
     "every generated metadata file",
     "No test covers it.",
     ["sidetopics/run/arxiv_to_aan.py", "sidetopics/run/arxiv_author_ids.py"],
     [("conversion", "sidetopics/run/arxiv_to_aan.py")],
     "property-based testing: generated metadata converted and parsed back",
     "exact comparison")

prop("C31", "Stratified user selection meets its quotas",
     "Counts are summed for each user and kept if they lie strictly between the limits. A target is shared equally between groups, a group giving no more than it has, and is met to within one tweet for each group unless everything is used. Selection takes existing users, none twice, the largest first when sorting is on, until the share of a group is reached and no further.",
     ["inputs"],
     "every group table and target",
     "No test covers it.",
     ["sidetopics/run/selectusers.py"],
     [("select_group_contribs", "sidetopics/run/selectusers.py")],
     "property-based testing of quota invariants",
     "exact comparison")

prop("C32", "Text matrices convert to arrays without loss",
     "Converting a text matrix or feature file to its binary form preserves every row, column and value, in an integral type only if every value is whole; a file with the wrong number of rows, a dense table whose lines differ in length, and anything that is no number are refused and nothing is written.",
     ["inputs"],
     "every well-formed input file",
     "No test covers it.",
     ["sidetopics/run/text_to_numpy.py"],
     [("conversion", "sidetopics/run/text_to_numpy.py")],
     "property-based testing: round trip through files",
     "exact comparison")

prop("C33", "Report generation lists exactly the matching outputs",
     "The report generator writes one report for each requested configuration that has outputs, from the template for it, and the report lists exactly that configuration's result files; a conversion that already exists is not overwritten.",
     ["inputs"],
     "every directory of result files",
     "One test checks one directory.",
     ["sidetopics/run/report_generator.py"],
     [("report", "sidetopics/run/report_generator.py")],
     "property-based testing over generated directories",
     "exact comparison")

prop("C34", "Command-line helpers split, parse and name consistently",
     "The command-line helpers interpret every documented option value (data types, feature masks, fold counts), and the helpers behind them (choice of popular tags, soft split of a matrix by column, clipping of counts, roll-up and tables of figures, file names, loading and subsetting of a trained LDA model) return exactly the documented partition, values or names for every input, and leave their inputs unchanged.",
     ["inputs", "configurations"],
     "every option value and input array",
     "The module cannot be imported by the tests.",
     ["sidetopics/run/__main__.py"],
     [("helpers", "sidetopics/run/__main__.py")],
     "property-based testing against direct references",
     "exact comparison")

prop("C35", "Cross-validated experiments report the true held-out figures",
     "Running a cross-validation experiment (perplexity, hashtag, tag-ranking or link prediction) trains on nothing that is held out, reports, for every fold, the figures the trained model earns on exactly that fold's held-out data, totals them correctly, and saves a model that reproduces them.",
     ["inputs", "configurations"],
     "every dataset, model, fold count and seed",
     "The module cannot be imported by the tests.",
     ["sidetopics/run/__main__.py"],
     [("cross_val_and_eval_perplexity", "sidetopics/run/__main__.py")],
     "property-based testing: end-to-end runs recomputed from the saved model",
     "float tolerance")

prop("C36", "Training logs true figures and stops early only when little is gained",
     "Every trainer that reports its progress logs an entry at the iterations asked for, in order, and each entry's bound and likelihood are those of the model and documents as they are after that many iterations; logging leaves the trained model as it would have been. "
     "Training stops early only after the documented minimum of iterations and of measurements, and only when the perplexity improved by less than one since the last measurement; it does stop then, and returns the model of that point.",
     ["inputs", "configurations", "histories"],
     "every corpus, trainer, iteration count and logging frequency (symmetric topic priors for the collapsed trainers)",
     "Tests plot the last values only.",
     ["sidetopics/model/lda_cvb0.py", "sidetopics/model/lda_cvb.py", "sidetopics/model/mom_em.py", "sidetopics/model/mom_gibbs.py", "sidetopics/model/rtm.py", "sidetopics/model/mtm3.py"],
     [("train", "sidetopics/model/lda_cvb0.py"), ("train", "sidetopics/model/lda_cvb.py"), ("train", "sidetopics/model/mom_em.py"), ("train", "sidetopics/model/rtm.py"), ("train", "sidetopics/model/mtm3.py")],
     "property-based testing (Hypothesis): every logged prefix of a run is run again and measured",
     "float tolerance; the relational model's entries at iterations that end with an update of its hyper-parameters are not compared")

prop("C37", "Models of linked documents learn, score and query properly",
     "Training the relational (RTM), matrix-variate (MTM3), latent-offset (LRO) and similarity models on words and links gives word and topic distributions that are non-negative and sum to one, with every word accounted for (the parameters of RTM sum to prior and counts), positive variances and a positive definite topic covariance (MTM3), TF-IDF weights that are frequency times log(D/(df+1)); the same start gives the same result, the order in which links are stored does not matter, and data are not changed. "
     "The likelihood is that of the words (and for MTM3 the links) under the reported distributions. One sweep of RTM is its documented update by words and neighbours; One sweep of LRO is the weighted least-squares fit of its scale and then its offsets to the links, and it stops when they stop moving. MTM3's words are re-estimated by expected counts. "
     "Training RTM for n+1 sweeps is training it for n and then for one more. A query leaves the model as it was, documents that are not linked do not influence one another, and every iteration of an MTM3 query raises the posterior of a document's topics. Started from a trained LDA model, they take over its topics and leave it alone.",
     ["inputs", "configurations", "histories"],
     "every corpus of non-empty documents with links, topic count, iteration count and seed, in double precision",
     "No running test covers these models.",
     ["sidetopics/model/rtm.py", "sidetopics/model/mtm3.py", "sidetopics/model/lro_vb.py", "sidetopics/model/sim_based_rec.py"],
     [("train / query / log_likelihood / topicDists", "sidetopics/model/rtm.py"), ("train / query / log_likelihood / topicDists", "sidetopics/model/mtm3.py"), ("train / query", "sidetopics/model/lro_vb.py"), ("train / query", "sidetopics/model/sim_based_rec.py")],
     "property-based testing (Hypothesis): a dense reference of the update, invariants, metamorphic relations (storage order, document independence)",
     "float tolerance; RTM's link weights are not compared with a reference, LRO's offsets only for unit noise")
