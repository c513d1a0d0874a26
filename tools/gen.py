"""Writes properties.jsonl and MANIFEST.json from the table below (a property is claimed when props/pNN.py exists)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), level_note=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe),
                           "hook_needed": None}, _note=level_note))


M = "spflow/modules/"
prop("C01", "Every circuit output is a normalised distribution over its scope",
     "For every circuit built from the library's leaves, sums, products, einsum/linsum, splits, concatenations, convolutional and ready-made "
     "(RAT-SPN, Einet, ConvPc, Naive Bayes) modules, and for every value of its learnable parameters, exponentiated log-likelihoods summed over all "
     "joint assignments of a finite-domain scope equal one for every output channel and repetition.",
     ["inputs", "configurations"],
     "all parameter values (unconstrained raw parameters) x structural configurations listed in the evidence, finite-domain leaves of 2-4 variables",
     "Tests evaluate a few fixed random weights and mostly check shapes; a wrong softmax axis, dropped child or duplicated feature still yields finite numbers of the right shape.",
     [M + "sums/sum.py", M + "sums/elementwise_sum.py", M + "sums/repetition_mixing_layer.py", M + "products/", M + "einsum/", M + "conv/", M + "ops/", M + "leaves/", "spflow/zoo/"],
     [("weights are projected to the simplex along the summed axis", M + "sums/sum.py"), ("products combine disjoint features", M + "products/")],
     ["log_likelihood"])
prop("C02", "Log-likelihood of every layer equals its documented formula",
     "For every inner module the log-likelihood tensor equals, entry by entry and for every input, the documented combination of its children's "
     "log-likelihoods: weighted mixture over channels (and concatenated inputs) for sums, sum of logs over the paired features and channels for the products, weighted "
     "pairwise combination for einsum (all channel pairs) and linsum (matching channels), and patch-wise products/mixtures for the convolutional layers.",
     ["inputs", "configurations"],
     "all child log-likelihood values, all raw weights; feature counts <= 4, channels <= 3, repetitions <= 2, splits consecutive/interleaved/by index",
     "Tests compare shapes or one hand computed value; permuted channels, features or repetitions keep shapes and often totals intact.",
     [M + "sums/", M + "products/", M + "einsum/", M + "conv/", M + "ops/", M + "rat/factorize.py", M + "wrapper/"],
     [("log_likelihood of each module", M)], ["log_likelihood"])
prop("C03", "Missing entries (NaN) are marginalised exactly",
     "For any row in which some features are NaN, the log-likelihood equals the log of the sum, over all completions of the missing features, of the likelihood of the completed "
     "row, for every circuit, every output and every pattern of missingness; a row with everything missing has log-likelihood zero.",
     ["inputs", "configurations"],
     "all parameter values x all NaN patterns x all values of the observed entries (finite domains), configurations listed in the evidence",
     "Tests check only fully missing rows or one pattern on fixed weights; patterns x parameters cannot be enumerated by hand.",
     [M + "leaves/leaf.py", M + "leaves/cltree.py", M + "sums/", M + "products/", M + "einsum/", M + "conv/"],
     [("leaf log_likelihood writes 0 for NaN", M + "leaves/leaf.py")], ["log_likelihood"])
prop("C04", "Structural marginalisation computes the marginal distribution",
     "marginalize(variables) returns a module whose log-likelihood equals the original module's log-likelihood with those variables missing, "
     "with or without pruning, leaves the original module's results unchanged, and returns None exactly when every variable of the scope is removed; "
     "modules that do not implement it (elementwise and outer products, RAT-SPN) refuse with NotImplementedError.",
     ["inputs", "configurations"],
     "all parameter values x all subsets of the scope x prune on/off x all observed values; configurations listed in the evidence",
     "Tests check scopes and shapes of marginalised modules, rarely that the distribution is the right marginal, and only for one or two subsets with fresh random weights.",
     [M + "module.py", M + "sums/", M + "products/", M + "einsum/", M + "ops/", M + "leaves/", M + "conv/"],
     [("marginalize of each module", M)], ["marginalize", "log_likelihood"])
prop("C05", "Sampling draws from exactly the distribution the likelihood defines",
     "For every circuit and parameter value, the probability that unconditional sampling returns an assignment equals the exponentiated log-likelihood "
     "the same circuit reports for that assignment (for the sampled root channel and, when several repetitions or root channels exist, the documented mixture over them); products over splits that cannot be inverted (split by index) may refuse sampling.",
     ["inputs", "configurations"],
     "all parameter values x all joint assignments of finite-domain scopes x all random outcomes; configurations listed in the evidence",
     "Tests check sample shapes, support, or a coarse empirical mean for fixed weights; a routing error that swaps channels or features leaves these intact.",
     [M + "sums/", M + "products/", M + "einsum/", M + "conv/", M + "ops/", M + "leaves/leaf.py", "spflow/utils/sampling_context.py", "spflow/zoo/"],
     [("_sample top-down routing", M)], ["sample"])
prop("C06", "Conditional sampling draws from the exact posterior given evidence",
     "For every circuit, evidence pattern and parameter value, sample_with_evidence fills the missing entries with values whose joint law equals the circuit's conditional distribution "
     "given the observed entries (modules that refuse sampling are exempt).",
     ["inputs", "configurations"],
     "all parameter values x all evidence patterns and values (finite domains) x all random outcomes; configurations listed in the evidence",
     "Tests only verify that evidence is kept and samples are finite; posterior correctness needs a comparison with the exact conditional for every parameter value.",
     [M + "module.py", M + "sums/", M + "products/", M + "einsum/", M + "conv/", M + "leaves/cltree.py"],
     [("posterior re-weighting from the likelihood cache", M + "sums/sum.py")], ["sample_with_evidence"])
prop("C07", "Sampling contract: evidence kept, gaps filled, rows independent",
     "Every sampling and MPE call leaves observed entries bit-identical, fills every missing entry of the module's scope with a value inside the leaf's support, leaves columns outside the scope "
     "unchanged, and routes each row independently of the other rows of the batch.",
     ["inputs", "configurations"],
     "all parameter values x evidence patterns x random outcomes for batches of 1-3 rows; configurations listed in the evidence",
     "Tests sample a handful of seeds and configurations; which entries are written depends on every random routing outcome.",
     [M + "module.py", M + "leaves/leaf.py", "spflow/utils/sampling_context.py", M + "sums/", M + "products/", M + "conv/", M + "einsum/"],
     [("sampling writes only NaN entries of the active scope", M + "leaves/leaf.py")], ["sample", "sample_with_evidence", "mpe"])
prop("C08", "MPE follows the maximising branch given the evidence",
     "mpe completes evidence deterministically by max-decoding: at every sum node each row follows a branch that maximises weight times evidence likelihood of that row, and each leaf "
     "emits a mode of its distribution given what it observes (for a histogram: the midpoint of its most probable bin).",
     ["inputs", "configurations"],
     "all parameter values x all evidence patterns; configurations listed in the evidence",
     "Tests use fixed weights with an obvious argmax.",
     [M + "module.py", M + "sums/", M + "leaves/leaf.py", M + "leaves/cltree.py", M + "einsum/"],
     [("argmax routing", M + "sums/sum.py"), ("distribution mode", M + "leaves/leaf.py")], ["mpe", "sample(is_mpe=True)"])
prop("C09", "Mixture weights are always on the simplex and round-trip",
     "Weights of every sum-like module are strictly positive and sum to one over the mixed channels for any raw parameter value; assigning valid weights or log-weights "
     "(setter or constructor) makes the module report exactly those weights and use them in its likelihood, and invalid weights are rejected without changing the module.",
     ["inputs", "histories"],
     "all raw parameter values, all valid weight tensors of the stated shapes; every sum-like module",
     "Tests set one weight tensor per module and check one direction.",
     [M + "sums/", M + "einsum/", M + "conv/sum_conv.py", "spflow/utils/projections.py", M + "leaves/categorical.py"],
     [("weights / log_weights properties and setters", M + "sums/sum.py")], ["weights", "log_weights", "log_likelihood"])
prop("C10", "One EM step is the exact expected-count update and never hurts",
     "One expectation-maximisation step on a batch of complete rows sets every mixture weight to its normalised expected count under the pre-step model (summed over all places that share the weight) and every leaf to "
     "its responsibility-weighted maximum-likelihood estimate, so the updated model is normalised and the batch likelihood does not decrease; the drivers repeat exactly this step (once per iteration, or per batch and "
     "epoch) and report the mean log-likelihood before each step.",
     ["inputs", "histories", "configurations"],
     "all parameter values, all data rows (finite domains, batches of 1-3 rows); configurations listed in the evidence",
     "Tests check that a run of EM on one random dataset increases the likelihood or merely runs.",
     ["spflow/learn/expectation_maximization.py", M + "sums/", M + "einsum/", M + "conv/sum_conv.py", M + "leaves/leaf.py", M + "module.py"],
     [("_expectation_maximization_step of each module", M)], ["expectation_maximization", "weights", "log_likelihood"])
prop("C11", "Leaf fitting is the exact weighted maximum-likelihood estimate",
     "Fitting a leaf to weighted data yields the weighted maximum-likelihood parameters of its family (for Gamma the documented closed-form estimator), separately for every feature, channel and repetition, "
     "with the weights of each parameter cell scaled to sum to the number of rows; with bias correction the documented small-sample correction is applied. Without it, integer weights act like repeated rows, and "
     "rows of weight zero and ignored missing values have no influence. The resulting parameters lie in the family's valid range (probabilities of zero or one may be moved inside by at most 1e-6) whenever the estimate exists, "
     "and fitting with missing values but no strategy for them is refused.",
     ["inputs"],
     "all data values and non-negative weights with 2-3 rows, per leaf family",
     "Tests fit large random samples and compare with loose tolerances, mostly with unit weights.",
     [M + "leaves/"],
     [("maximum_likelihood_estimation", M + "leaves/leaf.py")], ["maximum_likelihood_estimation"])
prop("C12", "Interval evidence gives the probability of the box",
     "The probability a circuit reports for interval evidence equals the total likelihood of all assignments inside the box (unbounded sides and missing features integrate to one, degenerate intervals "
     "of discrete variables give the point mass), for every circuit and every choice of bounds; an empty box may be reported with the documented floor of 1e-40, "
     "and leaf families without a closed-form cdf refuse with NotImplementedError.",
     ["inputs", "configurations"],
     "all parameter values x all interval bounds over the finite domain (including half-open, unbounded and empty intervals); configurations listed in the evidence",
     "Tests use one or two boxes with fixed parameters.",
     [M + "module.py", "spflow/meta/data/interval_evidence.py", M + "leaves/leaf.py", M + "leaves/"],
     [("interval likelihood of leaves", M + "leaves/leaf.py")], ["log_likelihood(IntervalEvidence)", "probability"])
prop("C13", "Scopes behave as sets of variables",
     "Scope construction rejects negative, duplicated or overlapping query and evidence variables (and evidence without query) and accepts everything else from any integer container; equality is equality of the query "
     "sets and evidence sets and agrees with hashing; join, join_all, isdisjoint, remove_from_query, all_equal and all_pairwise_disjoint agree with set semantics (evidence that becomes query is dropped) for all scopes.",
     ["inputs"],
     "all pairs of scopes with variables from a symbolic integer range, <= 3 query and <= 2 evidence variables each",
     "Tests enumerate a few literal scopes.",
     ["spflow/meta/data/scope.py"],
     [("Scope methods", "spflow/meta/data/scope.py")], ["Scope"])
prop("C14", "Reported scopes are exactly the variables each output depends on",
     "For every module, each feature's reported scope is exactly the set of variables its likelihood depends on, the module scope is the union, and the reported output shape equals the shape of the "
     "log-likelihood tensor; sums only mix equal scopes and products only combine disjoint scopes, anything else is rejected at construction.",
     ["configurations", "inputs"],
     "all parameter values x all input entries; configurations listed in the evidence",
     "Tests compare metadata with literals written from the same implementation.",
     [M + "module.py", M + "ops/", M + "products/", M + "einsum/", M + "conv/", M + "sums/", "spflow/meta/data/scope.py"],
     [("feature_to_scope", M)], ["scope", "feature_to_scope", "out_shape", "log_likelihood"])
prop("C15", "Split, concatenation and factorisation reorder data without loss",
     "Splitting a module's features and recombining them is a permutation: every input feature appears in exactly one part at the position the split mode documents, merging routed tensors inverts splitting, "
     "and concatenation and random factorisation place every child value exactly where the reported scope says.",
     ["inputs", "configurations"],
     "all tensor contents, feature counts <= 6, 2-3 splits, all split modes",
     "Tests check shapes and a couple of index patterns.",
     [M + "ops/", M + "rat/factorize.py"],
     [("split / merge_split_tensors / Cat routing", M + "ops/")], ["log_likelihood", "sample"])
prop("C16", "Differentiable sampling agrees with hard sampling",
     "Differentiable sampling with hard one-hot routing selects exactly the branch, channel and repetition that integer routing selects and yields the same leaf values, and soft routing produces the "
     "corresponding convex combination.",
     ["inputs", "configurations"],
     "all parameter values x routing choices; configurations listed in the evidence",
     "Tests compare shapes and gradients' existence.",
     ["spflow/utils/sampling_context.py", M + "sums/", M + "products/", M + "einsum/", M + "leaves/"],
     [("SamplingContext one-hot routing", "spflow/utils/sampling_context.py")], ["sample"])
prop("C17", "Results never depend on caches or on earlier calls",
     "Every query reflects the current parameters: after any history of likelihood, decoding, parameter or weight assignment, EM and marginalisation calls, a query returns what a fresh module with the same parameters would "
     "return; passing a fresh cache, or the cache of an earlier identical evaluation, never changes a result; likelihood, probability, interval and marginalisation queries do not modify parameters, buffers or the data passed to them.",
     ["histories", "inputs"],
     "all parameter values before and after each update; histories of up to 3 operations; configurations listed in the evidence",
     "Tests query each module once after construction.",
     ["spflow/utils/cache.py", M + "module.py", M + "einsum/", M + "sums/", M + "leaves/cltree.py"],
     [("Cache and cached decorator", "spflow/utils/cache.py")], ["log_likelihood", "sample", "marginalize"])
prop("C18", "Batch rows are processed independently",
     "The log-likelihood, interval probability and posterior of a row do not depend on the other rows of the batch, on the batch size or on the row order, including batches that mix complete, partially missing and fully "
     "missing rows.",
     ["inputs", "configurations"],
     "all parameter values x all pairs of rows including NaN patterns; configurations listed in the evidence",
     "Tests evaluate one homogeneous batch per module.",
     [M, "spflow/measures/"],
     [("vectorised likelihood", M)], ["log_likelihood"])
prop("C19", "Squared circuits are exactly normalised by their inner products",
     "Inner products of compatible circuits equal the sum over all assignments of the product of their outputs, and squared (sum-of-squares) circuits report log-likelihoods that sum to one over all assignments for every "
     "signed parameter value; triple products behave likewise.",
     ["inputs", "configurations"],
     "all signed parameter values; structures listed in the evidence with finite-domain leaves of <= 3 variables",
     "Tests compare with brute force for fixed random seeds and few structures.",
     ["spflow/utils/inner_product_core.py", "spflow/utils/inner_product.py", "spflow/utils/signed_semiring.py", M + "sos/", M + "sums/signed_sum.py", "spflow/zoo/sos/", "spflow/learn/build_socs.py"],
     [("inner_product_matrix", "spflow/utils/inner_product_core.py")], ["inner_product", "SOCS.log_likelihood"])
prop("C20", "Class posteriors follow Bayes' rule",
     "For classifiers (RAT-SPN, Einet, Naive Bayes and the scikit-learn interface) the reported class posterior equals prior times class-conditional likelihood, normalised over classes, for every input including missing "
     "features, and the log-likelihood of the model is the prior-weighted mixture where one is documented.",
     ["inputs", "configurations"],
     "all parameter values x all inputs incl. NaN; 2-3 classes",
     "Tests check that probabilities sum to one for random inputs, not that they are Bayes posteriors.",
     ["spflow/zoo/rat/rat_spn.py", "spflow/zoo/einet/einet.py", "spflow/zoo/naive_bayes.py", "spflow/interfaces/sklearn.py", M + "module.py"],
     [("log_posterior / predict_proba", "spflow/zoo/")], ["log_posterior", "predict_proba"])
prop("C21", "Exact information measures match their definitions",
     "Exact entropy, mutual information, conditional mutual information and weight of evidence equal their defining sums over the circuit's joint distribution for every parameter value and every choice of variable groups.",
     ["inputs", "configurations"],
     "all parameter values; finite domains, <= 3 variables, all disjoint variable groups",
     "Tests evaluate independent or hand-picked two-variable distributions.",
     ["spflow/measures/"],
     [("entropy / mutual_information / weight_of_evidence", "spflow/measures/")], ["entropy", "mutual_information", "conditional_mutual_information", "weight_of_evidence"])
prop("C22", "Structure transformations preserve the distribution",
     "Pruning/merging sums, replacing parts, cloning and saving/loading, and building a circuit from the expression DSL yield modules whose log-likelihood equals that of the source "
     "description for every input and parameter value.",
     ["inputs", "programs"],
     "all weights/parameters; expression shapes and structures listed in the evidence",
     "Tests check structure (types, counts) of a few outputs.",
     ["spflow/dsl.py", "spflow/learn/prometheus.py", "spflow/learn/learn_spn.py", "spflow/utils/replace.py", "spflow/utils/model_manager.py"],
     [("prune_sums / dsl build", "spflow/dsl.py")], ["log_likelihood"])
prop("C23", "Chow-Liu trees: exact tree inference and maximum spanning trees",
     "A Chow-Liu tree leaf's likelihood, missing-value marginals and samples are those of the tree-structured Bayesian network its parameters define, its structure learner returns a maximum-weight spanning tree, "
     "and top-k spanning trees are distinct trees in non-increasing weight order with none better omitted.",
     ["inputs", "configurations"],
     "all conditional tables and edge weights; trees with <= 4 nodes",
     "Tests use one tree and one weight matrix.",
     [M + "leaves/cltree.py", "spflow/zoo/hclt/"],
     [("belief propagation and MST", M + "leaves/cltree.py"), ("top-k MST", "spflow/zoo/hclt/topk_mst.py")], ["log_likelihood", "sample", "maximum spanning tree"])
prop("C24", "Image wrappers are transparent",
     "Wrapping a circuit for image tensors changes only the data layout: likelihoods, samples, MPE and marginalisation of the wrapped module equal those of the underlying circuit on the flattened data for every input.",
     ["inputs", "configurations"],
     "all inputs and parameters; 1-2 channels x 2x2 images",
     "Tests compare shapes.",
     [M + "wrapper/"],
     [("flatten / unflatten", M + "wrapper/image_wrapper.py")], ["log_likelihood", "sample", "mpe"])
prop("C25", "Leaf densities and supports match their families",
     "Each leaf's log-likelihood equals the textbook log-density or log-mass of its family at every in-support value and parameter, is minus infinity (or rejected) outside the documented support, "
     "and its parameter accessors return valid parameters that reproduce what was assigned.",
     ["inputs"],
     "all parameter values and data values per family; piecewise-linear and histogram leaves with <= 4 bins",
     "Tests compare with scipy/torch at sampled points.",
     [M + "leaves/"],
     [("torch distribution wrappers and custom distributions", M + "leaves/")], ["log_likelihood", "params"])
prop("C26", "Numeric helper transformations are mutually inverse",
     "The bounded/unbounded and simplex projections used to store parameters are mutual inverses onto their stated ranges for every value and every bound given (lower, upper or both), and signed log-space arithmetic equals ordinary real arithmetic.",
     ["inputs"],
     "all real values and bounds; vectors of <= 3 entries",
     "Tests check sampled values for each combination.",
     ["spflow/utils/projections.py", "spflow/utils/signed_semiring.py", "spflow/utils/domain.py"],
     [("proj_* functions", "spflow/utils/projections.py")], ["projections"])


def note(p):
    return p["_note"] or ("Holds for every value of the symbolic inputs on the enumerated small structures (bounds in evidence); exact real arithmetic, PyTorch kernels trusted; "
                          "no claim beyond the listed structures and sizes.")


NA = {}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks, na = [], []
    for p in P:
        n = p["id"][1:]
        if os.path.exists(os.path.join(HERE, "props", f"p{n}.py")):
            checks.append({"property": p["id"], "quick_cmd": f"/opt/venv/bin/python run.py --property {p['id']} --tier quick",
                           "thorough_cmd": f"/opt/venv/bin/python run.py --property {p['id']} --tier thorough",
                           "technique": "symbolic execution of the real torch code (dispatcher-level), z3 decides every obligation; counterexamples replayed",
                           "level": "other", "level_note": note(p)})
        else:
            na.append({"property": p["id"], "reason": NA.get(p["id"], "check not built yet")})
    man = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/setup_check.py", "checks": checks, "not_applicable": na,
           "notes": "Checks import SPFlow from /repo's working tree on every run; there is no build artefact and no hook in /repo."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(checks), "claimed", len(na), "not claimed")


main()
