"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py).  Claimed = listed in CLAIMED below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "include/albatross/src/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": [S + f for f in files],
                          "mechanism": [{"name": n, "where": S + w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})


prop("C01", "GP fit and predict are exact Gaussian conditioning",
     "Fitting a Gaussian process to a dataset and predicting returns exactly the posterior of the Gaussian prior given by the model's covariance and mean functions: mean m(x*)+K*'(K+R)^-1(y-m(x)) and covariance K**-K*'(K+R)^-1K*, where R is the measurement noise covariance. The mean-only, marginal and joint predictions of the same features agree with each other, and features are treated as noisy measurements exactly when asked for measurements.",
     ["inputs"], "every covariance function, mean function, training set, measurement noise and prediction feature set",
     "tests fit a handful of kernels on small fixed datasets and compare at a tolerance; none covers all shapes, means and prediction types, and the GP test binaries are not in the runnable baseline",
     ["models/gp.hpp", "models/conditional_gaussian.hpp", "core/prediction.hpp", "evaluation/prediction_metrics.hpp"],
     [("GaussianProcessBase::_fit_impl / _predict_impl", "models/gp.hpp"), ("gp_*_prediction", "models/gp.hpp"), ("ConditionalGaussian", "models/conditional_gaussian.hpp")])
prop("C02", "Updating a GP fit equals refitting on all data; block solves equal full solves",
     "Updating a fitted Gaussian process with new observations (whose measurement noise is independent of the earlier observations') produces the fit (training features, solution of the linear system and covariance solve operator) that conditioning on the concatenated data would give. The block-partitioned factorization used for it solves [[A,B],[B',C]]x=rhs exactly for every right-hand side.",
     ["inputs", "histories"], "every initial dataset, every update dataset, every sequence of updates and every right-hand side",
     "tests compare one split of one dataset at a tolerance",
     ["models/gp.hpp", "linalg/block_symmetric.hpp"],
     [("GaussianProcessBase::_update_impl", "models/gp.hpp"), ("BlockSymmetric::solve", "linalg/block_symmetric.hpp")])
prop("C03", "Fast leave-one-out and leave-group-out equal actually holding the data out",
     "For every choice of held-out index groups, the closed-form leave-one-out / leave-group-out means, variances and covariances computed from a factorized covariance equal the Gaussian conditional of the held-out block given all other observations. Results are returned for exactly the requested groups and indices.",
     ["inputs"], "every covariance matrix, observation vector and set of held-out groups",
     "tests compare two or three groupings on one toy dataset",
     ["evaluation/cross_validation_utils.hpp", "linalg/serializable_ldlt.hpp", "linalg/block_utils.hpp"],
     [("leave_one_out_conditional_variance", "evaluation/cross_validation_utils.hpp"), ("held_out_prediction(s)", "evaluation/cross_validation_utils.hpp"),
      ("SerializableLDLT::inverse_diagonal / inverse_blocks", "linalg/serializable_ldlt.hpp")])
prop("C04", "Covariance matrices hold k(x_i, x_j) at every entry, serial or threaded",
     "Evaluating a covariance function on feature vectors produces a matrix of shape |xs| by |ys| whose entry (i,j) is the covariance of x_i and y_j; the single-argument form is symmetric and equals the two-argument form, and the mean vector and diagonal hold the per-feature value. The threaded evaluation returns the same matrix as the serial one for every number of workers and every block partition.",
     ["inputs", "schedules"], "every pair of feature vectors (including empty), every covariance function and every thread count",
     "tests evaluate fixed small feature lists and one or two thread counts",
     ["covariance_functions/callers.hpp", "linalg/block_utils.hpp", "utils/async_utils.hpp"],
     [("compute_covariance_matrix", "covariance_functions/callers.hpp"), ("compute_mean_vector", "covariance_functions/callers.hpp")])
prop("C05", "Composed covariance functions are the pointwise sum, product and linear map",
     "For every pair of features the sum (product) of covariance functions evaluates to the sum (product) of those operands that are defined for the pair, and a pair no operand handles contributes nothing. Covariances involving linear combinations are the corresponding weighted (double) sums, measurement-only terms act exactly between two measurements, and every composed covariance is symmetric in its arguments.",
     ["inputs", "programs"], "every expression tree of covariance functions and every pair of feature types and values",
     "tests sample a few expression shapes and a few feature pairs",
     ["covariance_functions/covariance_function.hpp", "covariance_functions/callers.hpp", "covariance_functions/measurement.hpp", "covariance_functions/noise.hpp"],
     [("SumOfCovarianceFunctions / ProductOfCovarianceFunctions", "covariance_functions/covariance_function.hpp"),
      ("caller policies", "covariance_functions/callers.hpp"), ("measurement_only", "covariance_functions/measurement.hpp")])
prop("C06", "Radial and noise kernels follow their formula, bounds and symmetry",
     "The squared exponential, exponential, Matern and other radial covariance functions return their documented function of distance, length scale and sigma: sigma squared at zero distance, never more than that, never negative, symmetric, and non-increasing in distance. Non-positive length scales give zero, and the noise, constant, nugget and polynomial terms return their documented values. A derived length scale makes the standard deviation grow by the requested amount over the reference distance.",
     ["inputs"], "every distance, length scale and sigma",
     "tests check positive-definiteness for a few point sets only",
     ["covariance_functions/radial.hpp", "covariance_functions/noise.hpp", "covariance_functions/distance_metrics.hpp", "covariance_functions/polynomials.hpp", "covariance_functions/nugget.hpp"],
     [("squared_exponential_covariance etc.", "covariance_functions/radial.hpp")])
prop("C07", "Dataset subsetting, alignment and concatenation keep features and targets paired",
     "Subsetting a vector, matrix, dataset or distribution by indices returns the selected features, means and (block of the) covariance in the requested order, and set_subset writes exactly those positions; concatenating datasets appends them; deduplicating keeps the last occurrence of every feature; aligning two datasets keeps exactly the common features in matching order. In every case feature i of the result still carries its own mean and (co)variance.",
     ["inputs"], "every dataset, index list and pair of datasets",
     "tests use one small dataset per operation",
     ["core/dataset.hpp", "indexing/subset.hpp", "core/distribution.hpp", "core/concatenate.hpp"],
     [("subset / align_datasets / concatenate_datasets / deduplicate", "core/dataset.hpp")])
prop("C08", "Grouping partitions the data: every element in exactly one group",
     "Grouping any list or dataset by a key function assigns every element to exactly one group, the group of its own key, in original order; group indices, counts, keys, first group and combine agree with that partition. Applying a function per group, filtering groups and recombining act on exactly those groups.",
     ["inputs"], "every list of elements and every key function",
     "tests use a few fixed lists and key functions",
     ["indexing/group_by.hpp", "indexing/apply.hpp", "indexing/filter.hpp", "indexing/unique.hpp"],
     [("group_by / GroupByBase", "indexing/group_by.hpp")])
prop("C09", "Cross-validation folds complement each other and reassemble in order",
     "For every index grouping, each fold's training set is exactly the complement of its test set and the two keep features, targets and variances paired; leave-one-out and k-fold style groupings cover every index exactly once. Concatenating per-fold predictions restores the original ordering.",
     ["inputs"], "every dataset size, grouping and prediction set",
     "tests check a couple of groupings on ten-point datasets",
     ["evaluation/folds.hpp", "evaluation/cross_validation.hpp", "indexing/subset.hpp"],
     [("folds_from_group_indexer / indices_complement", "evaluation/folds.hpp"), ("concatenate_*_predictions", "evaluation/cross_validation_utils.hpp")])
prop("C10", "Distribution arithmetic is the arithmetic of Gaussian moments",
     "Adding, subtracting and scaling distributions and multiplying a joint distribution by a matrix or vector produce the mean and covariance of the transformed Gaussian: means transform linearly, covariances as A C A'. Marginals and joints agree (variance of entry i is covariance entry (i,i)), and two distributions are equal exactly when their means and covariances are.",
     ["inputs"], "every mean, covariance, scalar, matrix and sparse matrix",
     "tests use fixed five-element distributions",
     ["core/distribution.hpp", "core/transformed_distribution.hpp"],
     [("DistributionBase / MarginalDistribution / JointDistribution", "core/distribution.hpp")])
prop("C11", "Block-diagonal operations equal the dense operations they replace",
     "Multiplying, solving and taking diagonals, square-root products or log determinants of block-diagonal matrices and factorizations equal the same operation on the corresponding dense matrix, for every sequence of block sizes and every right-hand side. Threaded variants return the same values.",
     ["inputs", "schedules"], "every list of square blocks, every right-hand side, every thread count",
     "tests use one random five-by-five matrix",
     ["linalg/block_diagonal.hpp", "linalg/block_utils.hpp"],
     [("BlockDiagonal / BlockDiagonalLDLT", "linalg/block_diagonal.hpp")])
prop("C12", "LDLT square-root algebra reproduces the factored matrix",
     "For every symmetric positive definite matrix A, the factorization's square-root operations satisfy sqrt*sqrt' = A and sqrt_solve'*sqrt_solve = A^-1, its diagonal and block inverses are those of A^-1 and its log determinant is log|A|, whatever permutation pivoting chose.",
     ["inputs"], "every symmetric positive definite matrix, pivoting permutation and right-hand side",
     "tests use random matrices of one size",
     ["linalg/serializable_ldlt.hpp", "linalg/qr_utils.hpp"],
     [("SerializableLDLT", "linalg/serializable_ldlt.hpp")])
prop("C13", "Map helpers compute exactly the set-algebra result they name",
     "Joining, merging, intersecting, subsetting and differencing ordered maps returns exactly the keys and values set algebra prescribes, with the documented preference between the two inputs or the result of the merge function, and leaves the inputs unchanged. Strictly joining maps that share a key never silently succeeds.",
     ["inputs"], "every pair of ordered maps, every key list and every merge function",
     "tests use a few three-element maps; a skipped or duplicated key depends on how the key sequences interleave",
     ["utils/map_utils.hpp"], [("map_* functions", "utils/map_utils.hpp")])
prop("C14", "Spanning trees and forests are acyclic, spanning and of optimal cost",
     "The maximum spanning tree of a connected graph contains every vertex, has no cycle, uses only edges of the graph and has the largest possible total cost. The minimum (maximum) spanning forest of any graph does the same with the smallest (largest) total cost in every connected component, so that two vertices are connected in the forest exactly when they are in the graph.",
     ["inputs"], "every weighted undirected graph, connected or not, including parallel edges and ties",
     "tests use a handful of small fixed graphs",
     ["graph/minimum_spanning_tree.hpp"],
     [("maximum_spanning_tree / minimum_spanning_forest / maximum_spanning_forest", "graph/minimum_spanning_tree.hpp")])
prop("C15", "Compression round-trips and decompression failure is contained",
     "Decompressing what was compressed, at any level and from strings or byte containers, returns the original bytes; input that is not a valid frame declaring its size, or that does not fill the given buffer exactly, is reported as failure by maybe_decompress, without crashing, throwing or writing outside the buffer. Buffers of every size, including empty, are handled and the input is left unchanged.",
     ["inputs"], "every byte string and compression level, every corrupted or foreign input",
     "tests compress a few strings",
     ["utils/compress.hpp"], [("zstd::compress / maybe_decompress", "utils/compress.hpp")])
prop("C16", "Chebyshev polynomials and their basis matrices are exact",
     "For every degree and all arguments in [-1,1] (the documented domain), chebyshev_t and chebyshev_u return the Chebyshev polynomial of the first and second kind: P_0 = 1, T_1 = x, U_1 = 2x, P_n = 2 x P_(n-1) - P_(n-2), equivalently cos(n arccos x) and sin((n+1) arccos x) / sin(arccos x). A basis matrix up to degree n has one row per argument, n + 1 columns, and column k holds the degree k polynomial at every argument.",
     ["inputs"], "every degree and every vector of arguments in [-1,1]",
     "tests compare a few degrees on one grid with stored values",
     ["polynomial/chebyshev.hpp"],
     [("chebyshev_t, chebyshev_u", "polynomial/chebyshev.hpp"), ("chebyshev_t_phi, chebyshev_u_phi", "polynomial/chebyshev.hpp")])
prop("C17", "Gaussian densities, chi-squared cdf and KS statistic equal their definitions",
     "The chi-squared distribution function equals the regularised lower incomplete gamma function of half the degrees of freedom and half the argument: it lies in [0,1], never decreases, is 0 at zero and 1 at infinity or without degrees of freedom, and every overload (integer, real, deviation and variance, deviation and covariance) agrees. Gaussian densities and log densities follow their formula, and the uniform Kolmogorov-Smirnov statistic is the largest distance between the empirical and the uniform distribution function, for samples in any order.",
     ["inputs"], "every argument, degree of freedom, variance, covariance and sample",
     "tests sample a table of arguments",
     ["stats/chi_squared.hpp", "stats/gaussian.hpp", "stats/incomplete_gamma.hpp", "stats/ks_test.hpp"],
     [("chi_squared_cdf / incomplete_gamma", "stats/chi_squared.hpp"), ("uniform_ks_test", "stats/ks_test.hpp"), ("gaussian::log_pdf / pdf", "stats/gaussian.hpp")])
prop("C18", "Parameters round-trip between stores, vectors and models",
     "Setting parameters changes exactly the named values and nothing else, and an unknown name is rejected; the vector of tunable values has one entry per non-fixed parameter, and writing it back changes exactly those, clamped or rejected as documented. Composite models expose the union of their parts' parameters and forward every change to the owning part.",
     ["inputs", "histories"], "every parameter store, every tunable vector and every sequence of sets",
     "tests use one or two hand-written parameter stores",
     ["core/parameters.hpp", "core/parameter_handling_mixin.hpp", "core/parameter_macros.hpp"],
     [("get_tunable_parameters / set_tunable_params_values / ParameterHandlingMixin", "core/parameters.hpp")])
prop("C19", "Parameter priors are proper log densities with matching bounds",
     "Every prior's log density is the logarithm of its named, normalised density at every point of its support and minus infinity outside bounded supports; its bounds, scale and fixed flag are those of the named prior. A prior container behaves exactly as the prior it holds, fixed and uninformative priors contribute nothing, and the total prior log-likelihood is the sum over parameters.",
     ["inputs"], "every prior type, parameterization and value",
     "tests only check serialization and a few bounds",
     ["core/priors.hpp", "core/parameters.hpp"], [("Prior::log_pdf overrides / PriorContainer", "core/priors.hpp")])
prop("C20", "Prediction metrics equal their definitions",
     "The root-mean-square error, standard-deviation metric, (joint and marginal) negative log likelihood, chi-squared, differential entropy and proper scoring rules (CRPS, energy, variogram) computed from a prediction and the truth equal their mathematical definitions, for every prediction size and every measurement noise in the truth.",
     ["inputs"], "every prediction distribution and truth distribution",
     "tests compare a few hand-computed numbers",
     ["evaluation/prediction_metrics.hpp", "evaluation/likelihood.hpp", "evaluation/differential_entropy.hpp", "evaluation/model_metrics.hpp"],
     [("RootMeanSquareError, NegativeLogLikelihood, ChiSquared, score::*", "evaluation/prediction_metrics.hpp")])
prop("C21", "Vector helpers and index casts return what they say for every vector",
     "Evenly spaced points, containment, any/all, row stacking and truncated least-squares solves return exactly the value their name states for every vector and matrix, including empty and single-element ones. Conversions between sizes, Eigen indices, integers and doubles preserve every representable value.",
     ["inputs"], "every vector, matrix, index and scalar",
     "tests use a few vectors per helper",
     ["utils/vector_utils.hpp", "utils/eigen_utils.hpp", "details/typecast.hpp"],
     [("linspace / all / any / vector_contains", "utils/vector_utils.hpp"), ("cast::to_*", "details/typecast.hpp"), ("vertical_stack / truncated_psd_solve", "utils/eigen_utils.hpp")])
prop("C22", "Variant conversions keep the held alternative, value and order",
     "Converting a variant or a vector of variants to a wider variant, wrapping plain vectors in variants and concatenating lists of different feature types preserve every element's held type, value and order. Extracting one alternative from a vector or dataset of variants keeps exactly the elements holding it, in order and still paired with their targets.",
     ["inputs"], "every vector of variants over every choice of held alternatives",
     "tests use three-element vectors",
     ["utils/variant_utils.hpp", "core/concatenate.hpp", "core/dataset.hpp"],
     [("set_variants / to_variant_vector / extract_from_variants / concatenate", "utils/variant_utils.hpp")])
prop("C23", "Serialization round-trips every model, fit and data type",
     "Writing any dataset, distribution, parameter store, fit or model to an archive and reading it back gives an equal object that predicts identically, in every supported archive format.",
     ["inputs", "histories"], "every serializable object and archive format",
     "tests round-trip one example per type",
     ["cereal/parameters.hpp", "cereal/priors.hpp", "cereal/distribution.hpp", "cereal/dataset.hpp", "cereal/gp.hpp"],
     [("cereal save/load pairs", "cereal/")])
prop("C24", "RANSAC keeps a consensus set that really agrees with a model of its own data",
     "Ransac only ever reports a consensus whose inliers all satisfied the inlier test against a candidate fitted without them, with at least the configured consensus size and the best consensus metric of those tried; it stops within the configured number of iterations and failures are reported, never silently accepted.",
     ["inputs", "histories"], "every dataset grouping, random draw and configuration",
     "tests run one contaminated dataset",
     ["models/ransac.hpp", "utils/random_utils.hpp", "models/ransac_gp.hpp"],
     [("ransac()", "models/ransac.hpp")])
prop("C25", "Random subsets and samplers draw valid, reproducible samples",
     "Random subsets have exactly the requested size with distinct elements of the input; draws from a multivariate normal have the requested covariance; sampler ensembles keep their size, never leave the parameter bounds and accept or reject by the stated rule, all determined by the supplied generator.",
     ["inputs", "schedules"], "every seed, population, covariance and ensemble",
     "tests check a few draws statistically",
     ["utils/random_utils.hpp", "samplers/ensemble.hpp", "samplers/initialization.hpp"],
     [("random_without_replacement / draw_mvn / ensemble_sampler", "utils/random_utils.hpp")])
prop("C26", "Stand-alone models: null model and least squares give their closed-form answer",
     "Least-squares models predict with the exact least-squares coefficients of their design matrix and the null model predicts the prior, for every dataset; a fitted model's prediction interface returns one entry per requested feature.",
     ["inputs"], "every dataset and feature list",
     "tests fit one linear dataset",
     ["models/least_squares.hpp", "models/null_model.hpp", "core/model.hpp"],
     [("LeastSquares::_fit_impl/_predict_impl", "models/least_squares.hpp")])
prop("C27", "Sparse GP approximations reduce to the exact GP and keep the data",
     "With inducing points equal to the training features the sparse Gaussian process predicts as the exact one; updates equal refits; every training point is assigned to exactly one block.",
     ["inputs", "histories"], "every dataset, grouping and inducing point set",
     "tests compare a toy problem at a loose tolerance",
     ["models/sparse_gp.hpp"], [("SparseGaussianProcessRegression", "models/sparse_gp.hpp")])
prop("C28", "Asynchronous apply equals the serial apply under every schedule",
     "Applying a function to a container in parallel returns the same results in the same order as applying it serially, for every thread-pool size and interleaving. Functions called for their effect have run exactly once per element when apply returns, and an error of one task propagates once no task is running any more.",
     ["schedules", "inputs"], "every interleaving of the worker threads",
     "tests observe one schedule",
     ["utils/async_utils.hpp"], [("async_apply / apply with ThreadPool", "utils/async_utils.hpp")])
prop("C29", "Parameter tuning returns the best evaluated parameters within bounds",
     "Tuning evaluates the objective only at parameter values inside the bounds, returns the parameters with the best objective it reached, and leaves fixed parameters untouched.",
     ["inputs", "histories"], "every model, dataset and objective",
     "tests tune one toy model",
     ["tune/tune.hpp", "tune/finite_difference.hpp"], [("ModelTuner / GenericTuner", "tune/tune.hpp")])

CLAIMED = {}
NA = {}
exec(open(os.path.join(V, "tools", "claims.py")).read())


def main():
    repo = "/repo/"
    for p in P:
        fs = []
        for f in p["anchors"]["files"]:
            f = os.path.normpath(f)
            if os.path.exists(repo + f):
                fs.append(f)
            else:
                c = os.popen("cd /repo && git ls-files include | grep '/%s$'" % os.path.basename(f)).read().split()
                if c:
                    fs.append(c[0])
                else:
                    print("missing", p["id"], f)
        p["anchors"]["files"] = list(dict.fromkeys(fs))
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        assert p["statement"].count(". ") <= 2, p["id"]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    man = {"version": 1, "setup_cmd": "python3-vt tools/setup.py", "checks": [], "not_applicable": []}
    for p in P:
        if p["id"] in CLAIMED:
            c = CLAIMED[p["id"]]
            man["checks"].append({"property": p["id"], "quick_cmd": "python3-vt check.py %s" % p["id"],
                                  "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py %s" % p["id"],
                                  "technique": c.get("technique", "deductive verification: contracts on the code compiled from /repo's headers, obligations discharged by z3/cvc5"),
                                  "level": c.get("level", "proof"), "level_note": c["note"]})
        else:
            man["not_applicable"].append({"property": p["id"], "reason": NA.get(p["id"], "not built yet")})
    json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    try:
        import jsonschema
        jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
        for p in P:
            jsonschema.validate(p, json.load(open("/root/.vp/PROPERTIES.schema.json")))
        print("valid", len(man["checks"]), "claimed")
    except ImportError:
        pass


main()
