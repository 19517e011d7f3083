REPLAY = " Assumed container/library contracts and the failing inputs are exercised by a bounded randomised replay of the same statement (never counted as proved)."
def claim(i, note, level="proof", **kw):
    CLAIMED[i] = dict(note=note + REPLAY, level=level, **kw)


claim("C13", "Every map helper under a full functional contract over all maps (set algebra on domains and values), loops cut with checked invariants, ordered-dictionary theory assumed for std::map/std::set.")
claim("C17", "chi_squared_cdf overloads, incomplete_gamma dispatch and continued fraction, Gaussian densities and the KS loop proved over exact reals for all arguments; accuracy of the truncated fraction / 50 point quadrature and the covariance overload only replayed against boost::math.")
claim("C18", "All store setters, tunable vector read/write and the model-level mixin setters proved for every parameter store and vector (priors summarised by C19's contracts); composed models are covered by the replay.")
claim("C19", "Every prior's density, bounds and flags and the container's dispatch per alternative proved over exact reals; the sum over parameters is proved with C18's prior_ll contract.")
claim("C21", "Every cast, linspace, any/all and containment proved for all inputs; row stacking and the truncated solve are covered by the bounded replay only.")
claim("C14", "Kruskal's steps (sort, tree labels, merge, search loop), the forest certificate (acyclic, connects exactly what the graph connects, every edge bridged by no costlier forest edges) and the negation wrappers proved for all graphs; that this certificate means minimal cost is the textbook exchange theorem, assumed. Prim's search (maximum_spanning_tree) is covered by the bounded replay over all small graphs only.")
claim("C22", "Every conversion, wrapping, extraction and concatenation of variant lists proved for all lists; extraction from datasets is covered by the replay.")
claim("C07", "Every subset, set_subset, concatenate, deduplicate and align function proved for all inputs over Eigen contracts (matrix entries by index); mixed-type concatenation of features is C22's.")
claim("C10", "All marginal and joint constructors, accessors, sums, differences, scalings, equality and marginalisation proved entrywise for every size; matrix times distribution (product_sqrt over a factorization) is covered by the bounded replay against A C A' only.")
claim("C08", "group_by's index builders (key function, leave-one-out, k-fold) proved to be the stable partition by rank, and groups, counts, keys, first group, get_group, filter, apply, unique, combine and the reductions proved against it for all inputs; min/max of grouped values, `with` and the thread-pool variants are covered by the bounded replay.")
claim("C09", "Complement, fold creation, folds from a grouping, index recovery, dataset size and the mean/marginal/joint reassembly proved for every cover of the indices by groups; cross_validate(), scores and groupers applied to datasets are covered by the bounded replay (the groupers' partition is C08's).")
claim("C16", "Evaluation and basis functions of both kinds proved to be the recurrence for every degree and argument vector (loop invariants over exact reals), the recurrence's trigonometric form by lemma; rounding only replayed against the closed forms.")
claim("C15", "Every compress / decompress / maybe_decompress overload and their round trips proved for all byte strings, levels and element arrays, against an assumed contract of the zstd library (ZSTD_compress, ZSTD_getFrameContentSize, ZSTD_decompress, bound); the replay runs the real library on corrupted and foreign input.")
claim("C28", "Every parallel apply overload (vectors, maps, Grouped; values, key and value; results or effects) proved element for element against an assumed contract of the thread pool and std::future in which effects become visible only at get(); error propagation is covered by the replay on a real thread pool only.")
claim("C04", "Matrix, cross matrix (both argument orders), diagonal and mean evaluation through the public call operators proved entry by entry for all feature vectors, serial and with a pool of any size; each pool task is proved to write its own columns only and the triangle partition to be consecutive blocks covering every column (exact reals for its square roots). Thread pool and std::future contracts assumed (empty submodule here).")
claim("C05", "Sums, products, measurement-only terms, noise, linear combinations (single, double, mixed), variants and mean functions proved per pair of feature kinds by executing the caller policies of a set of composed functions for all values; the expression shapes are instances (the property quantifies over programs), each proved for all inputs. Sparse maps of features are covered by the replay.")
claim("C06", "Squared exponential, exponential and both Matern functions, and the covariance functions over an arbitrary metric, proved equal to the documented formula for all arguments; bounds and monotonicity of the formulas by lemmas over elementary facts of the exponential; distances, constant, nugget, noise, scaling and polynomials (equal sigmas) proved; derived length scales proved exact for squared exponential and exponential, while the Newton solver of the Matern ones is covered by the bounded replay only.")
claim("C12", "diagonal_sqrt, its inverse, the four square-root operations, inverse blocks / diagonal, log determinant, equality and the QR roots proved for every factored matrix over matrix-algebra normal forms (sound rewriting instances handed to the solver, conformity guarded) with Eigen LDLT / QR contracts assumed (P'LDL'P = A, D > 0, L unit triangular; log determinant of a product and of a triangular matrix as assumed law).")
claim("C02", "update (feature vector and dataset, of a first fit and of an updated one), predictions from an updated fit and block-partitioned solves (dense or Schur complement, nested) proved to be the solution of the partitioned system of all data, over matrix-algebra normal forms; assumes Eigen's LDLT contract, positive definiteness and exact real arithmetic.")
claim("C03", "Leave-one-out, held-out prediction per group and leave-group-out (free functions and a model's cross_validate()) proved to be the closed form for every covariance, observation vector and set of groups, and the closed form proved to be the Gaussian conditional on the rest by matrix-algebra lemmas (selection matrices of a partition; a 1x1 product is the product of its entries); assumes Eigen's LDLT / inverse contracts, distinct indices within a group and exact real arithmetic.")
claim("C01", "Fit, mean / marginal / joint prediction through the public interface (fit(...).predict(...), with and without measurement noise, prior, fit_from_prediction and ConditionalGaussian) proved equal to the conditioning formulas for every dataset over matrix-algebra normal forms; covariance and mean functions are arbitrary (uninterpreted), their matrix evaluation enters by the contracts proved in C04 / C05; exact real arithmetic, Eigen LDLT contract and positive definiteness of the noisy covariance assumed.")
claim("C11", "Every product, solve, square-root product / solve, diagonal and log determinant of block-diagonal matrices and factorizations proved entry by entry equal to the dense operation for every list of block sizes (running offsets as ghost sums, loop invariants), serial and with a pool of any size; Eigen's LDLT and the thread pool / std::future enter by assumed contracts; exact reals.")
claim("C20", "RMSE, standard deviation, marginal / joint negative log likelihood, chi-squared, differential entropy, CRPS, energy and variogram scores (with their draws and pairings) proved equal to their definitions for every size over exact reals; Eigen's array / LDLT / LLT contracts, the norm's triangle inequality, nonnegative weights and positive variances assumed; Wasserstein distance, principal square root, the empty standard deviation and rounding are covered by the bounded replay only.")
