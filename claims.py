NA = {}
CLAIMS["C07"] = (TECH_P % NF, "proof", "Every family in pyglm2.families and pyglm.families: log-likelihood, deviance, variance derivatives, working quantities for each family/link pair, dispersion derivatives, canonical form; proved for all arguments on each executed path (boundary responses 0/1 at chosen patterns).")
CLAIMS["C06"] = (TECH_P % NF, "proof",
    "Every clause (inverse pair, derivative chain up to order 4) of every link class in the three link modules is proved for all arguments on each executed path, by symbolic execution of the current source. Real arithmetic stands for floats; see evidence for the trusted base.")

SHP = " Obligations are proved for all values of the data, weights and parameters at fixed small shapes (rows x columns); model-object behaviour is covered by bounded run-time contracts (labelled bounded in the evidence, not counted as proved)."
CLAIMS["C08"] = (TECH_P % NF, "proof", "GLM negative log-likelihood, gradient, Hessian, per-observation parts and scores for every family/link pair and dispersion setting." + SHP)
CLAIMS["C09"] = (TECH_P % NF, "proof", "Cumulative link model probabilities, likelihood, gradient and Hessian in both threshold coordinates, in pyglm2 and pyglm." + SHP)
CLAIMS["C10"] = (TECH_P % NF, "proof", "Zero-inflated (both packages), negative binomial and beta regression likelihoods, gradients, Hessians, scores." + SHP)
CLAIMS["C11"] = (TECH_P % NF, "proof", "Least squares and multivariate regression: normal equations, likelihood, derivatives and statistics." + SHP)
CLAIMS["C12"] = (TECH_P % NF, "proof", "Information criteria, pseudo R-squared, parameter tables, Wald/score/LR statistics as functions of their inputs; the tables of fitted models by bounded run-time contracts." + SHP)
CLAIMS["C16"] = (TECH_P % NF, "proof", "Derivative kernels for every pair of parameter kinds given the inverses (all values, small sizes), implied moments of each listed formula and group layout for all parameter values, fit function, gradient and Hessian of small models, standard errors and parameter mapping proved; random formulas, group layouts, sample moments, scores and fits by bounded run-time contracts (labelled bounded).")
CLAIMS["C13"] = (TECH_P % NF, "proof", "Huber and bisquare rho, psi, phi, weights and their Gaussian expectations for any tuning constant, proved on each path; robust regression estimating equations by bounded run-time contracts on fitted models (labelled bounded).")
CLAIMS["C19"] = (TECH_P % NF, "proof", "Sinh-arcsinh and skew-normal log-densities, density versus distribution function, quantile inverse, and all derivatives up to order four, proved for all arguments; a few identities that need the oddness of arcsinh stay undischarged and are reported as such in the evidence.")
CLAIMS["C22"] = (TECH_P % NF, "proof", "Finite-difference gradients, Hessians and directional derivatives: exactness on the polynomials the stencil integrates, Richardson steps, step weights, argument passing, integer points; proved for all coefficients, points and steps on each executed path.")
CLAIMS["C23"] = (TECH_P % NF, "proof", "Bivariate normal density and derivatives proved from the bivariate normal probability; cell probabilities of every class and their derivatives proved against the contracts of those functions; likelihood gradients and Hessians (plain, tanh and threshold-transformed coordinates) proved for any cell probabilities with any first and second derivatives. The quadrature itself and objects built from data are bounded run-time contracts." + SHP)
CLAIMS["C04"] = (TECH_P % NF, "proof", "Every transform class, compositions and block combinations: mutual inverses, exact Jacobians and Hessians, proved for all arguments at matrix sizes 1-4 (vector lengths up to 10); larger sizes, stacked and integer arguments by bounded run-time contracts (labelled bounded).")
CLAIMS["C05"] = (TECH_P % NF, "proof", "Stand-alone parameterisations, the unconstrained-Cholesky module and the first and second derivatives of the Cholesky factor along unit and along arbitrary curved directions, proved for all arguments at matrix sizes 1-4; larger sizes by bounded run-time contracts (labelled bounded).")
CLAIMS["C02"] = ("contract-based deductive verification: the real index functions are executed on symbolic integers and every verification condition (with proved lemmas as ghost facts) is discharged by z3 for all sizes; ranks by polynomial identities", "proof", "Packed-index maps, Kronecker/commutation/diagonal index maps, mixed-radix multi-index maps of order 1-4 and size functions proved for all sizes; ranks of monotone multi-indices proved for all entries (order 1-5); the enumeration functions, duplication/elimination index lists and rank inversion by bounded exhaustive run-time contracts (labelled bounded).")
CLAIMS["C03"] = (TECH_P % NF, "proof", "Vectorisation pairs, commutation, duplication, elimination, symmetriser and Kronecker-vectorisation matrices and all matrix-free products, proved for all matrix entries at sizes 1-5 (rectangular up to 3x5); the exact matrices for sizes up to 10, stacked and strided arrays by bounded run-time contracts (labelled bounded).")
CLAIMS["C24"] = (TECH_P % NF, "proof", "Least squares (weighted, QR, Cholesky, negative weights), Cholesky updates, matrix square roots of order <= 2, Vandermonde inverses, centering, standardising, moments, covariance and correlation, Khatri-Rao and Kronecker products, antedependence and patterned covariances, tabulation helpers: proved for all values at fixed small shapes where the code is executed symbolically; larger shapes, spectral helpers of higher order and index/tabulation helpers by bounded run-time contracts (labelled bounded).")
CLAIMS["C01"] = ("contract-based verification: the clang syntax trees of the current C kernels and the current Cython and Python wrappers are executed on every operand pattern of a bounded set with symbolic entries, every memory access checked against the extent of its object; each clause is a polynomial identity discharged for all entry values", "proof", "Kronecker, addition, product, triplet, dot, trace, block self-product, repeat and tile routines: equality with dense algebra proved for all entry values on all sparsity patterns of 2x2 operands and a sample up to 4x4, with bounds, initialisation and frame of every access checked on the same patterns; larger operands by run-time contracts on the compiled code (labelled bounded).")
CLAIMS["C20"] = (TECH_P % NF, "proof", "Natural cubic, cyclic and B-spline bases (values, smoothness across knots, end conditions, derivatives), penalties equal to the integrated product of derivatives, penalty null spaces, generalised cross validation and its gradients, constraint absorption: proved for all knots, points and coefficients at 3-5 knots and degrees 1-3 on each knot interval. Larger bases, any degree, knot placement and the smooth terms built from data by bounded run-time contracts (labelled bounded).")
CLAIMS["C21"] = (TECH_P % NF, "proof", "Location-scale log-likelihood derivatives to order four proved from the density; coefficient gradients and Hessians, implicit derivatives and criterion derivatives proved against contracts of the log-likelihood (a function with arbitrary derivatives to order four) at fixed small shapes; fitted models by bounded run-time contracts (labelled bounded).")
CLAIMS["C17"] = (TECH_P % NF, "proof", "The design covariance proved for every assignment of up to five rows to clusters and strata (all row orders, nine label types, both collapsing policies, with and without finite-population corrections) and all values of the scores and corrections; sandwich, subpopulations, least squares adapter and replication summaries proved at fixed small shapes; larger designs, error policies and whole replication studies by bounded run-time contracts (labelled bounded).")
CLAIMS["C14"] = (TECH_P % NF, "proof", "Mixed model equations, determinant and Schur complement identities, both factorisations, gradients of the terms from their inputs (all values), what the gradients hand to the terms, the residual entry and the effects proved for fixed small groupings (intercepts, slopes, crossed terms, relationship matrices), sparse kernels and Cholmod by their contracts; larger random designs, label types, relationship matrices, coordinates, tables and fits by bounded run-time contracts (labelled bounded).")
CLAIMS["C15"] = (TECH_P % NF, "proof", "Cayley map, rotation criteria, implied covariance, discrepancy and gradient, rotation constraints, identification and constrained covariance proved for all values at small fixed shapes; Hessians proved given the contract of the inverse of the implied covariance, the concentrated discrepancy given the contract of the spectral decomposition; larger models, fits and rotations by bounded run-time contracts (labelled bounded).")
CLAIMS["C18"] = (TECH_P % NF, "proof", "Proximal map, objectives, deviances, penalties with their gradients and Hessians, one coordinate update of every solver (the exact coordinate minimiser), one sweep, the outer step of every family and link, Cholesky factors of the active set and the knots of least angle regression: proved for all values on each executed path at fixed small shapes; optimality of converged solutions, paths and cross-validation by bounded run-time contracts (labelled bounded).")
