#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements stay readable)."""
import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
      **({"observe_at":observe} if observe else {}),**({"state":state} if state else {}),hook_needed=None)))
U="pystatsm/utilities/"
prop("C01","Sparse-matrix kernels equal dense matrix algebra and stay in bounds",
 "For any well-formed compressed-column operands, the sparse Kronecker (sparse-sparse, dense-sparse, sparse-dense, identity-sparse), addition, product, triplet conversion, dot, pattern-trace, block self-product, repeat and tile routines return exactly what the corresponding dense matrix operation returns, as a well-formed sparse matrix. Their in-place variants write the same values into the given output and nothing else. No call reads or writes outside its operands.",
 ["inputs"],"all shapes (rectangular and empty included), sparsity patterns and values of well-formed operands; real and complex where offered",
 "Tests build a few square operands of one or two densities; an index error that needs a rectangular operand, an empty column or a duplicate triplet never shows.",
 [U+"src/*.c",U+"cython_wrappers.pyx",U+"python_wrappers.py"],
 [("C kernels",U+"src"),("typed wrappers",U+"cython_wrappers.pyx"),("shape bookkeeping",U+"python_wrappers.py")],["return values of the functions in "+U+"python_wrappers.py"])
prop("C02","Packed-index maps are bijections and index enumerations are complete",
 "Mapping a (row, column) position to its position in a packed vectorisation and back is the identity, in both directions, for the full, half (with diagonal) and strictly-lower layouts, of any matrix size; so is mapping a multi-index to its rank in the package's ordered multi-index enumerations. The enumerations list every unordered index tuple of the given order and size exactly once, in the documented order, with the right multiplicity, and symmetric-tensor expansion built on them gives every permuted position the same value.",
 ["inputs"],"all matrix sizes, all positions, all orders",
 "Tests try a handful of sizes; a formula that is off only for one row, size or order passes them.",
 [U+"indexing_utils.py",U+"ordered_indices.pyx"],[("closed-form index formulas",U+"indexing_utils.py"),("combination ranking",U+"ordered_indices.pyx")])
prop("C03","Vectorisation, commutation, duplication and elimination matrices obey their laws",
 "Stacking a matrix or its lower triangle and unstacking it again returns the matrix; and for every size the commutation matrix maps vec(A) to vec(A'), the duplication matrix maps vech(S) to vec(S), elimination and lower-elimination matrices map vec to vech or to the strict lower half, and the symmetriser matrices act as named (the pattern matrices project onto the symmetric, diagonal and off-diagonal symmetric patterns, and the N matrix maps vec(A) to vec(A+A')). Products offered without forming these matrices equal the products with them.",
 ["inputs"],"all sizes, rectangular where allowed, all entries",
 "Tests compare a few sizes with random entries; wrong ordering for rectangular shapes is invisible with square ones.",
 [U+"linalg_operations.py",U+"special_mats.py"],[("vec/vech/invec/invech",U+"linalg_operations.py"),("structured matrices",U+"special_mats.py")])
prop("C04","Parameter transforms invert exactly and report their exact derivatives",
 "For every parameter transform offered for optimisation (log scale, ordered thresholds, Cholesky covariance, unconstrained Cholesky, covariance to correlation, their compositions and block combinations), the reverse map undoes the forward map and the forward map undoes the reverse map on the whole domain. The Jacobians and Hessians reported for either direction are the exact first and second derivatives of that map.",
 ["inputs"],"all admissible parameter vectors, all sizes, all ways of composing and combining transforms",
 "Tests compare finite differences at a few random points of a few sizes, to a tolerance.",
 [U+"param_transforms.py"],[("transform classes",U+"param_transforms.py")])
prop("C05","Covariance factorisations round-trip, stay valid and differentiate exactly",
 "The stand-alone covariance parameterisations (Cholesky, log-Cholesky, unconstrained Cholesky and correlation forms) map every unconstrained vector to a symmetric positive definite matrix and back to the same vector, and their reported first and second derivatives, like those of the Cholesky factor with respect to the matrix, are the exact ones.",
 ["inputs"],"all unconstrained vectors and all positive definite matrices, all sizes",
 "Tests check one size with finite differences.",
 [U+"cov_transform.py",U+"unconstrained_chol.py",U+"dchol.py",U+"linalg_operations.py"],[("parameterisations",U+"cov_transform.py"),("derivatives of the Cholesky factor",U+"dchol.py")])
prop("C06","Link functions: inverse is the inverse, derivatives are the derivatives",
 "For every link offered by the generalised linear model packages, applying the link and then its inverse (or the other way round) returns the argument throughout the mean's admissible range. Every derivative the link offers, of the link with respect to the mean and of the inverse link with respect to the linear predictor, equals the exact derivative of that order.",
 ["inputs"],"all means in the admissible range, all linear predictors, all link parameters",
 "Only the links a fitted model happens to use, at the fitted means, to optimiser tolerance, are exercised today; higher derivatives are not.",
 ["pystatsm/pyglm2/links.py","pystatsm/pyglm/links.py","pystatsm/pylmm/links.py"],[("Link classes","pystatsm/pyglm2/links.py")])
prop("C07","Exponential families: variance, deviance, likelihood and weights agree",
 "For every response distribution, with prior weights and dispersion, the variance function and its derivatives, the deviance, the log-likelihood, the canonical parameter, cumulant and the working weights describe the same distribution: the log-likelihood is that of the distribution, the deviance is twice the scaled log-likelihood gap to the saturated fit (non-negative, zero only at a perfect fit), and every derivative offered with respect to mean, predictor or dispersion is exact.",
 ["inputs"],"all admissible responses, means, dispersions and prior weights; all link and family pairs",
 "Tests fit models on simulated data with unit weights and compare a few derivatives to finite differences.",
 ["pystatsm/pyglm2/families.py","pystatsm/pyglm/families.py"],[("ExponentialFamily classes","pystatsm/pyglm2/families.py")])
prop("C08","GLM log-likelihood, gradient, Hessian and per-observation parts agree",
 "For every family, link and dispersion setting, the generalised linear model's gradient and Hessian are the exact first and second derivatives of the negative log-likelihood it reports, with prior weights included; a moment-estimated dispersion is held at its value, and the negative binomial with such a dispersion is its quasi-likelihood. The per-observation log-likelihoods and scores add up to the totals, and a fitted model is a stationary point.",
 ["inputs","configurations"],"all data, weights, parameter values; all family, link and scale-handling combinations",
 "Tests check finite differences for a few family and link pairs at one dataset with unit weights.",
 ["pystatsm/pyglm2/glm.py"],[("GLM._loglike/_gradient/_hessian","pystatsm/pyglm2/glm.py")])
prop("C09","Ordinal regression likelihood and derivatives are exact",
 "The cumulative link model's category probabilities are non-negative and sum to one for ordered thresholds, its negative log-likelihood is the weighted sum of minus log category probabilities of the observed categories, and its gradient and Hessian, in constrained and unconstrained threshold coordinates, are the exact derivatives; per-observation parts add up to the totals.",
 ["inputs","configurations"],"all data, weights, number of categories, links, threshold vectors and coefficients",
 "Tests use one link and one dataset and finite differences.",
 ["pystatsm/pyglm2/clm.py","pystatsm/pyglm/clm.py"],[("CLM","pystatsm/pyglm2/clm.py")])
prop("C10","Zero-inflated, negative-binomial and beta regression derivatives are exact",
 "The zero-inflated count, negative-binomial and beta regression log-likelihoods are those of the distributions they name (for zero inflation: zero-probability mixing plus count part), and the gradients, Hessians and per-observation scores they report are the exact derivatives.",
 ["inputs"],"all responses, design matrices, weights and parameters",
 "Tests use one simulated dataset and finite differences at one point.",
 ["pystatsm/pyglm2/zinf.py","pystatsm/pyglm/zimodels.py","pystatsm/pyglm/nb2.py","pystatsm/pyglm/betareg.py"],[("loglike/gradient/hessian methods","pystatsm/pyglm2/zinf.py")])
prop("C11","Linear regression solves its normal equations and reports the exact statistics",
 "Univariate and multivariate linear regression coefficients satisfy the weighted normal equations, residuals are orthogonal to the design, and the reported residual variance, covariance of the estimates, leverage, likelihood, gradient and Hessian are the exact functions of the data they are named for.",
 ["inputs"],"all full-rank designs, responses and weights",
 "Tests use one simulated dataset.",
 ["pystatsm/pyglm2/ols.py","pystatsm/pyglm2/mvols.py","pystatsm/pyglm2/regression_model.py"],[("OLS","pystatsm/pyglm2/ols.py"),("MVOLS","pystatsm/pyglm2/mvols.py")])
prop("C12","Information criteria and likelihood-based tests follow their definitions",
 "For any fitted likelihood-based regression model of the pyglm2 package (GLM, CLM, zero-inflated Poisson, OLS), AIC, AICC, BIC, CAIC, pseudo R-squared values, likelihood-ratio, Wald and score statistics, standard errors and confidence limits are the textbook functions of the log-likelihood, its derivatives, the sample size and the number of parameters, and degrees of freedom count exactly the constraints tested.",
 ["inputs","configurations"],"all fitted values, sample sizes, parameter counts and constraint sets",
 "Tests do not examine these outputs, or only for one model.",
 ["pystatsm/pyglm2/likelihood_model.py","pystatsm/pyglm2/regression_model.py"],[("LikelihoodModel","pystatsm/pyglm2/likelihood_model.py")])
prop("C13","Robust M-estimators: influence functions are derivatives of the loss",
 "For each robust loss (Huber, bisquare) and any tuning constant, psi is the derivative of rho (for the bisquare, scaled to the maximum of rho it reports), phi is the derivative of psi wherever it exists, the weight is psi(x)/x, rho is even, non-negative and zero at the origin, and the reported Gaussian expectations are the integrals of those very functions. Robust regression solutions satisfy their estimating equation.",
 ["inputs"],"all residuals, all tuning constants",
 "Tests check one loss at default constants.",
 ["pystatsm/pyrobust/m_estimators.py","pystatsm/pyrobust/rls.py"],[("MEstimator classes","pystatsm/pyrobust/m_estimators.py")])
prop("C14","Linear mixed models: likelihood, gradient and effects match the marginal model",
 "For any complete data, design, grouping (levels in order of first appearance, any label type) and covariance parameters, the criterion of the linear mixed model LMM2 is minus twice the (restricted) Gaussian log-likelihood of the marginal model, up to its documented constant; both gradient implementations are its exact derivative in natural and in unconstrained coordinates; and the fixed effects, random effects, their covariances and prediction errors, and the quantities a fit reports from them, solve the mixed model equations, also with given relationship matrices between levels.",
 ["inputs","configurations"],"all balanced or unbalanced groupings, numbers of random effects terms, covariance parameters, REML and ML",
 "Tests use a few balanced simulated designs and finite differences; level order and unbalanced or crossed groupings hide index errors.",
 ["pystatsm/pylmm/re_mod.py"],[("MMEBlocked","pystatsm/pylmm/re_mod.py")])
prop("C15","Factor analysis derivatives, rotations and constraints are exact",
 "The factor model discrepancy's gradient and Hessian and the implied covariance's Jacobian are exact for any loadings, factor correlations and uniquenesses; rotation criteria report their exact first and second derivatives; the Cayley map sends every skew parameter to a proper rotation and back; rotation leaves the implied covariance unchanged; and identification constraints come with their exact Jacobian. The named criteria are the Crawford-Ferguson criteria of that name; the concentrated discrepancy and its derivatives in the uniquenesses are exact, also where eigenvalues coincide; covariances of estimates are those of the constrained estimator; and reordering factors to match a target keeps the implied covariance.",
 ["inputs"],"all sizes, loadings, factor correlations, uniquenesses and rotation parameters",
 "Tests check a few sizes with finite differences.",
 ["pystatsm/pyfa2"],[("MLEstimator","pystatsm/pyfa2/likelihood.py"),("criteria","pystatsm/pyfa2/criterion.py")])
prop("C16","Structural equation models: implied moments and derivatives are exact",
 "For any model specification and parameter value, the implied covariance and mean are those of the reticular model the specification describes; the fit function's gradient (every implementation offered) and Hessian are its exact derivatives; per-observation scores add up to the total; and mapping free parameters to model matrices respects equality constraints and fixed values.",
 ["inputs","programs"],"all model formulas the parser accepts, parameter vectors, groups and sample moments",
 "Tests use a few model strings and finite differences.",
 ["pystatsm/pysem2"],[("SEM.fit_func/gradient/hessian","pystatsm/pysem2/sem.py"),("derivative kernels","pystatsm/pysem2/derivatives.py")])
prop("C17","Complex survey covariance equals the stratified cluster formula",
 "For any data frame with strata, clusters, weights and finite-population corrections, in any row order, the design covariance of a total is the sum over strata of (1-f)n/(n-1) times the centred cross-products of cluster totals; single-cluster strata follow the chosen policy; restricting to a subpopulation zeroes weights without changing the design; and the sandwich covariance of an estimator is bread times meat times bread, for every replicate of a replication study, whose summaries are the moments of its replicates.",
 ["inputs","configurations"],"all row orders, label types, unbalanced designs, weights, policies",
 "Tests use a few balanced layouts and simulated data.",
 [U+"complexdesign"],[("SampleDesign",U+"complexdesign/sample_design.py")])
prop("C18","Elastic net: coordinate updates minimise, solutions satisfy optimality",
 "The soft-threshold operator is the proximal map of the absolute value, every coordinate update of the elastic net solvers is the exact minimiser of the penalised objective in that coordinate, and a converged solution satisfies the subgradient optimality conditions; the reported objective, deviance and penalty are the ones being minimised.",
 ["inputs"],"all data, penalties, mixing values and weights",
 "Tests compare one dataset.",
 ["pystatsm/pyglmnet"],[("coordinate descent","pystatsm/pyglmnet")])
prop("C19","Flexible four-parameter densities: derivatives up to order four are exact",
 "For the sinh-arcsinh and skew-normal families, every first to fourth order partial derivative of the log-density the library reports is the exact derivative of that log-density; the density is the derivative of the distribution function, and the quantile function inverts the distribution function.",
 ["inputs"],"all observations and all admissible location, scale, skewness and tail parameters",
 "Tests compare low-order derivatives with finite differences for two of the implementations.",
 ["pystatsm/misc"],[("_logpdf1.._logpdf4","pystatsm/misc"),("SASH","pystatsm/misc/sash.py")])
prop("C20","Spline bases and penalties are consistent",
 "B-spline bases are non-negative and sum to one inside their knots and report exact derivatives; cubic regression and cyclic spline bases interpolate (value one at the own knot, zero at the others); and the penalty matrices are symmetric positive semidefinite and equal the integrated squared derivative of the spline they penalise, annihilating exactly the functions that penalty leaves free.",
 ["inputs"],"all knots, evaluation points, degrees and coefficients",
 "Tests only fit additive models with them.",
 [U+"splines.py","pystatsm/pygam/smooth_setup.py"],[("basis and penalty builders",U+"splines.py"),("smooth terms","pystatsm/pygam/smooth_setup.py")])
prop("C21","Additive model criteria and their derivatives are exact",
 "For Gaussian location-scale additive models, derivatives up to order four of the log-likelihood with respect to the linear predictors are exact; gradient and Hessian with respect to coefficients, penalised and unpenalised, and the derivatives of that Hessian along smoothing parameters are exact for any coefficients and smoothing parameters. For generalised additive models the gradient and Hessian of the penalised deviance, the implicit derivatives of the coefficients with respect to the smoothing parameters, and gradient and Hessian of the restricted marginal likelihood criterion are exact. A fitted model reports the minimiser of its criterion, with the covariance matrices and effective degrees of freedom of the penalised estimator.",
 ["inputs"],"all data, coefficients and smoothing parameters",
 "Tests compare finite differences for one dataset.",
 ["pystatsm/pygam/gauls.py","pystatsm/pygam/gam.py","pystatsm/pygam/gaussian_additive_model.py"],[("GauLS","pystatsm/pygam/gauls.py"),("GAM","pystatsm/pygam/gam.py")])
prop("C22","Finite-difference derivatives are exact on polynomials of their order",
 "The numerical derivative routines return the exact derivative (up to rounding) for every polynomial up to the order their stencil guarantees, with the documented shape and argument order, for any evaluation point and step; the computed stencil weights satisfy the moment equations for any set of points.",
 ["inputs"],"all polynomials up to the guaranteed degree, points and steps",
 "They are the yardstick of the other tests and are not themselves tested beyond a few functions.",
 [U+"numerical_derivs.py"],[("difference stencils",U+"numerical_derivs.py")])
prop("C23","Latent-variable correlations: likelihood derivatives and probabilities are exact",
 "For polychoric and polyserial correlation, cell probabilities are non-negative and sum to one, the likelihood is that of the contingency table or mixed data, and its gradient and Hessian in the correlation (and in the inverse-hyperbolic-tangent coordinate) are exact for any table and any correlation inside (-1, 1).",
 ["inputs"],"all tables, thresholds and correlations",
 "Tests recover one simulated correlation.",
 ["pystatsm/pylvcorr/lvcorr.py","pystatsm/pylvcorr/polychoric.py","pystatsm/pylvcorr/polychoric2.py","pystatsm/pylvcorr/statfuncs.py",U+"func_utils.py"],[("Polychoric","pystatsm/pylvcorr/lvcorr.py")])
prop("C24","Weighted least squares, centering and moment utilities obey their definitions",
 "The linear-algebra and data helpers (QR and Cholesky least squares, weighted and non-negative-weight variants, Cholesky updates, inverse square roots, centering, standardising, covariance and correlation, Khatri-Rao and Kronecker helpers) return the mathematical object they are named for on every input in their domain.",
 ["inputs"],"all full-rank inputs, shapes and weights",
 "Tests touch a few of them on one random matrix.",
 [U+"linalg_operations.py",U+"data_utils.py",U+"cov_utils.py"],[("helpers",U+"linalg_operations.py")])
if __name__=="__main__":
    with open("/verif/properties.jsonl","w") as f:
        for p in P: f.write(json.dumps(p)+"\n")
