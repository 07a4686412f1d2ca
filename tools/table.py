prop('C01', 'Integer core functions return the mathematically exact integer',
     'Integer square and cube roots return the floor of the exact root, the integer logarithm and the padding to a power of two bracket their argument exactly, and factorials, double/rising/falling factorials, binomial coefficients and Catalan numbers equal their combinatorial definitions whenever the result is representable. No representable argument (including 0, powers of two and their neighbours, perfect squares/cubes and the largest integer) makes them divide by zero, shift out of range or loop. Binomial coefficients outside the domain report EDOM and return 0.',
     'every 8/16/32/64-bit argument (bit-vector), or every argument in stated windows around perfect powers; every order up to the stated bound',
     'Unit tests call each function on a few random reals converted to integers; the failures live at powers of two, at the top of the integer range and where intermediates overflow.',
     ['src/core/real_analysis.h', 'src/core/special.h'],
     ['isqrt, icbrt, ilog2, pad2 @ src/core/real_analysis.h', 'fact, double_fact, binomial_coeff, catalan @ src/core/real_analysis.h'],
     'all 8-bit inputs of isqrt/icbrt, windows +-4 around selected perfect powers and the top of the 64-bit range; all 64-bit inputs of ilog2; pad2 over all 32-bit and sparse 64-bit inputs; binomials n<=60, factorials to the representable limit. Binomials of nine n up to 2^32-1 with m or n-m <= 12; factorials in doubles to 170; Catalan numbers to n = 31.')
prop('C02', 'Elementary exact real helpers behave as defined for every double',
     'Absolute value, sign, floor, fractional part, max, min, clamp, Heaviside step, square, cube and degree/radian conversion return exactly what their definitions say for every argument, of either sign, at integers, at zero and at ties. Floor never exceeds its argument nor falls a whole unit below it and the fractional part is x - floor(x) in [0,1). The results are the same with and without the x86 assembly implementations.',
     'every IEEE double (bit-exact) or every real in the stated range; both build configurations',
     'Tests sample a few hundred points of a smooth range; sign, tie and negative-integer cases are measure-zero there.',
     ['src/core/real_analysis.h'], ['abs, sgn, floor, fract, max, min, clamp, heaviside @ src/core/real_analysis.h'],
     'all doubles in fp mode; floor for |x| <= 2^30 in fp mode and |x| <= 12 over the reals; fract for all doubles below 2^30; powers and thresholds at large magnitudes over the reals.')
prop('C03', 'Powers and roots: x^n exact, roots invert powers, domain errors reported',
     'Integer powers equal the n-fold product (reciprocal for negative exponents, neutral element for 0) for every base and exponent, for reals, integers modulo 2^64 and complex numbers. Square, cube and n-th roots raised back to the power give the argument within the library tolerance, odd roots are odd functions, and negative orders are reciprocals. Even roots of negatives and order 0 return NaN and set EDOM, with and without the x86 implementations.',
     'every real/complex/64-bit base, every exponent up to 40 and selected larger ones; every root argument in stated intervals',
     'Tests compare with libm on random points and never exercise all exponents, negative bases with odd orders, or the portable code paths.',
     ['src/core/real_analysis.h'], ['pow, ipow, sqrt, cbrt, root @ src/core/real_analysis.h'],
     'exponents 0..40 plus selected larger, -24..-1; Newton roots on intervals around 1 as stated per harness, with all interval points decided at once. Wide: n-th roots of orders 4..20 at fixed magnitudes from 1e-12 to 1e18. Roots at the points of a table of magnitudes.')
prop('C04', 'Transcendental functions: accuracy on whole intervals, branches, domains',
     'exp, ln, log2, log10, sin, cos, tan, cot, atan and expm1 stay within the stated tolerance of the true function at every point of whole intervals, including the portable (non-x86) implementations. atan2 returns the angle of (x,y) in the right quadrant for every nonzero point including the axes; asin, acos, hyperbolic and inverse hyperbolic functions, sinc and powf equal their defining formulas on all branches. Arguments outside a domain return NaN or -inf and set EDOM or ERANGE as documented, and no valid argument does.',
     'every real argument on every branch; every point of the stated accuracy intervals; both build configurations',
     'Tests sample random points against libm; branch edges, quadrant axes, domain edges and the portable build are not covered.',
     ['src/core/real_analysis.h'], ['exp, ln, log2, log10, sin, cos, tan, cot, atan, atan2, asin, acos, sinh, cosh, tanh, coth, asinh, acosh, atanh, sinc, powf, expm1 @ src/core/real_analysis.h'],
     'accuracy: exp on [-4,4], portable sin/cos on [-8,8], atan everywhere, portable logs on [1/16,16] and around 2^+-32, tan/cot away from poles; identities over all reals. powf of zero for every exponent; hyperbolic functions of large arguments. Every function at the points of a table of magnitudes (harness/points.h), both builds.')
prop('C05', 'Gamma-family functions satisfy their recurrences and report poles',
     'Gamma at positive integers is the factorial and half-integer Gamma follows Gamma(x+1) = x Gamma(x), without overflow up to the double range. Gamma at non-integers equals exp(lngamma) with the right sign for negative arguments, poles report EDOM, the log-Gamma approximation stays within 1e-7 of the true function and Beta equals its Gamma quotient and is symmetric.',
     'every positive integer up to the stated bound; every real in the stated intervals',
     'Tests check a handful of integers and random points.',
     ['src/core/special.h'], ['gamma, lngamma, half_gamma, pi, beta @ src/core/special.h'],
     'gamma integers 1..60, half_gamma 1..120, lngamma accuracy on sub-intervals of [1,5], sign rules on (-6,8). Gamma and log-gamma at the points of a table from 1e-300 to 1e12, Beta at integers 1..40 and small arguments, integers to 171 (342 halves), Beta at integers to 1500.')
prop('C06', 'Bit kernels: 128-bit product, rotations and bit reversal are exact',
     'The 64x64-bit multiplication returns the low and high words of the exact 128-bit product and the mixing function their exclusive or, for every pair of words. Bit rotation by any amount equals the rotation modulo the width, and bit reversal of vectors and integers is the exact permutation that swaps index i with its m-bit reversal, an involution.',
     'every 64-bit operand pair; every rotation amount; every vector length 2^m up to the bound, symbolic contents',
     'Tests do not exercise carries, full-width operands or rotations by 0; the space is 2^128.',
     ['src/core/bit_op.h'], ['mul_uint128, mix_mum, bit_rotate, swap_bit_reverse @ src/core/bit_op.h'],
     'all 64-bit operands; rotations of 8, 32 and 64-bit words by 0..width+1; reversal for m = 0..10. Also m = 11, 12.')
prop('C07', 'Random generators: exact recurrences, determinism, permutation shuffle',
     'Each generator (congruential, xoshiro256++, splitmix64, wyrand, middle-square) produces exactly the published recurrence from every state, equal seeds give equal sequences, copies do not share state, discard(n) equals n draws and the last draw is reported back. A malformed state is rejected with EINVAL and 0. Shuffling permutes its elements whatever the generator returns and quasi-random Weyl sequences are n*alpha modulo 1 in [0,1).',
     'every 64-bit state, seed and parameter; every generator output fed to the shuffle',
     'Tests check moments of samples from one fixed seed; a wrong rotation or a shared state leaves the moments unchanged.',
     ['src/pseudorandom/pseudorandom.h', 'src/pseudorandom/prng.h', 'src/pseudorandom/quasirandom.h'],
     ['randgen_congruential, randgen_xoshiro, randgen_splitmix64, randgen_wyrand, randgen_middlesquare @ src/pseudorandom/pseudorandom.h', 'PRNG, shuffle @ src/pseudorandom/prng.h', 'qrand_weyl @ src/pseudorandom/quasirandom.h'],
     'one to three steps from an arbitrary state; shuffles of up to 5 elements; Weyl indices up to the stated bound. Larger: shuffles of 6, 17 and 40 symbolic elements, discard(n) for n up to 100, 40 steps from fixed states. Re-seeding from every earlier state; accessors.')
prop('C08', 'Complex numbers: field operations, branches and complex functions',
     'Complex addition, subtraction, multiplication and division agree with the algebraic definition for every operand, in every form (binary, compound, mixed with reals on either side, with the object itself as operand), and division by zero gives NaN and an errno. Modulus, conjugate and argument are consistent (argument in the right quadrant and on the axes), the square root squares back with non-negative real part on the whole plane including the negative real axis, and exp, ln, sin, cos, tan and the inverse functions equal their defining formulas.',
     'every complex operand (over the reals), the stated lines and boxes for nested branch functions',
     'Tests compare a few random points; axes, branch cuts, compound and aliased forms are not exercised.',
     ['src/complex/complex.h', 'src/complex/complex_analysis.h'],
     ['complex operators, arg, norm, inverse @ src/complex/complex.h', 'sqrt, exp, ln, sin, cos, tan, asin, acos, atan @ src/complex/complex_analysis.h'],
     'all operands for algebra; sqrt on [-4,4]^2; inverse functions on the real segments, imaginary half-axes (thorough: lines). Argument, roots and functions at points of small and large scale and next to the axes and cuts.')
prop('C09', 'Quaternions and phasors: algebra, rotations, conversions',
     'Quaternion sums, products, inverses and quotients satisfy the Hamilton algebra for every operand in every form, the norm is multiplicative, and rotating a vector by an angle about an axis equals Rodrigues\' formula for every vector, angle and axis and keeps lengths; wrong sizes are rejected. Phasor products, quotients, inverses, conversions and sums represent the same complex number as the corresponding complex operation, with a non-negative modulus.',
     'every quaternion / phasor operand over the reals; fixed and dynamic vectors',
     'Tests check a few samples with tolerance; compound forms, non-commuting order and aliasing are not settled.',
     ['src/complex/quat.h', 'src/complex/phasor.h'], ['quat operators, rotation, transform, rotate @ src/complex/quat.h', 'phasor operators, conversions @ src/complex/phasor.h'],
     'all operands; phasor sums for equal phases or one null phase. Phasor sums of nearly equal phases, rotations by small angles; real plus or minus phasor on and off the real axis; operands aliased.')
prop('C10', 'Polynomial arithmetic, calculus and roots are exact for every coefficient',
     'Evaluation is the sum of c_i x^i, sums and products are coefficient-wise and convolution, division leaves a remainder of lower degree than the divisor, derivative and integral act term by term, order/trim/equality follow the non-null coefficients, and quadratic roots satisfy the equation in the real and complex case. Empty, constant and null polynomials, operands of different sizes and self-operands are handled without touching memory outside the coefficients; division by a null polynomial or scalar reports the error.',
     'every real coefficient and argument, every size combination up to the bound',
     'Tests use a few fixed polynomials; size mismatches, empty operands, trailing zeros and self-assignment are the failing cases.',
     ['src/polynomial/polynomial.h', 'src/calculus/deriv.h', 'src/calculus/integral.h'], ['polynomial @ src/polynomial/polynomial.h', 'deriv, integral of polynomials @ src/calculus/deriv.h'],
     'sizes 0..5 (thorough 0..8), evaluation 0..12, division up to degree 3 by 2. Larger: evaluation and calculus of 13..40 coefficients, products up to 16x17 and 1x33, division of 8..20 coefficients by fixed divisors of degree 1..6. Small coefficients and quadratics of scales from 1e-6 to 1e6; products and roots of scales 1e-30 to 1e30; operands aliased.')
prop('C11', 'Orthogonal polynomials and quadrature weights follow their definitions',
     'Legendre, Hermite, Laguerre, generalised Laguerre and Chebyshev polynomials of each degree equal their explicit formulas, associated Legendre functions equal theirs for every order from -l to l and every argument, the generic recurrence generator applies a recurrence in order, and the Gauss quadrature weights at given nodes equal their closed formulas.',
     'every argument and node over the reals, every degree up to the bound',
     'Tests check a few degrees by integrals with tolerance.',
     ['src/polynomial/orthogonal.h'], ['gen_polyn_legendre, gen_polyn_hermite, gen_polyn_laguerre, general_laguerre_polynomial, chebyshev, assoc_legendre, *_weights @ src/polynomial/orthogonal.h'],
     'degrees 0..14 (generalised Laguerre 0..8, associated Legendre l <= 5, weights up to 4 nodes). Larger: degrees 15..20 and weights at 5..12 fixed nodes. Normalisations, associated Legendre functions to l = 18, Hermite weights to 30 nodes, degrees 21..48 at fixed points.')
prop('C12', 'Vectors: vector-space operations, inner products, copies and size errors',
     'Sums, differences, opposites, scalar multiples and quotients act element by element for fixed-size and dynamic vectors in every form (binary, compound, with the vector itself as operand, mixed storage types); dot and cross products, norms and normalisation equal their definitions, with conjugation for complex elements. Copies and conversions keep every element and never alias. Operands of mismatching size give NaN elements and EINVAL, and no operation on empty, mismatching or fixed-size vectors touches memory outside them.',
     'every element value over the reals, every size up to the bound, fixed and dynamic',
     'Tests use one or two sizes with matching operands; empty vectors, mismatching sizes and fixed-size destinations are not run.',
     ['src/algebra/vec.h', 'src/algebra/algebra.h'], ['vec @ src/algebra/vec.h', 'vec_sum, vec_diff, vec_copy, dot, cross, norm, normalize @ src/algebra/algebra.h'],
     'sizes 0..8 dynamic, 1..5 fixed. Larger: dynamic sizes 9..65, fixed 8..32 (normalisation with two symbolic components). Norms down to 1e-150, sizes up to 1000 with a few symbolic components.')
prop('C13', 'Matrices: independent element storage, element-wise operations, products, shapes',
     'Every element of a matrix of any shape is stored independently (in both storage orders) and accessors, iterators, resizing, copies and constructors agree on it. Sums, differences, scalar multiples, linear combinations, products (matrix-matrix, matrix-vector, vector-matrix, with transposed factors), transposes, hermitian conjugates, traces, row/column swaps and shape predicates equal their definitions for rectangular as well as square, fixed-size as well as dynamic matrices. Mismatching shapes give the error value and EINVAL without touching memory outside.',
     'every element value over the reals, every shape up to the bound, column-first and row-first storage',
     'Tests mostly use square matrices of one size, where a transposed stride or a swapped row/column count goes unnoticed.',
     ['src/algebra/mat.h', 'src/algebra/algebra.h'], ['mat @ src/algebra/mat.h', 'mat_sum, mat_mul, transform, transpose, mat_swap_rows, is_symmetric @ src/algebra/algebra.h'],
     'shapes up to 4x4 (products up to 3x3x3, thorough one more); both storage orders. Larger: 5x5, 8x8, 7x3, 1x17, 9x1, 12x12, products up to 8x8x8 and 4x16x3, fixed 6x5 and 8x8. Complex matrices up to 3x3; operands aliased.')
prop('C14', 'Linear systems: factorisations, solutions, inverses, determinants, eigenvalues',
     'LU factors multiply back to the matrix with unit lower and upper triangular shape, Cholesky factors likewise for symmetric positive matrices (others are rejected), triangular and general solvers return x with A x = b for every regular matrix including those with vanishing leading minors, the inverse satisfies A A^-1 = A^-1 A = 1, and the determinant equals the Leibniz formula with its sign for every matrix, singular included. In-place, out-of-place and fixed-size forms agree; singular matrices and mismatching shapes give NaN results and an errno instead of a number. Eigen-solvers return the eigenvalue and unit eigenvector when started at an eigenvector, return the Rayleigh quotient, and report non-convergence.',
     'every element value over the reals; every pivoting path; shapes up to the bound',
     'Tests use random well-conditioned matrices of one size, for which pivoting, sign changes and singular inputs never occur.',
     ['src/algebra/algebra.h'], ['decompose_lu, decompose_cholesky, solve, inverse, det, solve_triangular, eigenvalue_power, eigenpair_inverse, rayleigh_quotient @ src/algebra/algebra.h'],
     'systems up to 3x3 (permuted triangular 4x4 determinants, thorough: full 3x3 inverse); eigen-solvers 2x2 from exact eigenvectors. Larger: 4x4..8x8 fixed dominant or row-permuted matrices with one symbolic element and a symbolic right hand side; 4x4..8x8 Cholesky; eigen-solvers 2x2..6x6 as stated per harness. Null and small pivots of every factorisation, solver and inverse; nearly diagonal and nearly triangular matrices; convergence of the eigen-solvers from starts beside an eigenvector, and the error they report without convergence. Complex systems 1x1 to 4x4 with pivoting; factors with pivots down to 1e-30.')
prop('C15', 'Geometric transformations: rotations, translations, projections, cameras',
     'Plane rotations and rotations about any axis (of any length) by any angle equal Rodrigues\' formula, keep lengths and fix the axis; coordinate-axis rotations agree with the general one; matrices larger than needed keep the identity outside the block. Translations move every homogeneous point by the vector. Perspective and orthographic projections map the corners of every view volume to the corners of the unit cube, the field-of-view form agrees with the frustum form, camera matrices send the camera to the origin and the target in front with orthonormal right-handed axes. Identity, diagonal, symplectic and Hilbert matrices have their defining elements. Too small or mismatching shapes give the error value and EINVAL without touching memory outside.',
     'every angle, axis, vector and view volume over the reals, shapes up to the bound, fixed and dynamic',
     'The tests do not call most of these functions; a wrong sign or transposed element shows only off the axes.',
     ['src/algebra/transform.h'], ['rotation_2d, rotation_3d, translation, perspective, ortho, look_at, symplectic, hilbert, sphere_inversion @ src/algebra/transform.h'],
     'shapes up to 4x4 (symplectic 6x6); look_at with the view direction along a coordinate axis (26 oblique directions with eight ups at fixed values); fov at four angles. Larger: sizes 7, 8, 10 and 13. Rotation axes of any non-null length, fixed fields of view, shapes to 13x13.')
prop('C16', 'Norms and distances equal their definitions',
     'L1, L2, Linf and Lp norms and the Manhattan, Euclidean, Chebyshev, Minkowski, Hermitian, discrete, Hamming, Canberra and cosine distances equal their definitions for every vector, real and complex, including empty vectors and null elements; the distance of a vector from itself is null. Vectors of different sizes give NaN and EINVAL.',
     'every vector over the reals (boxes for the complex ones), sizes up to the bound',
     'The tests do not call most of these functions, and never with complex, empty or null elements.',
     ['src/algebra/distance.h'], ['lp_norm, l2_norm, linf_norm, euclidean_distance, hermitian_distance, canberra_distance, cosine_distance @ src/algebra/distance.h'],
     'sizes 0..3 (L2 0..6; thorough 0..5); p = 1, 2 symbolically, p = 3, 4 at fixed vectors. Larger: 6..64 elements, three of them symbolic (all of them, positive, for L1 and L2). p-norms of order 5..12 at fixed vectors, sizes to 64; scales 1e-60 to 1e60 at fixed vectors.')
prop('C17', 'Parallel evaluation gives the sequential result under every schedule',
     'Every function of the parallel namespace applies the corresponding scalar function to each element of a vector of any size, leaves its argument unchanged, and its OpenMP loop has no data race: no two threads of the team touch the same memory with one of them writing, so that the result does not depend on the number of threads or their interleaving.',
     'every element value in the stated boxes, sizes up to the bound, every thread of a team of 8 having its own iteration',
     'A race or a wrong index needs a particular interleaving and vector size; tests run one schedule.',
     ['src/algebra/parallel.h'], ['parallel::apply_function, square, cube, pow, sqrt, exp, ln, sin, cos, tan, ... @ src/algebra/parallel.h'],
     'vectors of 0..4 elements (thorough 0..8), team of 8 threads (one iteration each), std::vector, dynamic and fixed vec; complex square, cube, exp. Larger: 9, 20, 50 and 130 elements; exponents to +-1000 of powers of two.')
prop('C18', 'The FFT is the discrete Fourier transform and the inverse inverts it',
     'fft of every complex vector of power-of-two size equals the sum of x_j exp(-2 pi i j k / N), ifft the conjugate sum divided by N, each is the inverse of the other, the argument is unchanged, and fixed-size vectors give the same result. Other sizes give NaN and EINVAL, and the empty vector gives the empty vector without error.',
     'every complex vector in a box, sizes up to the bound',
     'The tests compare a round trip and three tiny inputs: a wrong phase, ordering or normalisation shared by both directions cancels.',
     ['src/signal/fft.h', 'src/core/bit_op.h'], ['signal::fft, signal::ifft @ src/signal/fft.h', 'swap_bit_reverse @ src/core/bit_op.h'],
     'sizes 1..16 (thorough 32), components in [-8,8], agreement within 1e-9. Larger: all vectors of 32 elements in the box; impulses of any amplitude in 32..256 elements; waves of 64, 512 and 1024. Impulses of arbitrary amplitude to 256 elements, fixed waves to 4096.')
prop('C19', 'Dual numbers carry the exact value and first derivative',
     'Every operation on dual numbers, in every form (binary, compound, with reals on either side, with itself as operand), and every function (powers, roots, logarithms, trigonometric, hyperbolic and inverse functions) returns the value of the function and the chain-rule derivative, autodiff::deriv differentiates compositions exactly, and division by zero or arguments outside the domain give NaN and the documented error.',
     'every real and dual part over the reals; integer exponents in a range',
     'Tests differentiate a few functions at a few points; an error in one compound form or at one end of a domain is not sampled.',
     ['src/autodiff/dual.h', 'src/autodiff/dual_functions.h', 'src/autodiff/autodiff.h'], ['dual operators @ src/autodiff/dual.h', 'pow, sqrt, sin ... tanh of dual @ src/autodiff/dual_functions.h', 'autodiff::deriv @ src/autodiff/autodiff.h'],
     'exponents -4..9; tan and cot at |cos|, |sin| >= 0.001; log2, log10 derivatives on [0.01, 100]. Larger: exponents 10..24, -5..-12 at six values with any derivative. Exponential-type functions at fixed points to +-800; integer powers to +-128 at six fixed values.')
prop('C20', 'Second-order and multivariate dual numbers carry exact derivatives',
     'dual2 numbers carry the value, first and second derivative, multidual numbers the value and gradient (fixed and dynamic size), through every operation in every form and through every function; the arguments built for differentiation carry the identity and the extraction functions return values and Jacobian; division by zero or arguments outside the domain give NaN in every part and the documented error.',
     'every value over the reals, integer exponents in a range, gradient sizes up to the bound',
     'Tests evaluate a few polynomials; second-order terms and compound operators are hardly executed.',
     ['src/autodiff/dual2.h', 'src/autodiff/dual2_functions.h', 'src/autodiff/multidual.h', 'src/autodiff/multidual_functions.h'], ['dual2 operators and functions @ src/autodiff/dual2.h', 'multidual operators and functions @ src/autodiff/multidual.h'],
     'exponents -3..7; gradient sizes 2 and 3; dynamic operands of equal size; real divisors null or at least 0.001 in magnitude. Larger: 5 (dynamic) and 8 (fixed) derivatives, argument sizes to 9, exponents 8..20, -4..-9 at six values. Powers to +-100 at six fixed values, exponential-type functions to +-800. Constant multivariate numbers (no derivatives) against numbers of 1..4 variables.')
prop('C21', 'Differential operators equal the analytic derivatives',
     'gradient, divergence, Jacobian, curl, directional derivative, Laplacian and the Sturm-Liouville (Poisson bracket) operator of fields with polynomial, rational and transcendental terms equal the analytic expressions at every point for every coefficient, with the right shape, for fixed and dynamic dimension and through the returned operators; curl outside three dimensions is an error.',
     'every point and every field coefficient over the reals',
     'Tests check a few values of one field each; several of these templates are never instantiated.',
     ['src/autodiff/autodiff.h'], ['gradient, divergence, jacobian, curl, directional_derivative, laplacian, sturm_liouville @ src/autodiff/autodiff.h'],
     'dimensions 2..4, one family of fields per operator. Larger: 4..9 dimensions (fixed 6). Constant fields.')
prop('C22', 'Quadrature rules are exact to their order and equal their sums',
     'Midpoint, trapezoid and Simpson rules of an arbitrary function equal their sums over any interval and number of steps and are exact on polynomials up to their order; Romberg integration with k iterations is exact on polynomials of degree 2k-1 and its adaptive form is exact or accepted by its tolerance; Gauss quadrature is the weighted sum over the mapped nodes, and the Legendre, Laguerre and Hermite tables and computed nodes integrate every polynomial of degree 2n-1 exactly. Polynomial integrals are exact. Mismatching sizes, unsupported orders, no steps and non-convergence give NaN and the documented error.',
     'every function (uninterpreted) or polynomial coefficient, every interval over the reals, step counts up to the bound',
     'Tests integrate a few smooth functions with loose tolerances, which hide a wrong weight, node or end term of one order.',
     ['src/calculus/integral.h', 'src/calculus/gauss.h'], ['integral_midpoint, integral_trapezoid, integral_simpson, integral_romberg, integral_romberg_tol, integral_gauss, integral_legendre, integral_laguerre, integral_hermite, integral_inf_riemann @ src/calculus/integral.h', 'tables @ src/calculus/gauss.h'],
     'rules with 1..6 steps; Romberg k = 1..4 and 8; tables n = 2, 4, 8, 16; computed Legendre nodes of degree 1..10. Larger: 7..100 steps, Romberg 5..9 iterations, 5..40 nodes, 7..20 coefficients, fixed intervals where stated. Romberg accuracy on fixed integrands, Legendre rules of 11..24 nodes, rules of 101..1001 steps, ramps of 3..40 steps to infinity.')
prop('C23', 'Numerical derivatives and Taylor expansions are exact to their order',
     'Forward, backward, central, second-difference and Ridders derivatives of an arbitrary function equal their stencils at every point for every step, are exact on polynomials up to their order, including the default steps; polynomial derivatives are exact; Taylor expansions of first and second order about any point have the value and derivatives of the function there.',
     'every function (uninterpreted) or polynomial coefficient, every point and non-null step over the reals',
     'Tests compare a few smooth functions within a loose tolerance.',
     ['src/calculus/deriv.h', 'src/calculus/taylor.h'], ['deriv, deriv_central, deriv_forward, deriv_backward, deriv_ridders, deriv2 @ src/calculus/deriv.h', 'taylor::expand_linear, expand_quadratic @ src/calculus/taylor.h'],
     'Ridders degree 1..4, polynomials up to degree 8. Larger: Ridders degree 5..8 on degree 10, 7..24 coefficients at fixed points. Ridders degrees 5..12 at five points; polynomials of 129..400 coefficients.')
prop('C24', 'ODE steps are their Runge-Kutta and Adams methods and solvers cover the interval',
     'Euler, midpoint, Heun, RK2, RK4, 3/8 and Adams-Bashforth steps of an arbitrary equation or system equal their tableaux for every state, time and step size and have their order. The solvers start at the initial state, apply the step over equally spaced times, end exactly at the final time with a shortened last step and return every intermediate state; reversed intervals and step sizes which are not positive are errors.',
     'every right-hand side (uninterpreted), state, time and step over the reals; interval lengths up to the bound',
     'Tests solve one equation with many small steps and compare loosely: a wrong tableau entry loses order but still passes.',
     ['src/calculus/ode.h'], ['step_euler, step_midpoint, step_heun, step_rk2, step_rk4, step_k38, step_adams2, step_adams3, solve_fixstep, solve_rk4 @ src/calculus/ode.h'],
     'systems of 1 and 2 equations; intervals of 0 to 3.75 steps. Larger: 5.5..40.5 steps; linear systems of 3, 5 and 8 equations; more than 1000 steps at fixed values.')
prop('C25', 'Root finding returns roots within the tolerance or reports failure',
     'Bisection and ITP, started with a sign change, return a point inside the interval within the tolerance of a root; without a sign change, with a reversed interval or too few iterations they return NaN and set errno. Newton, Halley, Chebyshev, Ostrowski, Jarratt and Steffensen make exactly the steps of their formula until |f| is within the tolerance, in the forms with given derivatives, automatic differentiation and complex numbers, find the root of every linear function, also from a guess already at the root, and return NaN with an errno otherwise. Candidate intervals are exactly those with a sign change, roots returns one root for each of them, the roots of polynomials are found inside their bound, and multivariate Newton solves systems from any guess.',
     'every function (uninterpreted) or linear/quadratic function, every interval and guess over the reals, coarse tolerances',
     'Tests search the root of a few smooth functions from good guesses.',
     ['src/optimization/roots.h', 'src/optimization/multi_roots.h'], ['find_root_intervals, root_bisect, root_itp, root_newton, root_halley, root_steffensen, root_chebyshev, root_ostrowski, root_jarrat, roots @ src/optimization/roots.h', 'multiroot_newton @ src/optimization/multi_roots.h'],
     'bisection and ITP of up to 16 tolerances; one iteration of each formula on an arbitrary function, two on linear ones; polynomials of degree 1, 2. Larger: 6..65 interval nodes; default tolerances on five functions from four starts; polynomials of degree 3..6; systems of 3..6 equations. Polynomial roots at magnitudes up to 3e5; exact multiple roots and null derivatives at fixed points.')
prop('C26', 'Extrema searches end within the tolerance of the extremum or report failure',
     'Golden section search of any unimodal parabola or cone ends within the tolerance of the extremum, also when it is at an end of the interval; Newton and bisection searches return the stationary point only when it is of the requested kind and NaN with an errno otherwise; gradient searches make their steps until the gradient is within the given tolerance, line searches end within it, and step sizes of the wrong sign, reversed intervals and exhausted iterations are errors with NaN results, in fixed and dynamic vectors.',
     'every vertex, curvature and guess over the reals, with coarse tolerances',
     'Tests use a few functions with their extremum well inside, and hardly call the multivariate searches.',
     ['src/optimization/extrema.h', 'src/optimization/multi_extrema.h'], ['maximize_goldensection, minimize_goldensection, maximize_newton, minimize_newton, maximize_bisection, minimize_bisection @ src/optimization/extrema.h', 'multi_minimize_grad, multi_maximize_grad, multi_minimize_lingrad, multi_maximize_lingrad @ src/optimization/multi_extrema.h'],
     'golden section with 16 tolerances; two variables; up to 3 gradient steps; library built with OPTIMIZATION_TOL = 1/16. Larger: gradient methods in 3..8 dimensions; non-quadratic functions from four starts. Gradient descent on bowls of three shapes with tolerances 1e-2 and 1e-5, univariate curvatures 1e-6..1e6 at fixed vertices, null curvature, eight diverging searches.')
prop('C27', 'Polynomial interpolation passes through its points',
     'The Lagrange polynomial of any points with distinct abscissae passes through all of them with degree below their number, and reproduces every polynomial of lower degree; interpolation on equidistant and Chebyshev nodes agrees with an arbitrary function at the nodes, of which the equidistant ones include both ends and the Chebyshev ones are the mapped roots. No points or any two equal abscissae are an error with NaN result.',
     'every point and every function value over the reals, numbers of points up to the bound',
     'Tests interpolate one function on one interval; repeated abscissae and unusual orders are not run.',
     ['src/interpolation/polynomial.h'], ['lagrange_polynomial, chebyshev_nodes, interpolate_grid, interpolate_chebyshev @ src/interpolation/polynomial.h'],
     '1..4 symbolic points (6 with fixed abscissae), orders 0..3, 0..8 Chebyshev nodes. Larger: 7..16 points with fixed abscissae, orders 4..12, Chebyshev 4..10. Distinct nodes as close as 1e-9; 16..256 Chebyshev nodes, grid orders 16..24 within the conditioning of the problem.')
prop('C28', 'Splines are natural and twice continuous; curves equal their Bernstein forms',
     'Cubic splines through any points with increasing abscissae interpolate every point with continuous first and second derivatives and null second derivative at the ends, in both forms, without touching memory outside; the spline and its derivative evaluate the piece containing the point and extrapolate the first and last. Bezier curves of any number of points equal their Bernstein form and leave the points unchanged; lerp, invlerp, remap, nlerp, slerp, smoothstep and smootherstep equal their definitions. Too few points, mismatching sizes, parameters outside [0, 1], null or parallel vectors give NaN and an errno.',
     'every abscissa and ordinate, point and parameter over the reals, numbers of points up to the bound, fixed and dynamic vectors',
     'Tests use equally spaced points, for which a wrong interval in the system of equations cancels.',
     ['src/interpolation/splines.h'], ['cubic_splines, spline, bezier, quadratic_bezier, cubic_bezier, lerp, slerp, nlerp, remap, smoothstep, smootherstep @ src/interpolation/splines.h'],
     'splines of 2..4 symbolic points (5..7 with fixed abscissae), Bezier curves of 0..6 points, slerp between fixed vectors. Larger: splines of 8..33 fixed abscissae and any ordinates, Bezier curves of 7..16 points, curves of 3..9 components. slerp at fixed angles from 0.002 to 3.13; steps close to the edges, lengths 1e-12 to 1e9, scales 1e-12 to 1e9 of fixed splines.')
prop('C29', 'Descriptive statistics equal their definitions',
     'Mean, total sum of squares, variance and standard deviation with any number of constraints, single-pass moments, standard deviation of the mean, relative error, range, covariance, correlation, autocorrelation at every lag, absolute deviation, skewness, kurtosis, z-scores, chi-squares of observations and of linear models, propagated errors and Gaussian expectations equal their definitions for every dataset, and chi-squared p-values equal the closed form and the Gaussian limit. Too few elements, mismatching sizes and null deviations or means give NaN and an errno.',
     'every dataset over the reals, sizes up to the bound',
     'Tests compare a few datasets; constraints, lags, single elements and degenerate data are not run.',
     ['src/statistics/statistics.h'], ['mean, variance, moments2, stdev, covariance, correlation_coefficient, autocorrelation, skewness, kurtosis, chi_square, chi_square_linear, pvalue_chi_squared, gaussian_expectation @ src/statistics/statistics.h'],
     'sizes 0..6 (moments 2..4); p-values with even 2..64 and 260, 1000 degrees of freedom at fixed values. Larger: 7..65 elements, one to three symbolic; odd degrees of freedom 1..69 and 72, 128, 200, 258 at fixed values. Offsets to 1e9; 20..200 values with one far outlier; scales 1e-60 to 1e60.')
prop('C30', 'Sums, products, maps, extremes and means of datasets',
     'Sums (pairwise over any range and base size, compensated, default) equal the sum of all elements, compensated summation keeps small terms exactly in floating point; products, sums of products, squares and quotients, maximum, minimum, arithmetic, weighted, harmonic, geometric and quadratic means equal their definitions for standard vectors, dynamic and fixed-size vectors and complex elements. map, apply and concatenate evaluate every element in order. Empty, mismatching and fixed-size operands give NaN and EINVAL and never touch memory outside.',
     'every dataset over the reals (doubles for compensation), sizes up to the bound',
     'Tests use small matching datasets: the recursive branch of the pairwise sum, empty and fixed-size operands are not run.',
     ['src/core/dataset.h'], ['product, product_sum, quotient_sum, sum_squares, sum_compensated, sum_pairwise, sum, apply, map, concatenate, max, min, arithmetic_mean, harmonic_mean, geometric_mean, weighted_mean, quadratic_mean @ src/core/dataset.h'],
     'sizes 0..9, sums also 127..131, 257, 300; compensation of multiples of 2^-20 up to 1 against 2^60; geometric mean symbolic for 1, 2 elements. Larger: sizes 6..100, sums to 1500 elements. Compensation for terms of both signs; means of elements down to 1e-30; scales 1e-40 to 1e40.')
prop('C31', 'A histogram counts every value once, in its bin, and keeps its statistics',
     'Every value inserted inside the range is counted exactly once, in the bin that contains it (the upper end in the last), values outside and NaN are ignored, and the number, mean, sum of squares, variance, minimum and maximum are those of the counted values, for any order of insertions; a histogram of a dataset counts all its elements between its extremes with the default or given number of bins; the step function returns the count of the bin and null outside. No double, range or number of bins leads to memory outside the bins.',
     'every value and range over the reals, every double for memory safety, numbers of values and bins up to the bound',
     'Tests insert ordinary random values; ends, rounding at bin edges, empty and degenerate ranges are not sampled.',
     ['src/statistics/histogram.h'], ['histogram::insert, histogram::index, histogram::operator() @ src/statistics/histogram.h'],
     'up to 3 insertions into 1..3 bins, datasets of 1..4 elements, 0..3 bins and five ranges for all doubles. Larger: 12 values into 4..16 bins, datasets of 5..40 elements, 5..64 bins; several hundred values into one histogram, datasets of up to 1000 elements; scales 1e-30 to 1e30.')
prop('C32', 'Linear regressions solve their normal equations, with errors and chi-squared',
     'Ordinary and weighted least squares solve their normal equations in every form and return the covariance matrix and errors of the coefficients; regressions through the origin and with errors on both axes solve their own equations; linear_model reports the same coefficients, the residual error, degrees of freedom, chi-squared (squared residuals over the variances) and predictions, and constant errors given point by point give the same result. Equal abscissae, null errors, mismatching sizes and too few points give NaN coefficients and an errno.',
     'every dataset over the reals (weights in a box), numbers of points up to the bound',
     'Tests fit one line; chi-squared, errors, through-origin and two-axis regressions are not checked.',
     ['src/statistics/regression.h'], ['ols_linear, wls_linear, ols_linear_orig, wls_linear_orig, ols_linear_error, linear_model @ src/statistics/regression.h'],
     '2..4 points; linear_model with errors at fixed abscissae and errors. Larger: 5..33 points of fixed abscissae and any ordinates. Unfitted and refitted models; 64 points; abscissae of scales 1e-5 to 1e7, ordinates 1e-12 to 1e9 (the library takes determinants below the machine epsilon as null: smaller abscissae, or weights below 1e-16, are reported as an error).')
prop('C33', 'Probability distributions are their densities on their whole support',
     'Every density and mass function (Gaussian, Bernoulli, Poisson, binomial, multinomial, chi-squared, gamma, beta, Student, log-normal, exponential, Rayleigh, Cauchy, Breit-Wigner, Maxwell, Laplace, Pareto, Erlang) equals its closed form for every point and parameter, is zero outside of its support, also for counts whose factorials exceed 64 bits, and agrees with its parameter-vector form; parameter vectors of the wrong size, null scales and invalid shapes are NaN with errno. The likelihood of a sample is the product and the log-likelihood the sum of logarithms of an arbitrary density over the sample.',
     'every point and parameter over the reals in the stated boxes, counts up to the bounds',
     'Tests integrate or sample a few distributions at fixed parameters; points outside the support, large counts and odd degrees of freedom are not run.',
     ['src/statistics/distributions.h', 'src/core/special.h'], ['distribution::*, likelihood, log_likelihood @ src/statistics/distributions.h'],
     'counts up to 30 (70 for binomial coefficients), degrees of freedom up to 24, scales in [1/16, 16], samples of up to 5 values. Larger: samples of 6..64 values, counts to 98, binomials to n = 30, degrees of freedom to 60 at fixed points. Big parameters (counts and means to 20000 and many degrees of freedom and big shapes) at the points of tables; end points of supports, negative points, tails to 1e-300, scales 1e-12 to 1e12.')
prop('C34', 'Samplers apply their quantiles; Monte Carlo integrals are exact estimators',
     'For every stream of generator words: uniform samples lie in [a, b) and equal a + (b - a) u; exponential, Rayleigh, Cauchy, Laplace and Pareto samples are the quantile function of u; polar, Box-Muller and central-limit Gaussian samples are their transformations, with the second value of a pair returned by the following call; coin tosses and dice rolls depend on the word modulo the faces; rejection methods and the Metropolis chain accept by the density ratio, within the allowed tries, and report failure after them; no word gives an infinite or NaN sample. Crude, quasi-random, importance and hit-or-miss integrals of an arbitrary function are the measure times the stated mean over exactly the drawn points, for minima and maxima of any sign.',
     'every 64-bit word drawn, every parameter and interval over the reals, arbitrary (uninterpreted) densities and integrands',
     'Tests check sample moments loosely with one seed; null uniforms, rejected pairs and negative minima are never drawn.',
     ['src/pseudorandom/sampling.h', 'src/pseudorandom/montecarlo.h', 'src/pseudorandom/quasirandom.h'], ['rand_uniform, rand_cointoss, rand_diceroll, rand_trycatch, rand_rejectsamp, rand_gaussian*, rand_exponential, rand_rayleigh, rand_cauchy, rand_laplace, rand_pareto, pdf_sampler, metropolis @ src/pseudorandom/sampling.h', 'integral_crude, integral_quasi_crude, integral_hom, integral_quasi_hom, integral_hom_2d, integral_impsamp, integral_quasi_impsamp, sample_mc @ src/pseudorandom/montecarlo.h'],
     'streams of up to 12 words, 1..4 integration points, up to 3 tries and 2 Metropolis steps. Larger: 4..50 points or draws with two arbitrary words, 20 rejections, 20 Metropolis steps. 300 and 1100 points with fixed words, quasi-random points in 1..4 dimensions, samples of 3..9 variables.')
prop('C35', 'Error propagation combines gradients with uncertainties or covariances',
     'The propagated error of a function is the root of the sum in quadrature of its partial derivatives times the uncertainties, or of the quadratic form of the gradient and the covariance matrix, at the best values, for fixed and dynamic vectors; covariance matrices hold the sample covariance of every pair of datasets; from datasets the means and their covariance matrix are used, and by Monte Carlo the sample standard deviation of the function at the drawn vectors. Sizes that do not match are an error with NaN result.',
     'every best value, uncertainty, covariance and dataset over the reals; every generator word',
     'Tests propagate one function with one set of values.',
     ['src/statistics/errorprop.h'], ['covar_mat, error_propagation, error_propagation_mc @ src/statistics/errorprop.h'],
     '1..3 variables, datasets of 2..3 values, quadratic, cubic and linear functions with symbolic coefficient. Larger: 4..12 variables, 4..8 sets of 4..20 values, one arbitrary value in each. Monte Carlo with 1200 draws. Constant functions.')
prop('C36', 'Elementary functions end with their limits on extreme and non-finite values',
     'Exponentials, logarithms, hyperbolic functions, sigmoid, roots, atan and tan terminate without crashing on every magnitude, infinities and NaN included, in both the x86 and the portable build: exp overflows to infinity and underflows to zero, tanh, coth and sigmoid reach their limits, asinh stays odd, logarithms of all powers of two and roots of all magnitudes are accurate, NaN propagates, and arguments which cannot be reduced are reported as out of domain.',
     'every double of magnitude 12000 or more for exp, expm1 and the hyperbolic functions (bit-precise); a grid of magnitudes up to 1e300 for the others',
     'Tests draw arguments from moderate intervals: overflow, infinities and NaN are not sampled.',
     ['src/core/real_analysis.h'], ['exp, expm1, ln, log2, log10, sqrt, cbrt, tan, atan, sinh, cosh, tanh, coth, asinh, sigmoid @ src/core/real_analysis.h'],
     'symbolic over all doubles beyond 12000 where stated; otherwise the listed magnitudes, both signs, infinities and NaN. Minus zero.')
prop('C37', 'Ratios form the field of fractions of their type',
     'Sums, differences, products and quotients of ratios, and products and quotients with a factor, are the fractions obtained by cross multiplication, with non-null denominator whenever the operands have one, for real, integer and polynomial numerators and denominators; operands are unchanged; evaluation and conversion divide the numerator by the denominator in the requested type (integers truncate, reals do not).',
     'every numerator and denominator over the reals, integers within the bound, polynomial coefficients and evaluation points over the reals',
     'No test evaluates rational arithmetic for arbitrary operands; a wrong cross product is invisible for equal denominators.',
     ['src/core/ratio.h'], ['ratio::* @ src/core/ratio.h'],
     'integers up to 200 in magnitude; polynomials of 1..3 coefficients.')
prop('C38', 'Text output holds every part once, in order; input reads the lines given',
     'The text of vectors, matrices, complex numbers, quaternions, phasors, dual numbers, ratios, polynomials, histograms, ODE solutions and linear models contains every element exactly once, in order, with its sign and unit, between the separators and brackets asked for, one line per row, identically from to_string, stream insertion and conversion. print and println write their arguments in order. readln returns the numbers of the lines before the terminator or the end of input, with either decimal separator, and skips malformed lines.',
     'every element value over the reals, sizes up to the bound, every sequence of line kinds up to the bound',
     'Tests print to the console but never read the text back.',
     ['src/algebra/vec.h', 'src/algebra/mat.h', 'src/complex', 'src/autodiff', 'src/polynomial/polynomial.h', 'src/statistics/histogram.h', 'src/utility.h'],
     ['to_string, operator<<, operator std::string @ src (all classes)', 'print, println, fprint, fprintln, readln @ src/utility.h'],
     'up to 5 elements, 3x3 matrices, 4 coefficients, 3 bins, 4 input lines; how a number is spelled by the standard stream is outside. Larger: vectors of 6..16, matrices to 6x6, polynomials of 5..10 coefficients. Spellings of input numbers as listed in the harness (signs, commas, single characters, exponents).')
prop('C39', 'Exception builds throw exactly where errno builds report an error',
     'With exceptions enabled, real functions, vector, matrix, complex, dual, quaternion and polynomial operations and algorithms throw a math_exception exactly for the arguments which are an error (domain, null divisor, mismatching sizes, missing bracket), carrying the error code, the offending value, function, file and line, with errno set as well unless exceptions replace it; otherwise they return normally. The exception can be caught as std::exception and describes its own code.',
     'every real argument, vector and matrix shapes up to the bound',
     'The test suite is built without exceptions: no test runs this configuration.',
     ['src/core/error.h'], ['math_exception, TH_MATH_ERROR @ src/core/error.h', 'callers @ src/core/real_analysis.h, src/algebra, src/complex, src/autodiff'],
     'vectors up to 3 elements, matrices up to 3x3; both exception configurations; every error code and its errno in five previous states of errno; every double, NaN included, as the carried value.')
