"""What is claimed, at which level"""
CLAIMS = {
 'C01': ('proof', 'all sizes and entries; mpmath fadd/fsub/fmul(exact=True) and the matrix containers are trusted contracts'),
 'C02': ('proof', 'all sizes and entries; mpmath fadd/fsub/fmul(exact=True) and the matrix containers are trusted contracts'),
 'C03': ('proof', 'all sizes and finite entries; SollyaObject, the numpy matrix containers and man_exp of mpmath are trusted contracts'),
 'C04': ('proof', 'product of two polynomials: all degrees; product of first order factors: any number of factors, all values, all indices; roundings taken as the identity'),
 'C05': ('proof', 'all sizes, entries and tolerances; mpmath.almosteq and == on mpf are trusted contracts'),
 'C06': ('proof', 'all dimensions and entries; mpmath fadd/fsub(exact=True) and the matrix containers are trusted contracts'),
 'C07': ('proof', 'all dimensions, lengths and entries (induction over the samples); mpmath arithmetic is a trusted contract'),
 'C08': ('proof', 'all degrees and coefficients; mpmath fadd/fsub/fmul(exact=True), fdiv(prec=) and the matrix containers are trusted contracts'),
 'C09': ('proof', 'all degrees and coefficients; machine arithmetic treated as real arithmetic; numpy.convolve/r_/matrix are trusted contracts'),
 'C10': ('proof', 'all orders and coefficients; machine arithmetic treated as real arithmetic; scipy.signal.tf2ss is a trusted contract'),
 'C11': ('proof', 'all dimensions and entries; machine arithmetic treated as real arithmetic; the numpy matrix containers are trusted contracts'),
 'C12': ('proof', 'all dimensions and entries, histories: any queries before a change of basis, all after; machine arithmetic treated as real arithmetic; numpy.linalg.inv and scipy solve_discrete_lyapunov are trusted contracts'),
 'C13': ('proof', 'all dimensions and entries, any block assigned and any query before and after; machine arithmetic treated as real arithmetic, mpmath fadd/fsub/fmul(exact=True) exact; numpy.linalg.inv and scipy solve_discrete_lyapunov are trusted contracts'),
 'C14': ('proof', 'all dimensions and entries; machine arithmetic treated as real arithmetic; the numpy matrix containers are trusted contracts'),
 'C15': ('proof', 'all dimensions, entries and times (induction over time); machine arithmetic treated as real arithmetic; the numpy matrix containers are trusted contracts'),
 'C16': ('other', 'contracts discharged on the real code. simulate and runCdouble: proved for all dimensions, lengths and coefficients (induction over time). Texts and generated C function: the contract is discharged for dimensions (l, n, p, q) <= (3, 3, 2, 2) (bounded), with arbitrary coefficients and every pattern class of null/unit coefficients; the compilation and ctypes are only exercised on generated inputs'),
 'C17': ('proof', 'all dimensions and coefficients; machine arithmetic treated as real arithmetic (logarithm of powers of two checked on every double that is a power of two)'),
 'C18': ('proof', 'all orders (at least one) and coefficients, all options and values of gamma and Delta; exact (real) arithmetic; scipy tf2ss, numpy poly, prod, inv and solve_discrete_lyapunov are trusted contracts; the balanced form (which needs slycot) is out of scope'),
 'C21': ('proof', 'all numbers of variables, indices, shifts and surnames (names are only concatenated and compared by the code); surnames of the direct forms for all orders; the algorithms written with them: orders 1 to 3, all coefficients (bounded)'),
 'C23': ('proof', 'all orders and coefficients, all combinations of arguments, all sequences of at most three queries of descriptions; real arithmetic; scipy tf2ss, ss2tf, butter, ellip and mpmath eig are trusted contracts; dSSmp.to_dTFmp for diagonalizable matrices'),
 'C22': ('proof', 'bands: all edges and gains; design and verification: all the layouts that have a type, all gains and edges; ordering, type and maximum gain: specifications of at most 4 bands (bounded), all gains and edges; real arithmetic; scipy iirdesign and sollya are trusted contracts'),
 'C19': ('proof', 'formats and word-lengths: all dimensions, gains and budgets; the data file of the optimization problem: dimensions up to (2, 1, 2) (bounded), all values; real arithmetic and exact logarithms; the gains come from an external library (any positive matrix)'),
 'C20': ('other', 'contract of importSimulink discharged on the real code for generated diagrams (280 in the quick tier, 3000 in the thorough one: bounded), each for all the values of its gains; reorganize: all matrices with at most 3 (4) intermediate variables; real arithmetic'),
 'C24': ('proof', 'all dimensions, coefficients and weights; real (and complex) arithmetic; the derivatives of the transfer function and of simple eigenvalues are given by their usual formulas (H1 e_i e_j^T H2, left and right eigenvectors); numpy eig, inv, norm and scipy solve_discrete_lyapunov are trusted contracts'),
 'C25': ('other', 'contracts discharged on the real code, in real and complex arithmetic: bilinear transforms (all orders and entries), sparse matrices of the form (matrices of any size), acceptance (all sizes), assembly of makeLGS and makeLCW; coefficients of the continued fraction, factors of I - Phi, interpolation of L: orders 2 to 6 (8 in the thorough tier; bounded), all positive alphas and all draws; existence of the alphas and of L for a stable filter: assumed theorems; numpy inv, poly1d, polydiv and scipy ss2tf are trusted contracts'),
 'C26': ('other', 'contracts discharged on the real code, for all draws; stability: systems of at most 5 states (6 in the thorough tier; bounded), any numbers of inputs and outputs; sizes, orders, ranges, seeds and types: all of them, names: three of them (bounded), iterators: two objects (bounded); partial correctness of the loops that draw again; real arithmetic; the draws of numpy.random are functions of the seed and of their rank, scipy butter and ellip functions of their arguments (trusted contracts)'),
 'C28': ('other', 'contracts discharged on the real code: simplification of systems of at most 3 states (4 in the thorough tier; bounded), any numbers of inputs and outputs, all entries, any value of the numerical rank; weights, comparisons, polynomials and peak gains: all dimensions, orders, entries and tolerances; real arithmetic; sollya, the WCPG library, numpy matrix_rank and norm are trusted contracts'),
}
NA = {
 'C27': 'the check is done by sollya scripts (gabarit.sol), in a language and with a tool that are absent here',
 'C29': 'the coefficients come from Matlab scripts (LWDF toolbox), absent here',
}
