"""Writes /verif/properties.jsonl (kept as a script so that the statements are reviewed in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d['anchors']['observe_at'] = observe
    assert len(title) <= 80, (id, len(title))
    P.append(d)

FA = 'fixif/func_aux/'
prop('C01', 'Exact sum, difference and product of multiple-precision matrices',
     'The exact sum, difference and product of two multiple-precision matrices (both through the helper functions and through the matrix class) have, in every entry, exactly the mathematical value of the sum, difference or product, whatever the working precision and the magnitudes of the entries. '
     'Operands of incompatible sizes, complex operands of the helper functions (recognised by their first entry) and operands of unsupported types are refused with a ValueError, and no operand is ever modified.',
     ['inputs', 'configurations'], 'all matrix sizes (at least 1x1), all finite multiple-precision (or double, for the numpy operands) entries, all working precisions',
     'The stable tests take a few random matrices of fixed ranges; the exactness must hold for every size, exponent range and working precision.',
     [FA+'mpf_matrix_fadd.py', FA+'mpf_matrix_fsub.py', FA+'mpf_matrix_fmul.py', FA+'MPFMatrix.py', FA+'python2mpf_matrix.py'],
     [('element-wise exact loops', FA+'mpf_matrix_fadd.py, mpf_matrix_fsub.py, mpf_matrix_fmul.py'), ('add_exact, sub_exact, mul_exact', FA+'MPFMatrix.py')],
     ['return values and ValueErrors of the exact operations'])
prop('C02', 'Exact inverse of unit lower triangular matrices',
     'The inverse computed for a square lower triangular matrix with ones on its diagonal is exact: the matrix times its computed inverse is exactly the identity, whatever the working precision. '
     'A matrix that is not square, not lower triangular or whose diagonal is not made of ones is refused with a ValueError, and the operand is not modified.',
     ['inputs', 'configurations'], 'all sizes, all finite entries, all working precisions',
     'Tests invert some random small matrices; the forward substitution is a recurrence over the size, so only an induction covers every size.',
     [FA+'mpf_matrix_lt_inverse.py', FA+'MPFMatrix.py'],
     [('my_forward_subst and mpf_matrix_lt_inverse', FA+'mpf_matrix_lt_inverse.py'), ('inv_lowtr', FA+'MPFMatrix.py')])
prop('C03', 'Conversions of multiple-precision numbers and matrices lose nothing',
     'Splitting a finite multiple-precision number (or every entry of a matrix) into an integer and a power of two gives back exactly that number, with its sign; infinities, NaN and non multiple-precision values are refused with a ValueError. '
     'Conversions between double matrices, multiple-precision matrices and lists of sollya objects keep the size, the order (row by row) and the value of each entry (rounded to double only when the target is a double matrix), and a matrix object never shares its storage with the matrix it was built from.',
     ['inputs', 'configurations'], 'all sizes, all finite entries; working precision at least 53 bits when the source is a matrix of doubles',
     'The tests only convert a few random values and matrices, and no test observes order, sign and sharing for all sizes.',
     [FA+'mpf_get_representation.py', FA+'mpf_matrix_get_representation.py', FA+'mpf_to_numpy.py', FA+'python2mpf_matrix.py', FA+'mpf_matrix_to_sollya.py', FA+'sollya_matrix_to_numpy.py', FA+'mpc_get_real.py', FA+'MPFMatrix.py'],
     [('mantissa/exponent extraction', FA+'mpf_get_representation.py'), ('element-wise conversion loops', FA+'python2mpf_matrix.py, mpf_to_numpy.py, mpf_matrix_to_sollya.py, MPFMatrix.py')])
prop('C04', 'Polynomial product of multiple-precision polynomials',
     'The product of two polynomials given by their coefficient columns is the column of the coefficients of the mathematical product (the degree is the sum of the degrees, each coefficient is the convolution, evaluated at the working precision). '
     'The product of the monic first order factors z + p_i, with or without excluding one index, has exactly one factor per retained index.',
     ['inputs'], 'all degrees, all coefficients, all excluded indices',
     'Tests take random degrees of a few units; the convolution bounds have to be right for all pairs of degrees and each excluded index.',
     [FA+'mpf_poly_mult.py', FA+'mp_poly_product.py'],
     [('zero padded convolution', FA+'mpf_poly_mult.py'), ('incremental product', FA+'mp_poly_product.py')])
prop('C05', 'Comparisons of multiple-precision matrices look at every entry',
     'Two multiple-precision matrices of the same size are reported equal exactly when all their entries are equal, and almost close exactly when all pairs of entries agree within the given tolerance. '
     'Matrices of different sizes are refused with a ValueError, and the comparison is the same whether the other operand is a matrix object or a plain matrix.',
     ['inputs'], 'all sizes and entries, all tolerances, all positions of the differing entries',
     'A test can only place the differing entry at some positions of some sizes.',
     [FA+'MPFMatrix.py'], [('equal, almost_close', FA+'MPFMatrix.py')])
prop('C06', 'Exact sum and difference of multiple-precision state-space systems',
     'The sum (difference) of two multiple-precision state-space systems with the same numbers of inputs and outputs is the parallel connection: its state is the concatenation of the states, and its impulse response is, exactly and at every time, the sum (difference) of the impulse responses. '
     'The entries of the result are exact whatever the working precision, systems with different numbers of inputs or outputs (or operands that are not systems) are refused with a ValueError, systems can only be built from matrices of consistent sizes, and the operands are not modified.',
     ['inputs', 'configurations'], 'all dimensions (orders, inputs, outputs), all entries, all working precisions',
     'Tests compare a few random systems up to a tolerance, which hides rounded entries and depends on the sizes.',
     ['fixif/LTI/dSSmp.py'], [('__add__, __sub__ (block matrices)', 'fixif/LTI/dSSmp.py')])
prop('C07', 'Simulation of a multiple-precision state-space system is its recurrence',
     'The simulation of a multiple-precision state-space system returns, for every sample k, y(k) = C x(k) + D u(k) with x(k+1) = A x(k) + B u(k) started from the given (or null) initial state; in exact mode all the samples are exactly these values whatever the working precision (otherwise the operations are done at the working precision and the states are rounded to double after each step). '
     'Inputs or initial states of inconsistent sizes are refused with a ValueError and neither the input nor the system is modified.',
     ['inputs', 'configurations'], 'all dimensions, all input lengths, all entries and all working precisions',
     'Tests simulate short random inputs; an error which grows with the length, or appears for one shape, escapes.',
     ['fixif/LTI/dSSmp.py'], [('simulate', 'fixif/LTI/dSSmp.py')])
prop('C08', 'Multiple-precision transfer functions: normalisation and state-space form',
     'A multiple-precision transfer function has the coefficients it was given, divided by the first denominator coefficient (which must be non-zero, a ValueError otherwise; the quotients are rounded with at least twice the working precision, and nothing is rounded when it is one), with the shorter polynomial completed by zeros; the given arrays are not modified. '
     'Its conversion to state-space is exact: the state-space system has exactly the transfer function, whatever the working precision.',
     ['inputs', 'configurations'], 'all degrees (order at least one for the state-space conversion), all coefficients, all working precisions',
     'The tests convert some filters with doubles and compare up to a tolerance.',
     ['fixif/LTI/dTFmp.py'], [('__init__ (normalisation)', 'fixif/LTI/dTFmp.py'), ('to_dSSmp (controllable canonical form)', 'fixif/LTI/dTFmp.py')])
prop('C09', 'Transfer function arithmetic is arithmetic of rational functions',
     'The sum, difference and product of two transfer functions, or of a transfer function and a number on either side, is the transfer function whose value is the sum, difference or product of the values (in powers of z^-1, whatever the lengths and the null leading or trailing coefficients). '
     'A transfer function is normalised so that the first coefficient of its denominator is one, its numerator and denominator are completed to the same length, a null first denominator coefficient and operands of unsupported types are refused with a ValueError, and operands are not modified.',
     ['inputs'], 'all degrees and coefficients (machine arithmetic taken as real arithmetic), all mixed operand kinds',
     'Tests take random numerators and denominators of equal lengths with non null leading coefficients.',
     ['fixif/LTI/dTF.py'], [('__init__ (normalisation)', 'fixif/LTI/dTF.py'), ('__add__, __sub__, __mul__ and reflected operators', 'fixif/LTI/dTF.py')])
prop('C10', 'Transfer function to state-space conversion keeps the transfer function',
     'The state-space system built from a transfer function, in controllable or in observable form, has the same transfer function (same impulse response at every time), with as many states as the order. '
     'An unknown form is refused.',
     ['inputs'], 'all orders (at least one) and all coefficients (machine arithmetic taken as real arithmetic)',
     'Tests compare a few random filters up to a tolerance.',
     ['fixif/LTI/dTF.py'], [('to_dSS', 'fixif/LTI/dTF.py')])
prop('C11', 'State-space systems: dimensions are checked and compositions are exact',
     'A state-space system can only be built from matrices of consistent dimensions (a ValueError otherwise), and reports its order and numbers of inputs and outputs from them. '
     'The sum and difference of two systems are their parallel connections, the product is the series connection (the right operand is applied first), with the conditions on the numbers of inputs and outputs checked by a ValueError, and selecting outputs and inputs keeps the selected channels; the operands are not modified.',
     ['inputs'], 'all dimensions and all entries',
     'Tests draw a few random dimensions; the block structure must be right for every combination of orders, inputs and outputs.',
     ['fixif/LTI/dSS.py'], [('_check_dimensions', 'fixif/LTI/dSS.py'), ('__add__, __sub__, __mul__, __getitem__', 'fixif/LTI/dSS.py')])
prop('C12', 'State-space invariants: change of basis, gramians, H2 norm, DC gain',
     'A change of basis by an invertible matrix T turns (A,B,C,D) into (inv(T) A T, inv(T) B, C T, D), so that the input-output behaviour is unchanged, and no quantity computed for the former basis survives it. '
     'At any time, the controllability and observability gramians solve their Lyapunov equations for the current matrices (A Wc A^T + B B^T = Wc, A^T Wo A + C^T C = Wo), the H2 norm is the square root of the trace of C Wc C^T + D D^T, and the DC gain is C inv(I-A) B + D; no query changes the system.',
     ['inputs', 'histories'], 'all dimensions, entries and invertible T, all histories of queries and changes of basis (machine arithmetic taken as real arithmetic)',
     'Tests evaluate a few random systems with tolerances, and never query a cached quantity before and after a change of basis.',
     ['fixif/LTI/dSS.py'], [('similarity, calc_Wo, calc_Wc, H2norm, calc_DC_gain', 'fixif/LTI/dSS.py')],
     state=[('_Wo, _Wc, _H2norm, _DC_gain', 'cached gramians, norms and gains', 'fixif/LTI/dSS.py')])
prop('C13', 'A SIF stays coherent with its matrix Z and with its transfer function',
     'After any history of constructions and assignments of the blocks (J to S) or of Z, the blocks and Z are the same matrices, and the state-space system of the realization is the one of the implicit form J t = M x + N u, x+ = K t + P x + Q u, y = L t + R x + S u (both with doubles and in exact multiple precision). '
     'Blocks of inconsistent dimensions are refused by the construction with a ValueError; the exact conversion refuses with a ValueError a J that is not lower triangular with ones on its diagonal. No state-space system, gramian or error system computed for former coefficients is given after an assignment.',
     ['inputs', 'histories'], 'all dimensions and entries, all sequences of assignments and queries',
     'Tests only check some structures after construction; the setters and the caches make the result depend on the history.',
     ['fixif/SIF/SIF.py'], [('_build_fromZ, setters, _check_set', 'fixif/SIF/SIF.py'), ('to_dSSexact', 'fixif/SIF/SIF.py')],
     state=[('_Z, _AZ.._DZ, _M1.._N2, _Hu, _Hepsilon, _Hzeta', 'the coefficients and the quantities derived from them', 'fixif/SIF/SIF.py')])
prop('C14', 'Error systems of a SIF describe how the roundings reach its signals',
     'The system from the rounding errors to the output (and the systems from the input, or from the rounding errors, to all the variables) given by a SIF are those of the implicit form in which each computed temporary, state and output receives one additive error. '
     'They are exactly consistent with the equations of the realization whatever its dimensions.',
     ['inputs'], 'all dimensions and all coefficients',
     'The tests do not compare the error systems with an error simulation of the algorithm.',
     ['fixif/SIF/SIF.py'], [('Hu, Hepsilon, Hzeta', 'fixif/SIF/SIF.py')])
prop('C15', 'Coefficient quantization error system of a SIF',
     'The error system built from a realization and its quantized version produces, for every input and at every time, the difference between the outputs of the quantized realization and of the initial realization, when both start from null states.',
     ['inputs'], 'all dimensions of the pair (identical for both), all coefficients, all inputs',
     'Tests, when any, only compare norms for one filter.',
     ['fixif/SIF/SIF_tilde_error.py'], [('SIF_tilde_error', 'fixif/SIF/SIF_tilde_error.py')])
prop('C16', 'Simulation, algorithm text and C code compute the same recurrence',
     'For every realization, the double precision simulation, the generated algorithm text (with time indices) and the generated C code all compute J t = M x + N u, y = L t + R x + S u, x+ = K t + P x + Q u, from null (or given) states. '
     'Each term of each sum of products appears once with its own coefficient and variable, null coefficients are dropped, and every variable is used in its right version (before or after its update). In the texts without time indices, executed in order, the temporaries and the next states are those of the recurrence: the states are updated in place only when no entry of P below its diagonal is non-null (isPnut), and have other names (and are copied at the end, in LaTeX) otherwise; each output is its sum of products.',
     ['inputs', 'programs'], 'all dimensions, coefficients (zero, plus or minus one, or any) and input sequences',
     'Tests only generate text without reading it, or compare a few realizations.',
     ['fixif/SIF/SIF.py', 'fixif/SIF/Realization_algorithms.py', 'fixif/SIF/Realization_implementation.py', 'fixif/SoP/SoP.py'],
     [('simulate', 'fixif/SIF/SIF.py'), ('algorithmTxt, algorithmLaTeX', 'fixif/SIF/Realization_algorithms.py'), ('makeModule, runCdouble', 'fixif/SIF/Realization_implementation.py'), ('SoP', 'fixif/SoP/SoP.py')])
prop('C17', 'Operation counts and trivial coefficients',
     'A coefficient is counted as trivial when it is zero or plus or minus a power of two, and never when it is not within the relative threshold of the SIF class (epsilondZ, at most 1e-6) of a power of two. '
     'The numbers of additions and multiplications announced for a realization as it is built are those its sums of products require: per row, one multiplication per non trivial coefficient and one addition less than the number of non null terms (the unit diagonal of J is not a term).',
     ['inputs'], 'all coefficient patterns and dimensions',
     'Tests print counts for some filters.',
     ['fixif/SIF/SIF.py'], [('isTrivial, nbOp', 'fixif/SIF/SIF.py')])
prop('C18', 'Each structure realizes the filter it is given',
     'The realizations built by the direct forms (I and II, with or without transposition), the state-space structure (as given, controller and observer forms) and the rho direct forms have exactly the transfer function of the filter they are built from (in exact arithmetic), for every order (at least one) and every option. '
     'Their matrix J is lower triangular with a unit diagonal.',
     ['inputs', 'configurations'], 'all orders, all coefficients, all options of these structures (for the rho forms: all gammas, all non null deltas)',
     'Tests compare some orders of some filters with a loose tolerance.',
     ['fixif/Structures/DirectForms/DFI.py', 'fixif/Structures/DirectForms/DFII.py', 'fixif/Structures/State_Space/State_Space.py', 'fixif/Structures/rhoDFIIt/rhoDFIIt.py', 'fixif/Structures/Structure.py'],
     [('makeDFI', 'fixif/Structures/DirectForms/DFI.py'), ('makeDFII', 'fixif/Structures/DirectForms/DFII.py'), ('makeSS', 'fixif/Structures/State_Space/State_Space.py'), ('makerhoDFII', 'fixif/Structures/rhoDFIIt/rhoDFIIt.py')])
prop('C19', 'Fixed-point formats are large enough and meet the error budget',
     'Given the worst case peak gains, the position m of the most significant bit of each variable is the smallest integer such that its bound (gain times the bounds of the inputs) is at most 2^m; the threshold of its word-length is the smallest w such that the bound and one unit in the last place, 2^(m-w+1), do not exceed 2^m together. '
     'The smallest uniform word-length reported for an output error budget meets this budget (the weight of a variable counted twice under its threshold), and one bit less does not keep every output strictly under it. '
     'The word-lengths reported variable by variable give each of them at most its equal share of the budget of every output, and one bit less does not; the data file of the corresponding optimization problem gives to each parameter of the model, at its indices, its value (to the precision of the floating-point numbers).',
     ['inputs'], 'all dimensions, all positive gains whose bounds are not exact powers of two, all positive budgets',
     'Tests evaluate a few filters with external tools which are absent here.',
     ['fixif/SIF/Realization_FxP.py', 'fixif/SIF/templates/xmpl.dat.template', 'fixif/SIF/templates/w_optimal.mod'], [('computeNaiveMSB, _w_tilde, optimalUniformWL, optimalWL, generateAMPLParam', 'fixif/SIF/Realization_FxP.py')])
prop('C20', 'Simulink diagrams are turned into the SIF of their equations',
     'The realization read from a Simulink diagram of inputs, outputs, gains, sums and unit delays, possibly grouped in subsystems, has the equations of the diagram: for every value of the states and of the inputs, the next states and the outputs computed by its equations are the ones that the blocks of the diagram compute. '
     'This holds for every order and every numbering of the blocks and lines in the file: gains multiply along a path, parallel paths add up, the signs of the sums are kept. States and inputs are in the order of their blocks in the file; outputs are in the order of the blocks that feed them, sums before gains. '
     'The intermediate variables are ordered so that J is lower triangular with a unit diagonal, the other matrices being permuted accordingly; an algebraic loop between intermediate variables is refused.',
     ['inputs', 'programs'], 'all diagrams without algebraic loop, where no gain is fed by another gain, the outputs are fed by different sums or gains, at most one line goes from one block to another, the delays have length 1, and every port is connected',
     'Tests parse a few stored diagrams.',
     ['fixif/Structures/Simulink/diagram.py', 'fixif/Structures/Simulink/sif.py', 'fixif/Structures/Simulink/blocks.py'],
     [('importSimulink', 'fixif/Structures/Simulink/Simulink.py'), ('parsesys, flattendesign, buildequations, expandeqgain, summerge', 'fixif/Structures/Simulink/diagram.py'), ('reorganize, build', 'fixif/Structures/Simulink/sif.py')])
prop('C21', 'Variable names are distinct and identify their variable',
     'The names generated for the inputs, states, temporaries and outputs of a realization are pairwise distinct, ordered like the variables, and their text, LaTeX and C forms carry the index and the time shift of the variable. The surnames that the direct forms give to their variables are the signals that these variables hold; a text that would give the same surname to signals at different times is refused with a ValueError.',
     ['inputs'], 'all dimensions and all realizations, with or without given names',
     'Tests look at some names only.',
     ['fixif/SoP/VarName.py', 'fixif/SIF/SIF.py'], [('VarName, generateNames', 'fixif/SoP/VarName.py')])
prop('C22', 'Frequency specifications are combined and tested consistently',
     'A band given two gains is a pass band between the lower and the upper one, a band given one gain (0 dB included) is a stop band; its upper edge is half the sampling frequency when it is not given, and its normalised edges are relative to half the sampling frequency. Shifting a band by a level shifts all its gains, and keeps its edges, its kind and the original band; a design margin narrows the gains. '
     'A specification orders its bands by frequency, whatever the order they are given in, deduces its type from the order of pass and stop bands (multiband otherwise), refuses lists of different lengths, and its maximum gain is the largest gain allowed by a band. The design of a filter asks for the edges and attenuations of the specification centred at 0 dB, gives the level back to the numerator, refuses the layouts that it cannot express with a ValueError, and leaves the specification unchanged; the constraints verified are the ones of the bands, enlarged by the margin.',
     ['inputs'], 'all gains and edges, all layouts of bands, all sampling frequencies',
     'Tests use a few gabarits.',
     ['fixif/LTI/Gabarit.py'], [('Band, Gabarit', 'fixif/LTI/Gabarit.py'), ('Gabarit.type, maxGain, to_dTF, check_dTF, findMinimumMargin', 'fixif/LTI/Gabarit.py')])
prop('C23', 'A filter gives the same system whichever description it was built from',
     'A filter built from a transfer function, a state-space system, or the raw matrices or coefficients returns descriptions (transfer function, state-space, multiple-precision) of one and the same system, converts at most once, and refuses incomplete descriptions with a ValueError.',
     ['inputs', 'histories'], 'all constructor combinations, all orders of queries',
     'Tests use one constructor at a time.',
     ['fixif/LTI/Filter.py'], [('Filter', 'fixif/LTI/Filter.py')])
prop('C24', 'Sensitivity measures are the norms of the derivatives they announce',
     'For a realization with coefficients Z (Z = [-J M N; K P Q; L R S]) and weights dZ: the matrix given by dTFsensitivity holds, for each coefficient, the weight times the L2 (H2) norm of the derivative of the transfer function with respect to this coefficient of Z, and the measure is the sum of the squares of this matrix. '
     'poleSensitivity gives, for each pole, the derivative of the pole (moduli=False, complex values) or of its modulus (default) with respect to each coefficient of Z, the square root, for each coefficient, of the sum over the poles of their squared moduli, and the measure is the sum over the coefficients of the squares of this root times the weight. This holds for any numbers of intermediate variables, states, inputs and outputs (stable realization; for the poles: different eigenvalues, not null for the moduli). The realization is not changed.',
     ['inputs'], 'all dimensions (inputs and outputs of different numbers, no intermediate variable), all coefficients and weights, real and complex poles', 'Tests compare with Matlab values of one filter.',
     ['fixif/SIF/SIF_sensibility.py'], [('SIF.dTFsensitivity, SIF.poleSensitivity', 'fixif/SIF/SIF_sensibility.py'), ('_w_norm_prod, deigdZ', 'fixif/SIF/SIF_sensibility.py'), ('dSS.H2norm, __mul__, __getitem__', 'fixif/LTI/dSS.py')])
prop('C25', 'LGS and LCW structures realize their filter',
     'The Li-Gevers-Sun (LGS) and Li-Chu-Wu (LCW) structures accept exactly the filters known to be stable, with one input and one output, of order n at least 2 (whatever the option transposed). The realization of such a filter has n states, and its transfer function is the one of the filter (the construction goes through values of the transfer function at points drawn at random: it does not depend on them, up to rounding). '
     'Its intermediate variables are 3n-2 (LGS) or 3n-3 (LCW) vectors of size n, each computed from the previous one only, through a matrix which differs from the identity in one entry (but the last one of LGS, I + Phi): J is lower triangular with ones on its diagonal, K selects the last vector, L and N are null; P is null (LGS) or minus the identity (LCW).',
     ['inputs', 'configurations'], 'all stable filters of order at least 2 with one input and one output, all draws', 'No test covers these structures: a sampled filter shows neither the orders nor the coefficients for which a factor is wrong, and the points of the interpolation are drawn at random.',
     ['fixif/Structures/LGS_LCW/LGS_LCW.py'], [('LGS, LCW', 'fixif/Structures/LGS_LCW/LGS_LCW.py')])
prop('C26', 'Random systems and filters are stable, as requested, and can be drawn again',
     'A random state-space system with n states, p outputs and q inputs has exactly these sizes, finite entries, all its poles inside of the unit circle (A is similar to blocks made of real poles and of pairs of conjugate poles of modulus below 1), and matrices B and C that are not null; sizes that are not positive integers are refused with a ValueError. The iterators give the number of systems asked, each with sizes in the ranges asked (upper bound excluded; 1 is accepted for the numbers of inputs and outputs of iter_random_dSS). '
     'Random filters are announced stable and have the sizes asked. Random Butterworth and elliptic filters have the type asked (any of the four by default), an order in the range asked (even, and at most the upper bound, with onlyEven), critical frequencies (and ripple and attenuation) in the ranges asked, in increasing order for bands, and ranges that cannot be in order are refused with a ValueError. Random transfer functions have an order in the range asked (or equal to it). Random specifications are a pass band starting at 0 followed by a stop band ending at half the sampling frequency. '
     'A filter or specification drawn with a seed (0 included) is the same each time it is drawn with it, whatever has been drawn before; a random filter drawn again from its name is the same, and the names that do not tell its sizes and seed are refused with a ValueError; without a seed, one is drawn all the same.',
     ['inputs', 'configurations'], 'all sizes and ranges, all draws, all seeds', 'The draws of a test are some of the possible ones; the rare ones (repeated poles, masks drawn again, seed 0) are never seen.',
     ['fixif/LTI/dSS.py', 'fixif/LTI/dSSmp.py', 'fixif/LTI/dTF.py', 'fixif/LTI/dTFmp.py', 'fixif/LTI/Filter.py', 'fixif/LTI/Butter.py', 'fixif/LTI/Elliptic.py', 'fixif/LTI/Gabarit.py'],
     [('random_dSS, iter_random_dSS', 'fixif/LTI/dSS.py'), ('random_Filter, iter_random_Filter', 'fixif/LTI/Filter.py'), ('random_Butter, random_Elliptic', 'fixif/LTI/Butter.py, fixif/LTI/Elliptic.py'), ('random_dTF, random_dTFmp', 'fixif/LTI/dTF.py, fixif/LTI/dTFmp.py'), ('random_Gabarit', 'fixif/LTI/Gabarit.py')])
prop('C27', 'Proven verification of a transfer function against a frequency specification',
     'A transfer function accepted by the specification check satisfies the specification on all frequencies, with the announced margins.',
     ['inputs'], 'all transfer functions and specifications', 'Needs sollya.',
     ['fixif/LTI/Gabarit.py'], [('check_dTF', 'fixif/LTI/Gabarit.py')])
prop('C28', 'Simplification, weights, comparison and export of systems',
     'Simplifying a state-space system always ends, and gives a state-space system with at least one and at most as many states, with the same numbers of inputs and outputs and the same outputs for every input (same D and same C A^k B for every k); the system itself is not modified. '
     'The weights dJ to dS given to a SIF are the blocks of its matrix dZ, arranged as those of Z; setting one of them, or dZ, changes these weights only, and never the coefficients. '
     'Two transfer functions are accepted as close exactly when the Euclidean norms of the differences of their numerators and of their denominators (coefficient by coefficient from the first one, the shorter being completed with zeros) are below the tolerance (1e-7 by default), whatever their orders; two state-space systems exactly when the norms of the differences of D, C B, C A B and C A A B are (1e-5 by default); otherwise an AssertionError is raised. '
     'The two sollya polynomials of a transfer function (double or multiple precision) have its coefficients, the i-th one in front of x^i. The worst case peak gain of a system is the one the WCPG library gives for its own matrices (or coefficients), computed once, and again when the information on the computation is asked.',
     ['inputs', 'configurations'], 'all entries, numbers of inputs and outputs, orders and tolerances; simplification: systems of at most 3 states (4 in the thorough tier)', 'The simplification depends on which rows are null, and on the rank: tests sample few patterns; the comparisons have paths for each relation of the orders.',
     ['fixif/LTI/dSS.py', 'fixif/LTI/dTF.py', 'fixif/LTI/dTFmp.py', 'fixif/SIF/SIF.py'],
     [('dSS.simplify, assert_close, WCPG', 'fixif/LTI/dSS.py'), ('dTF.assert_close, to_Sollya, WCPG', 'fixif/LTI/dTF.py'), ('dTFmp.to_Sollya', 'fixif/LTI/dTFmp.py'), ('SIF.dJ..dS, dZ', 'fixif/SIF/SIF.py')])
prop('C29', 'Lattice wave digital filters realize their filter',
     'The realization built by the lattice wave digital structure has the transfer function of the filter it is given.',
     ['inputs'], 'all filters of odd order', 'Needs Matlab and the (L)WDF toolbox.',
     ['fixif/Structures/LWDF'], [('makeLWDF', 'fixif/Structures/LWDF')])
if __name__ == '__main__':
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
        for p in P: f.write(json.dumps(p) + '\n')
