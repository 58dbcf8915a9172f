"""Writes properties.jsonl (kept as a script because JSON lines are unpleasant to edit)."""
import json
import os

C, D, T = 'harold/_classes.py', 'harold/_discrete_funcs.py', 'harold/_time_domain.py'
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files,
                          'mechanism': [{'name': a, 'where': b} for a, b in mech],
                          'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                          'observe_at': list(observe), 'hook_needed': None}})


prop('P01', 'Sums, differences and negation of models are those of the systems',
     'For any two models (or a model and a number or array) that can be added, the transfer matrix of X + Y is the sum, '
     'that of X - Y the difference, and that of -X the negative of the transfer matrices of the operands, whatever mix '
     'of State and Transfer, static and dynamic, SISO and MIMO they are. A SISO model or a number added to a MIMO model '
     'is added to every entry.',
     ['inputs', 'configurations'],
     'all operand pairs: State/Transfer/number/array, static or dynamic, every pair of conformable shapes, both operand '
     'orders, continuous and discrete time',
     'The tests add a few hand-picked pairs and compare stored coefficients; most cells of the kind x shape x static table '
     '(in particular SISO next to MIMO Transfers, reflected operators, discrete models) are never executed.',
     [C], [('Transfer.__add__/__radd__/__sub__/__rsub__/__neg__', C), ('State.__add__/__radd__/__sub__/__rsub__/__neg__', C)],
     observe=['the returned model, evaluated as a transfer matrix'])
prop('P02', 'Products of models are the series connection of the systems',
     'X @ Y is the matrix product of the transfer matrices in that order, for any mix of State, Transfer, number and array '
     'with conformable shapes; a SISO model or a number scales the other operand. X * Y between Transfers (or a Transfer '
     'and an array) multiplies entry by entry with the same SISO rule, and is the matrix product as soon as a State is involved.',
     ['inputs', 'configurations'],
     'all operand pairs: State/Transfer/number/array, static or dynamic, every pair of conformable shapes, both operand orders',
     'Order of multiplication, static gains with non-unit denominators, reflected products and State/Transfer mixes show only '
     'on specific class/shape combinations; the tests use a handful of them with particular numbers.',
     [C], [('Transfer.__mul__/__matmul__ and reflected versions', C), ('State.__mul__/__matmul__ and reflected versions', C)],
     observe=['the returned model, evaluated as a transfer matrix'])
prop('P03', 'Division multiplies by the inverse system, or refuses',
     'X / Y has the transfer matrix of X times the inverse transfer matrix of Y (k / Y likewise for a number k, X / k for '
     'division by a number). If Y is not square or has no proper inverse (singular at infinity) the call raises instead of '
     'returning a model.',
     ['inputs', 'configurations'],
     'all X, Y over State/Transfer/number, square and non-square, invertible and singular feedthrough, SISO and MIMO',
     'The tests divide a few models; inversion of MIMO Transfers, of discrete models, of static gains and refusals of '
     'non-invertible ones are not covered.',
     [C], [('Transfer.__truediv__/__rtruediv__', C), ('State.__truediv__/__rtruediv__', C)],
     observe=['the returned model or the exception'])
prop('P04', 'Sampling periods are never mixed, changed or lost by operations',
     'Combining two models with different sampling periods (including one continuous, one discrete) by any arithmetic '
     'operator or by feedback raises ValueError and leaves both unchanged. In every other case the result of arithmetic, feedback, negation, '
     'slicing, representation conversion or minimal realization has exactly the sampling period of its model operands.',
     ['histories', 'configurations'],
     'all finite sequences of operations over a workspace of models with several sampling periods',
     'Tests check the sampling period after single operations on a few operands; which branch of an operator forgets it '
     'depends on kind, shape and staticness of the operands and on how they were produced.',
     [C, 'harold/_bd_algebra.py', 'harold/_system_funcs.py'],
     [('_check_equal_dts and dt= arguments of every constructed result', 'harold/_arg_utils.py, ' + C)],
     [('SamplingPeriod', 'None for continuous time or the positive sampling period', C)],
     ['SamplingPeriod of every result', 'exceptions'])
prop('P05', 'Operations return the right class and shape and refuse mismatches',
     'A binary operation involving a State returns a State and otherwise a Transfer; its shape follows the addition, entrywise or matrix '
     'product rule and the returned model is internally consistent (attributes, matrices or polynomials, input/output counts agree). '
     'Operands whose shapes do not fit, or objects that are not models or real numeric arrays, are refused with an exception and no '
     'conformable pair is refused.',
     ['inputs', 'configurations', 'histories'],
     'all pairs of operand classes and shapes up to 3x3, all operators in both orders, and sequences of operations on results of operations',
     'The tests reach only isolated cells of the operator x kind x shape table.',
     [C], [('shape checks and State-wins dispatch in the operators', C), ('Transfer/State.validate_arguments', C)],
     [('shape, NumberOfInputs, NumberOfOutputs, NumberOfStates', 'declared dimensions', C)],
     ['type, shape and matrices/polynomials of the result'])
prop('P06', 'Converting between State and Transfer preserves the system',
     'Converting a Transfer to a State and a State to a Transfer (as models or as raw matrices/polynomials) preserves the '
     'transfer matrix, the shape and the sampling period, static models included. Converting a model that is already of the requested class returns it unchanged.',
     ['inputs', 'configurations'],
     'all models: SISO/MIMO, wide/tall/square, static/dynamic/partly static or zero entries, proper and strictly proper, common and distinct denominators, '
     'both output forms, both directions and round trips',
     'Tests convert a few examples and compare with stored matrices of a particular realization.',
     [C], [('transfer_to_state', C), ('state_to_transfer', C), ('_state_or_abcd', C)],
     observe=['returned model or arrays'])
prop('P07', 'Indexing a model selects exactly the addressed channels',
     'G[rows, columns] with integers, negative integers, slices or lists is the subsystem with those outputs and inputs in that order, '
     'with the same sampling period and class; indices out of range raise and item assignment is refused leaving the model unchanged.',
     ['inputs', 'configurations'],
     'all models up to 3x3 of both classes, static or dynamic, and all index expressions of the supported kinds',
     'The tests index a few random models and compare shapes only.',
     [C], [('Transfer.__getitem__, State.__getitem__, __setitem__', C)],
     observe=['returned subsystem'])
prop('P08', 'feedback returns the closed loop of the two systems',
     'feedback(G, H) has the transfer matrix (I + G H)^-1 G, and (I - G H)^-1 G for positive feedback, for any well-posed loop of '
     'State/Transfer models and numbers with matching shapes; SISO unity feedback may be given as the number 1. Ill-posed loops and mismatched shapes or sampling periods are refused.',
     ['inputs', 'configurations'],
     'all pairs G, H over State/Transfer/scalars/arrays, static or dynamic, with and without direct feedthrough, both signs',
     'The tests compute a few loops with stored matrices; most class/static/feedthrough/sign combinations are never run.',
     ['harold/_bd_algebra.py'], [('feedback', 'harold/_bd_algebra.py'), ('well-posedness check', 'harold/_bd_algebra.py')],
     observe=['returned closed loop or exception'])
prop('P09', 'Substitution-type discretization maps the system as documented',
     'Discretizing by tustin/bilinear/trapezoidal (with or without prewarping), forward or backward Euler (and their aliases) or a given LFT matrix '
     'yields the model whose transfer matrix at z is that of the continuous model at the s the rule assigns to z, for State and Transfer models alike. '
     'With prewarping the discrete response at the prewarp frequency equals the continuous one.',
     ['inputs', 'configurations'],
     'all continuous models, sampling periods, methods, prewarp frequencies and LFT matrices',
     'Tests compare single examples with stored numbers; prewarping and the lft method are barely exercised and MIMO/Transfer inputs not at all.',
     [D], [('_discretize and _simple_lft_connect', D)], observe=['returned model'])
prop('P10', 'zoh and foh discretization reproduce the held-input response',
     'Discretizing by zero-order hold gives the model whose output samples equal those of the continuous model driven by the piecewise constant interpolation '
     'of the input samples, and by first-order (triangle) hold those for the piecewise linear interpolation. Poles at the origin, static models and MIMO models included.',
     ['inputs', 'configurations'],
     'all continuous models incl. singular A, sampling periods and input sequences',
     'Tests compare stored numbers of one or two examples.',
     [D], [('_discretize (zoh, foh branches)', D)], observe=['returned model'])
prop('P11', 'Undiscretizing inverts discretization',
     'For every method the library can both apply and undo, converting a continuous model to discrete time and back returns the same continuous system, '
     'whether the method, prewarp frequency or LFT matrix is repeated explicitly or remembered from the model. A method, frequency or matrix given '
     'explicitly takes precedence over the remembered one. The sampling period used is that of the discrete model and the result is continuous.',
     ['inputs', 'configurations', 'histories'],
     'all models, methods, periods, prewarp settings; explicit or remembered method',
     'Tests run one State example for some methods.',
     [D], [('undiscretize/_undiscretize', D)], observe=['returned model'])
prop('P12', 'Discretization bookkeeping describes how the model was obtained',
     'A discretized model carries the sampling period, the method, and for prewarping or LFT the frequency or matrix it was obtained with; continuous models refuse to carry these. '
     'Invalid sampling periods, methods, frequencies and matrices are refused and leave the model as it was.',
     ['histories', 'configurations'],
     'all sequences of discretize / undiscretize / attribute assignments with valid and invalid values on both classes',
     'Assignment histories and invalid values are not exercised by the tests.',
     [D, C], [('SamplingPeriod, DiscretizedWith, DiscretizationMatrix, PrewarpFrequency properties', C), ('discretize/undiscretize', D)],
     [('SamplingPeriod/SamplingSet/DiscretizedWith/DiscretizationMatrix/PrewarpFrequency', 'discretization metadata', C)],
     ['those attributes'])
prop('P13', 'Poles, zeros and stability always describe the current model',
     "After construction and after any sequence of attribute assignments, the reported poles are those of the current data, the zeros are the transmission zeros, and the model is reported stable "
     'exactly when all poles lie strictly inside the stability region of its current time domain (left half plane, unit disc). '
     'Reported damping ratios and natural frequencies are those of the poles.',
     ['histories', 'inputs'],
     'all models and all sequences of assignments to matrices, polynomials and sampling period',
     'Tests look at a freshly built model; nothing checks the cached poles/stability after assignments.',
     [C], [('_recalc/_set_stability in the setters', C), ('_pole_properties', C)],
     [('poles, zeros, stability', 'derived data cached at construction', C)],
     ['poles, zeros, pole_properties, repr'])
prop('P14', 'Attribute assignment is checked, atomic and takes effect',
     'Assigning a matrix, polynomial set or sampling period of a fitting shape makes the model behave as if it had been built with that value; assigning anything that does not fit raises and '
     'leaves the model exactly as before.',
     ['histories', 'inputs'],
     'all models, attributes, valid and invalid values, and sequences of them',
     'Tests assign a couple of wrong shapes and only check that an exception is raised.',
     [C], [('property setters of Transfer and State', C)],
     [('num/den/a/b/c/d/SamplingPeriod', 'assignable data', C)], ['all attributes before and after'])
prop('P15', 'Every accepted way of writing a model down denotes the same model',
     'Building a Transfer or State from numbers, lists, nested lists or arrays, with omitted arguments or broadcast SISO numerators/denominators, yields the model the documentation '
     'describes: coefficients with leading zeros dropped, real floats, static parts recognized. Improper, inconsistent, complex or non-numeric data is refused.',
     ['inputs', 'configurations'],
     'all spellings of num/den/a/b/c/d (scalar, flat, nested, array; missing arguments) for SISO and MIMO models and the malformed ones',
     'Tests check some dozens of spellings with fixed numbers.',
     [C], [('Transfer.validate_arguments, State.validate_arguments and constructors', C)],
     observe=['constructed model or exception'])
prop('P16', 'No call changes its arguments, and results share no memory with them',
     'No public function or operator modifies the models, arrays or lists passed to it, and modifying an array or list after it was used to build a model, or one returned by an operation, does not change any other model.',
     ['inputs', 'histories'],
     'all public functions, argument kinds (float, integer, Fortran and C ordered arrays, models)',
     'Tests never compare arguments before and after a call.',
     [C, 'harold/_solvers.py', D, 'harold/_system_funcs.py', 'harold/_kalman_ops.py', 'harold/_polynomial_ops.py', 'harold/_aux_linalg.py'],
     [('copies made before in-place work', 'whole package')], observe=['argument contents before and after each call'])
prop('P17', 'dcgain is the value of the transfer matrix at the DC point',
     'The DC gain of a model is its transfer matrix evaluated at s = 0 (z = 1 for discrete time), entry by entry, with non-finite values exactly where an entry has a pole there.',
     ['inputs', 'configurations'],
     'all models of both classes, SISO/MIMO, continuous/discrete, static, with and without poles at DC',
     'Tests cover a few models.',
     [C, 'harold/_system_funcs.py'], [('dcgain', 'harold/_system_funcs.py, ' + C)], observe=['returned value'])
prop('P18', 'Minimal realization keeps the system and drops all redundancy',
     'minimal_realization returns a model of the same class, shape and sampling period with the same transfer matrix, whose number of states equals the rank of '
     'the observability times controllability product (State) and whose entries have no common numerator/denominator roots (Transfer). Minimal models come back equivalent with unchanged order.',
     ['inputs', 'configurations'],
     'all models with any number of uncontrollable and/or unobservable modes, repeated modes, static, SISO and MIMO, continuous and discrete',
     'Tests use a few examples, mostly with uncontrollable modes only.',
     ['harold/_system_funcs.py'], [('minimal_realization and its State and Transfer helpers', 'harold/_system_funcs.py')],
     observe=['returned model'])
prop('P19', 'Staircase and Hessenberg forms are orthogonal similarities of the input',
     'staircase and hessenberg_realization return matrices related to the given ones by the returned orthogonal transformation, with the staircase (controllable or observable, '
     'possibly inverted) zero pattern, so that the transfer matrix (feedthrough included) and the sampling period are unchanged; static gains are returned as they are.',
     ['inputs', 'configurations'],
     'all (A, B, C) incl. uncontrollable/unobservable ones, both forms, inverted or not, with and without the transformation',
     'Tests check one or two structures.',
     ['harold/_system_funcs.py'], [('staircase, hessenberg_realization', 'harold/_system_funcs.py')],
     observe=['returned arrays and models'])
prop('P20', 'Kalman controllability and observability results are exact',
     'Controllability and observability matrices are [B AB ... A^(n-1)B] and its dual, the yes/no answers and returned ranks agree with their exact rank, compressed forms span the same subspace, and the Kalman decomposition is an '
     'equivalent realization with the block structure of controllable/observable parts.',
     ['inputs', 'configurations'],
     'all (A, B, C) with any combination of uncontrollable and unobservable modes, models or matrix pairs',
     'Tests check two fixed systems.',
     ['harold/_kalman_ops.py'], [('controllability_matrix, observability_matrix, kalman_decomposition, is_kalman_*', 'harold/_kalman_ops.py')],
     observe=['returned arrays, bases and booleans'])
prop('P21', 'Polynomial GCD and LCM are correct including multipliers',
     'haroldgcd returns the monic greatest common divisor of two or more nonzero polynomials (a single one is returned as given, zero polynomials do not count); haroldlcm returns the monic least common multiple of the monic arguments, and each returned multiplier times its '
     'argument equals that multiple.',
     ['inputs'],
     'all tuples of polynomials incl. constants, repeated and shared roots, leading zeros, one argument dividing another',
     'Tests check three or four tuples.',
     ['harold/_polynomial_ops.py'], [('haroldgcd, haroldlcm', 'harold/_polynomial_ops.py')], observe=['returned arrays'])
prop('P22', 'Polynomial arithmetic helpers compute exact polynomial operations',
     'Polynomial addition, multiplication and division (quotient and remainder), building a polynomial from roots and building a companion matrix agree with exact polynomial algebra for any number of '
     'arguments of any length, with trimming of leading zeros only where asked.',
     ['inputs'],
     'all tuples of coefficient arrays incl. zero, constant and leading-zero ones',
     'Tests check a couple of products and sums.',
     ['harold/_polynomial_ops.py'], [('haroldpolyadd, haroldpolymul, haroldpolydiv, haroldpoly, haroldcompanion', 'harold/_polynomial_ops.py')],
     observe=['returned arrays'])
prop('P23', 'The Lyapunov solver solves the equation it is given',
     'For every uniquely solvable continuous, discrete or generalized Lyapunov equation the returned matrix satisfies the equation and is symmetric; arguments of inconsistent shapes are refused and '
     'the arguments are left as they were.',
     ['inputs', 'configurations'],
     'all sizes 1..6 and all patterns of real and complex eigenvalue blocks, standard and generalized, both forms, integer and float data',
     'Tests solve a few sizes with random data; which 1x1/2x2 block branch is taken depends on the eigenvalue pattern.',
     ['harold/_solvers.py'], [('lyapunov_eq_solver and its four block back-substitutions', 'harold/_solvers.py')],
     observe=['returned matrix or exception'])
prop('P24', 'Frequency response is the transfer matrix on the imaginary axis or circle',
     'frequency_response(G, w) returns, for each requested frequency in the requested unit, the transfer matrix at jw (e^{jw dt} in discrete time), with one slice per frequency and frequencies reported in the requested unit. '
     'Requested frequencies beyond the Nyquist limit of a discrete model are dropped; a grid chosen by the library is nondecreasing, finite and within the Nyquist range for discrete models.',
     ['inputs', 'configurations'],
     'all models of both classes, static and dynamic, SISO/MIMO, continuous/discrete, all units and grids',
     'Tests check grids and a couple of values.',
     ['harold/_frequency_domain.py'], [('frequency_response, _State_freq_resp, _get_freq_grid', 'harold/_frequency_domain.py')],
     observe=['returned response and frequencies'])
prop('P25', 'Simulation outputs obey the model difference or differential equation',
     'For every model, input samples, initial state and uniform time grid, simulated outputs are those of the exact recursion (discrete) or of the response to the input held between samples (continuous), '
     'step and impulse responses are the responses to those inputs channel by channel, and the output has one row per time sample. Time vectors that are not uniform, do not match the sampling period '
     'or the input length are refused.',
     ['inputs', 'configurations'],
     'all models, grids, inputs, initial conditions, per-channel or summed simulation',
     'Tests simulate a few models and check sizes or a few samples.',
     [T], [('simulate_linear_system, simulate_step_response, simulate_impulse_response', T)],
     observe=['returned outputs and time'])
prop('P26', 'Automatic simulation grids are usable for every model',
     'Called without a time vector, step and impulse simulation succeed on every valid model and return a uniform, strictly increasing, finite grid starting at zero, which for discrete models is made of multiples of the sampling period, '
     'and which is long enough for the slowest dominant mode of a stable model to decay.',
     ['inputs', 'configurations'],
     'all models: stable, unstable, integrators, oscillators, static, slow and fast sampled',
     'Tests sample some pole patterns.',
     [T], [('_compute_tfinal_and_dt', T)], observe=['returned time vectors'])
prop('P27', 'System norms equal the H2 and H-infinity norms',
     'system_norm returns the H2 norm given by the Gramian (infinite for unstable models and for continuous models with feedthrough) or the supremum over frequency of the largest singular value of the transfer matrix (infinite for unstable models), '
     'for State and Transfer, continuous and discrete, static and dynamic models.',
     ['inputs', 'configurations'],
     'all models of both classes and time domains',
     'Tests check a few continuous models.',
     ['harold/_system_props.py'], [('system_norm', 'harold/_system_props.py')], observe=['returned number'])
prop('P28', 'lqr returns the stabilizing Riccati solution and its gain',
     'lqr(G, Q, R, S) returns a symmetric X solving the Riccati equation of the weighted problem (continuous or discrete, state or output weighted), the gain K derived from it, and the closed-loop eigenvalues of A - BK, all stable; '
     'weights of the wrong shape or not symmetric are refused.',
     ['inputs', 'configurations'],
     'all reachable models (and observable ones for output weighting), definite weights with and without cross term, both weightings, both time domains',
     'Tests check a few stored examples.',
     ['harold/_static_ctrl_design.py'], [('lqr', 'harold/_static_ctrl_design.py')], observe=['returned arrays'])
prop('P29', 'ackermann places the closed-loop poles where requested',
     'For a controllable single-input model the returned gain K makes the eigenvalues of A - BK the requested ones, whatever the order, repetition or conjugate pairing of the locations. Wrong counts, unpaired complex locations, '
     'multi-input and uncontrollable models are refused.',
     ['inputs'],
     'all controllable single-input models up to order 5 and all self-conjugate location lists',
     'Tests check one example.',
     ['harold/_static_ctrl_design.py'], [('ackermann', 'harold/_static_ctrl_design.py')], observe=['returned gain or exception'])
prop('P30', 'Linear-algebra helpers return what they document',
     'haroldsvd reconstructs its argument from orthogonal factors with the right rank, haroldker spans exactly the null space (either side), e_i returns the addressed identity columns, matrix_slice partitions exactly from any corner, and pair_complex_numbers '
     'returns the same multiset arranged in real and conjugate-pair order.',
     ['inputs', 'configurations'],
     'all shapes, ranks, corners, sides and multisets in small bounds',
     'Tests check a few cases and two of four corners.',
     ['harold/_aux_linalg.py'], [('haroldsvd, haroldker, e_i, matrix_slice, pair_complex_numbers', 'harold/_aux_linalg.py')],
     observe=['returned arrays'])
prop('P31', 'Plots draw the computed responses of each model',
     'Step, impulse, Bode and Nyquist plots show, for each model and channel, exactly the response values computed for that model in the units and style requested, one panel per channel.',
     ['inputs', 'configurations'],
     'all lists of one or more models of any shapes and domains, given or automatic grids, units and options',
     'Tests look at subplot geometry only.',
     ['harold/_frequency_domain_plots.py', 'harold/_time_domain_plots.py'],
     [('bode_plot, nyquist_plot', 'harold/_frequency_domain_plots.py'), ('step_response_plot, impulse_response_plot', 'harold/_time_domain_plots.py')],
     observe=['data of the drawn lines'])
prop('P32', 'Random and stacked state data have the requested structure',
     'random_state_model returns a State of the requested size, time domain and (if asked) stability for every pole-type distribution; concatenate_state_matrices returns exactly the block matrix [A B; C D] of the model.',
     ['inputs', 'configurations'],
     'all orders, shapes, sampling periods, distributions and random seeds',
     'Tests draw a few samples.',
     [C], [('random_state_model, concatenate_state_matrices', C)], observe=['returned model or array'])
prop('P33', 'Controllability indices and cancellation distance are right',
     'controllability_indices returns one integer per input whose number of values not less than k is the rank added by the k-th Krylov block, so they sum to the rank of the controllability matrix. cancellation_distance returns the smallest '
     'singular value of the pencil at the returned point as upper bound, a lower bound that no perturbation making the pencil lose rank undercuts, and (nearly) zero for an uncontrollable pair with simple structure.',
     ['inputs'],
     'all pairs (A, B) incl. uncontrollable, rank-deficient B and repeated modes',
     'Tests check a couple of pairs.',
     ['harold/_system_props.py', 'harold/_system_funcs.py'],
     [('controllability_indices', 'harold/_system_props.py'), ('cancellation_distance', 'harold/_system_funcs.py')], observe=['returned values'])
prop('P34', 'Transmission zeros are the rank-dropping points of the system matrix',
     'The transmission zeros returned for state data (and reported by models) are exactly the finite points, with multiplicity, where the system matrix [sI-A, B; -C, D] loses rank below its normal rank, decoupling zeros included; systems without such points, or with a zero B or C, return none.',
     ['inputs'],
     'all (A, B, C, D): square, tall and wide, with and without feedthrough, invertible and degenerate, non-minimal',
     'Tests check a few stored systems.',
     [C], [('transmission_zeros, _tzeros_reduce', C)], observe=['returned zeros'])
prop('P35', 'Printed descriptions and static arrays describe the model',
     'Printing a model shows its class, its time domain and sampling period, its numbers of inputs, outputs and states (or that it is a static gain of its shape), and its current poles and zeros to the printed precision. '
     'Converting a static model to an array returns its gain matrix as an independent array; dynamic models are refused.',
     ['inputs', 'configurations'],
     'all State and Transfer models, static and dynamic, SISO and MIMO, continuous and discrete, for every kind of pole pattern',
     'Tests compare two stored printouts at most.',
     [C], [('__repr__, to_array, pole_properties', C)], observe=['printed text', 'returned array'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
