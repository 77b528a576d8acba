prop('C01', 'Conversions between S, Z, Y and voltages/currents are exact and invertible',
     'For every matrix and every positive reference impedance, converting an impedance or '
     'admittance matrix to scattering parameters gives the matrix that relates the waves of '
     'the same voltages and currents, and converting back returns the original. The result '
     'does not depend on whether the input is a scalar, a list, one matrix or a stack of '
     'matrices, nor on the number of frequencies coinciding with the number of ports.',
     ['inputs'], 'all complex matrix entries, all positive impedances, 1-3 ports, '
     '1-3 frequencies, every accepted container shape',
     'The tests call the conversions on a handful of matrices with one impedance and never '
     'check lists, stacks of matrices or nF == N.',
     ['S_from_Z.py', 'Z_from_S.py', 'S_from_Y.py', 'Y_from_S.py', 'S_from_VI.py',
      'VI_from_S.py', '_check_3D_shape_.py'],
     [('bilinear transforms', 'S_from_Z.py'), ('shape normalisation', '_check_3D_shape_.py')])

prop('C02', 'Renormalising S describes the same network under the new reference',
     'Converting a scattering matrix from one set of port reference impedances to another '
     'yields the matrix of the same network: the same port voltages and currents expressed '
     'in waves of the new references, for every supported wave definition. It is the '
     'identity for equal references and converting there and back returns the original.',
     ['inputs'], 'all complex S, all (complex) source and target impedances per port, 1-3 '
     'ports, 1-3 frequencies, the three wave types, scalar and list forms',
     'Tests only convert between real equal impedances for one matrix.',
     ['ConvertGeneral.py'], [('wave definition conversion', 'ConvertGeneral.py')])

prop('C03', 'A transmission line has the S-matrix of the telegrapher equations',
     'For every length, frequency and line parameter set the scattering matrix of a line is '
     'the one of a line with its characteristic impedance and propagation constant (passive '
     'for positive losses, lossless without), of a cascade of its parts when it is divided, '
     'and for position dependent parameters of the solution of the telegrapher equations '
     'over the whole length.',
     ['inputs', 'configurations'], 'all lengths, frequencies, reference impedances and line '
     'parameters; uniform and position dependent lines, every way of giving them',
     'Tests compare a few numeric cases with themselves; wrong loss terms, swapped ends or '
     'a missing frequency dependence do not show.',
     ['rfTRL.py', 'resolveTLparams.py'], [('getS', 'rfTRL.py'), ('solve', 'rfTRL.py')])

prop('C04', 'Voltages and currents along a line satisfy the port conditions',
     'For every excitation the voltage and current reported along a line equal the imposed '
     'values at its ends, satisfy the telegrapher equations in between and the reported '
     'maximum is the largest magnitude of the sampled positions, at the position where it '
     'occurs. Results depend only on the frequency asked for and the excitation, not on '
     'earlier calls.',
     ['inputs', 'histories'], 'all excitations, frequencies and line parameters; sequences '
     'of calls at equal and different frequencies',
     'No test checks voltages along a line against an independent solution or repeats '
     'calls in a different order.',
     ['rfTRL.py', 'maxfun.py'], [('VIprofile/maxV', 'rfTRL.py')])

prop('C05', 'All parameters of a resolved line are mutually consistent',
     'Whatever subset of line parameters is given, the given ones are kept and every '
     'derived parameter satisfies the physical relations among inductance, capacitance, '
     'impedance, velocity, geometry, losses and attenuation. Parameters may be scalars, '
     'tables along the line or functions and mean the same in all forms.',
     ['inputs', 'configurations'], 'all values and frequencies for each of the listed '
     'combinations of given parameters and forms',
     'Tests give one or two combinations; most of the sixty derivation rules are never '
     'evaluated.',
     ['resolveTLparams.py'], [('derivation rules', 'resolveTLparams.py')])

prop('C06', 'A lumped RLC section has the S-matrix of the ladder of its elements',
     'For every subset of given elements, values, frequencies (including zero) and '
     'reference impedance, the scattering matrix of the section is that of the series '
     'branch and the shunt branch made of exactly the given elements. Changing an element '
     'through the object or per call has the same effect as building it with that value.',
     ['inputs', 'configurations'], 'all element values, frequencies (zero included) and '
     'reference impedances, for every subset of the six elements',
     'The test builds one section and does not compare S with the ladder; f = 0 and most '
     'subsets are never evaluated.',
     ['rfRLC.py'], [('getS', 'rfRLC.py')])

prop('C07', 'A coupler is the coupled line section it claims to be',
     'For every coupling, length, frequency and reference impedance the scattering matrix '
     'of the coupler is that of the ideal matched coupled line section with that coupling '
     'factor: matched, isolated, reciprocal, lossless, with its coupling reached when it '
     'is a quarter wave long.',
     ['inputs'], 'all couplings 0 < k < 1 (linear or in dB), lengths, frequencies and '
     'reference impedances',
     'No test evaluates the coupler.',
     ['rfCoupler.py'], [('getS', 'rfCoupler.py')])

prop('C08', 'An arc is an inductance to ground',
     'For every inductance, frequency and reference impedance the reflection of an arc is '
     'that of the inductance; the largest voltage it reports is the voltage of that '
     'inductance under the given excitation, alone and within a circuit.',
     ['inputs'], 'all inductances, frequencies, reference impedances and excitations',
     'The test evaluates one value; the reported voltage is not compared with the network.',
     ['rfArcObj.py'], [('getS', 'rfArcObj.py')])

prop('C09', "A circuit's S-matrix solves the network of its blocks",
     'For every set of blocks, connections (including junctions, loops and several '
     'blocks meeting at one node) and terminations, the S-matrix of the circuit relates '
     'the waves at its external ports exactly as Kirchhoff\'s laws at the junctions '
     'together with the S-matrices of the blocks and the terminations imply, whatever the '
     'reference impedances of circuit and blocks.',
     ['inputs', 'configurations'], 'arbitrary block S-matrices, frequencies and impedances '
     'on a catalogue of network structures (up to 4 blocks, junctions of up to 5 ports)',
     'Tests compare a few numeric circuits with stored or mutually derived numbers; they '
     'cannot cover block values, impedance mixes or junction shapes.',
     ['rfCircuit.py'], [('getS/_getS', 'rfCircuit.py'), ('connect', 'rfCircuit.py'),
                        ('terminate', 'rfCircuit.py')])

prop('C10', 'The circuit result does not depend on the order in which it is built',
     'Adding the blocks in another order, making the same connections and terminations in '
     'another order or with other argument orders, and announcing the port order, give '
     'the same network with the requested port order. Names of blocks and ports do not '
     'matter.',
     ['histories', 'configurations'], 'all construction orders of the listed kinds and all '
     'port orders up to 4 ports, for arbitrary block values',
     'Tests use one construction order per circuit.',
     ['rfCircuit.py'], [('addblock/connect/terminate', 'rfCircuit.py')])

prop('C11', 'A circuit used as a block equals the flat network',
     'Using a circuit as a block of another circuit, at any depth, with any port '
     'renaming, port order and reference impedance, gives the same external behaviour as '
     'putting its blocks and connections directly in the outer circuit.',
     ['configurations', 'inputs'], 'up to 3 levels of nesting, renamed and reordered '
     'ports, arbitrary block values and impedances',
     'Nested circuits are only tested for particular numbers with default port order.',
     ['rfCircuit.py'], [('addblock of a circuit', 'rfCircuit.py')])

prop('C12', 'Node voltages and currents of a circuit solve the whole network',
     'For every excitation of the external ports, the voltages, currents and waves '
     'reported for every node of a circuit and of nested circuits satisfy the block '
     'equations, the junction laws and the terminations, and agree with the external '
     'S-matrix and the imposed excitation.',
     ['inputs', 'configurations'], 'all excitations and block values on the structures of '
     'C09, and nested circuits up to 3 levels with renamed ports',
     'Tests print or plot solutions; none checks internal nodes against the network '
     'equations.',
     ['rfCircuit.py'], [('Solution', 'rfCircuit.py'), ('solve', 'rfCircuit.py')])

prop('C13', 'The maximum voltage of a circuit is the maximum over all its nodes',
     'For every excitation the maximum reported for a circuit is the largest voltage '
     'magnitude over its nodes, its blocks and nested circuits, it is attained at the '
     'reported place, and the voltages listed per node are the magnitudes of the network '
     'solution, at the positions of those nodes. Earlier calls have no influence.',
     ['inputs', 'configurations', 'histories'], 'all excitations on the structures of C09 '
     'and nested circuits; leaves of each kind',
     'Tests draw the voltages; no test compares the maximum and its place with the '
     'network solution.',
     ['rfCircuit.py', 'rfBase.py', 'rfObject.py', 'rfRLC.py'],
     [('maxV', 'rfCircuit.py'), ('getpos', 'rfCircuit.py')])

prop('C14', "A circuit's results depend on its present contents only",
     'After any sequence of evaluations, changes of element values (through any form of '
     'setting them, also in nested circuits), parameters given with an evaluation, '
     'changed terminations, replaced blocks and copies, the S-matrix and the node '
     'solution are those of a circuit freshly built with the present values.',
     ['histories', 'inputs'], 'all sequences of up to 3 (4) operations out of 12 kinds, '
     'all values, frequencies and impedances',
     'Tests evaluate a circuit once or twice; they cannot cover the orders in which '
     'cached results become stale.',
     ['rfCircuit.py', 'rfRLC.py', 'rfTRL.py'],
     [('set', 'rfCircuit.py'), ('cached S', 'rfCircuit.py')])

prop('C15', 'Deembedding removes exactly the known part from a circuit',
     'When a known network is deembedded from a circuit that contains it, the remaining '
     'circuit has the S-matrix of what is left at the remaining and the new ports, for '
     'every network, mapping form and port order, also for nested circuits; the voltages '
     'at its nodes are consistent and invalid mappings are refused.',
     ['inputs', 'configurations'], 'all block matrices; 8 arrangements of total, known part '
     'and rest, lists and dicts, nested circuits, other frequencies',
     'The test script prints matrices of a deembedded circuit without comparing them.',
     ['rfCircuit.py'], [('deembed', 'rfCircuit.py')])

prop('C16', 'The internal S-matrix relates the waves at the chosen nodes',
     'The S-matrix returned for a set of nodes inside a circuit gives the waves leaving '
     'from those entering at these nodes (reversed where asked for) under every excitation '
     'of the circuit, on the reference impedance asked for.',
     ['inputs', 'configurations'], 'all block matrices; forward and reversed nodes, nested '
     'nodes, as many nodes as ports or fewer',
     'No test calls it.',
     ['rfCircuit.py'], [('Get_internalSmatrix', 'rfCircuit.py')])

prop('C17', 'A table of S-matrices is exact at its frequencies and interpolates between',
     'In whatever order and by whatever calls a table is filled, it returns the tabulated '
     'matrices at the tabulated frequencies and in between the interpolating polynomial or '
     'spline of the chosen representation (real/imaginary part, magnitude or dB with '
     'continuous phase), in the units and on the reference impedance asked for; so does a line '
     'of which the S-matrices are given by a touchstone.',
     ['inputs', 'histories'], 'all matrices and frequencies; every order of filling tables '
     'of up to 4 (5) frequencies, 5 ways of filling, 3 representations',
     'The test script prints one constant object; no test fills a table out of order or '
     'interpolates.',
     ['rfObject.py', 'rfTRL.py'], [('_interp_', 'rfObject.py'), ('setS', 'rfObject.py'),
                                   ('getS', 'rfTRL.py')])

prop('C18', 'The results of a table depend on its present contents only',
     'After any sequence of lookups, added or replaced entries, port reorderings, changes '
     'of the reference impedance, copies and (un)pickling, a table returns what a table '
     'made at once with the present contents returns; ports, positions and matrices stay '
     'in step and copied tables do not change.',
     ['histories', 'inputs'], 'all sequences of up to 3 (4) operations out of 10 kinds, all '
     'matrices and frequencies',
     'Stale interpolators only show after particular sequences; tests do one lookup.',
     ['rfObject.py'], [('interpOK', 'rfObject.py'), ('sortports', 'rfObject.py')])

prop('C19', 'Deembedding lines from a table moves the reference planes of its ports',
     'Deembedding lines from ports of a table gives the S-matrix of the network without '
     'these lines at every frequency (in any frequency unit), for every way of giving the '
     'lines; other ports keep their plane, interpolated values follow, and the argument is '
     'left as it was.',
     ['inputs'], 'all matrices of up to 3 ports, lengths, line impedances and frequencies',
     'No test deembeds a table.',
     ['rfObject.py', 'rfTRL.py'], [('deembed', 'rfObject.py')])

prop('C20', 'Reading a touchstone gives the network, frequencies and names it describes',
     'For every data type, number format, frequency unit, reference impedance (one, per port, '
     'default or per frequency in the HFSS comments) and layout of the rows, ReadTSF and '
     'tables made from a touchstone hold the described S-matrices on the reference impedance '
     'asked for, the frequencies in the unit asked for, and the port names and special '
     'comments of the file; malformed option lines are refused.',
     ['inputs', 'configurations'], 'all numbers in the file; up to 3 (wide rows: 9) ports, '
     'up to 3 frequencies, all types, formats, units and forms of the option line',
     'One 7-port file is read in the tests; nothing looks at other formats or at the values.',
     ['ReadTSF.py', 'rfObject.py', 'getlines.py'],
     [('ReadTSF', 'ReadTSF.py'), ('read_tsf', 'rfObject.py')])

prop('C21', 'Touchstones written by the package are read back as the same network',
     'The text written by tsf2str, write_tsf or WriteTSF for any type, number format, unit '
     'and reference impedance, read with ReadTSF, gives the network at the same frequencies '
     'with the same port names, up to the written digits; writing leaves the network as it '
     'was.',
     ['inputs', 'configurations'], 'all S-matrices, impedances and frequencies; up to 3 '
     '(wide rows: 9) ports, up to 3 frequencies, both writers',
     'The tests print one text; nothing reads it back.',
     ['rfBase.py', 'WriteTSF.py', 'ReadTSF.py'],
     [('tsf2str', 'rfBase.py'), ('WriteTSF', 'WriteTSF.py')])

prop('C22', 'A general transmission line model is the circuit its file describes',
     'The object made from a model file has the S-matrix, voltages and ports of the circuit '
     'of the described blocks (lines in their units, stubs, lumped elements, arcs, '
     'terminations, relative or absolute positions), with the variables and expressions of '
     'the file evaluated and overridden by those given; unresolvable models are refused.',
     ['inputs', 'configurations'], 'all numbers used by the model; models of up to 5 blocks '
     'of every kind of block, unit and termination',
     'The tests make no rfGTL; only comparing with the circuit made by hand tells.',
     ['rfGTL.py', 'ReadDictData.py'], [('rfGTL', 'rfGTL.py')])

prop('C23', 'Scaling, summarising and printing of nested voltages keep every node',
     'For any tree of node voltages and standing waves that the solvers return, scaleVSW '
     'multiplies every voltage and nothing else, the result of rfBase.maxV is such a tree, '
     'and the printed summaries show the extremes, positions and signs of what is stored, '
     'whatever was printed before.',
     ['inputs', 'histories'], 'all values of trees up to 3 levels deep and 4 points per wave, '
     'every kind of leaf; printed numbers to the printed digits',
     'Nothing in the tests scales or prints a tree.',
     ['plotVSWs.py', 'str_dict.py', 'rfBase.py'],
     [('scaleVSW', 'plotVSWs.py'), ('strVSW', 'plotVSWs.py'), ('maxV', 'rfBase.py')])

prop('C24', 'The maximum of a standing wave is that of the samples or between them',
     'maxfun returns a maximum that is at least the largest sample and a position within the '
     'samples, finds the exact vertex when the samples lie on one parabola, and gives the '
     'same answer for samples in increasing and decreasing order of position.',
     ['inputs'], 'all values and (increasing or decreasing) positions of up to 4 (5) samples',
     'Degenerate spacings and orders only show for values no test uses.',
     ['maxfun.py'], [('maxfun', 'maxfun.py')])

prop('C25', 'Copies are independent and arguments are left as they were',
     'A copy of any object (copy(), copy.copy, deepcopy; before or after evaluations) and its '
     'original never affect each other, one object may be used in several circuits, and '
     'evaluations, conversions, building and solving leave the matrices, lists and dicts '
     'given to them unchanged.',
     ['histories', 'inputs'], 'objects of every class, every way of changing them, before and '
     'after evaluations; all values, matrices, frequencies and impedances',
     'Aliasing shows only when both the copy and the original are used after a change.',
     ['rfBase.py', 'rfCircuit.py', 'rfTRL.py', 'rfRLC.py', 'rfObject.py', 'ConvertGeneral.py'],
     [('__deepcopy__', 'rfCircuit.py'), ('copy', 'rfBase.py'), ('addblock', 'rfCircuit.py')])

prop('C26', 'Diagnostics do not change what is computed',
     'Everything the package does (evaluating every block, building, changing, solving and '
     'printing circuits, reading and writing touchstones, models, maxima, conversions) gives '
     'the same results, and refuses the same arguments, whether logging is at its quietest '
     'or at its most detailed level.',
     ['inputs', 'configurations'], 'all values, matrices, frequencies and impedances; every '
     'class and every public operation once at both levels of logging',
     'The tests run at one level; the code of the diagnostics itself only runs at the other.',
     ['rfCircuit.py', 'rfBase.py', 'rfTRL.py', 'rfRLC.py', 'rfObject.py', 'rfGTL.py',
      'config.py', 'ReadTSF.py', 'ConvertGeneral.py'],
     [('logit', 'config.py'), ('addblock', 'rfCircuit.py'), ('set', 'rfCircuit.py')])

prop('C27', 'Looking at an object shows what it is and changes nothing',
     'At every stage of building and using a circuit (also empty, nested, with arrays, shared '
     'objects, copies) its texts show its ports, blocks, port positions and last evaluation, '
     'listBlocks, findObj and object give all its blocks, elements show their values, and '
     'whatever was looked at, later results are the same.',
     ['histories', 'inputs'], 'all values, positions, matrices and frequencies; up to 6 steps, '
     'all levels of detail, circuits nested up to 3 levels',
     'The tests print some circuits but compare neither the texts nor what follows.',
     ['rfCircuit.py', 'rfBase.py', 'rfRLC.py', 'rfTRL.py', 'rfObject.py'],
     [('__str__', 'rfCircuit.py'), ('listBlocks', 'rfCircuit.py'), ('findObj', 'rfCircuit.py')])

prop('C28', 'Refused operations leave everything as it was',
     'When an operation on a circuit, a block or a table is refused with an exception (unknown '
     'or used ports, wrong sizes, unknown blocks or parameters, missing excitations), the '
     'object is as before and all later operations and evaluations give what they would have '
     'given without it; of several changes at once, only complete and visible ones are kept.',
     ['histories', 'inputs'], 'one refused operation of every kind before and after '
     'evaluations, followed by every kind of valid one; all values, matrices and frequencies',
     'The tests only see that exceptions are raised, not what is left behind.',
     ['rfCircuit.py', 'rfObject.py', 'rfRLC.py', 'rfTRL.py', 'rfBase.py'],
     [('connect', 'rfCircuit.py'), ('set', 'rfCircuit.py'), ('deembed', 'rfCircuit.py')])

prop('C29', 'Tables give what they were given; saved objects are what was saved',
     'An element given by S-matrices returns exactly those at exactly those frequencies (in any '
     'order, one or many, on any reference impedance, alone or in a circuit) and refuses all '
     'others; an object that is saved by pickle and restored, at any time of its use, gives the '
     'same results, can be changed in the same way and is independent of the original.',
     ['inputs', 'histories'], 'tables of 1 to 3 ports at up to 4 frequencies; all objects that '
     'can be saved, circuits nested up to 2 levels; all matrices, values, frequencies',
     'The tests use sorted tables of one frequency and never save an object.',
     ['rfBase.py', 'rfCircuit.py', 'rfRLC.py', 'rfObject.py'],
     [('getS', 'rfBase.py'), ('__init__', 'rfBase.py'), ('__getstate__', 'rfObject.py')])

prop('C30', 'Printed matrices show the numbers of the matrix',
     'strM and the print functions for matrices (real and imaginary parts, magnitude and phase, '
     'decibels, real) show every entry in its row and column with the digits asked for, zeros '
     'as the mark for zeros and only them, and leave the matrix as it was.',
     ['inputs'], 'matrices up to 4x4, rectangular, real or complex; all values, formats and marks',
     'A transposed or dropped entry, a sign or a wrong threshold shows only for some matrices.',
     ['printMatrices.py'], [('strM', 'printMatrices.py'), ('printMA', 'printMatrices.py')])

prop('C31', 'Energy is conserved and reciprocal parts make reciprocal networks',
     'Lossless elements and all circuits of them have unitary S-matrices, reciprocal ones have '
     'symmetric S-matrices, on any reference impedance; in every solution the power entering '
     'at the ports is what the resistive elements and terminations absorb.',
     ['inputs', 'compositions'], 'every class of element, circuits of up to 5 of them nested up '
     'to 2 levels; all values, frequencies, excitations and (complex) reference impedances',
     'The tests compare some numbers; conservation has to hold for every circuit.',
     ['rfCircuit.py', 'rfRLC.py', 'rfTRL.py', 'rfCoupler.py', 'rfArcObj.py', 'ConvertGeneral.py'],
     [('getS', 'rfCircuit.py'), ('Solution', 'rfCircuit.py'), ('ConvertGeneral',
      'ConvertGeneral.py')])

prop('C32', 'An evaluation at many frequencies is that at each of them',
     'getS at several frequencies, given in any order, repeated or not, as list, tuple or '
     'array, is for every class of object the array of the S-matrices that new objects give at '
     'each frequency alone, on any impedance, and what is evaluated or solved afterwards is '
     'not influenced by it.',
     ['inputs', 'histories'], 'objects of every class, circuits nested up to 2 levels; 1 to 4 '
     'frequencies; all values, frequencies and impedances',
     'State left by the previous frequency shows only for certain orders of evaluation.',
     ['rfCircuit.py', 'rfRLC.py', 'rfTRL.py', 'rfBase.py', 'rfObject.py', 'rfCoupler.py'],
     [('getS', 'rfCircuit.py'), ('getS', 'rfBase.py'), ('getS', 'rfRLC.py')])

prop('C33', 'The own reference impedance of an object is only a default',
     'Objects of every class (but couplers, which are made for one) and circuits that differ '
     'only in the reference impedances of their parts and themselves have the same S-matrices '
     'on any given impedance, the same voltages and currents at all nodes and the same maxima.',
     ['inputs', 'compositions'], 'every class of element, circuits of up to 4 of them nested up '
     'to 2 levels; all values, frequencies and impedances',
     'The tests use 50 Ohm nearly everywhere, where forgotten conversions do nothing.',
     ['rfCircuit.py', 'rfRLC.py', 'rfTRL.py', 'rfBase.py', 'rfObject.py', 'rfArcObj.py'],
     [('Solution', 'rfCircuit.py'), ('getS', 'rfTRL.py'), ('getS', 'rfObject.py')])

prop('C34', 'A plot of voltages shows the voltages found',
     'Every line of a tree of voltages is drawn once, in order, over its positions with the '
     'magnitudes of its voltages, under its name down to the level asked for; nodes are drawn '
     'only on request and lines alone at their own positions, and the tree is left as it was. '
     'Pointing at the plot shows the name, the position and the voltage of the closest point '
     'of all that is drawn, no other point being closer.',
     ['inputs', 'compositions'], 'trees of up to 3 levels with lines of 2 to 4 samples and '
     'nodes; all positions, voltages, positions of the pointer and limits of the axes',
     'The plots are looked at, and the tests do not draw any.',
     ['plotVSWs.py'], [('plotVSWs', 'plotVSWs.py')])
