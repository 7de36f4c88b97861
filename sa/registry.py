"""property -> analyses, and the texts that go into MANIFEST/evidence."""
L = 'sa.layer_checks'

CHECKS = {}


def c(pid, analyses, technique, explain, note, assumptions=()):
    CHECKS[pid] = dict(analyses=analyses, technique=technique,
                       explain=explain, note=note,
                       assumptions=list(assumptions))


A_TABLE = ('the effect of each handler operation is the one in '
           'sa/opspec.py, which P11 checks against the backends')
A_LOOP = ('time loops are affine; offsets between steps are at most one, so '
          'the lengths T enumerated cover every distance between first, '
          'inner and last step')

c('P01', [(L, 'p01')], 'effect analysis of the layer passes',
  'Every layer implementation is abstractly interpreted for every '
  'activation and configuration branch; each write to an input delta in '
  'backward_pass must keep the previous content as a summand.',
  'Sound for all layers expressed through handler operations and views; '
  'configurations are covered branch by branch.', [A_TABLE])
c('P02', [(L, 'p02')], 'ownership / write-effect analysis',
  'All writes of both passes, through views and handler operations, are '
  'classified by the buffer they reach and compared with what the pass '
  'owns.', 'Covers every layer and every branch.', [A_TABLE])
c('P03', [(L, 'p03')], 'dependence analysis of backward passes',
  'For every configuration path, every differentiable dependence of an '
  'output on a parameter or input found in the forward pass must have its '
  'counterpart from that output\'s deltas to the gradient / input delta.',
  'Structural (which contributions exist), not numerical.', [A_TABLE])
c('P04', [(L, 'p04')], 'definite-assignment analysis over time-indexed '
  'buffer cells',
  'Forward and backward passes are expanded into (buffer, time step) cells '
  'for several lengths; every read must be preceded by a write in the same '
  'pass or refer to memory the network initialises.',
  'Cell granularity is (buffer, time step).', [A_TABLE, A_LOOP])
c('P05', [(L, 'p05')], 'effect analysis under training_pass=False',
  'With the training flag fixed to False each forward pass must make no '
  'random draw, no parameter write, no attribute write, and must still '
  'write every output.', 'All layers, all branches.', [A_TABLE])
c('P06', [(L, 'p06')], 'time-indexed dependence analysis',
  'Index ranges, causality, context slots and the correspondence between '
  'forward dependences and backward dependences (including cofactors of '
  'parameters) are computed cell by cell.',
  'Structural dependences, not numerical values.', [A_TABLE, A_LOOP])
H = 'sa.handler_checks'
c('P07', [('sa.windows', 'p07')], 'abstract interpretation of handler '
  'methods, Cython and CUDA kernels: exact indices, symbolic elements',
  'The convolution and pooling operations of both backends are evaluated '
  'from the method of the handler down to the Cython code or the C of the '
  'CUDA kernels, for a table of geometries (sizes, windows, strides and '
  'padding that differ between the axes). Indices are exact; elements are '
  'linear forms, expressions of the value graph or (for the maximum) ranks. '
  'Outputs, deltas and gradients are compared with the definition. The '
  'layers Convolution2D and Pooling2D are evaluated around the same '
  'operations, from the shapes they announce to both passes.',
  'Geometries come from a table; elements are arbitrary. Rounding is out of '
  'scope.', ['cuBLAS and numpy.dot multiply matrices',
             'threads of one launch do not overtake each other between '
             'reading and writing one element (atomicAdd or own element)'])
c('P10', [(H, 'p10')], 'interface conformance over the syntax tree and the '
  'interpreted activation tables',
  'All operations of the abstract handler are matched with each backend '
  '(presence, arity, positions, defaults), every handler call in the package '
  'is bound against every backend, and the activation tables are '
  'interpreted entry by entry.',
  'Calls on receivers named handler/_h or attributes .handler are bound; '
  'starred calls are counted as undecided.')
c('P11', [(H, 'p11')], 'write-effect analysis of the backends (Python, '
  'Cython and CUDA sources)',
  'For every operation of every backend the written parameters and the mode '
  '(overwrite, accumulate, conditional) are derived from numpy calls, '
  'stores, Cython kernels and CUDA kernels and compared with the interface '
  'contract.',
  'Library calls (numpy, skcuda, pycuda) are modelled by their documented '
  'effect; unknown library calls are undecided.')
c('P12', [(H, 'p12'), ('sa.rawops', 'g12')], 'symbolic value analysis: '
  'formulas of stored values compared in normal form; abstract '
  'interpretation of the operations and CUDA kernels on small arrays',
  'The value each operation stores is reconstructed as a formula and '
  'compared, case by case of its conditions, with the documented formula; '
  'also with destination and operand aliased, transposed, and per axis.',
  'Exact real arithmetic; rounding is out of scope. The operations of both '
  'backends, with their elementwise, softmax, merge and split CUDA kernels, '
  'are also evaluated by an abstract machine on small arrays of ordinary and '
  'of extreme values.')
c('P13', [(H, 'p13'), ('sa.checked', 'g13')], 'delegation analysis of the '
  'checking backend; abstract evaluation on small arrays',
  'Every operation of the checking backend is interpreted path by path: it '
  'must call the same operation of the wrapped backend once, with every '
  'argument in its role, unwrapped, and write nothing else. Well-formed '
  'calls of the operations, and the value modifiers, are also evaluated on '
  'the checking backend with small arrays: they must be accepted and give '
  'the documented values.',
  'Acceptance is decided for tabulated operands; convolution and pooling '
  'are not among them.')
c('P16', [('sa.checked', 'g16')], 'abstract evaluation of the checking '
  'backend on misuse',
  'Every operation of the checking backend, with its decorators and helper '
  'assertions, is evaluated by the abstract machine on tabulated misuse: '
  'plain arrays, shapes that do not fit in each position, values that are '
  'not finite, axes and classes out of range. No path may return.',
  'Tabulated operands; convolution and pooling, whose shapes the backend '
  'does not check, are not among them.')
c('P14', [('sa.finite', 'p14')], 'abstract evaluation of formulas over '
  'orders of magnitude',
  'The formula each activation and each log/divide layer computes is '
  'reconstructed from the source and evaluated in a finite domain of orders '
  'of magnitude with overflow and underflow; an infinite or undefined '
  'result is a definite witness.',
  'Five classes per input; rows of three for softmax; layers with time loops '
  'are undecided.', [A_TABLE])
S = 'sa.structure'
c('P15', [('sa.windows', 'p15')], 'abstract interpretation of kernels with '
  'exact index arithmetic and bounds as obligations',
  'During the evaluation of P07 every access of a kernel (element, slice or '
  'pointer) must lie inside the array it was given; a wrapped negative index '
  'counts as outside. The cropping kernel is evaluated for a table of its '
  'own.', 'Geometries come from a table.')
M = 'sa.memory'
END_TO_END = (
    'Construction, layout, buffers, views and passes of whole networks with '
    'stand-in layers and backends are also evaluated abstractly end to end '
    'for a table of architectures, following the provenance and the sharing '
    'of every cell of memory.')
c('P20', [(S, 'p20'), (M, 'p20')], 'typestate over the enumerated paths of the buffer '
  'manager and the network',
  'Every path of resize, set_handler and provide_external_data is '
  'enumerated with helpers inlined; the save, rebuild and restore events of '
  'each path are matched in order, with the handler and memory they use. '
  + END_TO_END,
  'Decided for all sizes; that the parameter hub keeps its place when the '
  'memory is reused rests on the hub order (P24).')
c('P21', [(S, 'p21'), (M, 'p21')], 'path-sensitive write-effect analysis of '
  'backward_pass and of the layout',
  'On every path of Network.backward_pass (buffer manager inlined) the loop '
  'over the hubs is evaluated for marked and unmarked hubs; the layout '
  'builder\'s resulting dictionary is reconstructed to see which categories '
  'are marked; the mark is followed from structure to layout to hub. '
  + END_TO_END,
  'Per hub, for every number of hubs.')
c('P22', [(S, 'p22'), (M, 'p22')], 'index-range analysis of the context operations on '
  'every path',
  'For forward_pass with and without context and for get_context the hub '
  'loops are enumerated path by path; the time ranges they touch are '
  'evaluated as functions of sequence length and context size. '
  + END_TO_END,
  'Ranges are compared at 30 combinations of length, context and kind; the '
  'range expressions are affine, so these decide them.')
G = 'sa.graphs'
c('P23', [(S, 'p23'), (M, 'p23'), (G, 'g23')], 'loop-shape and path analysis of the passes and of '
  'the layer ordering',
  'The iteration sources of both passes are normalised (slices, reversals, '
  'sorting) and each body path is checked for exactly one call with the '
  'right buffers; readiness test, direction and tie-breaking of the ordering '
  'are read off its syntax tree. ' + END_TO_END,
  'An ordering algorithm of another shape is reported as undecided.')

S2 = 'sa.arch'
c('P24', [(S2, 'p24'), (M, 'p24')], 'value analysis of the layout code: effects '
  'extracted by abstract interpretation, evaluated at representative '
  'layouts',
  'The effects and results of the functions that compute connections, hub '
  'slices, shapes, offsets and views are extracted as terms and evaluated '
  'for representative layers, hubs and structures; the result must be the '
  'slice, shape or pair the definition of the layout gives. '
  + END_TO_END,
  'Grouping into hubs and ordering of buffers are decided end to end for the '
  'architectures of the table only; they search over graphs.',
  ['the representative layers and hubs cover each kind of buffer (0, 1, 2 '
   'leading axes), with and without context, with one and several sources '
   'and sinks'])

c('P25', [('sa.valid', 'p25'), (G, 'g25'), ('sa.shapes', 'g25')], 'path analysis of the validators: every '
  'kind of ill-formed input must end each path that is consistent with it '
  'in an error',
  'The paths of the validating functions are enumerated; for one '
  'representative of each kind of ill-formed architecture, layer, '
  'connection and shape the consistent paths must all raise, for '
  'well-formed ones none may. Validation must precede every use of the '
  'architecture; the checks of a layer surround its setup. '
  'A list of ill-formed architectures (every layer of three graphs, every '
  'kind of error) is evaluated in the abstract machine, sets in two '
  'orders; so are wrong options, inputs, outputs and shapes of every real '
  'layer class.',
  'Rejected are the kinds of errors listed in the property, with values of '
  'options from a table.')
c('P26', [('sa.wiring', 'p26'), (G, 'g26')], 'effect extraction over the wiring '
  'operators, naming and (de)serialisation of connections',
  'The effects of the operators on both layers, the joining of scopes, the '
  'numbering of names and the writing and reading of descriptions are '
  'extracted per path; what is recorded at one end is followed to where it '
  'is used. Every layer function must pass each argument on. Ten graphs '
  'with equal and clashing names, parallel connections and named ports are '
  'wired in every order, described, written by hand and instantiated in '
  'the abstract machine, with sets in two orders.',
  'Uniqueness of names is decided from the shape of the numbering loop and '
  'on those graphs.')
c('P27', [('sa.copies', 'p27')], 'aliasing analysis of returned, kept and '
  'passed-in values over abstract-interpretation effects',
  'The values that getters, contexts, hooks, scorers and tools return or '
  'store are followed to the storage they belong to; in-place changes in the '
  'set-up and run entry points, helpers inlined, are followed to the '
  'parameters they reach; installed modifiers must share nothing with those '
  'of the caller.',
  'Calls on objects of unknown class (initialisers, iterators of the user) '
  'are taken not to change their arguments.')
c('P30', [('sa.persist', 'p30'), ('sa.roundtrip', 'g30')], 'abstract interpretation of constructors '
  'and recreation methods; comparison with the declared transient sets',
  'For each describable class the attributes after construction are '
  'compared with those after recreation from a description (undescribed '
  'ones have their declared value, then __init_from_description__ runs); '
  'attributes set while running must be declared transient; arrays must be '
  'arrays again; descriptions of their own must contain what recreation '
  'reads; the generic describe/recreate protocol, the merging of the '
  'declarations and the recovery of hook order and names are judged path by '
  'path.',
  'Equivalence is judged attribute by attribute; attributes documented as '
  'given up (frozen weights, hook names kept by the trainer) are accepted '
  'only if nothing uses them while they are None.')
c('P31', [('sa.persist', 'p31')], 'agreement of saver and loader by effect '
  'extraction; resource rule for files',
  'Paths of save_as_hdf5 and from_hdf5 are extracted: names, values and '
  'conversions written are matched with those read; the attributes a network '
  'describes are matched with those its recreation sets, each from the entry '
  'of its own name; every file opened in the package must be closed on every '
  'path; saving hooks load the file they saved.',
  'That the layout of the parameters is a function of the architecture alone '
  'is part of P40 (no unordered iteration in the structure code); h5py and '
  'json are taken to store what they are given.')
c('P40', [('sa.seeds', 'p40')], 'origin and taint analysis of random state, '
  'typestate of seeds, order-dependence analysis of unordered collections',
  'Every name of an external module is resolved and no process-global '
  'source of randomness may be used; every draw must be made from a random '
  'state of the library; RandomState, Seedable, the initialisers and '
  'initialize() are interpreted path by path to see where a seed goes; sets '
  'and whatever is filled in their order are followed through functions, '
  'attributes and parameters to every place where the order could show; '
  'nothing made at import time may hold a random state of its own.',
  'Code of numpy and of curand is taken to be a function of its seed. '
  'Parallel reductions on the GPU are out of scope.',
  ['dictionaries keep insertion order (Python 3.7 and later)'])
c('P50', [('sa.initial', 'p50')], 'path extraction with static evaluation of '
  'the extracted terms; shape inference for the returned arrays',
  'The functions that match references to keys, descend into layers and '
  'views, fill leaves and initialise parameters are extracted path by path; '
  'the extracted conditions and effects are evaluated for a table of '
  'structures and references and compared with the documented rules. Every '
  'initialiser\'s result is typed by shape; handlers must insist on equal '
  'shapes when they fill an array.',
  'The rules of matching are judged for the tabulated structures (names, '
  'wildcards, default and fallback on both levels), the shapes for all.')
c('P51', [('sa.modifiers', 'p51'), ('sa.modvals', 'g51')],
  'path extraction with static evaluation; abstract evaluation of the '
  'modifiers on small arrays; elementwise symbolic execution over handler operations; write effects',
  'The loops that call the modifiers and the functions that install them are '
  'extracted and evaluated for a table of installed modifiers (which object, '
  'which array, which order, how often); backward_pass and train are checked '
  'for the place of the calls on every path; each modifier\'s __call__ is '
  'executed symbolically with the documented formula of every handler '
  'operation, and the formula it leaves in its array is compared with the '
  'one it promises, in every case of its conditions.',
  'Relies on P12 for the formulas of the operations. Modifiers written by '
  'users are out of scope.')
c('P52', [('sa.initvals', 'p52')], 'abstract interpretation of constructors '
  'and __call__ with one symbolic variable per random draw; affine forms of '
  'the elements', 'Constructor and __call__ of every initialiser are '
  'evaluated abstractly for a table of arguments and shapes; each random '
  'number drawn is a variable with its distribution. Every element of the '
  'result is an affine form over these variables, from which its range or '
  'mean and deviation are read and compared with the documented ones, and no '
  'two elements may share a draw. Spectral radius and orthogonality are '
  'judged by the use made of the abstract results of eig and svd. Positions '
  'of sparse connections are enumerated over all choices.',
  'The shapes and arguments are those of a table; the draws are symbolic.',
  ['numpy.random and numpy.linalg keep their documentation'])
c('P60', [('sa.steppers', 'p60')], 'elementwise symbolic execution of every '
  'path of a step over handler operations; typestate of the passes',
  'run() of every stepper is extracted path by path; forward and backward '
  'passes are counted and ordered; the content of parameters, gradients and '
  'optimiser state is followed through the handler operations and compared, '
  'as formula, with the documented update; start() must give the state the '
  'shape of the parameters and the value 0; the scheduling hook must set '
  'what the schedule returns for the current counts.',
  'Relies on P12 for the formulas of the operations and on P21/P03 for what '
  'a backward pass leaves in the gradients.')
c('P64', [('sa.schedules', 'p64')], 'effect analysis and constant propagation',
  'Every schedule\'s call is checked to read nothing but its parameters and '
  'counts and to change nothing it depends on; constants are propagated '
  'through constructor and call over a grid of settings, timescales, '
  'intervals and counts and compared with the documented values.',
  'Values are decided on the grid; purity for all arguments.')
c('P61', [('sa.training', 'p61')], 'exhaustive typestate exploration of the '
  'training loop against a protocol automaton',
  'Trainer.train with the generator that feeds the network and every helper '
  'it calls is explored as a finite transition system (stop requests and '
  'ends of data chosen both ways at every point, counters kept relative to '
  'the number of batches and passes, states merged at loop heads) and every '
  'event is given to a protocol automaton; provide_external_data is '
  'extracted and every path per input must copy that input.',
  'Covers histories of any length. Exceptions of hooks and steppers other '
  'than stop requests end training and are not judged here.')
c('P62', [('sa.hooks', 'p62')], 'exhaustive typestate exploration against a '
  'protocol automaton; constant propagation',
  'The method that calls the hooks is explored as a finite transition system '
  'over any sequence of hooks, each with any timescale, any interval of a '
  'table, and returning, stopping or failing; an automaton checks which are '
  'called, in which order, with which arguments, what is logged and what is '
  'returned. Logging, adding and recovering hooks and the stopping '
  'conditions are decided by propagating constants through constructor and '
  'call for tables of settings, logs and counts.',
  'Any number of hooks; counts and intervals from a table. The values logged '
  'are those of the hooks. Stopping conditions are decided on the table.')
c('P63', [('sa.monitoring', 'p63')], 'alias and write-effect analysis of '
  'every path of hooks, scorers and evaluation helpers',
  'Every path of start and __call__ of every hook, of every scorer and of '
  'the evaluation helpers is extracted; each in-place change (assignment, '
  'augmented assignment, mutating method, out argument, written argument of '
  'a handler operation) is traced to the storage it belongs to and must not '
  'belong to network, stepper, logs or given arrays; calls on the network '
  'are limited to reading ones and forward passes in evaluation mode.',
  'That a forward pass in evaluation mode leaves parameters and statistics '
  'alone is P05/P26; that getters return copies is P27.')
c('P80', [('sa.scoring', 'p80')], 'exhaustive typestate exploration of an '
  'evaluation pass; constant and provenance propagation',
  'evaluate and the monitoring hooks are explored as transition systems over '
  'any number of batches against a protocol automaton; gathering, '
  'aggregating and every scorer are decided by propagating constants and '
  'array element identities through the source for tables of name settings, '
  'masks, weights and small arrays against the documented formulas.',
  'Values of scorers and averages on tables of small arrays; any number of '
  'batches for the protocol. The weight of losses is the batch size by '
  'design.')
c('P81', [('sa.scoring', 'p81')], 'provenance propagation of array elements',
  'extract and extract_and_save are evaluated abstractly with arrays whose '
  'elements are identities (buffer, batch, step, sample, unit) for a table '
  'of batch sizes, sequence lengths and buffer lists; the result must hold '
  'every identity at its place.',
  'Shapes from a table. That the buffers hold the result of the forward pass '
  'is P21/P26.')
c('P82', [(M, 'p82')], 'provenance propagation of memory cells through '
  'abstract evaluation of whole networks',
  'Network construction, provide_external_data, get, get_input and '
  'get_loss_values are evaluated abstractly for a table of architectures '
  'whose memory cells carry the provenance of their value; what each input '
  'holds, what is left of earlier data and what is returned is compared with '
  'the data provided under each name.',
  'Architectures, sizes and combinations of names from a table; stand-in '
  'layers and backends.',
  ['backends copy, slice and fill arrays as documented (P12)'])
c('P28', [('sa.specnet', 'p28')], 'abstract evaluation with stand-in layers '
  'over a table of spec lines',
  'create_net_from_spec and get_in_out_layers are evaluated by the abstract '
  'machine with layer functions that only record their options (bound with '
  'their signature) and connections; regular expressions over constants are '
  'folded. The recorded graph, options and initialisers are compared with '
  'the documented meaning of the line, the task and the shapes.',
  'Spec lines, tasks, shapes and names from a table; only the connections '
  'and options, what the layers do is P07, P15, P90.')
c('P29', [('sa.shapes', 'p29')], 'abstract evaluation of the set-up code of '
  'every layer class over a table of options and input shapes',
  'instantiate_layers_from_architecture is evaluated by the abstract machine '
  'with the real layer classes (class attributes, constructors, validation '
  'and setup included); the shapes declared are compared with formulas '
  'written down per layer type, alone and in chains.',
  'Options and shapes from a table; internal buffers are not compared (their '
  'use is P02, P04, P22).')
c('P65', [('sa.watch', 'p65')], 'abstract evaluation of hooks over a table of '
  'histories with stand-in network and files',
  'Constructor, start and calls of the hooks that save or record are '
  'evaluated by the abstract machine on series of log values and buffers; '
  'what is kept, written, evaluated or returned is compared with what was '
  'shown.',
  'Series of up to four values and buffers of a table; NaN and infinite '
  'values included. Ties between equally good values are left open.')
c('P83', [('sa.datatools', 'p83')], 'provenance propagation of array elements',
  'split and shuffle_data are evaluated abstractly with arrays whose elements '
  'are identities, for every order of the random generator and a table of '
  'ratios; every element of the results is traced to its sample.',
  'Up to 12 samples (25 in the thorough run), all orders of up to four '
  'samples, three of six.')
c('P70', [('sa.iterators', 'p70')], 'provenance propagation of array elements '
  'through the iterator for every shuffle order of a table',
  'Constructor and __call__ of Undivided and Minibatches are evaluated '
  'abstractly with arrays whose elements are identities; every yielded '
  'element is traced to its sample.',
  'Data sizes up to 5 (7 in the thorough run), all batch sizes, lengths and '
  'masks from a table, all orders of up to three batches and six of more.')
c('P72', [('sa.iterators', 'p72')], 'aliasing-exact abstract evaluation '
  '(storage of every view) of two passes over every iterator and nesting',
  'Every augmentation step over both base iterators is evaluated abstractly '
  'with arrays that know their storage; after each pass the storage of the '
  'source, the options and what the wrapped iterator yields and announces '
  'are compared element by element; yielded dictionaries are emptied and '
  'must not be those of the iterator.',
  'Options and shapes from a table. A consumer that writes into yielded '
  'arrays of Minibatches writes into views of the data by design.')
c('P73', [('sa.iterators', 'p73')], 'constant propagation through '
  'constructors over a table of data and options; shape propagation',
  'Constructors are evaluated abstractly on a table of consistent and '
  'inconsistent data and options: each must return or raise as stated; '
  'announced names, shapes and lengths are compared with those of the '
  'batches obtained by abstract evaluation.',
  'Table of shapes and options. Any exception counts as a rejection.')
c('P74', [('sa.iterators', 'p74'), ('sa.windows', 'p74')], 'provenance propagation of array elements '
  'with all random choices of a grid',
  'Every augmentation step is evaluated abstractly with element identities, '
  'symbolic noise and every choice of its random numbers from a grid; the '
  'result must be the documented function of the source and choices must '
  'occur as often as their probability.',
  'Shapes and options from a table; the cropping routine of _cpuop.pyx is '
  'modelled (contiguous, equal types, window within the image).')
c('P90', [('sa.gradient', 'p90')], 'abstract interpretation over a shared '
  'value graph (global value numbering by random interpretation) and '
  'reverse-mode differentiation of that graph',
  'The constructor, forward pass and backward pass of every layer are '
  'evaluated abstractly on arrays whose elements are expressions over the '
  'elements of inputs, parameters, context and deltas; the value graph of '
  'the outputs is differentiated and every element of the gradients and '
  'input deltas is compared with it. Expressions are equal when they agree '
  'under random interpretations modulo a 61 bit prime (Gulwani and Necula), '
  'activation functions being uninterpreted.',
  'Sizes of time, batch and features from a table (T up to 4, thorough '
  'run), all activations and a table of options; handler operations by '
  'their documented meaning (P12 decides that NumpyHandler implements '
  'it; convolution and pooling are given by their definition).',
  ['handler operations compute what their documentation says',
   'two different expressions collide with probability below 2**-100'])
