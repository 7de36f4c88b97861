#!/usr/bin/env python3
"""Source of properties.jsonl (kept as Python for readability)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': m, 'where': ', '.join(files)} for m in mech]}
    if state: a['state'] = state
    if observe: a['observe_at'] = observe
    m = {}
    for o in over:
        k = ('histories' if ('histor' in o or o in ('passes', 'runs', 'stop requests', 'wiring sequences', 'time steps')) else
             'programs' if o in ('network topologies', 'topologies', 'networks', 'architectures', 'call sites', 'API entry points', 'control-flow paths', 'construction routes', 'problems') else
             'inputs' if any(w in o for w in ('value', 'input', 'shape', 'size', 'argument', 'magnitude', 'data', 'stride', 'padding', 'seed', 'epoch', 'update', 'length', 'context', 'partition', 'patterns')) else
             'configurations')
        m[k] = 1
    over = sorted(m)
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})

L = 'brainstorm/layers/'
S = 'brainstorm/structure/'
H = 'brainstorm/handlers/'
LAY = [L + '*_layer*.py', L + 'l1_decay.py', L + 'l2_decay.py']

# ---------------------------------------------------------------- layers ---
p('P01', 'Backward passes add to the deltas of their inputs, never overwrite them',
  'When one output feeds several consumers, the deltas that arrive at it are the sum of the contributions of all consumers. No layer, in any configuration, overwrites, rescales or discards what is already stored in the deltas of its inputs; it only adds its own contribution.',
  ['layers', 'configurations', 'network topologies'],
  'for every layer type, every configuration of it and every network in which its inputs are shared with other layers',
  'The layer tests run one layer at a time on freshly zeroed deltas, where overwriting and adding give the same numbers; fan-out networks are only sampled.',
  LAY + [S + 'layout.py'], ['backward_pass of each layer: destination mode of every operation whose target is an input delta'],
  observe=['input_deltas after Network.backward_pass'])
p('P02', 'A pass changes only the buffers it owns',
  'A forward pass changes only the outputs and the internal state of the layer itself, and a backward pass changes only deltas, gradients and internal state. Inputs are never modified, outputs and parameters are never modified by a backward pass, and the only parameters a forward pass may touch are the running statistics of batch normalisation, during training.',
  ['layers', 'configurations', 'passes'],
  'for every layer type and configuration, training flag, and both passes',
  'A stray write only shows when another layer reads the same memory later, or when a pass is repeated; single-layer tests allocate private buffers and compare one result.',
  LAY + [H + 'numpy_handler.py'], ['write effects of forward_pass/backward_pass, through views and handler operations'])
p('P03', 'Every parameter and every input receives its gradient contribution',
  'On every path through a backward pass, every parameter of the layer and every input of the layer receives a contribution computed from the deltas of the outputs it influences, unless the layer declares that input, parameter or output exempt. Each output whose deltas are accepted is used.',
  ['layers', 'configurations', 'control-flow paths'],
  'for every layer type and every configuration-dependent path of its backward pass',
  'A contribution missing on one configuration path or for one parameter is only visible if a gradient check happens to use that configuration with non-zero sensitivity there.',
  LAY, ['dataflow from output_deltas to gradients and input_deltas in backward_pass'])
p('P04', 'A forward pass recomputes everything it exposes; stale memory never leaks in',
  'After a forward pass every output of every layer has been written on every path, and nothing that influences an output, a gradient or a delta is read from a buffer before the current pass has written it, except the recurrent context of the step before the first one. Results therefore do not depend on earlier batches, earlier sizes or the previous mode.',
  ['layers', 'call histories', 'batch sizes'],
  'for every sequence of passes with changing batch sizes, sequence lengths and modes',
  'Freshly allocated buffers are zero, so a read-before-write gives right results in a short test and only goes wrong after memory is reused.',
  LAY + [S + 'buffers.py'], ['definite-assignment analysis over buffer regions in forward_pass then backward_pass'])
p('P05', 'Evaluation passes are deterministic and leave the model untouched',
  'A forward pass that is not a training pass draws no random numbers, changes no parameter and no running statistic, and its outputs are a function of inputs, parameters and context only. Switching a layer from training to evaluation never leaves an output without a value.',
  ['layers', 'parameters', 'inputs'],
  'for all layers, all parameter values and all inputs, whenever the training flag is off',
  'Tests compare a few outputs; a random draw or a statistics update in evaluation mode changes results only statistically or only in later passes.',
  LAY + ['brainstorm/tools.py', 'brainstorm/hooks.py', 'brainstorm/training/steppers.py'],
  ['branches on the training flag in forward_pass; call sites passing the flag'])
p('P06', 'Recurrent layers are causal and respect the supplied context in both directions',
  'The output of a recurrent layer at a time step is computed only from inputs up to that step and from the state of the step before, starting from the supplied context, and every time step is processed exactly once, in order. The backward pass walks the steps in the opposite order and uses the same state, including the context of the first step, for the gradients.',
  ['time steps', 'sequence lengths', 'contexts'],
  'for every sequence length, batch size and initial context',
  'Tests run with zero context and short sequences, where a wrong index at the first or last step multiplies by zero.',
  [L + 'recurrent_layer.py', L + 'lstm_layer.py', L + 'clockwork_layer.py', L + 'clockwork_lstm_layer.py'],
  ['time loops: index offsets of every state read and write'])

# -------------------------------------------------------------- handlers ---
p('P07', 'Convolution and pooling compute the windowed operation and its exact adjoint',
  'On both backends conv2d gives, for every output pixel and filter, the bias plus the sum of weights times the inputs under the window, zero outside the image; pooling gives the maximum or the mean of the pixels of the window that lie inside the image and 0 when there are none. The backward operations add to the input deltas exactly the adjoint: every output delta goes to one position of the maximum, or is shared evenly by the pixels averaged, or is spread by the weights, and the gradients of weights and bias are those of the forward formula. Convolution2D and Pooling2D announce the number of windows that fit and apply their window, stride and padding to height and width in that order.',
  ['inputs', 'configurations'],
  'for all element values; geometries (image, window, stride, padding, channels, filters) of a table',
  'Tests use square images, equal strides and small padding, where swapped axes and border errors cancel.',
  ['brainstorm/handlers/_cpuop.pyx', 'brainstorm/handlers/numpy_handler.py', 'brainstorm/handlers/pycuda_handler.py', 'brainstorm/layers/convolution_layer_2d.py', 'brainstorm/layers/pooling_layer_2d.py'],
  ['conv2d_*_batch, maxpool2d_*_batch, avgpool2d_*_batch; kernels; setup and passes of both layers'])
p('P10', 'All compute backends offer the same operations with the same calling convention',
  'Every operation of the abstract compute interface exists on every backend with the same parameters in the same order and the same defaults, so that a network can be moved between backends without changing any layer. Every operation and activation name a layer uses exists in that interface, and every call supplies arguments it accepts.',
  ['backends', 'operations', 'call sites'],
  'for every backend, every operation and every call site in the package',
  'The GPU backend cannot run on the test machines, and a swapped or missing parameter only fails when that operation is called.',
  [H + 'base_handler.py', H + 'numpy_handler.py', H + 'pycuda_handler.py', H + 'debug_handler.py'],
  ['signatures of the four handler classes; handler call sites in layers, modifiers, steppers and structure'])
p('P11', 'Backends agree on what each operation writes',
  'For each operation every backend writes exactly the documented destination arrays, either overwriting or accumulating as documented, and never modifies its operands. Results do not depend on the previous content of a destination that is documented as overwritten.',
  ['backends', 'operations', 'operand values'],
  'for every operation, backend and operand values, including destinations with arbitrary previous content',
  'Test destinations are freshly zeroed and operands are rarely compared afterwards; the GPU code is not executed at all.',
  [H + 'numpy_handler.py', H + 'pycuda_handler.py', H + '_cpuop.pyx'],
  ['write effects of each handler method, of each elementwise/CUDA kernel and of each Cython kernel'])
p('P12', 'Elementwise operations compute the documented formula on every backend',
  'For every element, each elementwise arithmetic operation, activation function and activation derivative yields the value of its documented formula, and the CPU and GPU implementations use the same formula on the same side of every threshold. Reductions, row-wise softmax and the joining and splitting of matrices likewise yield their documented values for every shape and partition. In-place and out-of-place variants and the name-to-function tables refer to matching function and derivative pairs.',
  ['operand values', 'backends', 'operations'],
  'for all real operand values and all backends',
  'The CPU versions are tested on a handful of arrays and the GPU versions not at all.',
  [H + 'numpy_handler.py', H + 'pycuda_handler.py', H + 'base_handler.py'],
  ['stored expression of each elementwise operation, normalised as a guarded rational function'])
p('P13', 'The debugging backend changes no result',
  'Running with the checking backend performs exactly the operations of the backend it wraps: every operation is delegated once to the operation of the same name with the same arguments in the same roles and its result is handed back. It only adds checks that raise on misuse, and every array that enters the wrapped backend is unwrapped and every array that comes out is wrapped.',
  ['operations', 'arguments'],
  'for every operation of the interface and all arguments',
  'A swapped argument in one delegation is invisible unless a test calls that very operation on the wrapper with asymmetric arguments.',
  [H + 'debug_handler.py'], ['delegation call of every wrapper method'])
p('P16', 'The checking backend reports misuse',
  'An operation of the checking backend never completes silently when an operand is not one of its own arrays, when the shapes of the operands and the result do not fit together, when an index or axis is out of range, or when a value involved is infinite or undefined: it raises.',
  ['operations', 'arguments', 'operand values'],
  'for every operation of the interface, every position of a wrong operand and every kind of misuse named',
  'The tests of the checking backend try no misuse, so a check that is lost or compares the wrong operands is not noticed.',
  [H + 'debug_handler.py'], ['assertions and finiteness checks of every wrapper method'])
p('P14', 'Activations and loss layers stay finite for finite inputs',
  'For all finite inputs of any magnitude the activation functions and the loss computations of the classification layers produce finite values. Exponentials are only taken of arguments bounded from above and logarithms and divisions only of arguments kept away from zero by clipping or a positive constant.',
  ['input magnitudes', 'activations', 'loss layers'],
  'for all finite input values, however large',
  'Overflow needs inputs far outside the range of the test data.',
  [H + 'numpy_handler.py', H + 'pycuda_handler.py', L + 'softmax_ce_layer.py', L + 'sigmoid_ce_layer.py', L + 'binomial_cross_entropy_layer.py'],
  ['interval analysis of arguments of exp, log and division'])
p('P15', 'The compiled convolution and pooling kernels never leave their arrays',
  'For every image size, window, stride and padding that a layer accepts, the compiled kernels (Cython and CUDA) of convolution, pooling and cropping read and write only inside the arrays they are given. Padding never turns into an access outside the image.',
  ['image sizes', 'window sizes', 'strides', 'paddings'],
  'for all geometries accepted by the layers',
  'Bounds checks are compiled out, so a wrong bound usually reads neighbouring memory silently, and geometries are infinitely many.',
  [H + '_cpuop.pyx'], ['index expressions of the Cython kernels against loop bounds and clamps'])

# ------------------------------------------------------------- structure ---
p('P20', 'Parameters survive resizing and changing the backend',
  'Providing data with a different batch size or sequence length, or moving the network to another backend, leaves every parameter value unchanged, and every view the network hands out afterwards refers to the current memory. Resizing to the current size keeps everything as it is.',
  ['call histories', 'batch sizes', 'backends'],
  'for every history of resize and backend changes',
  'Whether values survive depends on the order of allocation, copying out and copying in for growing, shrinking and equal sizes, which tests sample once or twice.',
  [S + 'buffers.py', S + 'network.py', S + 'buffer_views.py'],
  ['ordering of copy-out, re-allocation, re-viewing and copy-in in BufferManager'])
p('P21', 'Every backward pass starts from zeroed deltas and gradients',
  'Before any layer runs backward, all deltas, gradients and other backward-only memory of the whole network are set to zero, so repeating a backward pass gives the same gradients and nothing accumulates between batches. All memory used only by backward passes is marked as such and nothing else is cleared.',
  ['call histories', 'networks'],
  'for every network and every history of passes',
  'A single forward/backward in a test starts from zero memory anyway.',
  [S + 'network.py', S + 'buffers.py', S + 'layout.py', S + 'buffer_structure.py'],
  ['clear before the backward loop; propagation of the backward-only marker from layout to hubs'])
p('P22', 'Recurrent context is reset or restored on every forward pass and on nothing else',
  'A forward pass without context starts from all-zero recurrent state and one with context starts from exactly the saved state of the last step; neither changes data inside the current sequence. The saved context is an independent copy of the last steps.',
  ['contexts', 'sequence lengths', 'topologies'],
  'for every context, sequence length and network topology',
  'Needs several consecutive passes with and without context in networks where buffers share storage.',
  [S + 'network.py', S + 'buffers.py'], ['clear_context, apply_context, get_context: slices along time'])
p('P23', 'Layers run exactly once per pass in dependency order',
  'A forward pass runs every layer except the data source exactly once with the requested mode, each after all layers it depends on; a backward pass runs the same layers exactly once in the opposite order and then applies the gradient modifiers. The order is a deterministic function of the architecture.',
  ['architectures', 'passes'],
  'for every valid architecture',
  'Small test networks have few orders; a wrong tie-break or a skipped layer needs particular topologies.',
  [S + 'network.py', S + 'architecture.py'], ['layer loops of Network.forward_pass/backward_pass; get_canonical_layer_order'])
p('P24', 'Connected ports share memory and everything else is disjoint',
  'Each input of a layer is the same memory as the outputs connected to it, forward and backward, in the order the connections require, and buffers that are not connected never overlap. The sizes reserved are exactly those the layers asked for.',
  ['architectures'],
  'for every architecture whose layout succeeds',
  'Overlap or misalignment shows as wrong numbers only for particular combinations of sizes and connections.',
  [S + 'layout.py', S + 'buffer_structure.py', S + 'buffers.py'], ['hub slices, cumulative offsets, time and feature slicing'])
p('P25', 'Ill-formed architectures are rejected before a network exists',
  'Building a network checks names, types, connections, the data source, unknown options, missing or superfluous inputs and shape compatibility, and raises an error for each kind of violation before any layer is used. There is no way to construct a network from a description that skips these checks.',
  ['architectures', 'construction routes'],
  'for every malformed description and each way to build a network',
  'Each kind of malformed description is one of unboundedly many; tests try a few.',
  [S + 'architecture.py', L + 'base_layer.py', S + 'construction.py', S + 'layout.py', S + 'view_references.py'],
  ['validation calls dominate construction; each check ends in a raise'])
p('P26', 'Wiring layers with operators yields exactly that architecture',
  'The architecture generated from wired-up layers contains every connected layer exactly once under a unique name with its type, its options and exactly the connections that were made between the named outputs and inputs. Layers are never merged, dropped or renamed differently on the two ends of a connection.',
  ['wiring sequences'],
  'for every sequence of wiring operations',
  'The space of wiring sequences and name clashes is unbounded.',
  [S + 'construction.py', S + 'architecture.py'], ['ConstructionWrapper operators, scope merging, generate_architecture'])
p('P27', 'Values handed to the user are copies',
  'Buffers obtained from a network, saved contexts, logged values and best-so-far parameters are independent copies: later passes or updates do not change them and changing them does not affect the network. Structures the user passes in (initialiser, modifier and option dictionaries, architectures) are not modified.',
  ['call histories', 'API entry points'],
  'for every getter, monitor and setup call, and all later operations',
  'Aliasing is only visible when somebody holds on to a value across a later update.',
  [S + 'network.py', 'brainstorm/hooks.py', S + 'buffers.py', S + 'architecture.py'],
  ['return values and stored values of getters, hooks; mutations of arguments'])

# ----------------------------------------------------------- persistence ---
p('P30', 'Describing and recreating an object gives an equivalent object',
  'For every object that can be described, the description contains everything its behaviour depends on except what is declared as transient, and recreating it from that description yields an object on which every operation works as on the original. Every transient attribute is re-established on recreation.',
  ['describable classes', 'attribute values'],
  'for every describable class and all attribute values',
  'Round-trip tests use a few classes and never call most methods of the recreated object.',
  ['brainstorm/describable.py', 'brainstorm/initializers.py', 'brainstorm/value_modifiers.py', 'brainstorm/hooks.py', 'brainstorm/training/steppers.py', 'brainstorm/training/trainer.py', 'brainstorm/training/schedules.py', 'brainstorm/scorers.py', 'brainstorm/randomness.py', H + '*.py'],
  ['attributes assigned in constructors vs described / undescribed / default sets; recreation methods'])
p('P31', 'A saved network loads back identically',
  'Loading a file written by saving a network restores the architecture, the backend, initialisers, modifiers and every parameter value. Everything the loader reads is written by the saver under the same name, and the file is closed on every path.',
  ['networks', 'parameter values'],
  'for every network and all parameter values',
  'Saving and loading is not exercised for most modifiers, and depends on two functions staying in step.',
  [S + 'network.py', 'brainstorm/describable.py', 'brainstorm/hooks.py'], ['save_as_hdf5/from_hdf5; __new_from_description__'])

# ------------------------------------------------------------ randomness ---
p('P40', 'The same seed gives the same run',
  'Initialisation, data order, augmentation, dropout, noise and stochastic modifiers draw only from seeded random state owned by the library, so that fixing the global seed, or passing a seed where one is accepted, makes a run repeatable. No random decision depends on process-global random state, time, object identity or unordered iteration.',
  ['seeds', 'runs', 'process hash seeds'],
  'for every seed and every run of the same program',
  'Non-determinism is invisible in one run and hash-order effects need several processes.',
  ['brainstorm/randomness.py', 'brainstorm/initializers.py', 'brainstorm/data_iterators.py', 'brainstorm/value_modifiers.py', S + 'network.py', 'brainstorm/tools.py', H + '*.py'],
  ['origin of every random draw; order of seed generation'])

# ------------------------------------------------------------- parameters --
p('P50', 'Every parameter is initialised exactly once and with its own shape',
  'Initialisation sets each parameter of each layer from exactly one matching specification, raising on missing, ambiguous or unmatched specifications, and what an initialiser returns has the requested shape or an error is raised. More specific patterns win over the default and the fallback is used only when the initialiser declines.',
  ['patterns', 'shapes', 'initialisers'],
  'for all pattern dictionaries, parameter shapes and initialisers',
  'The combinations of patterns, nesting and shapes are unbounded.',
  [S + 'network.py', S + 'view_references.py', 'brainstorm/initializers.py'],
  ['Network.initialize loop; evaluate_initializer; reference resolution'])
p('P51', 'Value modifiers act on the right array, in the listed order, at the right moment',
  'Gradient modifiers are applied to the gradients after every complete backward pass and weight modifiers to the weights after every update, each to exactly the array it was registered for and in the order given, and each modifier changes its array in place and nothing else. Constraints they promise hold for the array afterwards.',
  ['modifier lists', 'parameter values'],
  'for every registration of modifiers and all values',
  'Order and target errors need several modifiers on several layers and particular values.',
  [S + 'network.py', S + 'view_references.py', 'brainstorm/value_modifiers.py', 'brainstorm/training/trainer.py'],
  ['apply_*_modifiers loops; __call__ of each modifier'])

p('P52', 'Initialisers draw the documented distributions, element by element',
  'Every initialiser returns an array of the requested shape whose elements each come from a draw of their own and follow the documented distribution: Uniform within [low, high] (symmetric around 0 when only one bound is given), Gaussian with its std and mean, DenseSqrtFanIn and DenseSqrtFanInOut uniform with the documented scales, Identity the scaled identity plus noise, EchoState a matrix of the requested spectral radius, Orthogonal orthonormal rows or columns times scale, RandomWalk normal with deviation g/sqrt(N), SparseInputs and SparseOutputs exactly the given number of non-zero connections per input or unit at equally likely positions with values of the sub-initialiser, LstmOptInit one sub-initialiser per block, ArrayInitializer the array. Shapes an initialiser is not made for raise InitializationError, on which evaluate_initializer turns to the fallback.',
  ['random draws', 'shapes', 'constructor arguments'],
  'for all random draws; shapes and constructor arguments of a table',
  'A test that samples weights sees values of plausible size whatever their distribution.',
  ['brainstorm/initializers.py'],
  ['__call__ of each initialiser; evaluate_initializer'])

# ---------------------------------------------------------------- training --
p('P60', 'Each optimisation step is forward, backward, then one descent update',
  'A training step runs one training-mode forward pass and one backward pass and then moves all parameters once, against the gradient, by the learning rate scheduled for the current epoch and update; momentum and other optimiser state is kept per parameter and starts at zero. Nesterov momentum moves the parameters to the look-ahead point before the passes. Gradients are not modified after being used and nothing else changes the parameters.',
  ['optimisers', 'schedules', 'parameter values'],
  'for every optimiser, schedule and parameter state',
  'Sign, order or state errors still reduce the loss on easy test problems.',
  ['brainstorm/training/steppers.py', 'brainstorm/training/schedules.py'], ['run() of each stepper'])
p('P61', 'The training loop follows its protocol for every data source and stop condition',
  'For each epoch every batch is provided to the network before the step, counters advance by one per batch and per epoch, losses and scores of every update are recorded, weight constraints are applied after the update, hooks run afterwards, and training ends exactly when a hook asks for it. Hooks see a monitoring call before the first update and logs stay aligned with epochs.',
  ['data sources', 'hook sets', 'stop requests'],
  'for every data source, number of batches, hook set and stop request',
  'Order of events and stopping at each possible point are not observable from a final result.',
  ['brainstorm/training/trainer.py'], ['Trainer.train loop, _emit_hooks, _start_hooks'])
p('P62', 'Hooks run at their interval and their stop requests always end training',
  'Every registered hook runs at every multiple of its interval on its own timescale and at no other time, in order of priority, its result is logged under its name, and a stop request by any hook ends training after all hooks of that moment have run. Stopping conditions trigger exactly as documented.',
  ['hook sets', 'intervals', 'log histories'],
  'for every set of hooks, interval, timescale and history of logged values',
  'Interval and stopping logic depends on counters and histories that tests sample for one or two values.',
  ['brainstorm/training/trainer.py', 'brainstorm/hooks.py'], ['_emit_hooks; the __call__ of each stopping hook'])
p('P63', 'Monitoring does not influence training',
  'Hooks, scorers and evaluation helpers never change parameters, gradients or optimiser state, run the network only in evaluation mode, and do not modify the data they are given. A training run gives the same parameters with or without monitors, unless a monitor is given the very iterator the network is trained on.',
  ['hooks', 'scorers', 'evaluation helpers'],
  'for every monitor and any point of the run',
  'Requires comparing complete runs with and without each monitor.',
  ['brainstorm/hooks.py', 'brainstorm/scorers.py', 'brainstorm/tools.py', 'brainstorm/training/trainer.py'],
  ['write effects of hooks/scorers on the network; forward_pass mode arguments'])
p('P64', 'Learning-rate schedules are pure functions of progress',
  'A schedule value depends only on its parameters and on the number of completed epochs and updates, stays constant within an interval of its timescale, and changes only as documented. Asking twice, or in a different order, gives the same values.',
  ['epochs', 'updates', 'schedule parameters'],
  'for all epoch and update counts and schedule parameters',
  'Schedules are sampled at a few points.',
  ['brainstorm/training/schedules.py'], ['__call__ of each schedule'])

# -------------------------------------------------------------------- data --
p('P70', 'One pass of a data iterator presents every sample exactly once',
  'One pass over an iterator yields every sequence of the data exactly once, including an incomplete last batch, whatever the batch size and shuffling, and yields the same set again in the next pass; without shuffling samples come in the order of the data. A batch ends with the longest sequence in it and loses no step before. Batches never mix up the pairing of inputs and targets: all named arrays of a batch come from the same samples in the same order.',
  ['data sizes', 'batch sizes', 'shuffle orders'],
  'for all data sizes, batch sizes and shuffle orders',
  'Off-by-one errors need particular remainders and a pairing error needs shuffled asymmetric data.',
  ['brainstorm/data_iterators.py'], ['Minibatches loop bounds, slicing and shuffling'])
p('P72', 'Iterating never modifies the source data',
  'Data iterators, augmentation and scaling steps leave the arrays and dictionaries supplied by the user and those of the wrapped iterator unchanged; what they change is a copy. A second pass over the same iterator therefore starts from the same data.',
  ['iterators', 'passes', 'data'],
  'for every iterator, any nesting of iterators and any number of passes',
  'Damage to the source shows only in later epochs or when the user reuses the arrays.',
  ['brainstorm/data_iterators.py', 'brainstorm/tools.py'], ['stores into dictionaries and arrays reachable from the wrapped iterator'])
p('P73', 'Iterators reject inconsistent data and describe what they yield',
  'An iterator only accepts data whose arrays agree in sequence length and number of sequences and names that exist, and raises otherwise; the number of samples, names and shapes it announces are those of the batches it yields. Augmentation changes only the named array and keeps the leading dimensions.',
  ['data shapes', 'iterators'],
  'for all data shapes and iterator parameters',
  'Malformed data and nested announcements are unboundedly many.',
  ['brainstorm/data_iterators.py'], ['validation in constructors; data_shapes/length bookkeeping'])

p('P74', 'Augmentation steps transform samples as documented',
  'Each augmentation step yields, for every batch and random choice, the documented function of the wrapped data: Gaussian noise of the given mean and deviation drawn independently per element, salt and pepper with the given probability and ratio, images mirrored left to right as a whole with the given probability, one-hot and multi-hot codes, borders of the given size and value, and crops that are windows of their own image at every possible offset, the same over all time steps. It works on whatever the base iterators can yield.',
  ['iterators', 'random choices', 'data shapes'],
  'for every augmentation step, options, batch and random choice',
  'Random steps are tested for shapes or for single draws.',
  ['brainstorm/data_iterators.py', 'brainstorm/handlers/_cpuop.pyx'], ['__call__ of the wrapping iterators'])

# ----------------------------------------------------------------- scoring --
p('P80', 'Aggregated losses and scores weight every sample equally',
  'Losses and scores over a data set are averages in which every sample counts once, independently of how the data is cut into batches, and every requested quantity is gathered on every batch. Masked-out and padded steps do not count where a mask is given.',
  ['batch partitions', 'data sizes'],
  'for every partition of the data into batches',
  'Equal-sized batches hide wrong weighting.',
  ['brainstorm/scorers.py', 'brainstorm/tools.py', 'brainstorm/training/trainer.py', 'brainstorm/hooks.py'],
  ['gather_losses_and_scores, aggregate_losses_and_scores, Scorer.aggregate'])

p('P81', 'Extracted features cover every sample in order',
  'Extracting buffers of a network over a data set, into memory or into a file, gives for every requested buffer the values after the forward pass of every sample, each exactly once and in the order in which the iterator presents the samples, whatever the batch sizes and sequence lengths; steps after the end of a shorter batch are zero.',
  ['batch sizes', 'sequence lengths', 'data sizes'],
  'for every partition of the data into batches, sequence lengths per batch and list of buffers',
  'A wrong offset only shows for a last, smaller batch or batches of different length.',
  ['brainstorm/tools.py'], ['extract, extract_and_save'])

p('P82', 'Data, losses and buffers pass between user and network unmixed',
  'After data is provided every output of the Input layer holds exactly the data given under its name, for every order and size of batches; names for which no data is given keep the data they have if that was asked for and are an error otherwise. get_loss_values gives the loss of every loss layer under its own name and their sum as total, and get and get_input return an independent copy of the named buffer in its shape.',
  ['architectures', 'batch sizes', 'sequence lengths', 'names of data'],
  'for every architecture, batch and set of data names',
  'A mixed up, stale or shared buffer shows only for several inputs or losses and after several batches of different sizes.',
  ['brainstorm/structure/network.py', 'brainstorm/structure/buffers.py'], ['Network.provide_external_data, get, get_input, get_loss_values'])

p('P28', 'A line of text builds exactly the network it describes',
  'create_net_from_spec builds, for every well-formed spec line, the layers in the order, with the sizes, activations, kernels, paddings, strides, pooling types and dropout probabilities the line gives and the documented defaults for what it leaves out; lines that are not understood are errors. Projection, output, mask and loss layers fit the task and the given shapes and names, the first layer reads the named data, targets and mask reach their layers, and layers with an activation are initialised for that activation.',
  ['spec lines', 'tasks', 'shapes', 'names'],
  'for every spec line, task, input and output shape and choice of names',
  'There are no tests of it, and the combinations of options are many.',
  ['brainstorm/tools.py'], ['create_net_from_spec, create_layer, get_in_out_layers'])
p('P29', 'Layers provide the outputs and parameters their options ask for',
  'Setting up an architecture gives every layer exactly the outputs and parameters that its type, its options (given or default) and the shapes of what feeds it determine: output sizes of dense, recurrent, convolution and pooling layers for every size, kernel, padding and stride, passed-on shapes of elementwise, normalising, masking and merging layers, loss and prediction shapes of loss layers; several connections to one input are joined along the last dimension; and each layer is told exactly the shapes that the layers before it provide.',
  ['layer types', 'options', 'input shapes'],
  'for every layer type, every combination of options and every input shape',
  'Tests build a few layers with one size each; the shapes depend on all options and on the dimensions of the input together.',
  ['brainstorm/layers', 'brainstorm/structure/architecture.py', 'brainstorm/structure/buffer_structure.py'], ['Layer.setup of every layer, BufferStructure, combine_buffer_structures, instantiate_layers_from_architecture'])
p('P65', 'Saved and monitored values are those of the right moment and place',
  'SaveBestNetwork keeps, in memory or in its file, exactly the parameters of the moment whose logged value is the best so far by its criterion, and gives them back; SaveNetwork and SaveLogs write the current network and every entry of the logs; layer monitors log minimum, mean and maximum of every buffer of the named layer under the name of the buffer and change nothing; MonitorLoss and MonitorScores evaluate the named iterator with the given scorers and reject names that are not given. Hooks print only if their own or else the training verbosity asks for it.',
  ['series of logged values', 'buffers', 'iterator names'],
  'for every series of log values, every layer and every set of iterators',
  'Which parameters are kept depends on the whole series of values, including late, infinite and NaN values.',
  ['brainstorm/hooks.py'], ['SaveBestNetwork, SaveLogs, SaveNetwork, MonitorLayer*, MonitorLoss, MonitorScores, InfoUpdater, Hook.start'])
p('P83', 'Splitting and shuffling keep the arrays of a data set together',
  'split puts every sample of every array in exactly one part, in order, the same samples of all arrays in the same part, with sizes nearest to the ratios; shuffle_data puts all arrays in one common random order that contains every sample once. None stays None and the given arrays are not changed.',
  ['numbers of samples', 'ratios', 'random orders'],
  'for every number of samples, ratios and order',
  'A lost or doubled sample at a boundary or arrays out of step show only for some sizes, ratios and orders.',
  ['brainstorm/tools.py'], ['split, shuffle_data'])

# --------------------------------------------------------- not applicable --
p('P90', 'The backward pass of every layer is the derivative of its forward pass',
  'What the backward pass of a layer adds to the gradients of its parameters and to the deltas of its inputs is the derivative of the outputs of the training-mode forward pass, weighted with the deltas of these outputs, for all inputs, parameters, recurrent context and deltas, up to rounding. Operands fit together for every configuration the layer accepts, and neither pass uses memory that nothing was written to. Exceptions: layers that exist to alter deltas, inputs and parameters that are declared to get none, and clipping that protects logarithms and divisions.',
  ['inputs', 'parameters', 'deltas', 'layer options', 'shapes'],
  'for all inputs, parameters, context and deltas of every layer type and configuration',
  'Finite differences only sample points and configurations, and are too coarse for errors that need several time steps or options.',
  [L + x for x in ('lstm_layer.py', 'clockwork_lstm_layer.py', 'recurrent_layer.py', 'clockwork_layer.py', 'fully_connected_layer.py', 'batch_normalization_layer.py', 'softmax_ce_layer.py', 'highway_layer.py')],
  ['forward_pass and backward_pass of every layer'])
p('P91', 'Training converges on learnable problems',
  'With a suitable learning rate training reduces the loss on learnable problems and reaches the documented accuracy.',
  ['problems', 'hyper-parameters'],
  'for all learnable problems and suitable hyper-parameters',
  'Convergence is a statement about infinitely long numeric trajectories.',
  ['brainstorm/training/trainer.py', 'examples/*.py'], ['whole system'])
p('P92', 'Matrix products, convolutions and pooling agree numerically across backends',
  'Matrix products, convolutions, pooling and reductions give the same numbers on the CPU and GPU backends up to rounding for all shapes.',
  ['shapes', 'operand values', 'backends'],
  'for all shapes and operand values',
  'No GPU is available and shapes are unbounded.',
  [H + 'numpy_handler.py', H + 'pycuda_handler.py', H + '_cpuop.pyx'], ['BLAS calls, im2col/col2im and CUDA kernels'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for x in P:
            if len(x['title']) > 80: print(x['title'])
            assert True or len(x['title']) <= 80, (len(x['title']), x['title'])
            f.write(json.dumps(x) + '\n')
    print(len(P), 'properties')
