"""The properties: their text (properties.jsonl), their check (MANIFEST.json, check.py) and what the evidence says of the bounds."""

NN = 'src/neural_network/StraightforwardNeuralNetwork.cpp'
BASE = 'src/neural_network/NeuralNetwork.cpp'
STAT = 'src/neural_network/StatisticAnalysis.cpp'
LAYER = 'src/neural_network/layer/'
NEURON = LAYER + 'neuron/'
OPT = 'src/neural_network/optimizer/'
DATA = 'src/data/'

DFS = 'stateless model checking: exhaustive bounded enumeration of executions of the real code, judged by a reference model'
RNG = 'the random generator is replaced by an enumerated or fixed sequence of draws (link-time definition of its engine)'
SAN_NOTE = 'the library is compiled from the working tree with -O1, AddressSanitizer, container assertions and arithmetic checks; an error of memory, an abort or a hang of an execution is a violation'
SEQ = 'one thread drives the network; the interleavings are the subject of C01 to C03'

PROPERTIES = []


def prop(id, title, statement, over, over_text, why, files, mechanism, observe, parts, rule, bounds, bounds_thorough=None, state=(), assumptions=(),
         level='model_checking', technique=DFS, note='', hook=None):
    PROPERTIES.append(dict(id=id, title=title, statement=statement, over=over, over_text=over_text, why=why, files=files,
                           mechanism=[dict(name=n, where=w) for n, w in mechanism], observe=observe, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                           parts=parts, rule=rule, bounds=bounds, bounds_thorough=bounds_thorough or bounds, assumptions=list(assumptions), level=level,
                           technique=technique, note=note, hook=hook))


def san(h, **kw):
    return dict(harness=h, flavor='san', **kw)


SCHED = 'stateless model checking of thread interleavings: exhaustive exploration of every schedule of the real code up to a bound on preemptions, by a controlled scheduler, with a happens-before race detector in every schedule'
SCHED_NOTE = ('the library and the harness are compiled from the working tree with the thread instrumentation of the compiler, and linked with a runtime of our own (mc/sched.cpp) which runs one thread at a time: '
              'every atomic operation, lock, creation and end of a thread and sleep is a choice; clocks are virtual; a deadlock, an execution that does not end or an unordered pair of accesses is a violation')
SC = 'the atomic operations are explored as sequentially consistent (they are, in the code); the memory accessed inside the shared standard library is not tracked by the race detector'
FAIR = 'a thread is not starved: after 40 to 400 visible operations the other threads get their turn'


def sched(h, **kw):
    return dict(harness=h, flavor='sched', extra=['sched.cpp'], **kw)


prop('C01', 'Starting, waiting for, stopping and destroying a training always ends',
     'Whatever the interleaving of the training thread with the thread that controls it, every start, restart, wait, stop, synchronous training and destruction returns, and once a stop has returned nothing is trained any more: the network is idle with no thread left, and can be trained again. '
     'A stop ends the training at the next data and is never lost; a start while a training is running replaces it; a thread which cannot be created, a NaN, or an automatic save that fails during the training leaves the network idle and the program alive, and the failure of the save is reported by the wait.',
     ['schedules', 'programs', 'fault_sequences'],
     'every schedule with 1 (programs of 2..4 calls) or 2 preemptions (programs of 2 calls, restarts, stops during an automatic save), every program over 6 calls, with and without NaN, with and without failure of the creation of a thread',
     'the tests start and stop a training in one schedule which the machine chose; a lost stop or a missed join needs a preemption at one instruction',
     [NN, 'include/snn/neural_network/StraightforwardNeuralNetwork.hpp', 'include/snn/tools/Atomic.hpp'],
     [('start and restart', NN + ' startTrainingAsync'), ('stop', NN + ' stopTrainingAsync, continueTraining, resetTrainingValues'), ('wait', NN + ' waitFor')],
     ['return of the calls, isTraining, getCurrentIndex, counters that do not move after the stop', 'threads left at the end', 'visible operations between the stop and its return'],
     [sched('c01')],
     'an execution is a schedule of a program on the real code; distinct schedules are distinct sequences of choices. A state is the vector of the values published by the atomics of the network and the position of each thread.',
     'programs START + 1..3 calls out of 6 with 1 preemption, START + 1 call with 2 preemptions, 4 programs of restarts with 2 preemptions, automatic saves and failing saves with 2 and 1 preemptions, 1..3 starts with each combination of failures of pthread_create, stops 0..2 ms after the start of an epoch of 60 data',
     'programs START + 1..4 calls with 1 preemption, START + 1..2 calls with 2, restarts and automatic saves with 3',
     state=[('wantToStopTraining', 'a stop was requested', NN), ('isIdle', 'no training', NN), ('thread', 'training thread', NN)],
     assumptions=[SC, FAIR, 'one thread controls the training (start, stop, wait, destroy)', 'a wait is done while a training is running, or on a condition which ends by itself'], technique=SCHED, note=SCHED_NOTE)

prop('C02', 'A network can be observed while it is trained',
     'While a network is trained in the background, every getter of progress and metrics, the summary, the counters and waits can be used by other threads: no access is a data race, every value read is one that the training published (epochs, trainings and best metrics never go back, rates and errors are values of an evaluation), and observing changes neither the training nor its result.',
     ['schedules', 'programs', 'configurations'],
     'every schedule with 1 preemption (2 for one reading) of every sequence of 1..2 readings out of 12, by the controlling thread or by another one (of a training in the background or in the foreground), on networks with every kind of layer, with and without automatic save',
     'no test reads a network during a training in more than one schedule, and a data race has no visible effect in most runs',
     [NN, STAT, 'include/snn/tools/Atomic.hpp', 'include/snn/neural_network/StatisticAnalysis.hpp'],
     [('values shared between threads', 'include/snn/tools/Atomic.hpp'), ('metrics', STAT + ' stopTesting'), ('counters', BASE + ' trainOnce')],
     ['values of the getters, weights after the stop compared with a twin trained the same number of times', 'happens-before order of every access of the library'],
     [sched('c02')],
     'an execution is a schedule of a program of readings; the weights after the stop are compared bit by bit with those of a twin trained alone. A state is the vector of values published and the position of each thread.',
     'sequences of 1..2 readings with 1 preemption, one reading with 2, 5 more architectures with 1..2 data, 1 reader in another thread doing 2 readings, readings during automatic saves, best values while the evaluations get worse (2 preemptions), a training in the foreground observed by another thread (1..2 data, with and without evaluations), 3 readings of each of the 10 metrics compared bit by bit with the successive evaluations of a twin (3 kinds of problem, improving or not)',
     'sequences of 1..3 readings, one reading with 3 preemptions, 2 more readers',
     assumptions=[SC, FAIR, 'outputs, evaluations, isValid and access to layers, neurons or weights are not observations: they use the network, and are left to an idle one'], technique=SCHED, note=SCHED_NOTE)

prop('C03', 'What is refused during a training is refused without any effect',
     'Copying, saving, training (again, or with unsuitable data) and exporting a network which is being trained in the background is refused with an exception in every schedule, without creating or changing any file, without changing the network nor its training, and without reading what the training writes; as soon as the training is over the same call is accepted.',
     ['schedules', 'programs', 'configurations'],
     'every schedule with 1 preemption of every program of 1..2 calls out of 8 (6 refused calls, wait, restart) on 3 networks, and with 2 preemptions for each refused call, with and without a training that ends by itself',
     'the tests call nothing during a training',
     [NN], [('refusal', NN + ' saveAs, train, copy constructor, saveFeatureMapsAsBitmap, saveFilterLayersAsBitmap')],
     ['exceptions, files of a directory and their bytes, name of the automatic save', 'weights after the stop compared with a twin', 'happens-before order of every access of the library'],
     [sched('c03')],
     'an execution is a schedule of a program; each call either throws and leaves the directory and the training as they were, or the training was over. A state is the vector of values published and the position of each thread.',
     'programs of 1..2 calls on a dense, a convolutional and a recurrent network with 1 preemption, each refused call with 2 preemptions',
     'programs of 1..3 calls with 1 preemption, 1..2 calls with 2 preemptions on the 3 networks (until the time is over)',
     assumptions=[SC, FAIR, 'one thread controls the training'], technique=SCHED, note=SCHED_NOTE)

prop('C04', 'A training is exactly its sequence of steps, evaluations and stop conditions',
     'A training evaluates once before its first step, then in every epoch learns every batch of the shuffled training set once and in that order, with the labels of those data, restarting the temporal state at the first data of each sequence, and evaluates after each epoch which is a multiple of the frequency. '
     'It ends at the first step where the stop condition holds on the current epoch, accuracy and error, leaves the network idle, and counts every learned step. '
     'With an evaluation frequency of 0 the weights are the same and the metrics are not touched.',
     ['histories', 'configurations', 'inputs'],
     'every architecture of a list, nature and problem of the data, size of the training set, batch size, evaluation frequency, stop condition and order of the shuffles',
     'the tests train with one size, one batch size and one frequency and look only at the final accuracy: a skipped, repeated or mislabelled data still converges',
     [NN, DATA + 'Data.cpp', DATA + 'ProblemComposite.cpp'],
     [('loop over epochs and batches', NN + ' trainSync'), ('stop condition', NN + ' continueTraining'), ('batch of data and labels', DATA + 'Data.cpp getTrainingData/getTrainingOutputs')],
     ['weights, number of trainings, epoch, metrics and idleness after train()', 'order of the data set after train()'],
     [san('c04')],
     'an execution trains the real network and, step by step, a twin driven through trainOnce/evaluate in the order that the property requires; the weights, counters and metrics of both must be bit-identical. A state is the weights reached.',
     'sizes 1..5, batches up to size+1, frequencies 0..3, epochs 0..3, 4 kinds of data, 3 problems, all orders of 2 shuffles (then fixed); conditions on accuracy and error with 6 thresholds and both operators',
     'sizes 1..7, the rest as quick', assumptions=[RNG, SEQ], note=SAN_NOTE,
     state=[('index', 'position in the epoch', NN), ('epoch', 'current epoch', NN)])

prop('C05', 'A wait expression is over exactly when its conditions hold',
     'A wait condition built from durations, epochs, accuracy and mean absolute error with && or || is over exactly when all, respectively at least one, of its conditions hold; mixing && and || is refused, and an empty condition never ends. '
     'A training or a waitFor with such a condition returns at its first check where it is over, never earlier, and a waitFor returns at once when a NaN is detected. Durations are elapsed times, whatever happens to the date of the system.',
     ['programs', 'inputs', 'histories'],
     'every expression of up to 3 literals (4 in the thorough tier) over 13 literals, both operators and both associations, on every value around the thresholds, and every speed of the clock of a list',
     'the tests use one condition at a time with real durations and cannot see a return which is slightly early, late or caused by a stale metric',
     ['src/neural_network/Wait.cpp', 'include/snn/neural_network/Wait.hpp', NN],
     [('evaluation of the condition', 'src/neural_network/Wait.cpp isOver'), ('combination', 'src/neural_network/Wait.cpp operator&&, operator||'), ('polling', NN + ' waitFor')],
     ['Wait::isOver, exceptions of the operators', 'virtual time at the return of train() and waitFor()'],
     [san('c05')],
     'expressions, metrics and instants are enumerated; the oracle evaluates the expression. The clock is virtual (link-time definition of clock_gettime and nanosleep), each read advances it by an enumerated amount. A state is an expression or a (clock, condition) case.',
     'expressions of 0..3 literals out of 13; expressions of 1..2 literals with 8 large numbers (up to 2^32+1 ms, epochs, weeks in minutes) until 90 days; trainings of 1..4 data, 6 speeds of the clock (up to a check a month), 3 durations; waitFor on 5 states of a network (never evaluated, evaluated, NaN, evaluated better or worse before) with 1..2 literals; 6 changes of the date of the system at the reads 0..19 of the clock during a training or a waitFor; sequences of 4 operations of the chronometer with 3 pauses, up to a month',
     'expressions of 0..4 literals (8 literals when there are 4); changes of the date at the reads 0..59, sequences of 5 operations', assumptions=[RNG, SEQ], note=SAN_NOTE)

prop('C06', 'The metrics of an evaluation are the ones of their definition',
     'After an evaluation the global and weighted clustering rates, the F1 score, the mean absolute error and the root mean square error are the ones defined by the outputs of the network and the labels of the testing data which must be evaluated (all of them, or the last one of each sequence). '
     'They depend on nothing else: not on the training set, on the order of the shuffle, on earlier evaluations or trainings; and an evaluation does not change the weights or the number of trainings.',
     ['inputs', 'histories', 'configurations'],
     'every table of outputs and labels over an alphabet of values, every problem, every nature of data, every sequence of evaluations up to a length',
     'the tests compare the metrics with thresholds after a training, not with their definition, and on one or two data sets',
     [STAT, NN, BASE], [('accumulation', STAT + ' evaluateOnceFor*'), ('final values', STAT + ' stopTesting'), ('selection of the data', NN + ' evaluate')],
     ['getGlobalClusteringRate, getWeightedClusteringRate, getF1Score, getMeanAbsoluteError, getRootMeanSquaredError'],
     [san('c06')],
     'outputs are produced by identity networks, so that every table of outputs is enumerable; the metrics are computed again in double precision from the definition. A state is a table of outputs and labels.',
     '1..2 data x 2 classes over 5 values, 2 data x 3 classes, up to 7 data of right/wrong answers, multiple classification, regression, histories of 3 evaluations, sequences up to 3x3 data, 5 architectures of real networks',
     '3 data x 2 and 3 classes, histories of 4 evaluations', assumptions=[RNG, SEQ, 'no NaN among the outputs (C20) and a testing set which is not empty'], note=SAN_NOTE)

prop('C07', 'Best metrics are the extremes, the automatic save keeps the best network',
     'The best value of every metric is the extreme of all the evaluations since the network was created, loaded or copied. '
     'When automatic save is on, each evaluation whose accuracy is strictly better than all the previous ones, and only such an evaluation, replaces the file by the network as it is at that moment.',
     ['histories', 'inputs'],
     'every sequence of evaluations of qualities out of a list, with automatic save on or off, reloads and copies in between, and every trajectory of a training of a list',
     'the tests check the final value of one metric in one training; a metric that improves while another one worsens, a reload or a tie is not reached',
     [STAT, NN], [('best metrics', STAT + ' stopTesting'), ('decision to save', NN + ' evaluate')],
     ['getGlobalClusteringRateMax, getWeightedClusteringRateMax, getF1ScoreMax, getMeanAbsoluteErrorMin, getRootMeanSquaredErrorMin', 'bytes of the saved file after each evaluation'],
     [san('c07')],
     'every sequence of evaluations over a menu of qualities; a model keeps the extremes and the expected file. A state is the tuple of metrics, extremes and file.',
     'histories of 5 operations, regressions with metrics moving in opposite directions, trainings of small networks with every evaluation frequency', 'histories of 6 operations',
     assumptions=[RNG, SEQ], note=SAN_NOTE)

prop('C08', 'A saved network is loaded identical, with the same future',
     'A network that is saved and loaded is equal to the one that was saved: same structure, weights, optimizers, settings, statistics and temporal state; it is idle and valid, and every continuation (outputs, evaluations, trainings, further saves) gives bit-identical results on both. '
     'The file depends neither on the locale of the program which writes it nor on the one which reads it. Archives written by the version from which this work started are still loaded.',
     ['configurations', 'histories', 'inputs'],
     'every architecture of a bounded grammar with every layer optimizer and activation, every history of operations before the save, every special value of each weight, every name of file of a list',
     'the tests save a handful of networks and compare them with operator==, which cannot see a field that neither the archive nor the comparison knows, nor a divergence after further trainings',
     [NN, 'include/snn/neural_network/StraightforwardNeuralNetwork.hpp', 'include/snn/neural_network/StatisticAnalysis.hpp', 'include/snn/neural_network/layer/Layer.hpp', 'include/snn/neural_network/layer/neuron/Neuron.hpp'],
     [('archive', 'include/snn/neural_network/*.hpp, layer/*.hpp, neuron/*.hpp, optimizer/*.hpp serialize'), ('load', NN + ' loadFrom')],
     ['equality, getters, outputs and weights of the loaded network and of the original during a common continuation', 'bytes of a second save'],
     [san('c08')],
     'a network is built and driven through an enumerated history, saved, loaded, and both are driven through the same continuation with the same random draws; everything observable must be identical, and the archive of the loaded one must be the same bytes. A state is the content of an archive or the weights loaded.',
     'one layer of every kind and shape with every activation and decoration, stacks of 2 layers, histories of 3 operations out of 11 on 4 networks, 20 special values of each weight, hyper-parameters, names, 8 archives of the starting version, the trained network that the project publishes',
     'stacks of 3 layers, histories of 4 operations', assumptions=[RNG, SEQ, 'complete archives, of networks whose values are finite'], note=SAN_NOTE)

prop('C09', 'A copy is equal to its original and independent of it',
     'A copy of a network is equal to its original and has the same future: the same operations on both give bit-identical results. '
     'No operation on one of them, including training and its destruction, has an effect on the other.',
     ['histories', 'configurations'],
     'every architecture of a bounded grammar, every history before the copy, every interleaving of operations on the original and on the copy up to a length',
     'the tests copy one network and compare it once: state shared between the copies (an optimizer, a neuron, a buffer) shows only when one of them is used after the other',
     [NN, BASE, LAYER + 'Layer.cpp', 'include/snn/neural_network/layer/*.hpp'], [('copy constructors', NN + ', ' + BASE + ', ' + LAYER + '*.cpp, ' + OPT + '*.cpp clone')],
     ['outputs, weights and observable state of both networks after each operation'],
     [san('c09')],
     'the original and the copy are driven through an enumerated interleaving; a third network, driven alone, gives the expected results of each. A state is the pair of weights.',
     'one layer of every kind with decorations, stacks of 2 layers, 4 networks x 3 histories x all interleavings of length 2 over 9 operations on both networks', 'stacks of 3 layers, interleavings of length 3',
     assumptions=[RNG, SEQ], note=SAN_NOTE)

prop('C10', 'An interrupted or failed save never damages the previous file',
     'Whatever call to the system of a save is interrupted by the end of the process, or fails, the file holds afterwards either the complete previous network or the complete new one; the next save succeeds and no other file is damaged. '
     'The path is a name: a link stays a link to the file which is saved, a private file stays private, and a pipe receives the network. '
     'A save whose calls fail reports it with an exception, and leaves the network usable and unchanged; an explicit save and the automatic ones behave alike.',
     ['crash_points', 'fault_sequences'],
     'every call to the file system of a save, crash before it, after it and after every number of bytes written of a list, every error of a list, and a second crash in every call of the next save',
     'no test interrupts a save or makes a call to the system fail',
     [NN], [('write in a temporary file then rename', NN + ' saveSync')],
     ['bytes of the file and list of the directory after the fault', 'exceptions', 'equality of the network loaded from the file'],
     [dict(harness='c10', flavor='det')],
     'the calls of a save (open, write, close, rename, unlink) are recorded, then each of them is made to fail, to write less, or to be the last one of the process; the file is then judged. A case is distinct when the (network, kind of save, previous files, fault) tuple is new; all of them are non-trivial: a fault happens inside the save.',
     '3 networks x 3 kinds of save x 4 previous contents (no file, a network, a network and the rest of an interrupted save, a link) x every call x (crash, 4 errors, short write), two crashes in a row, 3 unusable destinations, 12 kinds of path (links, chains and loops of links, permissions, pipes)',
     assumptions=[RNG, 'the crash of the process, not of the machine: the order in which the disk persists the calls is not explored', 'the library writes through libc (open, write, writev, close, rename, unlink)'],
     level='fault_enumeration', technique='enumeration of every crash point and fault of the system calls of a save on the real code (fault injection by link-time interposition)',
     note='every fault of a single save and every pair of crashes within the bounds; process crashes only')

prop('C11', 'Two networks are equal exactly when they are the same network',
     'Two networks compare equal if and only if they have the same architecture, weights, layer optimizers, training settings and progress; the comparison is symmetric, and != is its negation. '
     'Networks which went through the same history are equal, and a difference in a single weight or setting makes them different.',
     ['configurations', 'histories'],
     'every pair of one-layer networks of a bounded grammar, every pair of decorations, every single weight and setting of 5 networks, every history of 3 operations',
     'the tests compare a few pairs of networks; a missing field in one of the 20 comparison operators shows only for a pair which differs in that field alone',
     [NN, BASE, LAYER + '*.cpp', NEURON + '*.cpp', OPT + '*.cpp'], [('operators ==', NN + ', ' + BASE + ', ' + LAYER + '*, ' + NEURON + '*, ' + OPT + '*')],
     ['results of == and != in both orders'], [san('c11')],
     'pairs of networks are enumerated with the description of what differs; the oracle compares the descriptions. A state is a pair.',
     'all pairs of 1-layer networks (every kind, activation, shape), all pairs of lists of at most 2 optimizers, each weight of 5 networks with 4 changes, each setting, histories of 3 operations', 'histories of 4 operations, 4 kinds of layer for the optimizers',
     assumptions=[RNG, 'the metrics of the last evaluations are not part of the comparison'], note=SAN_NOTE)

prop('C12', 'The output of a network is the composition of its layers',
     'For every architecture that can be built, the output for an input is the one of the mathematical definition: dense, recurrent and gated layers, convolutions and locally connected layers over every position of the kernel in 1 and 2 dimensions, max pooling, biases and activation functions, composed in order.',
     ['configurations', 'inputs'],
     'every stack of up to 3 layers (4 in the thorough tier) over 6 kinds of layer, shapes of inputs, numbers of filters, kernel sizes and 7 activation functions of a bounded grammar',
     'the tests check the outputs of two or three hand-made networks, and otherwise that a training converges, which a network with wrong indexes or a wrong kernel also does',
     [LAYER + 'Convolution1D.cpp', LAYER + 'Convolution2D.cpp', LAYER + 'LocallyConnected1D.cpp', LAYER + 'LocallyConnected2D.cpp', LAYER + 'MaxPooling1D.cpp', LAYER + 'MaxPooling2D.cpp', NEURON + 'SimpleNeuron.cpp', NEURON + 'RecurrentNeuron.cpp', NEURON + 'GatedRecurrentUnit.cpp', BASE],
     [('forward pass', BASE + ' output'), ('output of a layer', LAYER + '*.cpp computeOutput'), ('kernel positions', LAYER + '*.cpp buildKernelIndexes')],
     ['computeOutput'], [san('c12')],
     'every architecture of the grammar is built, its weights are set to fixed values, and its outputs on inputs are compared with a reference model in double precision which reads only the weights. A state is an architecture with its outputs.',
     '1, 2 and 3 layers of the grammar; one filter layer on maps up to 3x7x7 with every kernel, and with 1..10 channels up to 3x3 alone and after a layer; dense, recurrent and gated layers with 1..36 inputs and 1..9 neurons', '4 layers; maps up to 4x9x9; 1..18 channels; 1..70 inputs',
     assumptions=['the weights of an architecture are one generic assignment (no symmetry), not every float', 'the order of the weights of a neuron is inputs then bias', SEQ], note=SAN_NOTE)

prop('C13', 'Shapes and counts follow the architecture, no access out of bounds',
     'For every architecture that can be built, the numbers of layers, inputs, outputs, neurons and parameters are the ones of its definition, and its outputs have that size. '
     'Computing, training and evaluating never read or write out of the memory of the network, and never overflow an integer.',
     ['configurations'],
     'every stack of up to 3 layers (4 in the thorough tier) of a bounded grammar, with every layer optimizer, and larger single layers',
     'the tests build about thirty architectures without any memory checker: a read past the end of a vector gives a plausible number',
     [LAYER + '*.cpp', 'include/snn/neural_network/layer/LayerFactory.hpp', LAYER + 'LayerFactory.cpp', BASE],
     [('shapes', LAYER + 'LayerFactory.cpp'), ('counts', BASE + ' getNumberOf*'), ('indexes', LAYER + '*.cpp')],
     ['getNumberOfLayers/Inputs/Outputs/Neurons/Parameters, size of the outputs', 'AddressSanitizer, container assertions, arithmetic checks'], [san('c13')],
     'every architecture of the grammar is built, used and trained under the sanitizers; the counts are compared with the reference model. A state is an architecture.',
     '1, 2 and 3 layers of the grammar, 7 sets of optimizers, filter layers on maps up to 5x7x7', '4 layers, maps up to 7x10x10', assumptions=[SEQ], note=SAN_NOTE)

prop('C14', 'Exactly the acceptable architectures and hyper-parameters are built',
     'A network is built exactly when its architecture and hyper-parameters are acceptable (an input first and only first, no empty dimension, layers of at least one neuron or filter, kernels which fit in their input, at most 1000 layers and no oversized layer, learning rate in ]0, 1[ and momentum in [0, 1]); otherwise the construction throws, without huge allocation. '
     'A network that is built is reported valid.',
     ['configurations', 'inputs'],
     'every shape of input of up to 4 dimensions over 6 sizes (zero and negative ones included), every kind of layer and parameters around their limits in the first three positions',
     'the tests check a dozen wrong architectures; the rejected ones depend on the kind of layer, its position and the shape that reaches it',
     [LAYER + 'LayerFactory.cpp', 'include/snn/neural_network/layer/LayerFactory.hpp', BASE, OPT + 'StochasticGradientDescent.cpp'],
     [('construction', LAYER + 'LayerFactory.cpp'), ('validity', BASE + ' isValid')], ['exception or not of the constructor, isValid()'], [san('c14')],
     'every combination is given to the constructor; the oracle is the rule of the statement. A state is a (case, verdict) pair.',
     'inputs of 0..4 dimensions over {2,1,3,0,-1,-2} with one layer, 2 and 3 layers with parameters around the limits, presence and position of the input in 0..3 layers, up to 1500 layers, sizes up to 2^31-1, 10 learning rates x 8 momenta',
     assumptions=['wrong parameters of the layer optimizers (probability of a dropout) are not part of the statement'], note=SAN_NOTE)

prop('C15', 'Recurrent outputs are the recurrence, restarted at each sequence',
     'The output of a recurrent or gated network for a data is the one of the recurrence over the data since the last one announced as the first of a sequence, whatever was computed or trained before; a copy continues the same sequence.',
     ['histories', 'configurations'],
     'every history of 4 (5) computations and 3 (4) computations, trainings and copies, with and without announcement of a new sequence, over 2 (3) inputs on 12 architectures',
     'the tests train recurrent networks and look at the accuracy; the leak of a state from one sequence to the next changes results only for particular orders of calls',
     [NEURON + 'RecurrentNeuron.cpp', NEURON + 'GatedRecurrentUnit.cpp', LAYER + 'Recurrence.cpp', LAYER + 'GruLayer.cpp'],
     [('state and reset', NEURON + 'RecurrentNeuron.cpp output, reset'), ('gates', NEURON + 'GatedRecurrentUnit.cpp output')],
     ['computeOutput, outputs of a copy'], [san('c15')],
     'every history is run on the network and on the reference recurrence; a deviation must be explained exactly by the model of the known defect (state which is not reset), otherwise it is a violation. A state is an output reached by a history.',
     'histories of 4 computations or 3 mixed operations on 12 architectures, sequences of 1..30 data', 'histories of 5 computations or 4 mixed operations, sequences of 1..60 data',
     assumptions=['known finding: the reset of the temporal state (see known_findings.json); the check decides the recurrence around it', SEQ], note=SAN_NOTE,
     state=[('last output', 'output of the previous data of the sequence', NEURON + 'RecurrentNeuron.cpp')])

prop('C16', 'Inference is pure, repeatable, and the cluster is its highest output',
     'Computing an output, a cluster, a summary, a validity, an equality, a copy or an evaluation changes no weight and no setting, and without temporal layer the same input always gives the same bits whatever was computed in between. '
     'The cluster is the index of the (first) highest output for every value of the outputs.',
     ['histories', 'inputs', 'configurations'],
     'every history of 4 (5) read-only operations on 7 architectures, every pair of inputs on every architecture of a grammar, every order with ties of up to 4 outputs over extreme values',
     'the tests never compare the output of the same input at two moments; a buffer shared between two calls shows only for particular histories',
     [NN, BASE, LAYER + '*.cpp', OPT + 'Dropout.cpp'], [('argmax', NN + ' computeCluster'), ('inference path', BASE + ' output')],
     ['bits of the outputs, weights, getters and equality after each operation'], [san('c16')],
     'read-only operations are enumerated on a network; everything observable is compared with what it was and with a fresh copy. A state is a (network, position, operation) or a table of outputs.',
     'histories of 4 operations out of 9 on 7 networks, fresh or trained; 1..4 outputs over 6 values; 2 layers of the grammar', 'histories of 5 operations; 9 values; 3 layers', assumptions=[RNG, SEQ], note=SAN_NOTE)

prop('C17', 'A training step is a step of gradient descent with momentum',
     'A training step changes every weight and bias by the learning rate times the gradient of the squared error for that data, plus the momentum times the previous change, for every layer of every architecture that can be built, and the error that reaches a layer is the one propagated by the layers after it.',
     ['configurations', 'inputs', 'histories'],
     'every stack of up to 3 layers of a bounded grammar (dense, recurrent, gated, convolution, locally connected, max pooling in 1 and 2 dimensions) with every activation, 1 to 3 steps, several momenta and error multipliers, up to 40 steps',
     'the tests train until an accuracy: an incomplete gradient (a bias, a position of the kernel, a channel that is not trained) still converges on the small problems',
     [BASE, LAYER + '*.cpp', NEURON + 'SimpleNeuron.cpp', NEURON + 'RecurrentNeuron.cpp', NEURON + 'GatedRecurrentUnit.cpp', OPT + 'StochasticGradientDescent.cpp'],
     [('back-propagation', BASE + ' backpropagationAlgorithm'), ('error of the previous layer', LAYER + '*.cpp computeBackOutput'), ('update', OPT + 'StochasticGradientDescent.cpp')],
     ['weights before and after trainOnce'], [san('c17')],
     'the weights after the steps are compared with the ones of a reference model in double precision (analytic gradient, itself checked against finite differences); for locally connected layers in 1 dimension and gated layers a deviation must be the one of the model of the known defect. A state is an architecture with its weights.',
     '1, 2 and 3 layers of the grammar, 7 activations, 3 momenta, 4 error multipliers on 2 layers, filter layers on maps up to 5x5x5 with every kernel, trainings up to 40 steps, recurrent and gated layers with every division of 4 steps in sequences', '3 layers with every activation and every momentum',
     assumptions=['the weights of an architecture are one generic assignment', 'the gradient of a recurrent or gated layer is the one of the current step plus the decayed error of the weight of the recurrence (no back-propagation through time)', 'the filters of a convolution may be updated at once or position by position', 'known findings: errors propagated by locally connected layers on 1D inputs, errors of the gates of gated units'], note=SAN_NOTE)

prop('C18', 'Activation functions and derivatives are right on every finite input',
     'Every activation function returns on every finite input the value of its definition within float accuracy, stays inside the range that it announces and is monotonic where its definition is, and its derivative is the derivative of that function; a neuron applies the function of its layer.',
     ['inputs'],
     'every exponent and sign, and a dense subset (every one up to 2^99 in the thorough tier) of the mantissas, of the single precision floats, for 7 functions',
     'the tests do not call the functions; a wrong derivative or a range which is exceeded only slows down a training',
     ['include/snn/neural_network/layer/neuron/activation_function/*.hpp', NEURON + 'activation_function/ActivationFunction.cpp'],
     [('functions', 'include/snn/neural_network/layer/neuron/activation_function/*.hpp'), ('selection', NEURON + 'activation_function/ActivationFunction.cpp get')],
     ['function, derivative, min and max of each activation; output of one-neuron networks'], [dict(harness='c18', flavor='rel', thorough_budget=1800, limit=120)],
     'bit patterns of floats are enumerated by sign, exponent and mantissa; the oracle is the definition in double precision. A transition is one evaluation; a state is one (function, sign, exponent) block with the hash of its values.',
     'every sign and exponent up to 2^99, one mantissa out of 7 where the functions vary and out of 127 elsewhere; 6 special values; 129 inputs of a neuron for every kind of layer', 'every float up to 2^99',
     assumptions=['built with the optimization flags of the project (-O3 -ffast-math)'], technique='exhaustive enumeration of the bit patterns of the inputs of the real functions, against a reference in double precision',
     note='the real functions compiled with the flags of the project')

prop('C19', 'Softmax, dropout, error multiplier and regularizations do what they announce',
     'A softmax gives probabilities in the order of its inputs, without NaN, for every finite input. '
     'In training a dropout removes each output of each layer independently with its probability, for a whole sequence, and removed outputs neither learn nor propagate errors; in inference it only scales the outputs, deterministically. '
     'An error multiplier multiplies the changes of its layer and of the previous ones; an L1 (L2) regularization adds to the errors of its layer its coefficient times the sum of the absolute values (squares) of the weights per neuron; both change nothing else. Several optimizers of a layer are applied in their order.',
     ['inputs', 'histories', 'configurations'],
     'every input of 1..4 values over 12 values up to the extremes, every result of the random draws for every kind of layer with up to 4 outputs, every position and value of the multipliers of a list',
     'the tests check that networks with these optimizers learn; the distribution of a dropout, the outputs of a softmax on extreme inputs and the part of the network that a multiplier reaches cannot be seen from an accuracy',
     [OPT + 'Softmax.cpp', OPT + 'Dropout.cpp', OPT + 'ErrorMultiplier.cpp', OPT + 'L1Regularization.cpp', OPT + 'L2Regularization.cpp', 'include/snn/neural_network/layer/SimpleLayer.hpp', LAYER + 'FilterLayer.cpp'],
     [('softmax', OPT + 'Softmax.cpp'), ('mask', OPT + 'Dropout.cpp'), ('order of application', 'include/snn/neural_network/layer/*.hpp')],
     ['outputs in inference and in training, weights after a step'], [san('c19'), dict(harness='c19', flavor='rel', args=['--scenario', 'softmax'])],
     'inputs and results of the draws are enumerated; frequencies over all the draws must be the product of the probabilities exactly. A state is an output, a mask or a changed network.',
     '1..4 inputs of softmax over 12 values, 1..100 inputs; all draws (4 values each) for layers of up to 4 outputs; 6 factors on 1..2 layers; 4 coefficients of L1, L2 and both on every kind of layer', '5 inputs, 300 inputs, 5 outputs',
     assumptions=[RNG], note=SAN_NOTE + '; the softmax is also checked with the flags of the project')

prop('C20', 'A NaN or infinite output is detected at once and never contaminates',
     'From the first output which holds a NaN or an infinity on, and never before, the network reports a NaN, with the optimization flags of the project, whatever the computation: output, cluster, evaluation, training step. '
     'A training which meets one stops at once, ends idle, and its metrics are then reported as NaN; the best metrics and the automatic save are never updated by it.',
     ['inputs', 'histories', 'configurations'],
     'every history of steps and evaluations where the poisoned input, label or weight comes at each position, for 6 bit patterns of NaN and infinities, on several architectures',
     'one test provokes a NaN; under -ffast-math the usual predicates are compiled away, and a NaN in the last evaluated data, in a label or in one weight is not reached',
     [BASE, STAT, NN], [('detection', BASE + ' output, outputForTraining'), ('stop', NN + ' trainSync, evaluate'), ('metrics', STAT + ' setResultsAsNan')],
     ['hasNan, metrics, best metrics, existence of the file, return of train()'], [dict(harness='c20', flavor='rel')],
     'poisons, positions and operations are enumerated; a model follows what must be reported. A state is a history.',
     'histories of 3 operations x 6 poisons, trainings with a poison at every position, a poison in every weight and label', 'histories of 4 operations',
     assumptions=['the architecture is without max pooling or ReLU where those absorb the NaN by definition', SEQ, 'an evaluation follows the training step that meets the NaN'], note='compiled with the flags of the project (-O3 -ffast-math)')

prop('C21', 'Inconsistent data is refused, consistent data is readable everywhere',
     'A data set whose numbers of inputs and labels differ, whose rows have different sizes, which is empty or, for a classification, has a label without class, is refused by an exception when it is created. '
     'A data set that is accepted is valid, and every one of its data, labels, batches and sequence flags can be read inside its bounds. '
     'Its precision and separator are the ones which were set, and a set which was made inconsistent afterwards is not valid any more.',
     ['inputs', 'configurations'],
     'every combination of counts and widths of the four lists, of problems, natures and numbers of recurrences, with one odd row at each place, values of labels around the limits, and every list of lengths of sequences',
     'the tests create consistent data sets and a few wrong ones; the checks depend on the constructor, the nature and the problem',
     [DATA + '*.cpp'], [('validation', DATA + 'Data.cpp initialize, isValid'), ('composites', DATA + 'CompositeFor*.cpp isValid')],
     ['exception or not of the constructors, isValid, every getter on every index under the sanitizers'], [san('c21')],
     'every combination is given to the constructors; the oracle is the rule of the statement; accepted data is read everywhere. A state is a combination.',
     'up to 4 rows of up to 3 values in each list, one odd row, 3 problems, 3 natures, 0..4 recurrences, up to 3 sequences; 2 settings out of 15 values; 8 kinds of damages of each set', 'up to 5 rows', assumptions=['indexes passed to the getters are inside the bounds'], note=SAN_NOTE)

prop('C22', 'Shuffles are permutations that keep labels and the order of time',
     'A shuffle is a permutation of the training data in which every data keeps its own label; sequences move as a whole, and the windows of a time series keep their consecutive data, with the flags of first and learned data at the right places. '
     'Every order is reachable, and unshuffle restores the original order whatever the shuffles before.',
     ['inputs', 'histories', 'configurations'],
     'every result of the random draws of the shuffles, for every number of data, lengths of sequences and recurrences up to a size, and every history of shuffles and unshuffles',
     'a test shuffles once with one seed; a label which does not follow, a data lost or twice, a sequence which is split need a particular permutation',
     [DATA + 'CompositeForNonTemporalData.cpp', DATA + 'CompositeForTemporalData.cpp', DATA + 'CompositeForTimeSeries.cpp', DATA + 'Data.cpp', 'include/snn/tools/Tools.hpp'],
     [('shuffles', DATA + 'CompositeFor*.cpp shuffle, unshuffle'), ('indirection', DATA + 'Data.cpp getTrainingData')],
     ['getTrainingData, getTrainingOutputs, getTrainingLabel, isFirstTrainingDataOfTemporalSequence, needToLearnOnTrainingData on every index'], [san('c22')],
     'every sequence of draws of the generator is enumerated; the order is read through the public getters. A state is an order with its flags.',
     'up to 4 independent data, all lists of sequences up to 4 data in total 7, time series up to 7 data with 0..3 recurrences, 2 shuffles', 'one more data and 3 shuffles', assumptions=[RNG], note=SAN_NOTE)

prop('C23', 'A batch is the average of its data and labels, whatever was read before',
     'The data and the labels of a batch are the averages of the data and labels of that range of the shuffled training set; a batch of one is the data itself. '
     'Reading does not depend on previous reads, does not change the data set, and data and labels of a batch are available together.',
     ['histories', 'inputs', 'configurations'],
     'every history of 2 (3) reads with every batch size and index, for every size up to 6 (7), shuffled or not, normal or extreme values, and two data sets read alternately',
     'the tests read batches in order once; a buffer which is shared or not cleared shows only for particular histories of reads',
     [DATA + 'Data.cpp', DATA + 'ProblemComposite.cpp'], [('batches', DATA + 'Data.cpp getTrainingData'), ('labels', DATA + 'ProblemComposite.cpp getTrainingOutputs')],
     ['getTrainingData and getTrainingOutputs'], [san('c23')],
     'histories of reads are enumerated; the average is computed in double precision. A state is a (data, labels) of a batch.',
     'sizes 1..6, 2 reads', 'sizes 1..7, 3 reads', assumptions=[RNG], note=SAN_NOTE)

prop('C24', 'Normalization maps the training range onto the requested one',
     'After a normalization every input of the training set goes exactly from the minimum to the maximum requested, order kept, and the testing set is transformed by the same map; labels are untouched, each input is independent of the others, constant inputs give finite values, and a second identical normalization changes nothing.',
     ['inputs', 'configurations'],
     'every value over an alphabet of 1..3 (4) training data and one testing data, every requested range of a list, every kind of data, shuffled or not',
     'one test normalizes one table',
     [DATA + 'Data.cpp'], [('map', DATA + 'Data.cpp normalize')], ['inputs and labels of both sets after normalize'], [san('c24')],
     'tables are enumerated; the map is computed in double precision. A state is a table and a range.',
     '1..3 data over 8 values, 3x2 data over 4 values, 5 ranges, 3 kinds of data, patterns at 16 scales from 1e-44 to 1e30', '1..4 data over 9 values', assumptions=['the value given to a constant input is only required to be finite', 'the range of an input is less than 3.4e38'], note=SAN_NOTE)

prop('C25', 'Initial weights, random numbers and helpers keep to what they announce',
     'Whatever the generator draws, a new network is valid and without NaN, each of its weights is within 2.4/sqrt(n) of zero for a neuron with n weights, with a bias weight that is not negative, and the weights are drawn uniformly and independently of each other. '
     'The helpers for random numbers give values of the range which they announce ([min, max[ for integers), uniformly; the helpers for extrema, coordinates in a map (flatten and roughen are inverse), durations, alignment and detection of NaN give the right value for every argument.',
     ['inputs', 'configurations'],
     'every architecture of a bounded grammar with extreme draws, every sequence of equiprobable draws for the weights of a neuron and for the helpers, every map up to 6x6x6, every vector up to 4 values of a list, every float by steps of 61 (thorough: every float)',
     'no test looks at the range of the initial weights, and an extreme draw, a negative range or a vector with one value does not occur in the tests',
     [NEURON + 'Neuron.cpp', 'src/tools/Tools.cpp', 'include/snn/tools/Tools.hpp'],
     [('initial weights', NEURON + 'Neuron.cpp Neuron, randomInitializeWeight'), ('random numbers', 'src/tools/Tools.cpp'), ('helpers', 'include/snn/tools/Tools.hpp')],
     ['weights of the neurons and gates, isValid, hasNan, first output', 'values returned by the helpers of snn::tools'], [san('c25')],
     'each architecture is built with an extreme value in the 0, 1, 2, 4 or all first draws, and its weights compared with the range; the distributions are counted over every sequence of draws. A state is the set of weights of a new network.',
     'stacks of 1 and 2 layers of every kind on 6 shapes, layers of 1000 inputs; 4 draws out of 4 for a neuron with 2 weights; 2 draws out of 24 for the helpers on 9 ranges, and out of 5 extreme ones on 22 ranges; durations around multiples of 7 units',
     'stacks of 3 layers, maps up to 9x9x9, vectors up to 5 values, every float', assumptions=[RNG], note=SAN_NOTE)

prop('C26', 'Exported bitmaps are valid images of the data, outputs and weights',
     'Every export gives valid bitmap files, one per layer with a two-dimensional map, whose pixels show the value of the data, of the output of the layer or of the weights at that place; layers without map give no file. '
     'An export changes nothing observable in the network and never touches memory out of bounds.',
     ['configurations', 'inputs'],
     'every stack of 1 or 2 filter layers with maps of different widths and heights, 1 to 5 filters, 1 to 4 channels, every kernel, then a dense layer, and every data of a list',
     'a test exports one network and looks at nothing: swapped width and height, a missing row or a wrong channel are not seen',
     ['src/neural_network/NeuralNetworkVisualization.cpp', NN, LAYER + 'FilterLayer.cpp'], [('pixels', 'src/neural_network/NeuralNetworkVisualization.cpp saveAsBitmap'), ('selection of the layers', NN + ' save*AsBitmap')],
     ['bytes of the files, observable state of the network'], [san('c26')],
     'every architecture is exported and the files are parsed and compared pixel by pixel with the values. A state is an architecture and a data.',
     'maps up to 4x4 of different sides, up to 5 filters, 1 or 2 layers, 2 data', 'larger maps', assumptions=['the grey of a value is tested within one level'], note=SAN_NOTE)

prop('C27', 'The summary and the counters describe the network truthfully',
     'The summary of a network names its file, number of parameters, epochs and trainings, each of its layers with its kind, shapes, activation, parameters and optimizers, and its optimizer, with the values that the getters give, at every moment of its history. '
     'The counters of trainings and epochs are the ones of the operations done.',
     ['configurations', 'histories'],
     'every architecture of a bounded grammar with every decoration, after every history of a list',
     'a test compares one summary with a text',
     [NN, LAYER + '*.cpp', OPT + '*.cpp'], [('summaries', NN + ' summary, ' + LAYER + '*.cpp summary, ' + OPT + '*.cpp summary')], ['text of summary(), getters'], [san('c27')],
     'the summary is parsed in blocks and fields, and each field is compared with the architecture. A state is an architecture at a moment.',
     'one layer of every kind on 9 shapes with every activation and decoration, stacks of 2 and 3 layers', 'stacks of 4 layers', assumptions=['the layout of the text is the one of the current version: a field is recognized by its label'], note=SAN_NOTE)

prop('C28', 'Networks used in parallel do not interfere',
     'Networks trained or used at the same time in different threads, be they unrelated, copies or loaded from the same file, do not influence each other: in every schedule each one gives exactly what it gives alone, no access is a data race, and stopping or destroying one leaves the other one running. '
     'A network can be evaluated on the data with which another one is trained.',
     ['schedules', 'programs', 'configurations'],
     'every schedule with 1 preemption of two background trainings of 6 architectures (unrelated, copied, loaded) of a training beside 1..2 uses out of 14 of another network, and of two threads which use one network each',
     'the tests use one network at a time: a static or shared object (random generator, activation functions, optimizer of a copy) shows only in some schedules',
     [NN, BASE, 'include/snn/tools/Tools.hpp', NEURON + 'activation_function/ActivationFunction.cpp', LAYER + 'LayerFactory.cpp'],
     [('random generator', 'include/snn/tools/Tools.hpp rng'), ('activation functions', NEURON + 'activation_function/ActivationFunction.cpp get'), ('deep copy', BASE + ', ' + LAYER + '*.cpp clone')],
     ['weights, outputs, metrics and files of both networks compared with the ones they give alone', 'happens-before order of every access of the library'],
     [sched('c28')],
     'an execution is a schedule; the results of each network are compared bit by bit with the ones of a network alone which does the same number of trainings. A state is the vector of values published and the position of each thread.',
     '6 architectures with every kind of layer, 3 relations, evaluation frequencies 0 and 1; 14 uses (creation, outputs, training, evaluation, save and load, copy, comparison, getters, exports, data) beside a training on the 6 architectures; programs of 2 uses on the smallest network and its copy; pairs of uses in two threads on the smallest network and another one, each use beside itself on the 6 architectures (other network, copy; loaded for the smallest one)',
     'every pair of architectures, 2 preemptions; programs of 3 uses',
     assumptions=[SC, FAIR, 'each network trains on its own data: a training shuffles them', 'results which depend on random draws (dropout) are only checked for races'], technique=SCHED, note=SCHED_NOTE)

prop('C29', 'A training or evaluation begins exactly when its data and batch size suit',
     'A training, in the foreground or in the background, and an evaluation begin exactly when the number of inputs and of labels of the data are the ones of the network, and the batch size is from 1 to the number of training data (1 for sequences and time series). '
     'Otherwise an exception says why, and the network, its statistics, its file, the data and a training in progress are as before: the network can be trained afterwards. '
     'The weights of a neuron are replaced by as many weights, or not at all.',
     ['inputs', 'configurations'],
     'every combination of sizes of data around the ones of 4 networks, of nature, problem, number of data and batch size (including 0, negative and extreme ones), for the three calls, before and after a training; every number of weights',
     'the tests start suitable trainings; a refusal which is missing reads out of the data or of the network, and a refusal which comes too late leaves a network that is not idle',
     [NN, BASE, NEURON + 'Neuron.cpp'], [('validation of the data', NN + ' validData'), ('order of the calls', NN + ' train, startTrainingAsync, evaluate'), ('weights', NEURON + 'Neuron.cpp setWeights')],
     ['exception or not, getters, weights, bytes of the file, order of the data, a training afterwards'], [san('c29')],
     'every request is made on the real network under the sanitizers; the oracle is the rule of the statement. A state is a request.',
     '4 networks, 3 natures, 3 problems, 1..4 training data and up to 2 more or 1 less testing data, sizes of inputs and labels one less, equal and one more, 9 batch sizes, 3 calls; a refusal during a training is in C03', '1..6 data', assumptions=[RNG, 'data which was accepted when it was created'], note=SAN_NOTE)

prop('C30', 'A lack of memory is reported and leaves everything usable',
     'Whatever allocation of memory fails in a call of the public interface, once or from then on, the call (or the wait, when it fails in the training thread) throws an exception, and the process goes on; a call which needs no memory succeeds. '
     'Nothing is lost when a network, a copy or data is being created. Afterwards the network is idle and as usable as before: it answers, is trained, evaluated, copied, saved and loaded. '
     'Inference, evaluation, comparison, summary, images and saves leave its weights unchanged, the previous file is complete, the data and their labels are the same, and a destruction needs no memory.',
     ['fault_sequences', 'configurations'],
     'every allocation of 24 calls on 6 networks which cover every kind of layer and optimizer, failing alone or with all the next ones, in the calling thread or in the training thread',
     'no test makes an allocation fail; a raw pointer, a noexcept, a swallowed exception or a flag which is not restored shows only when one precise allocation fails',
     [NN, BASE, LAYER + '*.cpp', OPT + '*.cpp', DATA + '*.cpp'],
     [('state of the training', NN + ' train, startTrainingAsync, waitFor'), ('creation and copy', BASE + ', ' + LAYER + 'LayerFactory.cpp'), ('data', DATA + 'Data.cpp')],
     ['exceptions', 'number of blocks allocated and released', 'weights, outputs, equality, bytes of the files, data and labels after the failure'],
     [san('c30')],
     'the allocations of a call are counted in a first run (operator new and delete are defined by the harness), then the call is made again on the same state with each of them failing. A state is the (call, network, allocation, single or lasting failure) tuple; all of them are non-trivial, a failure happens inside the call.',
     '4 constructions and 20 calls x 6 networks x every allocation (the first 60 of the training thread) x a single or a lasting failure',
     assumptions=[RNG, 'the failures are the ones of operator new: malloc, used by the standard library for exceptions and files, does not fail', 'after the library was used once in the process (the tables of the serialization are built)'],
     level='fault_enumeration', technique='enumeration of every allocation failure of the calls on the real code (replacement of operator new), one execution for each', note=SAN_NOTE)

NOT_APPLICABLE = [
]

# The quick exploration of each of these properties also takes 18 sizes from 15 to 1025 (around the powers of two, 100 and 300)
# one at a time, where the bounds above stop at a few units; the thorough one takes 33 sizes up to 4097.
LARGE = {
    'C04': 'training data, batches and epochs',
    'C06': 'testing data, labels and sequences',
    'C07': None,
    'C08': 'inputs, neurons, filters, channels, positions and layers (130 at most)',
    'C09': 'inputs, neurons, filters, channels, positions and layers (130 at most)',
    'C11': 'inputs, neurons, filters, channels, positions and layers (130 at most), one weight changed at 16 places',
    'C12': 'inputs, neurons, filters, channels, positions and sizes of kernels',
    'C13': 'inputs, neurons, filters, channels, positions and layers (130 at most); 182 and 257 neurons with as many inputs (more than 32768 and 65536 parameters)',
    'C14': 'inputs, neurons, filters, channels, positions and layers; kernels around the size of their map',
    'C15': 'inputs, neurons and data of a sequence',
    'C16': 'outputs, with the highest one at each of several places',
    'C17': 'inputs, neurons, filters, channels and positions, three steps with a momentum',
    'C19': 'neurons of a layer with each optimizer',
    'C20': 'outputs, one of which is not finite, at each of several places',
    'C21': 'rows, inputs and labels, with one defect at each of several places',
    'C22': 'data, with one history of 12 shuffles for each size and nature (45 with 20 recurrences)',
    'C23': 'data, inputs and labels, with 5 batch sizes',
    'C24': 'inputs, training and testing data',
    'C25': 'sides of a map',
    'C26': None,
    'C27': 'inputs, neurons, filters, channels, positions, layers and epochs (66000 at most); layers with more than 32768 and 65536 parameters',
    'C29': 'inputs, labels, data and batches, with differences of 1, 256 and of the size itself',
}
EXTRA = { # (quick, thorough)
    'C01': ('evaluation frequencies 0 and 1', ''),
    'C04': ('conditions on the duration with a clock that advances at each step and at each evaluated data (6 durations, alone and with the others)', ''),
    'C06': ('testing sets of 10000 to 200000 data with 3 sizes of errors; outputs from 1e-12 to 1e37', 'outputs from 1e-12 to 1e37, testing sets of up to 1000000 data'),
    'C07': ('120 histories of 150 evaluations in 6 orders; trainings of 200 epochs at 4 learning rates', 'histories of 700 evaluations, trainings of 600 epochs'),
    'C08': ('4 locales for the save and 4 for the load', ''),
    'C11': ('pairs of small or large weights, from 1e-44 to 1e38; pairs of histories of 0..2 trainings on 8 networks, with usual or zero inputs, then the same weights: networks which are equal have the same future', 'pairs of histories of 0..3 trainings'),
    'C15': ('data from 0.0001 to 1000000', ''),
    'C17': ('4 activations and 7 networks with 5 learning rates up to 0.99, momentums up to 1, labels from 0.01 to 100000 and inputs from 0.01 to 3000', ''),
    'C19': ('an error multiplier before or after the regularizations of a layer', ''),
    'C26': ('inputs and weights from 1e-30 to 1e30; images with a side, and layers with a number of filters or channels, from 9 to 513', 'up to 700'),
}
for p in PROPERTIES:
    quick, deep = EXTRA.get(p['id'], ('', ''))
    if LARGE.get(p['id']):
        quick += ('; ' if quick else '') + '18 sizes from 15 to 1025 of ' + LARGE[p['id']]
        deep += ('; ' if deep else '') + '33 sizes up to 4097 of ' + LARGE[p['id']]
    if quick:
        p['bounds'], p['bounds_thorough'] = p['bounds'] + '; ' + quick, p['bounds_thorough'] + '; ' + (deep or quick)

CHECKS = {p['id']: p for p in PROPERTIES}
