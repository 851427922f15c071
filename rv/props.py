"""The properties, one entry each; tools/emit.py writes properties.jsonl and
MANIFEST.json from those whose check exists."""

P = {}

TESTS = ('The existing tests run a handful of fixed networks and settings and '
         'mostly assert shapes or that nothing raises')


def prop(pid, title, statement, over, text, why, files, mechanism,
         technique, note):
    P[pid] = dict(
        id=pid,
        title=title,
        statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(
            files=files,
            mechanism=[dict(name=n, where=w) for n, w in mechanism]),
        _technique=technique,
        _note=note)


NOTE = ('Exploration: the monitors saw no violation on the cases listed in '
        'the evidence. Trusts PyTorch on CPU and the reference oracle in '
        'rv/checks. ')

prop('C01',
     'Channel dependency analysis ties exactly the channels that must agree',
     'For every supported convolutional network, the analysis partitions the '
     'prunable channels into units such that every operator stays consistent '
     'whatever is chosen per unit: residual sums, concatenations, depthwise '
     'and grouped convolutions, gates, shared modules and flattening heads '
     'tie the channels they couple, and nothing that the inputs or outputs '
     'fix is prunable. At full width the prepared network computes what the '
     'original computes, and for every admissible choice of channels it '
     'computes what the original computes with exactly the removed channels '
     'forced to zero.',
     ['programs', 'inputs', 'configurations'],
     'all networks built from supported operators, both tracers, all choices '
     'of channels per unit',
     TESTS + '; a wrong coupling shows only on topologies (sums of '
     'concatenations, re-splits, groups) and choices they do not contain.',
     ['mmrazor/models/task_modules/tracer/channel_analyzer.py',
      'mmrazor/structures/graph/channel_graph.py',
      'mmrazor/structures/graph/channel_nodes.py',
      'mmrazor/structures/graph/channel_flow.py',
      'mmrazor/models/mutables/mutable_channel/units/channel_unit.py',
      'mmrazor/models/mutators/channel_mutator/channel_mutator.py'],
     [('channel graph and flow', 'mmrazor/structures/graph'),
      ('tracing', 'mmrazor/models/task_modules/tracer'),
      ('unit formation',
       'mmrazor/models/mutables/mutable_channel/units/channel_unit.py')],
     'runtime monitor: random networks, online comparison with an independent '
     'union-find model of channel dependencies and a masked reference run',
     NOTE + 'Networks stay inside the documented operator set.')

prop('C02',
     'A dynamic operator equals the static operator of its current choice',
     'Whatever is currently chosen, a searchable operator (convolution, '
     'linear, normalization, attention, patch embedding, relative position, '
     'sequence depth, input resizing) computes the same outputs, gradients '
     'and running statistics as the ordinary operator built from the selected '
     'channels, kernel size, heads, depth or size of its weights. Exporting '
     'it yields that ordinary operator with all settings kept and leaves the '
     'searchable one unchanged; without any choice attached it behaves as the '
     'ordinary operator of full size.',
     ['inputs', 'configurations', 'histories'],
     'all operator settings (groups, stride, padding, dilation, bias, '
     'affine, ...), all kinds of attached choices, all inputs, changes of '
     'choice between calls',
     TESTS + '; they compare few shapes and hardly any gradients, statistics '
     'or exported settings.',
     ['mmrazor/models/architectures/dynamic_ops/bricks',
      'mmrazor/models/architectures/dynamic_ops/mixins',
      'mmrazor/models/architectures/ops'],
     [('dynamic operators', 'mmrazor/models/architectures/dynamic_ops/bricks'),
      ('slicing of weights', 'mmrazor/models/architectures/dynamic_ops/mixins')
      ],
     'runtime monitor: differential oracle (independently sliced static '
     'operator) on forward, backward, running statistics and export',
     NOTE + 'Synchronized batch norm needs a GPU: only its construction.')

NA = {}

prop('C03',
     'An exported subnet is the chosen subnet and survives a round trip',
     'Exporting a searched or pruned network gives a description that fixes '
     'every searchable element to its current choice, together with an '
     'ordinary network that computes what the searchable network computes '
     'with that choice and contains nothing searchable any more. The '
     'description survives being written to and read from a file, and loading '
     'it into a freshly built network (which may be a part of a bigger model, '
     'named by a prefix) gives the same subnet. Exporting leaves weights, '
     'choices, modes and outputs of the searchable network unchanged.',
     ['programs', 'histories'],
     'all supernets built from the searchable elements, with or without '
     'sharing of choices, all choices, repeated exports, both ways of '
     'describing a pruned network',
     TESTS + '; they load hand written descriptions for a few networks and do '
     'not compare what is computed before and after.',
     ['mmrazor/structures/subnet/fix_subnet.py',
      'mmrazor/models/mutables/base_mutable.py',
      'mmrazor/models/mutables/mutable_module',
      'mmrazor/models/mutators/channel_mutator/channel_mutator.py'],
     [('export_fix_subnet / load_fix_subnet',
       'mmrazor/structures/subnet/fix_subnet.py'),
      ('fix_chosen / dump_chosen', 'mmrazor/models/mutables')],
     'runtime monitor: random supernets and pruned networks are exported, '
     'written, read and loaded while outputs and the full state of the '
     'supernet are compared before and after',
     NOTE)

prop('C04',
     'Searchable elements keep to their search space and to what they are fixed',
     'Every searchable element (value, channel count, operator choice, route) '
     'computes with its current choice, draws samples from its declared '
     'choices with the declared probabilities, and rejects a value or '
     'candidate outside of them without any effect. Fixing it keeps exactly '
     'the given choice and cannot be repeated, and its recorded choice used '
     'to fix an identical element gives the same computation. Under '
     'architecture parameters an operator or route computes the weighted or '
     'sampled combination they define, and is fixed only to its best '
     'candidate.',
     ['configurations', 'histories'],
     'all kinds of elements, all candidate sets and settings, all sequences '
     'of assignments, sampling, recording and fixing, legal or not',
     TESTS + '; they follow one or two fixed sequences on fixed candidates.',
     ['mmrazor/models/mutables/mutable_value/mutable_value.py',
      'mmrazor/models/mutables/mutable_channel',
      'mmrazor/models/mutables/mutable_module'],
     [('one-shot operators',
       'mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py'),
      ('differentiable operators and routes',
       'mmrazor/models/mutables/mutable_module/diff_mutable_module.py'),
      ('channel counts', 'mmrazor/models/mutables/mutable_channel')],
     'runtime monitor: random elements driven through random histories of '
     'legal and illegal operations beside an independent model of their state',
     NOTE)

prop('C05',
     'Derived choices always follow the choices they are derived from',
     'An element derived from others by expansion, division, concatenation, '
     'multiplication or a custom function always has the choice and the '
     'channel mask that follow from the current choices of its sources, '
     'however they were changed and however deeply it is nested. It knows '
     'exactly its sources, is fixed exactly when all of them are, cannot be '
     'set directly, and listing its possible choices changes nothing; in a '
     'copy of a model it follows the sources in the copy.',
     ['programs', 'histories'],
     'all expressions over searchable channel counts and values, all '
     'sequences of changes of their sources',
     TESTS + '; they check single expressions at a few choices.',
     ['mmrazor/models/mutables/derived_mutable.py',
      'mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py',
      'mmrazor/models/mutables/mutable_value/mutable_value.py'],
     [('derivation and tracing of sources',
       'mmrazor/models/mutables/derived_mutable.py')],
     'runtime monitor: random expressions over random sources, every read '
     'compared with an independent evaluation after random source changes',
     NOTE)

prop('C06',
     'A supernet searches every element once and runs the subnet that is set',
     'The search space of a supernet has every searchable element in exactly '
     'one group: elements with the same alias or in one user-defined group '
     'are searched together, all others apart, in the same way every time '
     'the network is built, and illegal groupings are rejected. Sampled, '
     'largest and smallest choices lie in the search space, and setting them '
     'makes the network report them and compute that subnet. Architecture '
     'parameters exist once per group, act on its members only and determine '
     'what is sampled.',
     ['programs', 'configurations', 'histories'],
     'all supernets of searchable operators, depths, kernels, channel counts, '
     'expansions and routes, all aliases and user-defined groups, all choices',
     TESTS + '; a wrong grouping shows only with particular mixes of aliases, '
     'user groups and element kinds.',
     ['mmrazor/models/mutators/group_mixin.py',
      'mmrazor/models/mutators/nas_mutator.py'],
     [('search groups', 'mmrazor/models/mutators/group_mixin.py'),
      ('choices and architecture parameters',
       'mmrazor/models/mutators/nas_mutator.py')],
     'runtime monitor: random supernets, the groups compared with an '
     'independent walk of the network and every set subnet with a reference '
     'forward from raw weights',
     NOTE + 'Derived elements have one searchable value behind them.')

prop('C07',
     'Channel unit choices are legal, take effect everywhere and can be '
     'recorded',
     'A channel unit keeps between one and all of its channels: a multiple of '
     'its divisor unless it is the full width, and one of its candidates '
     'where it has any, for random, smallest, largest and requested choices '
     'alike. What is set is what the unit reports and what every convolution, '
     'norm and linear layer of the unit applies; units that rank by magnitude '
     'keep the channels with the largest average weight magnitude, and a '
     'slimmable network gives every width its own normalization statistics. '
     'A recorded configuration gives the same units with the same choices in '
     'a fresh network, with or without tracing it, any number of times.',
     ['programs', 'configurations', 'histories'],
     'all widths, divisors, minima, candidates and modes of units, all '
     'networks, all sequences of choices',
     TESTS + '; they check a few widths that the divisor divides.',
     ['mmrazor/models/mutables/mutable_channel/units',
      'mmrazor/models/mutators/channel_mutator',
      'mmrazor/models/utils/make_divisible.py'],
     [('channel units', 'mmrazor/models/mutables/mutable_channel/units'),
      ('channel mutators', 'mmrazor/models/mutators/channel_mutator')],
     'runtime monitor: random units and mutators over random networks; every '
     'choice, member mask, ranking and rebuilt mutator compared with an '
     'independent computation',
     NOTE + 'Slimmable networks without concatenation; the autograd tracer '
     'without gates and nested concatenations.')

prop('C08',
     'Reported FLOPs and parameters are those of the network measured',
     'The resource estimate of a network is the sum, over every supported '
     'operator executed, of its documented cost per image, and of the '
     'parameters of these operators counted once, for every geometry, batch '
     'size, sharing and nesting of modules; a pruned network that is still '
     'searchable costs as many FLOPs as the network exported from it. Units, '
     'text form, disabled counters, selected modules and the input shape are '
     'those of the call, or else those of the estimator. Measuring, also when '
     'it fails, leaves parameters, buffers and hooks of the network as they '
     'were, so repeated estimates agree.',
     ['programs', 'configurations', 'fault_sequences'],
     'all networks of supported operators, input shapes, settings and '
     'sequences of (failing) measurements',
     TESTS + '; they compare the totals of one or two known networks.',
     ['mmrazor/models/task_modules/estimators'],
     [('estimator',
       'mmrazor/models/task_modules/estimators/resource_estimator.py'),
      ('counting',
       'mmrazor/models/task_modules/estimators/counters/'
       'flops_params_counter.py'),
      ('cost per operator',
       'mmrazor/models/task_modules/estimators/counters/op_counters')],
     'runtime monitor: independent forward hooks meter every operator call of '
     'random networks; every estimate is compared with the metered total and '
     'the network state before and after',
     NOTE + 'Latency needs CUDA: only the settings it gets are checked.')

prop('C09',
     'Evolution search keeps only valid candidates and ends with its best one',
     'In every epoch a search evaluates exactly the requested number of '
     'candidates, each as the subnet it stands for; apart from given initial '
     'ones all of them, and all offspring, are legal, satisfy the constraints '
     'and carry their own resources and score, and the best ones kept are the '
     'best of everything evaluated so far. Offspring stem from the best ones '
     'with the given probabilities, a predictor scores the subnet it is asked '
     'about, and every rank evaluates the same subnets. Each epoch is recorded '
     'so that a search interrupted anywhere goes on from its last epoch, only '
     'the requested number of records is kept, the exported result is the best '
     'candidate, and the weights of the supernet stay as they were.',
     ['histories', 'crash_points', 'configurations', 'inputs'],
     'all supernets, pool sizes, probabilities, constraints, score sequences, '
     'initial candidates and interruption points, one and two ranks',
     TESTS + '; the tests mock the model, the estimator and the evaluation, '
     'so nothing links a candidate with what is measured for it.',
     ['mmrazor/engine/runner/evolution_search_loop.py',
      'mmrazor/engine/runner/utils/genetic.py',
      'mmrazor/engine/runner/utils/check.py',
      'mmrazor/structures/subnet/candidate.py',
      'mmrazor/models/task_modules/predictor'],
     [('search loop', 'mmrazor/engine/runner/evolution_search_loop.py'),
      ('candidate list', 'mmrazor/structures/subnet/candidate.py'),
      ('metric predictor',
       'mmrazor/models/task_modules/predictor/metric_predictor.py')],
     'runtime monitor of real searches: an observing evaluator and epoch '
     'monitor, own recomputation of resources and outputs, model of the '
     'candidate list, offline comparison of two-process logs',
     NOTE + 'Scores have two decimals; constraints are satisfiable.')

prop('C10',
     'Recalibrated norm statistics are those of the subnet on the given data',
     'Recalibration gives every batch norm that the current subnet executes '
     'the average mean and unbiased variance of its inputs over exactly the '
     'requested number of samples, weighted by batch size and over all ranks, '
     'in the channels that are chosen. Everything else (other norms and '
     'channels, weights, hooks) stays as it was, whatever the format of the '
     'batches and the dimension of the norm. Subnet validation recalibrates '
     'for every subnet it is asked for (largest, smallest, random, fixed) and '
     'reports that subnet\'s own metrics and resources.',
     ['inputs', 'programs', 'schedules'],
     'all networks with batch norms, batch formats and sizes, sample numbers, '
     'subnets, one and two ranks',
     TESTS + '; the one test calibrates a single 2d norm on tensors that all '
     'fit.',
     ['mmrazor/engine/runner/utils/calibrate_bn_mixin.py',
      'mmrazor/engine/runner/subnet_val_loop.py'],
     [('calibration', 'mmrazor/engine/runner/utils/calibrate_bn_mixin.py'),
      ('subnet validation', 'mmrazor/engine/runner/subnet_val_loop.py')],
     'runtime monitor: the inputs of every norm observed in an own run and '
     'averaged in float64 against the calibrated buffers, state diff of the '
     'whole model, two-process runs',
     NOTE + 'Norms track running statistics and are not switchable.')

prop('C11',
     'Recorders capture exactly what happened and leave nothing behind',
     'While a recorder is active it records every completed call or module '
     'execution of its source, in order: the values actually passed (also by '
     'keyword) or returned, or the current value of a parameter. Results are '
     'found by record and data index, out of range requests are refused, and '
     'each window starts empty. Recorders sharing a source, inherited methods '
     'and nested windows do not disturb one another, and after a window, '
     'however it ends, or after one that could not start, every function, '
     'method and module is what it was.',
     ['programs', 'histories', 'fault_sequences', 'inputs'],
     'all sources and signatures, sets of recorders, call histories, nested '
     'windows and exceptions in or between them',
     TESTS + '; each recorder is tried alone on one call.',
     ['mmrazor/models/task_modules/recorder'],
     [('recorders', 'mmrazor/models/task_modules/recorder/base_recorder.py'),
      ('manager', 'mmrazor/models/task_modules/recorder/recorder_manager.py')],
     'runtime monitor: calls logged at the call sites of generated modules '
     'and by own hooks of real networks, compared with all record buffers; '
     'identity check of every attribute after each window',
     NOTE + 'Managers are left in the reverse order of entering.')

prop('C12',
     'Deliveries replay exactly the recorded results in order',
     'Outside of an overriding window a delivered function or method behaves '
     'as it always did and its results are queued up to the given length; in '
     'an overriding one it returns the queued results first in first out, '
     'without being executed. More results than the queue holds and calls '
     'without one pending are refused, several deliveries of one manager '
     'share the mode but keep their own queues, and after a window, however '
     'it ends, every source is what it was.',
     ['programs', 'histories', 'fault_sequences'],
     'all sources, queue lengths, histories of windows and calls, exceptions '
     'in or between calls',
     TESTS + '; each delivery is tried alone with one or two calls.',
     ['mmrazor/models/task_modules/delivery'],
     [('deliveries',
       'mmrazor/models/task_modules/delivery/function_outputs_deliver.py'),
      ('manager', 'mmrazor/models/task_modules/delivery/delivery_manager.py')],
     'runtime monitor: a queue model predicts result, execution and refusal of '
     'every call of generated modules; identity check of every attribute '
     'after each window',
     NOTE + 'A delivered source is not recorded in overriding windows.')

prop('C13',
     'Distillation compares the results asked for and trains only the student',
     'Every distillation loss is computed from exactly the student and '
     'teacher results its mapping names, passed through the named connectors, '
     'of the same batch; the total loss and the gradients are those of the '
     'student\'s own and the distillation losses, and losses are named '
     'apart. Stop epochs, deliveries, teacher evaluation mode, frozen '
     'teachers and teacher gradients follow the configuration, feature maps '
     'are not overwritten by in-place layers, and mappings without '
     'recorder or connector are refused. Data-free distillation alternates '
     'between generator and student, each moved only by its own loss, and '
     'overhaul distillation uses the margins of the teacher\'s norms.',
     ['programs', 'configurations', 'histories'],
     'all networks, recorders, connectors, mappings, flags and training '
     'histories',
     TESTS + '; losses are looked up by name, their inputs and gradients are '
     'not looked at.',
     ['mmrazor/models/distillers', 'mmrazor/models/algorithms/distill'],
     [('distiller', 'mmrazor/models/distillers/configurable_distiller.py'),
      ('algorithm', 'mmrazor/models/algorithms/distill/configurable/'
       'single_teacher_distill.py'),
      ('data free', 'mmrazor/models/algorithms/distill/configurable/'
       'datafree_distillation.py')],
     'runtime monitor: loss modules that trace their inputs, own hooks on the '
     'networks, a reference run that recomputes losses and gradients, state '
     'diffs across optimizer steps',
     NOTE + 'Mappings name results that the networks produce.')

prop('C14',
     'Distillation losses and connectors compute what they stand for',
     'Each distillation loss returns the value and student gradient of its '
     'published formula, with the temperature, reduction, weights, masks and '
     'resizing it is given, is zero for equal predictions where the formula '
     'is, stays finite for zero or equal features, and neither changes its '
     'inputs nor moves a teacher it detaches. The contrastive loss keeps its '
     'memory of normalised moving averages exactly, and draws negatives '
     'evenly. Connectors compute the layers they are configured as and leave '
     'the recorded features as they were; unknown settings are refused.',
     ['inputs', 'configurations', 'histories'],
     'all shapes, values, settings of the losses and connectors, and '
     'histories of the contrastive memory',
     TESTS + '; losses are only checked to be a scalar.',
     ['mmrazor/models/losses', 'mmrazor/models/architectures/connectors'],
     [('divergences', 'mmrazor/models/losses/kl_divergence.py'),
      ('decoupled', 'mmrazor/models/losses/decoupled_kd.py'),
      ('contrastive', 'mmrazor/models/losses/crd_loss.py'),
      ('connectors', 'mmrazor/models/architectures/connectors')],
     'runtime monitor: values, gradients and inputs of every call compared '
     'with independent float64 formulas; contrastive memory tracked by a '
     'model over histories',
     NOTE + 'Gradients are compared in double precision, away from kinks.')

prop('C15',
     'Supernet training runs and updates the subnets its rule prescribes',
     'One training step of AutoSlim and BigNAS runs the largest, the smallest '
     'and the configured number of random subnets on the same batch in train '
     'mode, the largest against the labels and the others against its '
     'detached outputs, with stochastic depth in the largest only; slimmable '
     'training runs every stored subnet against the labels and one-shot '
     'training one random legal path. Weights and pending gradients are then '
     'those of summing all these losses under the optimizer\'s accumulation '
     'settings, plain or wrapped for distributed training, and every loss is '
     'logged under its subnet. Norm layers stay frozen exactly when asked.',
     ['programs', 'configurations', 'histories'],
     'all supernets, losses, optimizers, accumulation settings and training '
     'histories',
     TESTS + '; train steps only have to run, and the subnets, losses and '
     'updates are not looked at.',
     ['mmrazor/models/algorithms/nas', 'mmrazor/models/algorithms/pruning'],
     [('autoslim', 'mmrazor/models/algorithms/nas/autoslim.py'),
      ('bignas', 'mmrazor/models/algorithms/nas/bignas.py'),
      ('slimmable', 'mmrazor/models/algorithms/pruning/slimmable_network.py'),
      ('one shot', 'mmrazor/models/algorithms/nas/spos.py'),
      ('accumulation', 'mmrazor/models/utils/optim_wrapper.py')],
     'runtime monitor: every execution of the supernet is observed (subnet, '
     'batch, mode, drop path); losses, weights and gradients compared with a '
     'reference training of a twin',
     NOTE + 'The wrapper runs in a process group of one rank.')

prop('C16',
     'Differentiable search trains weights and architecture from their data',
     'In a DARTS step the architecture parameters move by the gradient of the '
     'validation loss alone, to second order through one virtual weight '
     'step when unrolled, and the weights by that of the training loss alone, '
     'under the optimizer and accumulation of each. In DSNAS the weights '
     'train on the sampled operators, the architecture parameters move only '
     'between the pretraining and finetuning epochs, by the policy gradient '
     'weighted with each operator\'s reward and with the resource loss while '
     'the limit is exceeded, and operators become fixed by the threshold or, '
     'also after resuming, in the finetuning epochs. Groups share '
     'one parameter, and plain and distributed wrappers behave alike.',
     ['programs', 'configurations', 'histories'],
     'all supernets of differentiable operators, groups, optimizers, '
     'accumulation and epoch settings, and training histories',
     TESTS + '; train steps only have to run, and the parameters of the '
     'optimizers in them are not the architecture\'s.',
     ['mmrazor/models/algorithms/nas', 'mmrazor/models/mutables',
      'mmrazor/engine/optimizers'],
     [('darts', 'mmrazor/models/algorithms/nas/darts.py'),
      ('dsnas', 'mmrazor/models/algorithms/nas/dsnas.py'),
      ('operators',
       'mmrazor/models/mutables/mutable_module/diff_mutable_module.py'),
      ('optimizers', 'mmrazor/engine/optimizers/optimizer_constructor.py')],
     'runtime monitor: weights, architecture parameters, pending gradients '
     'and losses after every step compared with an independent training of a '
     'twin in double precision; executions observed by hooks',
     NOTE + 'The wrapper runs in a process group of one rank.')

prop('C17',
     'Iterative pruning keeps its schedule, also resumed, and exports its model',
     'During training, iteration or epoch based, the pruned units follow the '
     'configured schedule exactly: at every step the number of channels of '
     'each target unit is the interpolation between the start and the target '
     '(or the target at once), nothing else changes in between or in '
     'validation, untargeted units stay, and the target is reached; a run '
     'resumed from a checkpoint at any iteration continues the same schedule. '
     'DCFF keeps the filters of highest KL importance, as softmax proxies '
     'with the temperature of the iteration, and runs exactly those fused '
     'filters, for every kernel shape, depthwise or concatenated input, also '
     'after resuming. The network saved by its validation loop, read by the '
     'shipped kind of config, computes what the trained one computes.',
     ['histories', 'crash_points', 'configurations'],
     'all networks, targets, frequencies, numbers of prunings, loops and '
     'interruption points',
     TESTS + '; resuming and the values of the fusion are not looked at.',
     ['mmrazor/models/algorithms/pruning', 'mmrazor/engine/runner',
      'mmrazor/models/architectures/dynamic_ops/mixins'],
     [('schedule',
       'mmrazor/models/algorithms/pruning/ite_prune_algorithm.py'),
      ('fusion schedule', 'mmrazor/models/algorithms/pruning/dcff.py'),
      ('fusion', 'mmrazor/models/architectures/dynamic_ops/mixins/'
       'dynamic_conv_mixins.py'),
      ('export', 'mmrazor/engine/runner/iteprune_val_loop.py')],
     'runtime monitor: the structure of every execution, in a driven loop and '
     'in the real runner killed and resumed, against a reference schedule; '
     'fused filters recomputed in double precision',
     NOTE)

prop('C18',
     'Fisher pruning removes the channel of least importance, and exports',
     'In GroupFisher training the importance of every channel is the squared '
     'sum, over all layers which read it (concatenated, flattened, depthwise, '
     'shared or linear ones included), of the gradients of a mask on it, '
     'accumulated over the batches since the last pruning and normalized by '
     'what the channel costs; exactly at the interval exactly one channel, '
     'the least important of the network, is removed, never the last one of '
     'a layer and never to return. Resumed runs continue this, distributed '
     'ranks train with the mean gradient and prune the same channels. The '
     'exported and the deployed network compute what the pruned one does, '
     'and checkpoints are saved when the resource falls below the thresholds.',
     ['histories', 'programs', 'configurations', 'crash_points'],
     'all networks, normalizations, intervals, losses and interruption points',
     TESTS + '; no importance is compared to a reference and no gradient '
     'between ranks.',
     ['mmrazor/implementations/pruning/group_fisher'],
     [('importance', 'mmrazor/implementations/pruning/group_fisher/unit.py'),
      ('pruning', 'mmrazor/implementations/pruning/group_fisher/mutator.py'),
      ('recording', 'mmrazor/implementations/pruning/group_fisher/ops.py'),
      ('export', 'mmrazor/implementations/pruning/group_fisher/'
       'prune_sub_model.py'),
      ('thresholds', 'mmrazor/implementations/pruning/group_fisher/hook.py')],
     'runtime monitor: every pruning of an execution against the gradients of '
     'masks on a twin of the model; two real gloo processes against a single '
     'reference; export chain and runner hook executed',
     NOTE)

prop('C19',
     'DMCP samples, trains and exports the widths its parameters describe',
     'In DMCP a subnet has the widths of its kind: all channels, the minimum, '
     'uniformly random ones, ones drawn with the Markov probabilities of the '
     'architecture parameters, or (rounded) the expected ones, and its FLOPs '
     'are those of exactly these widths. A training step runs and '
     'distills the subnets of the strategy, scales normalized channels by '
     'their probability once parameters are trained, steps each optimizer '
     'with gradients of its own losses only, and pulls the expected FLOPs to '
     'the target; distributed ranks keep identical parameters. At the end the '
     'exported subnets meet the target, and each can be built as a plain '
     'model computing what the supernet does at these widths.',
     ['histories', 'inputs', 'configurations'],
     'all networks, group sizes, strategies, parameters, losses and steps',
     TESTS + '; no value of a loss, width or FLOPs is compared to a reference.',
     ['mmrazor/models/algorithms/pruning/dmcp.py',
      'mmrazor/models/mutators/channel_mutator/dmcp_channel_mutator.py',
      'mmrazor/engine/hooks/dmcp_subnet_hook.py'],
     [('training', 'mmrazor/models/algorithms/pruning/dmcp.py'),
      ('sampling',
       'mmrazor/models/mutators/channel_mutator/dmcp_channel_mutator.py'),
      ('scaling', 'mmrazor/models/architectures/dynamic_ops/bricks/'
       'dynamic_norm.py'),
      ('export', 'mmrazor/engine/hooks/dmcp_subnet_hook.py'),
      ('expected FLOPs', 'mmrazor/models/task_modules/estimators/counters/'
       'op_counters/conv_layer_counter.py')],
     'runtime monitor: every execution of training steps repeated on a twin '
     'scaled by own hooks, widths against their distribution, real gloo '
     'ranks compared, exported subnets rebuilt and run',
     NOTE)

prop('C20',
     'SparseGPT prunes what costs least and compensates for it',
     'Calibrating collects exactly the second moment of what each converted '
     'layer reads between hook registration and removal (any stride, padding, '
     'dilation, batch layout, all ranks together) and changes nothing. Pruning '
     'then zeroes in each block the asked-for fraction, or n of each m '
     'weights, of least second-order cost and moves the later weights by the '
     'optimal (least squares) compensation. A layer reported as failed and '
     'everything not converted stay as they were, all ranks get the same '
     'weights, and the static model is made of ordinary layers computing the '
     'same.',
     ['inputs', 'configurations'],
     'all layers, calibration data, sparsities, patterns and block sizes',
     TESTS + '; they only print the distance.',
     ['mmrazor/implementations/pruning/sparse_gpt'],
     [('hessian, pruning', 'mmrazor/implementations/pruning/sparse_gpt/ops.py'),
      ('compressor',
       'mmrazor/implementations/pruning/sparse_gpt/compressor.py')],
     'runtime monitor: weights of executions followed column by column with '
     'inverses of trailing hessians in float64, own im2col, real gloo ranks',
     NOTE)

prop('C21',
     'GPTQ rounds weights to the grid of their group and compensates',
     'The quantizer maps every value of its range to the nearest of its '
     '2^bits levels (symmetric or not, per channel or not, the shrunken range '
     'of least error on request), for weights and activations of any layout, '
     'without changing them. Quantizing a calibrated layer puts each weight '
     'on the grid of its group and moves the later ones by the least squares '
     'compensation, in the order of the columns or of their activations, all '
     'ranks alike; the packed form holds exactly these weights. Skipped and '
     'failed layers stay as they were, and the static model computes the same.',
     ['inputs', 'configurations'],
     'all layers, calibration data, bits, groups, orders and block sizes',
     TESTS + '; they need a GPU and only print the distance.',
     ['mmrazor/implementations/quantization/gptq'],
     [('algorithm', 'mmrazor/implementations/quantization/gptq/gptq.py'),
      ('quantizer', 'mmrazor/implementations/quantization/gptq/quantizer.py'),
      ('layers', 'mmrazor/implementations/quantization/gptq/ops.py')],
     'runtime monitor: weights of executions followed column by column with '
     'own grids and inverses in float64, packed words unpacked by own bit '
     'operations, real gloo ranks',
     NOTE)

prop('C22',
     'Learned quantization observes, rounds and learns by its formulas',
     'LSQ observers give scale and zero point of the statistics seen (per '
     'tensor and per channel, all dtypes and schemes, over all ranks), and '
     'LearnableFakeQuantize rounds to exactly that grid, with the gradients '
     'of the learned step size in each of its modes; switches, checkpoints of '
     'any shape and the values handed to deployment survive every history of '
     'calls. A quantization config is read into exactly the dtypes, ranges, '
     'schemes, observers and fake quantizers it states, and an inconsistent '
     'one is refused.',
     ['inputs', 'histories', 'configurations'],
     'all tensors, schemes, switch histories and configurations',
     TESTS,
     ['mmrazor/models/observers/lsq.py', 'mmrazor/models/fake_quants/lsq.py',
      'mmrazor/structures/quantization'],
     [('observers', 'mmrazor/models/observers/lsq.py'),
      ('fake quantizer', 'mmrazor/models/fake_quants/lsq.py'),
      ('config', 'mmrazor/structures/quantization/qconfig.py')],
     'runtime monitor: outputs, gradients and state of executions against '
     'own formulas in float64 and a model of the switches, real gloo ranks',
     NOTE)

prop('C23',
     'Quantized graphs compute, deploy, synchronise and train as stated',
     'A traced graph computes what the model does in every mode and for every '
     'input (reused layers, untraced methods), and exactly the fake '
     'quantizers matched by a pattern, or called redundant by a back end or '
     'its user, are deleted. Deployed layers are plain ones with the rounded, '
     'folded weights; ONNX graphs exported for OpenVINO and TensorRT quantize '
     'at the same places with the same ranges and compute the same; '
     'parameters of all modes are synchronised. QAT, LSQ and PTQ loops throw each switch in the stated '
     'epoch or iteration, also when resumed, save checkpoints ready to '
     'evaluate and report the metrics of both models.',
     ['inputs', 'configurations', 'crash_points'],
     'all models, insertion places, patterns, loop settings and interruptions',
     TESTS + '; most of them are skipped with this torch.',
     ['mmrazor/models/task_modules/tracer', 'mmrazor/models/quantizers',
      'mmrazor/models/algorithms/quantization',
      'mmrazor/engine/runner/quantization_loops.py'],
     [('tracer', 'mmrazor/models/task_modules/tracer/fx/custom_tracer.py'),
      ('deletion', 'mmrazor/models/task_modules/tracer/fx/graph_utils.py'),
      ('deployment', 'mmrazor/models/quantizers/native_quantizer.py'),
      ('synchronisation',
       'mmrazor/models/algorithms/quantization/mm_architecture.py'),
      ('loops', 'mmrazor/engine/runner/quantization_loops.py')],
     'runtime monitor: executions of graphs compared to the eager model, own '
     'folding and rounding in float64, switches and parameters observed by '
     'hooks at every iteration of real runners, resumed twins, gloo ranks',
     NOTE)

prop('C24',
     'Widening a network keeps what it computes',
     'Making a model expandable changes nothing; widening any units by any '
     'numbers of channels (step by step, by a structure, or up to a multiple '
     'of a divisor) gives plain layers of exactly the widths asked for in '
     'which every old weight and statistic is in its place and new weights '
     'are zero or fresh as asked. Widened by zeros the model computes the '
     'same outputs, with fresh weights its old part does, and it can be '
     'widened again; deployed pruned models become divisible without '
     'changing, and what cannot be widened is refused.',
     ['inputs', 'configurations'],
     'all networks, units, numbers of channels and divisors',
     TESTS + '; three fixed models, in training mode.',
     ['mmrazor/models/utils/expandable_utils',
      'mmrazor/implementations/pruning/group_fisher'],
     [('operators', 'mmrazor/models/utils/expandable_utils/ops.py'),
      ('units', 'mmrazor/models/utils/expandable_utils/unit.py'),
      ('tools', 'mmrazor/models/utils/expandable_utils/tools.py'),
      ('deployment',
       'mmrazor/implementations/pruning/group_fisher/prune_deploy_sub_model.py'
       )],
     'runtime monitor: executions of widened networks against the original '
     'and against an own layout of old and new channels propagated through '
     'the graph',
     NOTE)

prop('C25',
     'Contrastive samples and augmentations are what they state',
     'For every labelling each sample read through the contrastive dataset '
     'comes with its own index, itself (or one of its class) as positive and '
     'the asked-for number of indices of other classes, without repetition '
     'where enough remain, from the asked-for percentage; packing keeps '
     'image, label, indices and metainfo of each sample, refetched samples '
     'and data loaders included. Every augmentation applies its operation of '
     'the drawn magnitude, sign, interpolation and fill to the listed images '
     'with its probability and leaves everything else alone.',
     ['inputs', 'configurations', 'fault_sequences'],
     'all labellings, options, failing samples, images and magnitudes',
     TESTS + '; they read no sample and apply no augmentation.',
     ['mmrazor/datasets'],
     [('dataset', 'mmrazor/datasets/crd_dataset_wrapper.py'),
      ('packing', 'mmrazor/datasets/transforms/formatting.py'),
      ('augmentations', 'mmrazor/datasets/transforms/auto_augment.py'),
      ('policies', 'mmrazor/datasets/transforms/auto_augmentv2.py')],
     'runtime monitor: every sample, and what the pipeline was given, against '
     'the labels; images against own operations; fractions of applications '
     'within five standard deviations',
     NOTE)

prop('C26',
     'Supernets are fed, trained, validated and searched as the loops state',
     'Each DARTS iteration gets one batch of every loader, each in complete '
     'passes of its own sampler (epochs end with the shorter loader, resumed '
     'ones continue alike), with the stated counters, hooks and validation '
     'times. The greedy sampler trains, in training mode, one by one the '
     'top-k of all scored candidates, drawn from the pool with the scheduled '
     'probability and inside the constraints, and slimmable validation '
     'reports every subnet; the AutoSlim search takes in each step the best '
     'of all single reductions until each target is met, finding and saving '
     'the same subnets when resumed after a crash at any point.',
     ['schedules', 'crash_points', 'inputs', 'configurations'],
     'all loader lengths, samplers, schedules, pools, targets and crashes',
     TESTS + '; they use loaders of equal length, one mocked subnet and one '
     'target.',
     ['mmrazor/engine/runner'],
     [('two loaders', 'mmrazor/engine/runner/darts_loop.py'),
      ('greedy sampler', 'mmrazor/engine/runner/subnet_sampler_loop.py'),
      ('slimmable validation', 'mmrazor/engine/runner/slimmable_val_loop.py'),
      ('AutoSlim search',
       'mmrazor/engine/runner/autoslim_greedy_search_loop.py')],
     'runtime monitor: the delivered batches against own samplers; every '
     'scored and trained subnet against twins with the same weights and an '
     'own greedy search, restarted from every saved state',
     NOTE)

prop('C27',
     'Graphs, channel sets and traced data flow are exact',
     'Graphs hold exactly the nodes and edges that were added, connected, '
     'disconnected, bridged by deletion or copied, in both directions, and '
     'are traversed in topological order; united channels, through '
     'concatenation, slices and expansion, form exactly the sets the unions '
     'imply; ranges never overlap and stay sorted. Both tracers turn a model '
     'into a graph in which every convolution, linear layer and norm gets its '
     'input from exactly the layers it comes from when the model runs, and '
     'leave weights, statistics, gradients and hooks of the model alone.',
     ['inputs', 'histories', 'programs'],
     'all operation sequences and all networks of supported operators',
     TESTS + '; the graph tests are commented out.',
     ['mmrazor/structures/graph', 'mmrazor/utils/index_dict.py',
      'mmrazor/models/task_modules/tracer'],
     [('graph', 'mmrazor/structures/graph/base_graph.py'),
      ('channel sets', 'mmrazor/structures/graph/channel_flow.py'),
      ('ranges', 'mmrazor/utils/index_dict.py'),
      ('module graph', 'mmrazor/structures/graph/module_graph.py'),
      ('autograd tracer',
       'mmrazor/models/task_modules/tracer/backward_tracer.py'),
      ('fx tracer', 'mmrazor/models/task_modules/tracer/fx_tracer.py')],
     'runtime monitor: the state after every operation against a plain model; '
     'traced graphs against the definition of the network and, fx graphs, '
     'executed against the model',
     NOTE)

prop('C28',
     'Hooks, part optimizers and converters do what they report',
     'Subnets are dumped and resources estimated at exactly the configured '
     'epochs, iterations and validations, in the configured place, keep '
     'number and stage, are loadable and right (the best choice of a '
     'differentiable search), and, like drawn feature maps, leave the trained '
     'model untouched; optimizers of parts hold exactly the parameters and '
     'options of their part. The conversion, publishing and pruning scripts '
     'keep every value, key, meta entry and log they promise, and turn the '
     'given checkpoint into a network that computes what the subnet of the '
     'trained model computes; the latest checkpoint is the numerically '
     'latest, and reported progress is that of the runner.',
     ['schedules', 'inputs', 'configurations'],
     'all intervals, stages, part configurations, key names and checkpoints',
     TESTS + '; most of these hooks and all of the scripts have no test.',
     ['mmrazor/engine/hooks', 'mmrazor/engine/optimizers',
      'tools/model_converters', 'tools/pruning', 'mmrazor/visualization',
      'mmrazor/utils'],
     [('dumping', 'mmrazor/engine/hooks/dump_subnet_hook.py'),
      ('estimating', 'mmrazor/engine/hooks/estimate_resources_hook.py'),
      ('drawing', 'mmrazor/engine/hooks/visualization_hook.py'),
      ('part optimizers', 'mmrazor/engine/optimizers/'
       'optimizer_constructor.py'),
      ('subnet of a supernet',
       'tools/model_converters/convert_supernet2subnet.py'),
      ('publishing', 'tools/model_converters/publish_model.py'),
      ('static model', 'tools/pruning/get_static_model_from_algorithm.py'),
      ('latest checkpoint', 'mmrazor/utils/misc.py')],
     'runtime monitor: observers before and after every hook on real '
     'training runs, the real scripts on generated checkpoints, outputs '
     'against own conversions and against the trained network',
     NOTE)

prop('C29',
     'Ranks train one model on the mean of everybody\'s data',
     'With the wrappers for distributed training (sandwich rules, '
     'differentiable search with and without unrolling, one-hot search) and '
     'with the usual wrapper (one-shot search, distillation), every rank '
     'holds the same weights and architecture parameters after every update, '
     'also when ranks train random paths of their own. Every update is the '
     'one that the mean of the losses of all ranks gives the unwrapped '
     'algorithm, and differentiable search ends with one architecture on all '
     'ranks.',
     ['schedules', 'inputs', 'configurations'],
     'all supernets, batches per rank, paths, optimizers and accumulations '
     'over passes that reach the same parameters',
     TESTS + '; no test runs a training step on more than one rank.',
     ['mmrazor/models/algorithms/nas', 'mmrazor/models/algorithms/pruning',
      'mmrazor/models/algorithms/distill'],
     [('sandwich rule', 'mmrazor/models/algorithms/nas/autoslim.py'),
      ('drop path and depth', 'mmrazor/models/algorithms/nas/bignas.py'),
      ('slimmable subnets',
       'mmrazor/models/algorithms/pruning/slimmable_network.py'),
      ('two levels and unrolling', 'mmrazor/models/algorithms/nas/darts.py'),
      ('policy gradient and fixing',
       'mmrazor/models/algorithms/nas/dsnas.py')],
     'runtime monitor: two or three real ranks of a process group, compared '
     'with each other and with a reference training on all batches after '
     'every update',
     NOTE)
