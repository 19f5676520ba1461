"""writes properties.jsonl"""
import json, os
P = []
S = 'neuro_shooting/state_costate_and_data_dictionary_utils.py'
I = 'neuro_shooting/shooting_integrands.py'
M = 'neuro_shooting/shooting_models.py'
B = 'neuro_shooting/shooting_blocks.py'
G = 'neuro_shooting/generic_integrator.py'
O = 'neuro_shooting/overwrite_classes.py'


def p(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))


p('C01', 'Packing into one vector and unpacking are inverse',
  'Packing groups of named blocks of tensors (states, costates, data) into one vector and unpacking that vector with the plan produced alongside gives back the same blocks, names, shapes and values, in order, with every number used exactly once, and gradients pass through unchanged. A vector with a leading time axis unpacks the same way at every time. Unpacking without any plan, or packing a block that is not a sorted dictionary, is refused.',
  ['inputs'], 'any number of blocks per group, entries per block, tensor shapes and values, with and without a leading time axis',
  'the tests round-trip one or two fixed dictionaries; an offset error only shows for particular numbers, shapes and orders of blocks',
  [S, I], [('assemble / disassemble of dictionaries', S + ': assemble_generic_dict, disassemble_generic_dict, assemble_tensor, disassemble_tensor'), ('integrand wrappers', I + ': assemble_tensor, disassemble_tensor')],
  ['return values of pack and unpack'])
p('C02', 'Joining blocks along the feature dimension and splitting are inverse',
  'Joining the blocks of a group entry by entry along a chosen dimension and then splitting by the shapes of the original blocks returns exactly the original blocks, for every dimension from 0 to 4. Joining puts the blocks one after the other in key order and keeps the entry names of the first block. A later block that brings an entry the first one lacks, shapes that do not fit, and splitting along a dimension above 4 are refused.',
  ['inputs'], 'any number of blocks and entries, any shapes that agree outside the joining dimension, dimensions 0 to 4',
  'tests use one dimension and one or two blocks; running offsets per entry matter only for several blocks of different width',
  [S], [('join', S + ': _concatenate_dict_of_dicts, _concatenate_named_dict_of_dicts_keeping_structure'), ('split', S + ': _deconcatenate_based_on_generic_dict_of_dicts')], ['joined and split dictionaries'])
p('C03', 'Merging a block into a group is an exact union that leaves its inputs alone',
  'Merging a new named block with handed-over blocks yields exactly the handed-over blocks plus the new one under its name, or just one side when the other is absent. A name that is already taken is refused. The handed-over blocks are never modified and later changes of the result do not reach them.',
  ['inputs', 'histories'], 'any handed-over group, any new block (possibly absent), any name',
  'tests never merge with a clashing name or look at the inputs afterwards',
  [S], [('merge', S + ': _merge_state_costate_or_data_dict_with_generic_dict_of_dicts')], ['merged dictionary', 'inputs after the call'])
p('C04', 'Tuples of derivatives are put back under the right names',
  'Flattening named states, costates or layer parameters into the tuple handed to differentiation lists every entry exactly once, in order. Naming the tuple that comes back puts its i-th element, unchanged, under the name (prefixed as asked) of the i-th entry, within the block or layer it came from. So no entry is dropped, duplicated or shifted, for any number of blocks, entries and layers.',
  ['inputs'], 'any number of blocks, entries and layers, any prefix',
  'mispairing of equally shaped tensors is invisible for the symmetric examples in the tests',
  [S], [('tuples', S + ': compute_tuple_from_generic_dict_of_dicts, extract_dict_of_dicts_from_tuple_based_on_generic_dict_of_dicts, compute_tuple_from_parameter_objects, extract_dict_from_tuple_based_on_parameter_objects')], ['named dictionaries'])
p('C05', 'Each nonlinearity comes with its own derivative',
  'Selecting a nonlinearity by name returns the named function together with the function that computes exactly its derivative everywhere it is differentiable, without modifying the argument. An unknown name is refused.',
  ['inputs'], 'every supported name (in any letter case accepted) and every real argument',
  'tests exercise two or three names through end-to-end runs that do not use the derivative',
  ['neuro_shooting/activation_functions_and_derivatives.py'], [('selection', 'activation_functions_and_derivatives.py: get_nonlinearity and the functions it returns')], ['returned pair of functions'])
p('C06', 'Hamiltonian structure: parameters stationary, costates follow the Lagrangian',
  'The Lagrangian equals the weighted kinetic energy of the parameters minus the pairing of costates with the state equation averaged over particles. The computed parameters make it stationary, weights included. The costate derivative equals the number of particles times the derivative of the Lagrangian with these parameters substituted, with respect to the state.',
  ['inputs', 'configurations'], 'any model, particle states, costates, weights and number of blocks',
  'the tests compare a few trajectories and cannot see errors that cancel or vanish for default weights',
  [I], [('energies', I + ': compute_potential_energy, compute_kinetic_energy, compute_lagrangian, compute_reduced_lagrangian'), ('parameters', I + ': compute_parameters_directly, divide_and_store_in_parameter_objects, compute_parameters_iteratively'), ('costate', I + ': rhs_advect_costate_reduced_dict_of_dicts')], ['energies, parameters, costate derivatives'])
p('C07', 'Hand-written shooting equations equal the automatically derived ones',
  'For every model that comes with hand-written parameter and costate equations these agree with the automatically derived ones, for all states, costates, nonlinearities, inflation factors and parameter weights.',
  ['inputs', 'configurations'], 'all 8 models with analytic equations, all their configurations, all states and costates',
  'the tests compare them for some models at one random point with default weights',
  [M, I], [('analytic equations', M + ': optional_compute_parameters_analytic, optional_rhs_advect_costate_analytic of each model'), ('switch', I + ': compute_gradients_analytic')], ['parameters and costate derivatives of both modes'])
p('C08', 'The vector field matches the vector layout and moves data like particles',
  'Evaluating the right hand side returns a vector of the same layout as its input in which the derivative of every entry sits where the entry sits; data move under the same equation and parameters as the particles, so data placed at the particles follow them and more data never change the motion of others. Evaluations leave the input and earlier results untouched and do not depend on earlier evaluations, and working on transposed states gives the transposed result. In recurrent mode the parameters of the first evaluation are kept until the reset.',
  ['inputs', 'histories', 'configurations'], 'any model, any number of blocks, particles and data points, any sequence of evaluations',
  'tests only look at final trajectories of single blocks',
  [I, S], [('evaluation', I + ': forward, compute_gradients, compute_gradients_autodiff, compute_gradients_analytic, rhs_advect_state_dict_of_dicts, rhs_advect_data_dict_of_dicts, reset'), ('transposition', I + ': transpose_state, transpose_state_dict_of_dicts')], ['vector field'])
p('C09', 'Checkpointed integration visits the requested times and changes nothing',
  'Checkpoint intervals cover the time span without gap or overlap, hit every requested time and flag for output each requested time exactly once and no checkpoint that was not requested. Integrating with checkpoints returns the same values at the same times, and the same gradients, as integrating without. Contradictory or missing checkpoint settings and unknown integrators are refused, and explicit options are passed on unchanged.',
  ['inputs', 'configurations'], 'any increasing times, any number of checkpoints or checkpoint distance, any integrator',
  'the merge of two time grids only fails for particular coincidences of grid points which the tests do not contain',
  [G], [('intervals', G + ': create_integration_time_intervals'), ('integration', G + ': integrate, _integrate_checkpointed, _integrate_direct, _integrate_odeint'), ('options', G + ': GenericIntegrator.__init__')], ['intervals and flags', 'integration result'])
p('C10', 'Time-dependent parameters: the slot in force at the requested time',
  'In time-dependent mode the parameters returned for a time are those of the last slot starting at or before it, the first slot before the start and the last slot after the end. The answer depends only on the time, not on the lookups made before. Every slot is created once, registered for optimisation and used by the flow during its time.',
  ['inputs', 'histories'], 'any number of slots, time span and sequence of requested times',
  'the lookup caches its last position; only some sequences of times expose a wrong search',
  [B, I], [('lookup', B + ': ParticleFreeParameterFunc.get_parameters_at_time'), ('registration', B + ': register_particle_free_parameters'), ('use', I + ': compute_gradients_autodiff, compute_reduced_lagrangian')], ['returned parameters'])
p('C11', 'Striding keeps every stride-th entry and nothing else',
  'Striding with stride s keeps, along each chosen dimension and in order, the entries at offset (size modulo s), offset+s, offset+2s, ..., and leaves all other dimensions, names and blocks as they are; data with extra leading dimensions are strided along the corresponding shifted dimensions. Striding batch or channel dimensions, dimensions that do not exist or numbers of strides and dimensions that differ are refused. The inputs are not modified.',
  ['inputs', 'configurations'], 'any stride, any set of dimensions, any sizes and blocks',
  'tests use stride 2 on one image size',
  ['neuro_shooting/striding_block.py'], [('striding', 'striding_block.py: ShootingStridingBlock.__init__, forward, _stride_tensor_single_dimension')], ['strided dictionaries'])
p('C12', 'Enlarged handed-over states keep their values in the centre',
  'When handed-over states are smaller than the states of a block they are enlarged to the size of the block (keeping their channels), with the original values in the centre - the smaller half of an odd surplus at the beginning - and every new border value taken from exactly one newly registered parameter, separately for every handed-over block. Nothing changes if the sizes already agree, larger states are refused, and later passes reuse the same parameters. If new states are to stay zero the state border values are zero and not optimised.',
  ['inputs', 'configurations', 'histories'], 'any sizes and surpluses per dimension, any number of handed-over blocks',
  'tests enlarge one block of one size and only count parameters',
  [B], [('sizes', B + ': _create_generic_dict_of_dicts_enlargement_parameters, _create_raw_enlargement_parameters'), ('growing', B + ': _enlarge_tensor, _enlarge_generic_dict_of_dicts'), ('registration', B + ': register_pass_through_state_and_costate_enlargement_parameters')], ['enlarged states', 'registered parameters'])
p('C13', 'Layers with external parameters compute what the standard layers compute',
  'The linear, convolutional and normalisation layers whose parameters are supplied from outside compute the same function as the corresponding standard layer with these parameters, for every option including missing bias and padding modes, with gradients reaching the supplied parameters. They own no parameters themselves; each parameter has the weight of the layer unless set individually, and setting a weight for an unknown parameter is refused.',
  ['inputs', 'configurations'], 'all layer options, shapes and parameter values',
  'tests use a single configuration of each layer',
  [O], [('layers', O + ': SNN_Linear, SNN_Conv2d, SNN_GroupNorm, SNN_LinearDampening'), ('bookkeeping', O + ': RemoveParameters')], ['layer output', 'parameter and weight dictionaries'])
p('C14', 'The norm penalty is the kinetic energy at the start of the current pass',
  'After a pass that starts at time zero the norm penalty is the weighted kinetic energy of the parameters at time zero, or its average over the time slots when the parameters are optimised directly, and is differentiable. Evaluations at other times never change it. A new pass starts without penalty, so a pass that never visits time zero reports none instead of an old one.',
  ['inputs', 'histories', 'configurations'], 'any model, weights, parameter mode and sequence of evaluations and passes',
  'no test reads the penalty',
  [I, B], [('penalty', I + ': compute_gradients_autodiff, compute_gradients_analytic, reset, get_norm_penalty'), ('forward', B + ': forward, get_norm_penalty')], ['get_norm_penalty()'])
p('C15', 'Parameter sweeps run every combination exactly once with the right arguments',
  'A sweep yields every combination of the listed values exactly once, first parameter slowest, independent of sweeps made before and without modifying its input. Command lines carry every setting: switches that are on appear without value, switches that are off are left out, and the template stays unmodified. Every combination and seed is started once in an output directory of its own, unless its result is already there.',
  ['inputs', 'histories'], 'any parameters and values to sweep, any template, any sequence of sweeps',
  'no test covers the experiment tools',
  ['neuro_shooting/command_line_execution_tools.py', 'neuro_shooting/experiment_utils.py'], [('sweep', 'command_line_execution_tools.py: recursively_sweep_parameters, _make_arg_list'), ('experiments', 'experiment_utils.py: merge_args, create_experiment_name, sweep_parameters')], ['list of settings', 'commands started'])
p('C16', 'The plateau scheduler reduces the learning rate exactly when it should',
  'The learning rates are multiplied by the factor, but not below their lower bounds and only if the change exceeds the minimal change, exactly when more than the allowed number of consecutive steps outside the cool-down showed no improvement beyond the threshold in the chosen sense; improvement is then judged afresh. Convergence is reported from the first time some rate could not be reduced any further. Saving and loading the state does not change what follows, and invalid options are refused.',
  ['inputs', 'histories', 'configurations'], 'any sequence of metrics and any options',
  'no test covers the scheduler, and patience, cool-down and thresholds interact over whole histories',
  ['neuro_shooting/custom_lr_scheduler.py'], [('scheduler', 'custom_lr_scheduler.py: CustomReduceLROnPlateau.step, _reduce_lr, _cmp, state_dict, load_state_dict')], ['learning rates', 'convergence flag'])
p('C17', 'Initial particles and costates have the requested sizes and values',
  'Initial parameters have exactly the requested shape and are zero, constant or random with the requested magnitude (around the sample batch if there is one) as asked; asking for both zero and constant is refused, as is an unsuitable particle size. Every state gets one costate of the same shape under its own name with a prefix. Pass-through configurations create none.',
  ['inputs', 'configurations'], 'all sizes, magnitudes, initialisation modes and models',
  'random initialisation is only used implicitly by the tests',
  ['neuro_shooting/parameter_initialization.py', I, M], [('initialisers', 'parameter_initialization.py: create_parameters, create_parameters_like, create_parameters_of_size'), ('states and costates', I + ': create_initial_state_parameters_if_needed, create_initial_costate_parameters; ' + M + ': create_initial_state_parameters')], ['created parameters'])
p('C18', 'A block transports particles and data together, chains and reports all times',
  'A forward pass integrates the particles, costates and data from time zero to the end time and returns the data position and all final quantities under the name of the block; it leaves inputs and parameters unchanged and repeats exactly. Handing the result to a further block continues the flow: a block without own particles continues it as one longer integration, a block with own particles joins all blocks in key order with new data channels starting at zero. With a vector of output times the same holds at every time, time being the leading dimension; incomplete or contradictory inputs, and asking for parameters before the first pass, are refused.',
  ['inputs', 'configurations', 'histories'], 'any model, data, integration time or vector of times, chain of blocks',
  'tests chain blocks in one configuration and check sizes only',
  [B, S, I], [('forward', B + ': forward, _get_initial_conditions_from_data_dict_of_dicts, set_integration_time, set_integration_time_vector, parameters, _apply, to'), ('zero padding', S + ': _get_zero_data_dict_matching_state_dim, get_data_concatenation_dim, extract_key_from_dict_of_dicts')], ['outputs of the block', 'registered parameters'])
p('C19', 'Freezing affects exactly the named parameters; counts are exact',
  'Freezing and unfreezing set the trainability of exactly the named parameters, in any sequence, without changing values, and an unknown name is refused. The reported numbers of fixed, optimised and overall parameters equal the numbers of scalar entries. Setting a random seed makes subsequent random numbers repeatable.',
  ['inputs', 'histories'], 'any model, any sequence of freeze and unfreeze operations',
  'no test covers these helpers',
  ['neuro_shooting/utils.py'], [('helpers', 'utils.py: freeze_parameters, unfreeze_parameters, compute_number_of_parameters, setup_random_seed, divide_by_if_not_none')], ['trainability flags', 'counts'])
p('C20', 'Complexity measures integrate the log2 of the squared norms over time',
  'Each complexity measure is the sum over consecutive records of the time difference times the base-2 logarithm of the mean of the two squared norms, where time differences that go backwards count as zero. The squared Frobenius, nuclear and spectral norms are those of all layer weights without biases, individually and summed. The recorded data are not modified.',
  ['inputs'], 'any recorded history of times and norms, any layers',
  'no test covers the measures',
  ['neuro_shooting/validation_measures.py', 'neuro_shooting/shooting_hooks.py'], [('measures', 'validation_measures.py: compute_complexity_measures'), ('norms', 'shooting_hooks.py: compute_parameter_norms')], ['returned measures'])
p('C21', 'Every model is consistent: states, derivatives and initial data agree',
  'For every supported model and configuration the derivative of each state has the shape of the state, depends on the parameters affinely, not explicitly on the time, and treats samples independently. Initial data built from an input have the input as first state and further states of the shape of the particles, starting at zero (in the symmetrised model at copies of the input) unless an initial condition is optimised, in which case it is the replicated or predicted one and receives gradients. Unknown initial condition modes are refused.',
  ['inputs', 'configurations'], 'all 12 models, feature numbers, inflation factors, initial condition modes and inputs',
  'tests instantiate a few models in one configuration',
  [M], [('state equations', M + ': rhs_advect_state and create_default_parameter_objects of each model'), ('initial data', M + ': get_initial_data_dict_from_data_tensor of each model')], ['derivatives', 'initial data'])
p('C22', 'Observation hooks see every evaluation once and record what happened',
  'Every registered hook is called exactly once per evaluation of the right hand side, in order of registration, with the states, costates, data, their derivatives and the parameters of that evaluation, does not change its result, and is no longer called once removed. The recording hook stores one entry per evaluation and quantity that equals the value at that evaluation and does not change afterwards.',
  ['inputs', 'histories', 'configurations'], 'any model, any sequence of evaluations, registrations and removals',
  'no test registers more than one hook or looks at records later',
  [I, 'neuro_shooting/shooting_hooks.py'], [('calling', I + ': compute_gradients, register_lagrangian_gradient_hook'), ('recording', 'shooting_hooks.py: parameter_evolution_hook, record_generic_dict_of_dicts')], ['hook arguments', 'recorded data'])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
