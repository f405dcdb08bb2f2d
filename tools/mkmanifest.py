#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after an edit; both results are committed)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NS = 'neuro_shooting/'


def P(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
            'anchors': {'files': [NS + f for f in files],
                        'state': [{'name': n, 'meaning': m, 'where': NS + w} for n, m, w in state],
                        'mechanism': [{'name': n, 'where': NS + w} for n, w in mechanism],
                        'observe_at': list(observe), 'hook_needed': None}}


PROPS = [
 P('C01', 'A parameter sweep runs exactly the grid it was asked for',
   'A parameter sweep starts one experiment for every combination of the swept values and every random seed, exactly once per sweep, with the arguments of the template overridden by those of the combination, each with its own output directory. '
   'This does not depend on sweeps that ran (or were aborted) earlier in the same process, and neither the template nor the grid given by the caller is changed. '
   'A swept flag that is on is passed without a value, one that is off is not passed at all.',
   ['configurations', 'histories', 'fault_sequences'], 'for all grids, templates, seeds, earlier sweeps in the process and aborts of them',
   'there is no test of the sweep tools; a test would sample one grid in a fresh process',
   ['experiment_utils.py', 'command_line_execution_tools.py'],
   [('recursive product of the swept values', 'command_line_execution_tools.py:recursively_sweep_parameters'), ('merging of template and combination', 'experiment_utils.py:merge_args'), ('sweep loop', 'experiment_utils.py:sweep_parameters')],
   observe=['arguments received by the experiment process']),
 P('C02', 'A killed or failing sweep can be restarted: nothing lost, nothing redone',
   'When a sweep that was interrupted at any point (crash, kill, I/O error, failing experiment) is started again, every experiment that has stored a result is skipped and its results are left untouched, and every experiment without a stored result is run. '
   'A restart without faults therefore completes the grid; with forced recomputation everything is run again.',
   ['crash_points', 'fault_sequences', 'histories'], 'for every point at which the sweep or an experiment dies, any number of times, and for grids that grow between restarts',
   'no test starts a sweep, let alone kills one; crash points are unbounded',
   ['experiment_utils.py', 'command_line_execution_tools.py'],
   [('skip if a result file exists', 'experiment_utils.py:sweep_parameters'), ('experiment start', 'command_line_execution_tools.py:run_command_with_args')],
   state=[('*.pt files', 'an experiment is complete when its output directory contains one', 'experiment_utils.py')],
   observe=['experiment processes started', 'contents of the output directories']),
 P('C03', 'Concurrent sweeps into one output directory complete the grid',
   'Several sweeps that run at the same time and share an output directory (equal, overlapping or disjoint grids) never fail because of each other, together run every experiment at least once, and never start an experiment whose result was already stored when it was looked up. '
   'Experiments of one configuration only write into the directory of that configuration.',
   ['schedules', 'fault_sequences'], 'for every interleaving of the sweeps at file system calls and experiment starts, including crashes of some of them',
   'interleavings of processes are not reached by tests',
   ['experiment_utils.py'],
   [('directory creation', 'experiment_utils.py:sweep_parameters'), ('skip rule', 'experiment_utils.py:sweep_parameters')],
   observe=['experiment processes started', 'exceptions', 'output directories']),
 P('C04', 'Experiments are started as requested and everything they print is logged',
   'An experiment is started with the requested interpreter, script, options and graphics card, and with an environment that is otherwise the one of the caller. '
   'Everything it writes to standard output and standard error, also when it fails or is killed, ends up in the log file of its own output directory; a repeated run replaces the log. '
   'A failing experiment does not stop the others.',
   ['configurations', 'inputs', 'fault_sequences'], 'for all options, interpreters, devices, outputs and fates of the experiment process',
   'no test starts an experiment process',
   ['command_line_execution_tools.py', 'experiment_utils.py'],
   [('command line assembly', 'command_line_execution_tools.py:_make_arg_list, get_string_argument_from_list'), ('shell execution with tee', 'command_line_execution_tools.py:execute_python_script_via_bash'), ('device selection', 'command_line_execution_tools.py:get_bash_precommand')],
   observe=['argument vector and environment of the experiment', 'log files']),
 P('C05', 'Time-dependent parameters depend on the requested time only',
   'With piecewise constant layer parameters, every evaluation at time t uses the parameters of the interval that contains t (the first ones before the range, the last ones after it). '
   'This holds for any order in which times are requested, forward or backward in time, by any solver or checkpointing strategy and after aborted passes and interrupted requests.',
   ['histories', 'inputs', 'configurations'], 'for every sequence of requested times and every number of intervals',
   'the existing tests do not use time-dependent parameters; the lookup is stateful, so single calls do not settle it',
   ['shooting_blocks.py'],
   [('search from the last used interval', 'shooting_blocks.py:ParticleFreeParameterFunc.get_parameters_at_time')],
   state=[('last used interval', 'start of the next search', 'shooting_blocks.py:ParticleFreeParameterFunc')],
   observe=['parameters seen by hooks at every evaluation']),
 P('C06', 'Checkpointed and adjoint integration equal plain integration',
   'Integrating with any number or spacing of checkpoints or with the adjoint method returns a value for every requested time, in the requested order, equal to that of the plain integration with the same solver up to its tolerance, and gradients with respect to initial value and parameters equal to those of the plain integration. '
   'This holds for increasing and decreasing, regular and irregular times, and for any sequence of calls and aborted calls on the same integrator.',
   ['inputs', 'configurations', 'histories', 'fault_sequences'], 'for all time vectors, checkpoint settings, solvers, and histories of calls and aborts',
   'the existing integration test prints a comparison for one time interval',
   ['generic_integrator.py'],
   [('splitting of the time vector', 'generic_integrator.py:GenericIntegrator.create_integration_time_intervals, _integrate_checkpointed'), ('solver options', 'generic_integrator.py:GenericIntegrator.__init__')],
   observe=['returned values', 'gradients', 'evaluation times']),
 P('C07', 'Every evaluation satisfies the shooting equations',
   'At every evaluation of the right hand side, in forward and backward passes, the layer parameters are those that make the Lagrangian stationary for the current states and costates (or the explicitly optimised or initially computed ones in the respective modes), states and data move by the layer function with these parameters, and costates move by minus the derivative of the Hamiltonian. '
   'Analytic and automatic derivation give the same equations, also when switched during the life of a model.',
   ['inputs', 'configurations', 'histories'], 'for all models, dimensions, nonlinearities, weights, modes, integrators, values reached along trajectories, and contexts (no-gradient, checkpoint recomputation, after aborts)',
   'the existing gradient tests compare one state per model at the start of one pass',
   ['shooting_integrands.py', 'shooting_models.py', 'overwrite_classes.py', 'activation_functions_and_derivatives.py'],
   [('stationary parameters', 'shooting_integrands.py:compute_parameters'), ('automatic shooting equations', 'shooting_integrands.py:compute_gradients'), ('analytic shooting equations', 'shooting_models.py'), ('derivatives of the nonlinearities', 'activation_functions_and_derivatives.py')],
   observe=['hook interface at every evaluation']),
 P('C08', 'Gradients belong to their forward pass, whatever ran in between',
   'The gradients computed for the result of a forward pass (with respect to the parameters and the input) are those of this forward pass, independent of other forward passes, backward passes, setting changes and aborted passes of the same model between the forward pass and its backward pass. '
   'They equal the derivatives of the integrated shooting equations.',
   ['schedules', 'histories', 'fault_sequences'], 'for every interleaving of pending forward and backward passes with different batches and times, every solver and checkpointing strategy',
   'tests run one forward pass directly followed by its backward pass',
   ['shooting_blocks.py', 'shooting_integrands.py', 'generic_integrator.py'],
   [('assembly plans remembered per forward pass', 'shooting_blocks.py:IntegrandForForwardPass'), ('checkpointed evaluation', 'generic_integrator.py')],
   state=[('assembly plan of the integrand', 'how vectors are taken apart', 'shooting_integrands.py')],
   observe=['gradients of parameters and inputs']),
 P('C09', 'A forward pass is a function of input, parameters and settings only',
   'The outputs of a forward pass (result, states, costates, data, at all requested times) depend only on the input, the current parameter values and the current settings, never on earlier passes, batch sizes, hooks, random numbers, conversions, or on the order in which settings were made. '
   'They equal the solution of the shooting equations, and a forward pass does not change parameters.',
   ['histories', 'configurations', 'inputs'], 'for every history of operations on a model and every configuration',
   'tests run a forward pass on a new model',
   ['shooting_blocks.py', 'shooting_integrands.py', 'shooting_models.py', 'state_costate_and_data_dictionary_utils.py', 'generic_integrator.py'],
   [('reset at the start of an integration', 'shooting_integrands.py:reset'), ('assembly and disassembly', 'state_costate_and_data_dictionary_utils.py'), ('time settings', 'shooting_blocks.py:set_integration_time, set_integration_time_vector')],
   observe=['all outputs of the forward pass']),
 P('C10', 'An aborted pass leaves the model usable and unchanged',
   'When a forward or backward pass ends with an exception at any point (out of memory, keyboard interrupt, wrong input, failing hook), parameters and their registration are unchanged, and every later forward and backward pass gives what a model without this history gives. '
   'This includes the very first pass, in which parameters are created.',
   ['crash_points', 'fault_sequences', 'histories'], 'for every evaluation and line at which the exception can occur, every kind of exception, repeatedly',
   'no test aborts a pass',
   ['shooting_blocks.py', 'shooting_integrands.py'],
   [('state set up anew by every pass', 'shooting_blocks.py:ShootingBlockBase.forward'), ('reset', 'shooting_integrands.py:reset')],
   observe=['outputs and gradients of later passes', 'registered parameters']),
 P('C11', 'A split, stored and resumed integration equals the uninterrupted one',
   'When an integration is split over several blocks that hand on states, costates and data, interrupted, stored, lost, and resumed from the last readable dictionaries, the final states, costates, data and gradients equal those of the uninterrupted integration. '
   'Blocks with particles of their own receive the particles of the previous block unchanged except for the registered enlargement, and never change the dictionaries they are given.',
   ['crash_points', 'schedules', 'fault_sequences', 'configurations'], 'for all splits, interruption points, torn and lost stores, chains of blocks',
   'the existing test of chained blocks only looks at one uninterrupted pass',
   ['shooting_blocks.py', 'state_costate_and_data_dictionary_utils.py', 'striding_block.py'],
   [('pass-through of dictionaries', 'shooting_blocks.py:ShootingBlockBase.forward'), ('concatenation', 'state_costate_and_data_dictionary_utils.py'), ('enlargement', 'shooting_blocks.py:_enlarge_tensor')],
   observe=['dictionaries returned by the blocks', 'gradients']),
 P('C12', 'Registered parameters are complete, stable and respect freezing',
   'Before the first completed forward pass the parameters of a model cannot be queried; from then on the same complete set of parameters is registered under the same names for its whole life, so that an optimiser created once trains everything, and restoring stored values restores the model. '
   'Frozen parameters keep their value and receive no gradient until unfrozen, without influencing the others; states kept at zero stay zero and are not optimised.',
   ['histories', 'fault_sequences', 'configurations'], 'for every history of passes, aborted passes, freezing, training, storing and restoring',
   'tests list the parameters of a model after one pass',
   ['shooting_blocks.py', 'utils.py', 'res_net.py', 'parameter_initialization.py'],
   [('registration at construction and at the first pass', 'shooting_blocks.py:register_*'), ('guard', 'shooting_blocks.py:ShootingBlockBase.parameters'), ('freezing', 'utils.py:_freeze_or_unfreeze_parameters')],
   observe=['parameters(), named_parameters(), state_dict()', 'values after training steps']),
 P('C13', 'The norm penalty belongs to the most recent pass',
   'After a forward pass that starts at time zero, the reported norm penalty is half the weighted squared norm of the layer parameters at the start of that pass (averaged over the time steps for time-dependent parameters), with matching gradients. '
   'It never stems from an earlier, aborted or differently configured pass.',
   ['histories', 'configurations', 'fault_sequences'], 'for every history of passes, aborts, parameter updates and time settings',
   'no test looks at the penalty', ['shooting_integrands.py', 'shooting_blocks.py'],
   [('penalty stored at the first evaluation', 'shooting_integrands.py:get_norm_penalty'), ('reset', 'shooting_integrands.py:reset')],
   observe=['reported penalty and its gradient']),
 P('C14', 'Hooks observe without influence, and recordings are faithful and lasting',
   'Every registered hook is called exactly once for every evaluation of a forward pass, in the order of registration, with the values of this evaluation, and no longer after it was removed; results and gradients are those without hooks. '
   'What a recorder has stored equals the parameters, states, derivatives and norms at the time of the evaluation and does not change later.',
   ['histories', 'schedules', 'fault_sequences'], 'for every history of registering, removing, passes, parameter updates and failing hooks',
   'no test uses hooks', ['shooting_integrands.py', 'shooting_hooks.py', 'validation_measures.py'],
   [('hook registry', 'shooting_integrands.py:register_lagrangian_gradient_hook'), ('recorder', 'shooting_hooks.py:parameter_evolution_hook')],
   observe=['hook calls', 'recorded data', 'outputs']),
 P('C15', 'A killed training resumes from its checkpoint as if never interrupted',
   'A training that is killed at any point and resumed in a new process from the last readable checkpoint (model, optimiser, scheduler, random state) ends with the same parameters, learning rates and losses as the uninterrupted training. '
   'The stored model state is complete: nothing that influences the training is kept outside of it.',
   ['crash_points', 'fault_sequences', 'histories'], 'for every point at which the process dies, torn and lost checkpoint writes, repeatedly',
   'no test stores or resumes a training', ['shooting_blocks.py', 'custom_lr_scheduler.py', 'res_net.py'],
   [('state dictionaries of blocks', 'shooting_blocks.py'), ('scheduler state', 'custom_lr_scheduler.py:state_dict, load_state_dict')],
   observe=['parameters, learning rates and losses at the end']),
 P('C16', 'The plateau scheduler follows its documented rule, also across restarts',
   'The learning rates are reduced exactly when the metric has not improved (relative or absolute threshold, minimum or maximum mode) for more than the given number of epochs outside of the cool-down, by the given factor and not below the given bound, and progress is measured anew after a reduction. '
   'Convergence is reported exactly after a due reduction could not be applied, and a scheduler restored from its stored state continues as if it had never been interrupted.',
   ['histories', 'crash_points', 'configurations'], 'for every sequence of metrics (including infinities and not-a-number), settings, and store/crash/restore points',
   'no test uses the scheduler (it could not even be imported)', ['custom_lr_scheduler.py'],
   [('epoch rule', 'custom_lr_scheduler.py:CustomReduceLROnPlateau.step'), ('state', 'custom_lr_scheduler.py:state_dict')],
   observe=['learning rates', 'convergence flag']),
 P('C17', 'Setting the random seed makes a training repeatable',
   'After the random seed has been set, constructing and training a model gives identical parameters, losses and random numbers, whatever happened before in the process and whatever the string hash seed of the interpreter is. '
   'Without a seed the random number generators are left alone, and different seeds give different random numbers.',
   ['histories', 'configurations', 'schedules'], 'for every process history before the seed is set and every interpreter hash seed',
   'tests do not compare runs', ['utils.py', 'parameter_initialization.py', 'shooting_integrands.py', 'shooting_models.py'],
   [('seeding of all generators', 'utils.py:setup_random_seed'), ('sorted dictionaries', 'state_costate_and_data_dictionary_utils.py')],
   observe=['all parameters, losses, learning rates', 'random numbers drawn afterwards']),
 P('C18', 'Independent models do not influence each other',
   'Models that are used by different threads (or alternately by one) give exactly the outputs, gradients and trained parameters they give when used alone, for every interleaving. '
   'This also holds when they share an integrator, integrator options or initialisers, and when passes of one of them are aborted.',
   ['schedules', 'fault_sequences', 'configurations'], 'for every interleaving at evaluations of right hand sides and between operations',
   'tests use one model at a time in one thread', ['generic_integrator.py', 'shooting_blocks.py', 'shooting_integrands.py', 'parameter_initialization.py'],
   [('state kept per model', 'shooting_integrands.py'), ('options copied by the integrator', 'generic_integrator.py:GenericIntegrator.__init__')],
   observe=['outputs, gradients, parameters of every model']),
 P('C19', 'The result of a sample does not depend on its batch',
   'The result of a sample is the same in whichever batch, position and company it is processed, and in whichever order batches of different sizes follow each other. '
   'The trajectories of the particles do not depend on the data at all.',
   ['histories', 'inputs'], 'for every sequence of batches of a sample pool', 'tests use one batch of fixed size',
   ['shooting_blocks.py', 'shooting_models.py', 'state_costate_and_data_dictionary_utils.py'],
   [('assembly plans rebuilt for every pass', 'shooting_blocks.py:_get_initial_conditions_from_data_dict_of_dicts')],
   observe=['results per sample', 'states and costates']),
 P('C26', 'A residual network is the composition of its layers',
   'The output of the residual network is, for every configuration and history, the composition of initial convolution, normalisation, the shooting blocks of all layers (later blocks of a layer continue '
   'the trajectory, further layers add channels and particles), striding of states, costates and data between layers, maximum pooling and the final linear layer. Gradients agree with plain differentiation of this composition. '
   'Training and evaluation mode, aborted (also first) passes, interleaved passes, training steps and restores from a stored state do not change this, and only completed training passes update the normalisation statistics.',
   ['histories', 'fault_sequences', 'configurations'], 'for every configuration, operation history and abort point', 'the network is only used in demos, no test checks its values',
   ['res_net.py', 'striding_block.py', 'shooting_blocks.py'],
   [('forward', 'res_net.py:BasicResNet.forward'), ('striding', 'striding_block.py:ShootingStridingBlock.forward'), ('enlargement and concatenation', 'shooting_blocks.py:forward')],
   observe=['outputs', 'gradients', 'normalisation statistics']),
 P('C20', 'Activation functions and their derivatives agree',
   'The derivative offered with a nonlinearity is the derivative of this nonlinearity for every argument.',
   ['inputs'], 'for all arguments', 'no test evaluates the derivatives away from trajectories', ['activation_functions_and_derivatives.py'],
   [('derivative pairs', 'activation_functions_and_derivatives.py:get_nonlinearity')]),
 P('C21', 'Striding keeps the centre and the grid',
   'Striding selects every n-th element of the given dimensions of states, costates and data alike, starting with the offset that keeps the centre for odd sizes.',
   ['inputs'], 'for all sizes, strides and dimensions', 'the existing test uses one size', ['striding_block.py'],
   [('offset', 'striding_block.py:_stride_tensor_single_dimension')]),
 P('C22', 'Initialisers draw from the documented distributions',
   'Initial states and costates have the requested size and follow the requested distribution.',
   ['inputs', 'configurations'], 'for all sizes and magnitudes', 'no test looks at distributions', ['parameter_initialization.py'],
   [('initialisers', 'parameter_initialization.py')]),
 P('C23', 'Data loaders deliver every sample of their split once per pass',
   'For every supported data set and batch size, a pass over the training loader delivers full batches of training samples, no sample twice and none missing except those of an incomplete last batch, in a new random order each time which is repeatable by the random seed; '
   'passes over the test and the training evaluation loader deliver the test and the training samples in their stored order, never augmented, again without an incomplete last batch. Labels belong to their images, augmentation only concerns the training loader, and the number of classes is that of the data set. '
   'This holds whatever happened to other passes (interleaved, abandoned, ended by read errors or interrupts) and after failed downloads were repeated.',
   ['histories', 'fault_sequences', 'configurations'], 'for all data sets, batch sizes, interleavings of passes, read errors and random number consumers',
   'no test uses the loaders (they download data)', ['data_loaders.py', 'utils.py'], [('loaders', 'data_loaders.py:get_data_loaders')],
   observe=['delivered batches']),
 P('C24', 'Models behave the same on a graphics card',
   'Moving a model to another device or precision changes results only within the precision of that device.',
   ['configurations'], 'for all devices', 'needs a graphics card', ['shooting_blocks.py', 'utils.py'], [('device moves', 'shooting_blocks.py:to, _apply')]),
 P('C25', 'Figures show the data they are given',
   'The plotting helpers draw the given trajectories and vector fields and store them in the requested file.',
   ['inputs'], 'for all data', 'no test draws figures', ['figure_utils.py', 'vector_visualization.py', 'figure_settings.py'], [('plotting', 'vector_visualization.py')]),
]

NA = {
 'C20': 'a pure function of its argument: no schedule, fault, clock or history for a simulation to decide (wrong derivatives that matter along trajectories are caught by C07)',
 'C21': 'a pure function of one call: no schedule, fault or history (C12, C15 and C26 run it as a real component inside the residual network)',
 'C22': 'a distribution of single calls to torch generators: no schedule, fault or history; repeatability of the drawn values is decided by C17',
 'C24': 'needs a graphics card; none is present and it cannot be simulated faithfully. CPU conversions are operations of C09, C10, C12, C13',
 'C25': 'a visual output without an executable oracle, and without concurrency, faults or history',
}

LEVEL = {
 'C01': 'seeded simulation of sweep sequences in one process with the real shell; the experiment is a recording stand-in',
 'C02': 'seeded crash/restart simulation; crashes are injected at file system calls, child starts and inside children',
 'C03': 'seeded interleavings at file system calls and child starts (one baton), with crashes of sweepers',
 'C04': 'seeded simulation with the real shell and tee; the child is a recording stand-in',
 'C23': 'seeded simulation of the real loaders on stand-ins for the torchvision data sets',
}

TECH = {
 'C01': 'deterministic simulation of sweep histories with faults vs product model', 'C02': 'deterministic simulation: crash/restart with fault injection vs durability model',
 'C03': 'deterministic simulation: seeded interleaving of sweepers with crashes', 'C04': 'deterministic simulation of child processes with injected fates',
 'C05': 'deterministic simulation of request histories vs interval model', 'C06': 'deterministic simulation of integrator call histories with aborts vs plain solver',
 'C07': 'deterministic simulation with per-evaluation invariant monitor vs reference equations', 'C08': 'deterministic simulation: seeded interleaving of pending passes vs twin and reference model',
 'C09': 'deterministic simulation of operation histories vs fresh twin and reference model', 'C10': 'deterministic simulation with abort injection at every evaluation',
 'C11': 'deterministic simulation: split/crash/resume with torn storage vs uninterrupted run', 'C12': 'deterministic simulation of registry histories with aborts vs registry model',
 'C13': 'deterministic simulation of pass histories with aborts vs reference penalty', 'C14': 'deterministic simulation of hook histories with raising hooks vs reference recording',
 'C15': 'deterministic simulation: training crash/restart with torn checkpoints', 'C16': 'deterministic simulation: metric histories with crash/restore vs rule model',
 'C17': 'deterministic simulation: same seed under different process histories and hash seeds', 'C18': 'deterministic simulation: baton-scheduled threads vs sequential run',
 'C19': 'deterministic simulation of batch histories vs per-sample memory',
 'C23': 'deterministic simulation of interleaved passes with read faults vs split model',
 'C26': 'deterministic simulation of network histories with aborts vs reference composition',
}


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')
    checks = []
    for p in PROPS:
        i = p['id']
        if i in NA:
            continue
        checks.append({'property': i, 'quick_cmd': 'python3 sim/check.py {}'.format(i), 'thorough_cmd': 'python3 sim/check.py {} --tier thorough'.format(i),
                       'evidence_file': 'evidence/{}.json'.format(i), 'technique': TECH[i], 'level': 'exploration',
                       'level_note': LEVEL.get(i, 'seeded simulation of the real code; torch and torchdiffeq are trusted') + '; sampling, not proof; replay files reproduce a violation exactly'})
    m = {'version': 1, 'setup_cmd': 'python3 sim/check.py setup', 'checks': checks,
         'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())],
         'notes': 'No hooks in /repo: all seams are the public hook interface, the integrand/integrator interfaces, the file system and process functions of the standard library, and files in scratch directories. See DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
