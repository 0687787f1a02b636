"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
S = 'optax/_src/'
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
  P.append(dict(id=id, title=title, statement=statement,
    quantifier=dict(over=over, text=text), why_tests_cant=why,
    anchors=dict(files=[S+f for f in files],
      mechanism=[dict(name=n, where=w) for n, w in mech],
      state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
      observe_at=list(observe), hook_needed=None)))

IN, H, CF = 'inputs', 'histories', 'configurations'

prop('C01', 'apply_updates adds and keeps structure, shape and dtype',
 'Applying updates to parameters returns exactly parameter + update for every element of every leaf. The result has the tree structure (None subtrees included), leaf shapes and leaf dtypes of the parameters, whatever the dtype of the updates, and parameters passed as plain Python or NumPy numbers are accepted. Neither argument is modified.',
 [IN], 'all parameter/update trees, shapes, dtypes (incl. updates of wider dtype than params) and element values',
 'update_test samples one float32 tree; the dtype/structure promise ranges over all trees and dtype pairs.',
 ['update.py'], [('apply_updates', S+'update.py:24')], observe=['return value of optax.apply_updates'])
prop('C02', 'Polyak and periodic target updates select and mix exactly',
 'An incremental update returns step_size*new + (1-step_size)*old elementwise, so step size 0 returns old and 1 returns new. A periodic update returns the new tensors exactly when the step count is a multiple of the period and the old tensors otherwise, leaf for leaf, with no contamination from the tensors that were not selected (not even NaN or Inf).',
 [IN, CF], 'all trees, element values (incl. non-finite for periodic), step sizes, steps and periods',
 'tests use one tree, a handful of steps and finite values.',
 ['update.py'], [('incremental_update', S+'update.py:47'), ('periodic_update', S+'update.py:73')])
prop('C03', 'chain runs transformations in order with their own states',
 'For any non-empty sequence of transformations, initialising a chain yields the list of their individual initial states; updating feeds the updates through each transformation in order, giving each one its own state and the same params, and returns the last output with the new states in the same positions. Passing a state with a different number of entries raises ValueError. chain is thus associative up to grouping of states and a one-element chain behaves as its element.',
 [IN, CF, 'programs'], 'all chains of arbitrary (opaque) transformations, all updates, states and params',
 'combine_test checks one chain of three concrete transforms on one input.',
 ['combine.py'], [('chain', S+'combine.py:20')])
prop('C04', 'Step counters start at 0, advance by one and saturate',
 'Every step counter that optax keeps as int32 (Adam family, EMA, schedules, gradient noise, injected hyperparameters) starts at zero, increases by exactly one per update, and stays at the maximal int32 value once it is reached. It never wraps to a negative number, for any reachable or restored counter value, and remains an int32 scalar.',
 [H, IN], 'every int32 value of the stored counter, all gradients',
 'only safe_int32_increment itself is sampled near int32 max; no test runs 2^31 updates of a transformation.',
 ['numerics.py', 'transform.py', 'schedule.py'], [('safe_int32_increment', S+'numerics.py:37'), ('counting transformations', S+'transform.py'), ('inject_hyperparams', S+'schedule.py:507')],
 [('count', 'number of updates so far', 'ScaleByAdamState, EmaState, ScaleByScheduleState, AddNoiseState, InjectHyperparamsState')])
prop('C05', 'Adam moments, bias correction and step follow the paper',
 'With gradients g, moments m, v and completed-step count t the Adam rescaling stores m\'=b1*m+(1-b1)*g, v\'=b2*v+(1-b2)*g^2 and t+1, starting from zeros, and returns (m\'/(1-b1^(t+1))) / (sqrt(v\'/(1-b2^(t+1)) + eps_root) + eps) elementwise in every leaf. This holds for all gradients, states, step counts and hyperparameters, and the stored moments are never bias-corrected.',
 [IN, H, CF], 'all hyperparameters, counts in [0, 2^31-1], trees/shapes, gradients and moments',
 'tests run the optimizer on a few gradients and compare with an alternative implementation on sampled values or only check convergence.',
 ['transform.py'], [('scale_by_adam', S+'transform.py:266'), ('_update_moment', S+'transform.py:77'), ('_bias_correction', S+'transform.py:83')],
 [('mu, nu, count', 'first/second moments, steps', 'ScaleByAdamState')])
prop('C06', 'AdaBelief tracks the variance of the prediction error',
 'The AdaBelief rescaling stores m\'=b1*m+(1-b1)*g and s\'=b2*s+(1-b2)*(g-m)^2 with m the moment before the update, both started at zero, and returns the bias-corrected m\' over sqrt(bias-corrected s\' + eps_root) + eps. This holds elementwise for all gradients, states, counts and hyperparameters.',
 [IN, H, CF], 'all hyperparameters, counts, trees, gradients and states',
 'alias_test only checks convergence on two toy problems.',
 ['transform.py'], [('scale_by_belief', S+'transform.py:340')], [('mu, nu, count', 'moments', 'ScaleByBeliefState')])
prop('C07', 'Yogi changes its second moment additively by at most (1-b2)g^2',
 'The Yogi rescaling stores m\'=b1*m+(1-b1)*g and v\'=v-(1-b2)*sign(v-g^2)*g^2, both moments starting at the initial accumulator value, and returns the bias-corrected m\' over sqrt(bias-corrected v\' + eps_root) + eps. Hence |v\'-v| <= (1-b2)*g^2 and v stays non-negative, for every gradient history.',
 [IN, H, CF], 'all hyperparameters, counts, gradients and non-negative states',
 'alias_test only checks convergence on two toy problems.',
 ['transform.py'], [('scale_by_yogi', S+'transform.py:382')], [('mu, nu, count', 'moments', 'ScaleByAdamState')])
prop('C08', 'RAdam rectifies exactly when the variance is tractable',
 'Rectified Adam keeps Adam\'s moments and counter. At step t, with rho_inf=2/(1-b2)-1 and rho_t=rho_inf-2*t*b2^t/(1-b2^t), it returns r_t*m_hat/(sqrt(v_hat+eps_root)+eps) with the rectification term r_t=sqrt((rho_t-4)(rho_t-2)rho_inf/((rho_inf-4)(rho_inf-2)rho_t)) if rho_t >= threshold, and the plain bias-corrected momentum m_hat otherwise.',
 [IN, H, CF], 'all hyperparameters, counts, trees, gradients and states',
 'alias_test only checks convergence; the switch step depends on b2 and threshold.',
 ['transform.py'], [('scale_by_radam', S+'transform.py:429')], [('mu, nu, count', 'moments', 'ScaleByAdamState')])
prop('C09', 'RMS, centred RMS and Adagrad scaling follow their accumulators',
 'RMS scaling keeps nu\'=d*nu+(1-d)*g^2 (started at initial_scale) and returns g/sqrt(nu\'+eps); its centred variant also keeps mu\'=d*mu+(1-d)*g and returns g/sqrt(nu\'-mu\'^2+eps). Adagrad scaling adds g^2 to its accumulator (started at the given value) and returns g/sqrt(acc+eps) where acc > 0 and 0 where acc is 0. Along any gradient history accumulators stay non-negative and nu >= mu^2, so for eps > 0 the outputs are finite and never flip the sign of g.',
 [IN, H, CF], 'all decays in [0,1], eps>0, trees, gradients and reachable states',
 'transform_test compares a few sampled steps; reachability invariants need induction over histories.',
 ['transform.py'], [('scale_by_rms', S+'transform.py:182'), ('scale_by_stddev', S+'transform.py:222'), ('scale_by_rss', S+'transform.py:141')],
 [('nu, mu, sum_of_squares', 'accumulators', 'ScaleByRmsState, ScaleByRStdDevState, ScaleByRssState')])
prop('C10', 'SM3 accumulators cover the squared gradients they stand for',
 'For a parameter of rank r >= 2 SM3 keeps one accumulator vector per axis; each element\'s preconditioner is nu = min over axes of that axis\' accumulator + g^2 (scaled by 1-b2 and b2 when b2 is not 1), each axis\' new accumulator is the maximum of nu over the other axes, and the output is the b1-average of g/sqrt(nu+eps) (0 where nu is 0). Parameters of rank 0 and 1 use the full Adagrad-style accumulator. With b2=1 the preconditioner of every element is at least the sum of its squared gradients over any history and accumulators never decrease.',
 [IN, H, CF], 'all ranks 0..4, dimensions, gradients, histories and hyperparameters',
 'tests run SM3 on one 2-d toy problem for convergence.',
 ['transform.py'], [('scale_by_sm3', S+'transform.py:728')], [('mu, nu', 'per-axis accumulators and momentum', 'ScaleBySM3State')])
prop('C11', 'Momentum trace and EMA accumulate and emit what they document',
 'The momentum trace stores t\'=g+decay*t (from zero) and emits t\', or g+decay*t\' with Nesterov. The exponential moving average stores e\'=decay*e+(1-decay)*g (from zero) and emits e\'/(1-decay^n) at its n-th update when debiasing and e\' itself otherwise. An accumulator dtype changes only the dtype of the stored state, which then stays that dtype forever.',
 [IN, H, CF], 'all decays, counts, trees, dtypes, gradients, states',
 'tests check a few steps with debias on; the non-debiased output and long histories are not covered.',
 ['transform.py', 'utils.py'], [('trace', S+'transform.py:37'), ('ema', S+'transform.py:95'), ('cast_tree', S+'utils.py:38')], [('trace, ema, count', 'accumulators', 'TraceState, EmaState')])
prop('C12', 'Trust-ratio scaling rescales each leaf by param/update norms',
 'Trust-ratio scaling multiplies each leaf\'s update by max(||p||,min_norm)/max(||u||,min_norm), computed per leaf, and leaves the update unchanged when either of these norms is zero. With min_norm 0 and nonzero norms the scaled update therefore has exactly the norm of its parameter leaf and the direction of the original update. Calling it without params raises ValueError.',
 [IN, CF], 'all trees, shapes, values and min_norm >= 0',
 'transform_test samples one pair; zero-norm and min_norm interplay are not enumerated.',
 ['transform.py', 'numerics.py'], [('scale_by_trust_ratio', S+'transform.py:559'), ('safe_norm', S+'numerics.py:21')])
prop('C13', 'Elementary transformations compute exactly their formula',
 'scale multiplies every element by the constant; adding decayed weights returns g + weight_decay*p and raises ValueError without params; scaling by a schedule multiplies by the schedule evaluated at the number of completed updates (first update: 0); centralisation subtracts from each leaf of rank >= 2 its mean over all axes but the first and leaves rank 0 and 1 alone, so each such row then has zero mean; identity changes nothing. None of these changes the dtype of floating updates.',
 [IN, H, CF], 'all trees, shapes, values, schedules, counts',
 'tests use fixed shapes and constant schedules.',
 ['transform.py', 'base.py'], [('scale', S+'transform.py:310'), ('add_decayed_weights', S+'transform.py:488'), ('scale_by_schedule', S+'transform.py:523'), ('centralize', S+'transform.py:701'), ('identity', S+'base.py:53')])
prop('C14', 'Named optimizers equal their documented composition',
 'Each named optimizer (adabelief, adagrad, adam, adamw, dpsgd, fromage, lamb, noisy_sgd, radam, rmsprop, sgd, sm3, yogi) behaves on every history exactly as its documented rule built from the elementary transformations with the hyperparameters it was given, and steps downhill: its output is -learning_rate times the rule\'s direction. A learning-rate schedule is evaluated at the number of completed updates and a constant schedule equals the constant. Weight decay in adamw and lamb is decoupled from the moments, and momentum/nesterov options act only when requested (rmsprop applies the learning rate before its momentum trace, as documented).',
 [IN, H, CF], 'all hyperparameters incl. schedules and optional flags, all trees, gradients, params and states',
 'alias_test checks convergence on two toy problems with fixed hyperparameters; swapped or ignored hyperparameters still converge.',
 ['alias.py'], [('all aliases', S+'alias.py'), ('_scale_by_learning_rate', S+'alias.py:30')])
prop('C15', 'Elementwise clipping bounds every element and only those outside',
 'Clipping to max_delta returns, for every element, the input if its magnitude is at most max_delta and otherwise max_delta with the input\'s sign. Outputs thus never exceed max_delta in magnitude, even for infinite inputs, NaN stays NaN, and clipping twice equals clipping once.',
 [IN, CF], 'all values incl. Inf and NaN, all max_delta >= 0, all trees and shapes',
 'clipping_test samples one array and two thresholds.',
 ['clipping.py'], [('clip', S+'clipping.py:29')])
prop('C16', 'Global-norm clipping bounds the joint norm and keeps direction',
 'With max_norm > 0, updates whose joint L2 norm over all leaves is below max_norm are returned unchanged, and otherwise every leaf is multiplied by the same factor max_norm/norm, so the joint norm of the result is exactly max_norm. The result\'s joint norm never exceeds max_norm and its direction is preserved, for every tree.',
 [IN, CF], 'all trees (any number of leaves), shapes, values and max_norm > 0',
 'clipping_test samples one tree and three thresholds.',
 ['clipping.py', 'linear_algebra.py'], [('clip_by_global_norm', S+'clipping.py:54'), ('global_norm', S+'linear_algebra.py:25')])
prop('C17', 'Adaptive clipping bounds each unit relative to its parameter norm',
 'Adaptive gradient clipping bounds the norm of every output unit\'s gradient by clipping*max(||p_unit||, eps), leaving units below the bound unchanged and rescaling the others by a common non-negative factor to that bound. Units are: the whole tensor for scalars and vectors (unit axes ignored), slices along all but the first axis (norm over axis 0) for rank 2 and 3, and norms over the first three axes for rank 4; other ranks and missing params raise ValueError.',
 [IN, CF], 'all trees with leaves of rank 0..4, all dimensions, values, clipping > 0, eps > 0',
 'clipping_test samples random tensors of a few shapes.',
 ['clipping.py'], [('adaptive_grad_clip', S+'clipping.py:116'), ('unitwise_norm', S+'clipping.py:85'), ('unitwise_clip', S+'clipping.py:104')])
prop('C18', 'DP aggregation clips per example over the whole tree, then adds noise',
 'Differentially private aggregation returns, per leaf, (sum over examples of gradient/max(1, norm_i/clip) + clip*noise_multiplier*N)/batch_size, where norm_i is example i\'s joint L2 norm over all leaves. So one example changes the pre-noise sum by at most clip in joint norm per example contribution, whatever its gradient. The noise N is standard normal, drawn with a key that is distinct per leaf and per step; leaves without the common batch axis raise ValueError.',
 [IN, H, CF], 'all batch sizes, trees, per-example gradients, clip > 0, noise multipliers and keys',
 'privacy_test samples two trees and only statistics of the noise.',
 ['privacy.py'], [('differentially_private_aggregate', S+'privacy.py:30')], [('rng_key', 'PRNG key', 'DifferentiallyPrivateAggregateState')])
prop('C19', 'Gradient noise has the annealed variance and never reuses a key',
 'Adding gradient noise returns g + sigma_t*N with N standard normal and variance sigma_t^2 = eta/t^gamma at the t-th update (t from 1). The noise of different leaves and of different steps comes from different, never repeated PRNG keys derived from the seed, and equal seeds give equal noise.',
 [IN, H, CF], 'all eta >= 0, gamma, seeds, step counts, trees',
 'alias_test only checks convergence under tiny noise; key reuse and the variance law are invisible to it.',
 ['transform.py', 'alias.py'], [('add_noise', S+'transform.py:608')], [('count, rng_key', 'annealing step and PRNG key', 'AddNoiseState')])
prop('C20', 'Non-negativity constraint keeps parameters at or above zero',
 'For non-negative parameters the constrained updates never make parameter + update negative. An update that keeps its parameter non-negative is returned unchanged, and otherwise the update moves the parameter exactly to 0; calling it without params raises ValueError.',
 [IN, H], 'all trees, non-negative parameters and updates',
 'constrain_test samples one tree.',
 ['constrain.py'], [('keep_params_nonnegative', S+'constrain.py:30')])
prop('C21', 'NaN filtering zeroes exactly the NaNs and reports them per leaf',
 'NaN filtering replaces every NaN element by 0 and returns every other element (infinities included) unchanged. Its state tells for every leaf whether that leaf contained a NaN in the last update, is all-False initially, and carries no memory of earlier updates.',
 [IN, H], 'all trees, shapes and element values incl. NaN and Inf, any previous state',
 'constrain_test samples one placement of NaNs; its tests are partly broken in this environment.',
 ['constrain.py'], [('zero_nans', S+'constrain.py:68')], [('found_nan', 'per-leaf flag', 'ZeroNansState')])
prop('C22', 'apply_if_finite skips bad updates up to the limit and counts them',
 'If every element of the updates is finite the wrapper returns exactly the inner transformation\'s result, stores its new state and resets the consecutive-error counter. If some element is NaN or infinite it adds one to the consecutive and total counters and, while the consecutive count is at most the limit, returns zero updates and keeps the inner state bitwise unchanged; beyond the limit it applies the inner transformation anyway. last_finite reports the last outcome.',
 [IN, H, CF], 'all inner transformations, updates (finite or not), counters and limits',
 'wrappers_test runs one scripted sequence with one inner optimizer.',
 ['wrappers.py'], [('apply_if_finite', S+'wrappers.py:104')], [('notfinite_count, last_finite, total_notfinite, inner_state', 'error bookkeeping', 'ApplyIfFiniteState')])
prop('C23', 'MultiSteps applies the inner optimizer once per k mini-steps',
 'On every k-th mini-step (k given by the schedule at the current gradient step) MultiSteps calls the inner optimizer once on the mean (or sum, if asked) of the gradients since its last application, with the params it was given, and starts the next accumulation from zero; on other mini-steps it returns zeros, changes neither the inner state nor the gradient-step counter and adds the gradient to the accumulator. has_updated is true exactly right after an application. So k equal-size mini-steps produce the same update and inner state as one step on their averaged gradient.',
 [IN, H, CF], 'all inner optimizers, k >= 1 (constant or scheduled), gradients (incl. discarded non-finite values of other branches), states',
 'wrappers_test runs a few k on a toy network with inner optimizers that ignore params.',
 ['wrappers.py'], [('MultiSteps', S+'wrappers.py:180')], [('mini_step, gradient_step, inner_opt_state, acc_grads', 'accumulation state', 'MultiStepsState')])
prop('C24', 'apply_every emits the sum of exactly the last k gradients',
 'apply_every(k) emits, on every k-th call, the sum of the gradients of the last k calls and emits zeros otherwise; the accumulator restarts right after each emission. Its counter stays in 0..k-1.',
 [IN, H, CF], 'all k >= 1, finite gradients, trees and reachable states',
 'transform_test checks one k with sgd on toy values.',
 ['transform.py'], [('apply_every', S+'transform.py:655')], [('count, grad_acc', 'position in cycle and accumulator', 'ApplyEvery')])
prop('C25', 'masked applies the inner transformation to exactly the masked leaves',
 'masked passes to the inner transformation exactly the updates and params whose mask entry is true, in tree order, puts its results back in their places, and returns all other updates unchanged; the inner state is kept only for masked leaves. The mask may be a prefix tree or a callable, params may be any tree including a bare array, and absent params are passed on as absent.',
 [IN, CF, 'programs'], 'all inner transformations, masks (full, prefix, callable), trees, values',
 'wrappers_test samples some trees and masks; params that are a bare array never occur.',
 ['wrappers.py'], [('masked', S+'wrappers.py:276')], [('inner_state', 'state for masked leaves', 'MaskedState')])
prop('C26', 'flatten is invisible to elementwise transformations',
 'flatten presents updates and params to the inner transformation as one vector holding every element of every leaf once in leaf order, and returns the inner result with the original structure and shapes, element for element. Hence wrapping an elementwise transformation in flatten changes neither its updates nor, up to reshaping, its state.',
 [IN, CF], 'trees of any leaves and shapes, all inner transformations',
 'wrappers_test samples one tree per optimizer.',
 ['wrappers.py'], [('flatten', S+'wrappers.py:33')])
prop('C27', 'maybe_update runs or bypasses the inner transformation as told',
 'maybe_update calls the predicate with the number of previous update calls; when it is true it returns exactly the inner transformation\'s result and new state, and when false it returns the updates and the inner state untouched. The call counter starts at 0 and increases by one on every call in both cases.',
 [IN, H, CF], 'all inner transformations, predicates, updates, states',
 'wrappers_test uses one predicate and one inner transformation.',
 ['wrappers.py'], [('maybe_update', S+'wrappers.py:353')], [('step, inner_state', 'call counter, inner state', 'MaybeUpdateState')])
prop('C28', 'Lookahead synchronises slow and fast weights every sync_period steps',
 'Between synchronisations lookahead returns the fast optimizer\'s updates for the fast parameters and zero for the slow ones. On every sync_period-th step, applying the result leaves both at slow + slow_step_size*(fast + update - slow), and with reset_state the fast optimizer\'s state becomes its initial state. The fast optimizer always sees the fast parameters, and its state is otherwise exactly what it returned, whatever its dtypes.',
 [IN, H, CF], 'all fast optimizers, sync periods >= 1, slow step sizes, params, gradients and states',
 'lookahead_test uses a toy optimizer whose update ignores params, float state, and three step counts.',
 ['lookahead.py'], [('lookahead', S+'lookahead.py:63'), ('_lookahead_update', S+'lookahead.py:135')], [('fast_state, steps_since_sync', 'fast optimizer state and cycle position', 'LookaheadState')])
prop('C29', 'Polynomial, linear and constant schedules hold and interpolate exactly',
 'A polynomial schedule returns init_value up to transition_begin steps, end_value from transition_begin+transition_steps on, and (init-end)*(1-progress)^power + end in between; a linear one is its power-1 case and a constant schedule always returns its value. Values stay between init and end and move monotonically towards end. Non-positive transition_steps give the constant init_value and a negative begin counts as 0.',
 [IN, CF], 'all init/end values, powers > 0, transition lengths and begins, all counts',
 'schedule_test samples a few configurations and counts.',
 ['schedule.py'], [('polynomial_schedule', S+'schedule.py:49'), ('linear_schedule', S+'schedule.py:93'), ('constant_schedule', S+'schedule.py:35')])
prop('C30', 'Exponential decay follows its formula, staircase and bound',
 'Exponential decay returns init_value up to transition_begin and init_value*decay_rate^(elapsed/transition_steps) afterwards, with the exponent rounded down in staircase mode. A given end_value is a lower bound if decay_rate < 1 and an upper bound otherwise. Non-positive transition_steps or zero decay_rate give the constant init_value and a negative begin counts as 0.',
 [IN, CF], 'all init values, rates, lengths, begins, end values, flags, all counts',
 'schedule_test samples a few configurations and counts.',
 ['schedule.py'], [('exponential_decay', S+'schedule.py:136')])
prop('C31', 'Cosine decay and warmup schedules meet their end points',
 'Cosine decay returns init_value*((1-alpha)*(1+cos(pi*min(count,decay_steps)/decay_steps))/2+alpha), hence init_value at 0 and alpha*init_value from decay_steps on, and raises ValueError for non-positive decay_steps. Warmup-cosine and warmup-exponential schedules rise linearly from init_value to peak_value over warmup_steps and then follow the respective decay restarted at count 0; warmup-cosine ends at end_value from decay_steps on.',
 [IN, CF], 'all values, warmup/decay lengths and counts',
 'schedule_test samples a few configurations.',
 ['schedule.py'], [('cosine_decay_schedule', S+'schedule.py:207'), ('warmup_cosine_decay_schedule', S+'schedule.py:394'), ('warmup_exponential_decay_schedule', S+'schedule.py:426')])
prop('C32', 'Piecewise and one-cycle schedules hit their boundary values',
 'A piecewise-constant schedule returns init_value times the product of the factors of all boundaries that have been reached. A piecewise-interpolating schedule takes those same values at its boundaries (init_value at 0), interpolates linearly or by half-cosine in between and is constant after the last one; negative factors or an unknown interpolation raise ValueError. One-cycle schedules are finite, start at peak/div_factor, reach peak at pct_start of the cycle and end (from transition_steps on) at the documented final value.',
 [IN, CF], 'all init values, boundary/factor maps, cycle lengths >= 1, all counts >= 0',
 'schedule_test samples a few maps; very short cycles are not covered.',
 ['schedule.py'], [('piecewise_constant_schedule', S+'schedule.py:104'), ('piecewise_interpolate_schedule', S+'schedule.py:246'), ('linear_onecycle_schedule', S+'schedule.py:293'), ('cosine_onecycle_schedule', S+'schedule.py:335')])
prop('C33', 'Joined schedules switch at boundaries and restart their clock',
 'A joined schedule returns schedule i evaluated at the number of steps since boundary i-1 (the raw step for the first) for steps from boundary i-1 up to but excluding boundary i. SGDR joins one warmup-cosine cycle per entry, each starting where the previous cycle\'s decay_steps ended.',
 [IN, CF, 'programs'], 'all schedules (opaque functions), increasing boundaries and steps',
 'schedule_test samples two joins.',
 ['schedule.py'], [('join_schedules', S+'schedule.py:373'), ('sgdr_schedule', S+'schedule.py:468')])
prop('C34', 'Injected hyperparameters are exactly what the inner rule uses',
 'With injected hyperparameters each init/update equals the inner factory\'s built from the other arguments, the numeric values currently in the state\'s hyperparams (so user edits take effect at the next update), and every schedule evaluated at the new update count (0 at init). The hyperparams in the returned state are those used, scheduled entries ignore user edits, floats take the dtype of the updates, and booleans and static arguments are passed through unscheduled.',
 [IN, H, CF, 'programs'], 'all inner factories, schedules, numeric hyperparameters (incl. edited ones), counts, updates',
 'schedule_test samples a few factories and counts.',
 ['schedule.py'], [('inject_hyperparams', S+'schedule.py:507')], [('count, hyperparams, inner_state', 'clock, current values, inner state', 'InjectHyperparamsState')])
prop('C35', 'L2 and Huber losses follow their piecewise definitions',
 'The L2 loss is half the squared error (targets default to zero). The Huber loss is 0.5*e^2 where |e| <= delta and 0.5*delta^2 + delta*(|e|-delta) beyond, and its gradient with respect to the predictions is the error clipped to [-delta, delta]; both are non-negative, elementwise and keep the shape.',
 [IN, CF], 'all predictions, targets, delta > 0, shapes',
 'loss_test samples five points.',
 ['loss.py'], [('l2_loss', S+'loss.py:32'), ('huber_loss', S+'loss.py:57')])
prop('C36', 'Cross-entropy losses equal their log-probability definitions',
 'The sigmoid loss is -y*log(sigmoid(x)) - (1-y)*log(1-sigmoid(x)) elementwise; the softmax loss is -sum_k y_k*(x_k - log sum_j exp(x_j)) over the last axis. The softmax loss is non-negative for label distributions and unchanged by adding a constant to all logits of a row (when labels sum to one). Label smoothing returns (1-alpha)*y + alpha/K for K categories and keeps rows summing to one.',
 [IN, CF], 'all logits, labels, alpha, numbers of classes and batch shapes',
 'loss_test samples a few rows.',
 ['loss.py'], [('sigmoid_binary_cross_entropy', S+'loss.py:116'), ('softmax_cross_entropy', S+'loss.py:142'), ('smooth_labels', S+'loss.py:89')])
prop('C37', 'Cosine similarity and distance are normalised inner products',
 'Cosine similarity is the inner product over the last axis of the two vectors, each divided by the larger of its own L2 norm and epsilon; cosine distance is one minus it. For nonzero vectors similarity lies in [-1, 1], is symmetric, is 1 for a vector with itself and is unchanged when either vector is scaled by a positive factor (epsilon 0).',
 [IN, CF], 'all vectors, dimensions, batch shapes and epsilon >= 0',
 'loss_test samples four vectors.',
 ['loss.py', 'numerics.py'], [('cosine_similarity', S+'loss.py:169'), ('cosine_distance', S+'loss.py:205'), ('safe_norm', S+'numerics.py:21')])
prop('C38', 'Global norm and safe norm are the L2 norm',
 'The global norm of a tree is the square root of the sum of squares of all elements of all leaves: non-negative, zero only for all-zero trees, and scaled by |c| when the tree is scaled by c. The safe norm of an array is the larger of its L2 norm and min_norm, and its gradient is finite everywhere: x/||x|| above min_norm and 0 at or below it.',
 [IN, CF], 'all trees, shapes, values, min_norm >= 0',
 'linear_algebra_test and numerics_test sample a few values.',
 ['linear_algebra.py', 'numerics.py'], [('global_norm', S+'linear_algebra.py:25'), ('safe_norm', S+'numerics.py:21')])
prop('C39', 'Matrix roots and power iteration maintain their Newton invariants',
 'Throughout the coupled Newton iteration for the inverse p-th root of a symmetric positive definite A (ridge included), the pair (M, H) satisfies M = H^p A, so when the reported error max|M - I| is small H really is A^(-1/p), for every positive integer p. Power iteration returns a unit vector and a value that is a Rayleigh quotient of the matrix, and stops within num_iters.',
 [IN, CF], 'all positive integers p and symmetric PSD matrices; all iteration counts',
 'linear_algebra_test samples p in {1,2,4,8} on random matrices.',
 ['linear_algebra.py'], [('matrix_inverse_pth_root', S+'linear_algebra.py:82'), ('power_iteration', S+'linear_algebra.py:31')])
prop('C40', 'Second-order helpers return Hessian and Fisher quantities',
 'The Hessian-vector product returns the Hessian of the loss at the parameters times the vector (in the parameters\' tree), linear in the vector. hessian_diag returns the diagonal of that Hessian and fisher_diag the elementwise square of the gradient, both flattened in leaf order.',
 [IN, 'programs'], 'all twice differentiable losses, parameters, vectors, inputs and targets',
 'second_order_test samples one network.',
 ['second_order.py'], [('hvp', S+'second_order.py:44'), ('hessian_diag', S+'second_order.py:69'), ('fisher_diag', S+'second_order.py:92')])
prop('C41', 'Control variates have the expectation they claim',
 'The delta-method control variate is the second-order Taylor expansion of the function at the mean, and its declared expected value is f(mean) + half the sum of variance times Hessian diagonal. The moving-average baseline averages the function over the samples with the documented (optionally heuristic and zero-debiased) decay, and control_variates_jacobians combines estimator, control-variate and expectation terms as f-term - c*(cv-term) - c*grad(cv) + c*grad(E cv), leaving the estimate unchanged when the coefficient is 0.',
 [IN, 'programs', CF], 'all functions, distributions\' params, samples, states and decays',
 'control_variates_test checks Monte-Carlo statistics on a few functions with wide tolerance.',
 ['control_variates.py'], [('control_delta_method', S+'control_variates.py:72'), ('moving_avg_baseline', S+'control_variates.py:143'), ('control_variates_jacobians', S+'control_variates.py:211'), ('estimate_control_variate_coefficients', S+'control_variates.py:339')])
prop('C42', 'Stochastic gradient estimators compute their per-sample identities',
 'Per sample x, the score-function estimator returns f(x)*grad log p(x), the pathwise estimator grad of f(mean + exp(log_scale)*noise) through the reparametrisation, and the measure-valued estimator the coupled or uncoupled difference of f at the positive and negative samples over its constant (with the log-scale chain rule), one coordinate replaced at a time. All samples are those of the given key.',
 [IN, 'programs', CF], 'all functions, Gaussian params, numbers of samples, keys',
 'tests check Monte-Carlo averages with wide tolerance on a few functions.',
 ['stochastic_gradient_estimators.py', 'utils.py'], [('score_function_jacobians', S+'stochastic_gradient_estimators.py:42'), ('pathwise_jacobians', S+'stochastic_gradient_estimators.py:89'), ('measure_valued_jacobians', S+'stochastic_gradient_estimators.py:136'), ('set_diags', S+'utils.py:46'), ('tile_second_to_last_dim', S+'utils.py:25')])
prop('C43', 'Updates and states keep structure, shape and dtype across steps',
 'For every transformation, wrapper and named optimizer the returned updates have the tree structure, shapes and dtypes of the incoming updates, and the returned state has the tree structure, shapes and dtypes of the state that init produced. So update functions can be jitted once, scanned over and checkpointed, for float32 and for lower-precision parameters.',
 [CF, IN, H], 'all transformations, trees incl. scalars, empty trees and None, dtypes float32/bfloat16/float16',
 'tests rarely check state dtypes and almost only use float32.',
 ['transform.py', 'wrappers.py', 'lookahead.py', 'clipping.py', 'constrain.py', 'schedule.py', 'privacy.py', 'alias.py'], [('all init/update pairs', S)])
prop('C44', 'init and update are pure functions of their arguments',
 'No transformation, wrapper, named optimizer or schedule modifies the updates, state, params or hyperparameter containers it is given, or keeps hidden state: calling update twice with the same arguments gives the same result, and updates for one tree never depend on calls made for another.',
 [CF, H, IN], 'all transformations, argument trees (incl. mutable lists and dicts), call histories',
 'tests thread the newest state linearly and never re-use an old one.',
 ['transform.py', 'wrappers.py', 'combine.py', 'lookahead.py', 'clipping.py', 'constrain.py', 'schedule.py', 'privacy.py'], [('all init/update pairs', S)])
prop('C45', 'Finite histories never produce NaN or Inf',
 'Starting from init, every named optimizer and rescaling transformation with valid hyperparameters (decays in [0,1), positive eps) maps any history of finite gradients and parameters, including all-zero ones, to finite updates and a finite state, in exact arithmetic. No square root of a negative number and no division by zero is reached.',
 [H, IN, CF], 'all finite gradient/parameter histories, hyperparameters in their valid range, step counts',
 'tests never explore zero gradients at arbitrary steps or extreme counts.',
 ['transform.py', 'alias.py', 'clipping.py'], [('all rescaling transformations', S+'transform.py')])
prop('C46', 'Leaves are processed independently and uniformly',
 'For every per-leaf transformation and optimizer (all except global-norm clipping, DP aggregation and noise keys), the update of a leaf depends only on that leaf\'s own gradient, parameter and state and on shared counters: renaming, reordering, nesting or adding other leaves does not change it. Elementwise rules likewise treat every element of a leaf the same.',
 [IN, CF], 'all trees with any number of leaves, all shapes',
 'tests use one or two leaves and compare whole-tree results.',
 ['transform.py', 'alias.py', 'clipping.py', 'constrain.py'], [('tree_map based updates', S+'transform.py')])

out = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
with open(out, 'w') as f:
  for p in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
