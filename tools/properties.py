"""Writes /verif/properties.jsonl (the list is easier to keep as Python)."""
import json
import os

SB = "pysgmcmc/samplers/base_classes.py"
SGHMC = "pysgmcmc/samplers/sghmc.py"
SGLD = "pysgmcmc/samplers/sgld.py"
REL = "pysgmcmc/samplers/relativistic_sghmc.py"
SVGD = "pysgmcmc/samplers/svgd.py"
ALL = [SB, SGHMC, SGLD, REL, SVGD]
BNN = "pysgmcmc/models/bayesian_neural_network.py"
DB = "pysgmcmc/data_batches.py"
TR = "pysgmcmc/diagnostics/sample_chains.py"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "observe_at": observe, "hook_needed": None}})


prop("C01", "A step's result does not depend on the order in which operations run",
     "For every sampler (SGHMC, SGLD, relativistic SGHMC, SVGD) and every target, the samples, costs and "
     "parameter values of a chain are the same, up to rounding, whichever order the session executes the "
     "operations of a step in, as long as dataflow and control dependencies are respected and the random "
     "numbers are equal. In particular every gradient of a step is taken at the parameters the step started "
     "from, never at a mixture of old and new ones.",
     ["schedules", "inputs", "configurations"],
     "all orders in which a session may execute the operations of each step; all targets, parameter shapes, batches",
     "TensorFlow's executor picks one order on one machine per run; the tests see a handful of these orders on "
     "single-parameter or decoupled targets, where a race does not show.",
     ALL, [("control dependencies around gradient computation and assignments", f) for f in (SB, SGHMC, SGLD, REL, SVGD)],
     ["next(sampler)", "session.run(params)"])

UPD = ("every target, start, step size sequence, hyperparameters, float type, minibatch sequence, noise and every "
       "execution order, over the whole history of the chain")
NOREF = ("The tests run one sampler on one easy target and compare a summary statistic with loose bounds, or only "
         "run it; a wrong term, factor or stale statistic passes.")
prop("C02", "Every SGHMC step is the scale-adapted SGHMC update",
     "Each SGHMC step moves parameters and momentum exactly (up to rounding) as the scale-adapted stochastic "
     "gradient HMC update of Springenberg et al. prescribes, from the values before the step, the gradient of the "
     "cost at these values and this step's batch, the step size of this step, mdecay, scale_grad and standard normal "
     "noise. The running gradient statistics and with them the mass matrix are adapted by the same rule in every "
     "burn-in step, and stay as they were at the end of burn-in afterwards.",
     ["inputs", "histories", "schedules"], UPD, NOREF, [SGHMC, SB, "pysgmcmc/tensor_utils.py"],
     [("update equations", SGHMC), ("_draw_noise_sample", SB)], ["next(sampler)", "session.run(params)"],
     [("momentum, tau, r_t, g, v_hat, minv", "momentum and running gradient statistics", SGHMC)])
prop("C03", "Every SGLD step is the preconditioned SGLD update",
     "Each SGLD step moves the parameters exactly (up to rounding) as the preconditioned Langevin update prescribes, "
     "from the values before the step, the gradient at these values and this step's batch, the step size of this "
     "step, A, scale_grad and standard normal noise. The gradient statistics behind the preconditioner are adapted "
     "by the same rule in every burn-in step and stay as they were at the end of burn-in afterwards.",
     ["inputs", "histories", "schedules"], UPD, NOREF, [SGLD, SB, "pysgmcmc/tensor_utils.py"],
     [("update equations", SGLD), ("_draw_noise_sample", SB)], ["next(sampler)", "session.run(params)"],
     [("tau, g, v_hat, minv", "running gradient statistics", SGLD)])
prop("C04", "Every relativistic SGHMC step follows the update and the speed limit",
     "For targets whose parameters hold one value each, every relativistic SGHMC step moves momentum and parameters "
     "exactly (up to rounding) as the relativistic SGHMC update with the given mass, speed_of_light, D, Bhat and step "
     "size prescribes. No coordinate ever moves further in a step than step size times speed_of_light.",
     ["inputs", "histories", "schedules"], UPD, NOREF, [REL, SB],
     [("update equations", REL)], ["next(sampler)", "session.run(params)"],
     [("momentum", "relativistic momentum of each parameter", REL)])
prop("C05", "Every SVGD step is the Stein variational gradient update",
     "Every SVGD step moves all particles exactly (up to rounding) as the Stein variational update with the "
     "median-bandwidth RBF kernel and AdaGrad-with-momentum step sizes prescribes: each particle follows the "
     "kernel-weighted gradients of all particles and is repelled by, not attracted to, the others. All particles "
     "move at once, from the positions before the step, and the running squared gradient covers the whole history.",
     ["inputs", "histories", "schedules"], UPD,
     "The test suite holds no SVGD test that runs here at all.",
     [SVGD, SB, "pysgmcmc/tensor_utils.py"], [("svgd_kernel and update equations", SVGD), ("pdist/squareform/median", "pysgmcmc/tensor_utils.py")],
     ["next(sampler)", "session.run(particles)"], [("historical_grad", "running squared gradient", SVGD)])
prop("C06", "A step returns its own sample and its own cost",
     "The sample a step returns has exactly the values the parameters hold after that step, in the order and shapes "
     "of the parameters, in burn-in as well as afterwards. The cost it returns is the cost function's value at the "
     "parameters the step started from, on the batch and caller-fed values of that step.",
     ["schedules", "histories", "fault_sequences"],
     "all chains, operation orders and sequences of succeeding and failing steps",
     "Tests look at single-parameter chains and never at cost and sample of the same step under other execution orders.",
     ALL, [("__next__ fetches theta_t and cost in one run", SB)], ["next(sampler)"])
prop("C07", "Burn-in lasts exactly burn_in_steps successful steps, then freezes",
     "An SGHMC or SGLD sampler says it is burning in exactly while fewer than burn_in_steps steps have succeeded "
     "(with 0: never), whatever failed or was interrupted in between. With burn_in_steps >= 1, adaptation happens in "
     "exactly these steps; from then on every step uses the mass matrix the last burn-in step ended with.",
     ["histories", "crash_points", "fault_sequences"],
     "all histories of successful, failed and interrupted steps around the end of burn-in, all burn_in_steps",
     "Tests never let a step fail and never look at the first steps after burn-in.",
     [SB, SGHMC, SGLD], [("is_burning_in, n_iterations", SB), ("feeding the frozen minv", SB)],
     ["sampler.is_burning_in", "next(sampler)"], [("minv", "frozen mass matrix inverse", SB), ("n_iterations", "successful steps", SB)])
prop("C08", "A failed step leaves a chain that goes on correctly",
     "If a step fails -- in the batch source, the step-size schedule, the session before, during or after execution, "
     "or by an interrupt -- the error reaches the caller, the step is not counted, and no parameter holds a value that "
     "neither the old state nor that step's update explains. Once faults stop the very next step succeeds and follows "
     "the update from the state found, with no residue of the failed one.",
     ["crash_points", "fault_sequences", "schedules"],
     "all points at which a step can fail, all kinds of failures, all sequences of failures and successes",
     "No test makes a step fail.", ALL, [("order of draws, run and counting in __next__", SB)],
     ["next(sampler)", "sampler.n_iterations", "session.run(params)"])
prop("C09", "A seed determines the chain",
     "Two chains with the same seed, target, start, settings and batches produce the same samples and costs in any "
     "two processes and graphs: whatever the execution order, the clock, the state of global random generators, hash "
     "randomisation, the operating system's entropy, and other operations and samplers around. ",
     ["schedules", "configurations", "histories"],
     "all environments a seeded chain can run in, all seeds including 0",
     "The seeding test compares two BNN runs in one process in quick succession.",
     ALL, [("seed passed to tf.random_normal", SB)], ["next(sampler)"])
prop("C10", "Noise is standard normal and fresh for every coordinate and step",
     "The noise a sampler injects is standard normal before scaling and drawn independently for every coordinate, "
     "every parameter, every step and every independently seeded (or unseeded) chain, whether or not a seed is given. "
     "No draw is reused anywhere.",
     ["histories", "configurations", "inputs"], "all seeds, parameter lists, chain combinations and lengths",
     "A sampler whose parameters share their noise still passes every test on single-parameter targets.",
     [SB, SGHMC, SGLD, REL], [("_draw_noise_sample", SB)], ["next(sampler)"])
prop("C11", "Each step draws one step size and uses exactly that one",
     "Every attempted step draws exactly one value from the step-size schedule the sampler was given, and the update "
     "of that step uses exactly that value; a value is never skipped, reused or replaced by the initial one. After a "
     "successful step, and only then, the schedule is updated exactly once, with that step's sample and cost.",
     ["histories", "fault_sequences", "configurations"],
     "all schedules (constant, decaying, adaptive, arbitrary iterators), all histories of succeeding and failing steps",
     "Tests only use constant schedules, for which skipped, stale or ignored values are invisible.",
     [SB, SGHMC, SGLD, REL, SVGD, "pysgmcmc/stepsize_schedules.py"], [("_next_stepsize and stepsize_schedule.update", SB)],
     ["stepsize_schedule.__next__", "stepsize_schedule.update", "next(sampler)"])
prop("C12", "Each step draws one batch; caller-fed values are honoured in every phase",
     "Every step draws exactly one minibatch from the batch source and evaluates cost and gradient on exactly that "
     "batch. Values the caller feeds to a step (feed_dict) apply to that step's cost and update, during burn-in and "
     "after it alike, and to no other step.",
     ["histories", "inputs", "fault_sequences"],
     "all batch sources, all sequences of feeds, in and after burn-in",
     "Tests never pass feed_dict and never relate a batch to the step that used it.",
     [SB], [("_next_batch, feed_dict handling in __next__", SB)], ["batch_generator.__next__", "next(sampler, feed_dict)"])
prop("C13", "Minibatches are intact windows of the dataset, which stays untouched",
     "Both batch generators only ever yield batches of min(batch_size, N) distinct datapoints, each with its own "
     "label, mapped to the given placeholders with labels as a column: contiguous windows of the dataset, every one of "
     "which (including first and last) comes up sooner or later; generate_shuffled_batches also shuffles them. "
     "Neither the caller's arrays nor any batch already handed out is ever modified, however many consumers share the "
     "dataset and however their calls interleave or are interrupted.",
     ["schedules", "inputs", "histories", "crash_points"],
     "all dataset sizes, batch sizes (also larger than the dataset), seeds, interleavings of several consumers",
     "Tests draw a few batches with one consumer; in-place shuffling or an off-by-one in the window range needs "
     "repeated draws and a second look at the dataset to show.",
     [DB], [("window choice and shuffling", DB)], ["next(generate_batches(...))", "next(generate_shuffled_batches(...))", "the caller's arrays"])
prop("C14", "A batch seed determines the batches, and only that",
     "A batch generator with a seed yields the same batches in every process, whatever other generators, threads, "
     "global random state, clock or entropy do, and different seeds yield different sequences. It neither reads nor "
     "disturbs the process-wide random generators.",
     ["schedules", "configurations", "histories"],
     "all seeds, interleavings with other consumers of the same or other generators, all global random states",
     "Tests compare two fresh generators in one thread with nothing in between.",
     [DB], [("RandomState(seed) per generator", DB)], ["next(generate_batches(...))", "numpy.random.get_state()"])
prop("C15", "A BNN collects exactly the nets its settings ask for",
     "Training a BNN collects states of the chain after burn-in, exactly sample_steps iterations apart and starting "
     "within sample_steps iterations after burn-in, at most n_nets of them, each the state at that iteration and not a "
     "later one. It performs at most n_iters iterations and stops exactly when n_nets nets are collected or n_iters "
     "iterations are over; afterwards the network says that it is trained.",
     ["configurations", "schedules", "inputs"],
     "all combinations of n_nets, n_iters, burn_in_steps, sample_steps, samplers, batch sources, dtypes",
     "Tests train with two or three settings and look at accuracy only.",
     [BNN], [("collection loop in train", BNN)], ["bnn.samples", "bnn.is_trained", "states of the network's variables"],
     [("samples", "collected networks", BNN)])
prop("C16", "Prediction is the moments of the collected nets in the data's own units",
     "predict(X) is the mean and variance, over exactly the collected nets, of the network's outputs at X, with inputs "
     "normalised by the training inputs' statistics and outputs mapped back to the training targets' units (mean and "
     "individual predictions by scale and shift, variances by the squared scale). It has no side effects: repeated "
     "or interleaved with others in any order, with faults in between, the same call gives the same result and changes "
     "neither nets, caller arrays nor variables.",
     ["histories", "inputs", "fault_sequences", "configurations"],
     "all trained networks, normalisation settings, test inputs and sequences of predictions, also with failing ones",
     "Tests check accuracy at one normalisation-insensitive dataset; they do not compare with the collected nets.",
     [BNN, "pysgmcmc/models/base_model.py"], [("predict, compute_network_output", BNN), ("normalisation", "pysgmcmc/models/base_model.py")],
     ["bnn.predict", "bnn.samples"])
prop("C17", "A failed training never yields predictions",
     "If train() fails at any point -- batch source, step-size schedule, session, interrupt -- the error reaches the "
     "caller and the network afterwards neither claims to be trained nor predicts from the nets collected so far; only "
     "if it failed before changing anything may an earlier, complete training go on being served unchanged. "
     "A training that succeeds after an earlier one holds no nets of the earlier one.",
     ["crash_points", "fault_sequences", "histories"],
     "all points at which a first or repeated training can fail, all kinds of failures",
     "No test makes training fail or trains twice.",
     [BNN], [("is_trained handling in train/predict", BNN)], ["bnn.is_trained", "bnn.predict", "bnn.train"],
     [("is_trained", "a complete set of nets is available", BNN)])
prop("C18", "A BNN seed determines nets and predictions",
     "Two BNNs with the same seed, data and settings collect the same nets and predict the same values in any two "
     "processes and fresh graphs, whatever the execution order, clock, global random state, hash randomisation or "
     "entropy; other seeds give other networks.",
     ["schedules", "configurations"], "all environments, seeds (including 0), networks, samplers, batch sources",
     "The seeding test compares two trainings in one process with one configuration.",
     [BNN, SB, DB], [("seed handed to network, batches and sampler", BNN)], ["bnn.samples", "bnn.predict"])
prop("C19", "Traces record every keep_every-th state of one fresh chain each",
     "A trace recorded from a sampler holds exactly n_samples values per parameter, keep_every steps apart, under the "
     "right names and chain id; burn and thin select from them as slices do, and later steps never change it. A "
     "multitrace (also one behind a diagnostic) holds one such trace per chain, each of its own sampler in its own "
     "graph and session, going on from where the given sampler stands, also if already burnt-in; sessions are "
     "closed and a fault while recording surfaces instead of yielding a short trace.",
     ["histories", "fault_sequences", "configurations", "schedules"],
     "all samplers, thinnings, lengths, chain counts, faults during recording",
     "pymc3 is not even importable here, so the tests of this module do not run.",
     [TR, "pysgmcmc/diagnostics/sampler_diagnostics.py"], [("from_sampler, get_values", TR), ("pymc3_multitrace", TR)],
     ["PYSGMCMCTrace.from_sampler", "pymc3_multitrace", "effective_sample_sizes", "gelman_rubin"])
prop("C20", "Returned samples and costs are snapshots",
     "A sample or cost a sampler has returned never changes later, whatever further steps, failures or writes "
     "happen. Writing to a returned sample never changes the chain.",
     ["histories", "fault_sequences"], "all chains, all later histories, all writes of the client to returned values",
     "Tests look at a sample only right after it was returned.",
     ALL, [("values fetched per run", SB)], ["next(sampler)"])
prop("C21", "Chains advanced side by side do not influence each other",
     "Chains of any samplers, in graphs of their own advanced by concurrent threads or sharing one graph and session, "
     "later ones possibly built while earlier ones run, produce exactly the samples, costs and parameters each "
     "produces when run alone, however their steps interleave and also if steps of some of them fail.",
     ["schedules", "configurations", "fault_sequences"],
     "all interleavings of steps, constructions, operations and source lines of two or three chains",
     "Tests run one chain at a time.",
     ALL + ["pysgmcmc/stepsize_schedules.py"], [("per-sampler state", SB), ("default arguments shared by all samplers", SB)],
     ["next(sampler)", "session.run(params)"])
prop("C22", "Every step starts from the parameters' current values",
     "Constructing a sampler leaves initialised parameters untouched, initialises exactly the uninitialised ones, and "
     "every step starts from the values the parameters hold at that moment: restored from a checkpoint, drawn at "
     "random by their initialiser, or assigned by somebody else between two steps -- also when an earlier "
     "construction failed half-way. ",
     ["crash_points", "histories", "inputs"],
     "all ways the parameters came to their values before construction and between steps",
     "Tests start every chain from a constant initialiser, for which a copy taken at construction is the same value.",
     ALL + ["pysgmcmc/tensor_utils.py"], [("uninitialized_params, vectorized clones", SB)],
     ["sampler construction", "next(sampler)", "session.run(params)"])
prop("C23", "Tensor utilities compute what their names say",
     "vectorize/unvectorize are inverse reshapes, median, pdist, squareform, safe_divide and safe_sqrt equal their "
     "numpy/scipy counterparts for every shape and value.",
     ["inputs"], "all tensors", "Tests sample a few tensors.", ["pysgmcmc/tensor_utils.py"],
     [("the functions", "pysgmcmc/tensor_utils.py")], ["return values"])
prop("C24", "A sampler obtained by name is the sampler constructed directly",
     "Sampler.get_sampler(method, **arguments) gives a sampler of that method whose chain -- samples, costs, failures "
     "and parameter values -- is the one the directly constructed sampler with the same arguments walks, arguments not "
     "given taking the constructor's defaults. A session not given is the default session of the moment of the call; a "
     "session that is given is the one used, whatever the default session is, then and at later steps. A call with an unknown argument or without a required one raises "
     "ValueError and leaves graph and parameters as they were.",
     ["configurations", "histories", "schedules"], "all methods and argument subsets, all following histories",
     "The tests of get_sampler only look at types and error messages.",
     ["pysgmcmc/sampling.py"], [("argument merging in get_sampler", "pysgmcmc/sampling.py")],
     ["Sampler.get_sampler", "next(sampler)"])
prop("C25", "Objective functions evaluate the published formulas",
     "The benchmark objective functions and their bounds agree with the published definitions for every input.",
     ["inputs"], "all points", "Tests do not cover them.", ["pysgmcmc/diagnostics/objective_functions.py"],
     [("the functions", "pysgmcmc/diagnostics/objective_functions.py")], ["return values"])
prop("C26", "BNN training walks the posterior chain its settings define",
     "The network's weights during train() follow exactly the chain of the chosen sampler, with the BNN's seed, batch "
     "source, batch size, step-size schedule, burn-in and further sampler arguments and the dataset size as gradient "
     "scale, on the negative log posterior: Gaussian likelihood with predicted variance, averaged over the batch size, "
     "plus log-variance and weight priors divided by the dataset size, on the data normalised as requested -- also when "
     "trained again or in a graph that holds other variables, chains or networks.",
     ["configurations", "histories", "schedules", "inputs"],
     "all settings, datasets, operation orders; every iteration of training",
     "Tests check final accuracy, which many wrong posteriors, batch scalings or ignored settings also reach.",
     [BNN], [("negative_log_likelihood, priors", BNN), ("sampler_kwargs in train", BNN)], ["states of the network's variables during train"])
prop("C27", "Normalisation helpers are inverse to each other",
     "zero_mean_unit_var and zero_one (un)normalisation of arrays are inverse to each other and produce the stated ranges.",
     ["inputs"], "all non-degenerate arrays", "Tests do not cover them directly.", ["pysgmcmc/models/base_model.py"],
     [("the functions", "pysgmcmc/models/base_model.py")], ["return values"])

prop("C28", "BNNs sharing a graph, session or process keep to themselves",
     "Whatever is done with one BNN -- training, training that fails, predicting, from one thread or several -- leaves "
     "everything else as it is: other variables of the graph and session, chains, nets and predictions of other BNNs, "
     "the caller's arrays. Nor does anything else take part in its training: whatever lives in its graph or trains at "
     "the same time, the nets it collects, and what it predicts, are those it collects and predicts when alone.",
     ["histories", "interleavings", "crash points"],
     "any number of networks and chains in one graph and session, or of concurrent threads with graphs of their own; "
     "all interleavings and failures",
     "Tests train one network per graph.",
     [BNN], [("network parameters and variable initialisation in train", BNN)],
     ["BayesianNeuralNetwork.train", "BayesianNeuralNetwork.predict", "session variables"])

prop("C29", "A chain or network runs for ever in the graph it was built in",
     "Steps, failed steps, recordings, iterations of training and predictions add operations to the graph at most the "
     "first times they are made: however long a chain is walked or a network used, the graph stays the size it had, and "
     "a graph finalized once every kind of call has been made serves all later ones.",
     ["histories", "fault sequences"], "all lengths and orders of calls, successful or not",
     "Tests make a handful of calls, after which a graph that grows with each is no slower or bigger than one that does not.",
     ALL + [BNN, TR], [("Theta_t, Cost and gradients built in __init__", SB), ("compute_network_output", BNN)],
     ["len(graph.get_operations())", "next(sampler) on a finalized graph"])
prop("C30", "Library calls give back the process state they found, however they end",
     "After every call -- recording one chain or several, diagnosing, constructing and stepping a sampler, training, "
     "predicting -- the default graph and default session are the caller's, sessions the call opened are closed, the "
     "caller's is open, no thread is left, and process-wide settings (numpy's error handling, logging, the graph-level "
     "seed, signal handling, ... and, when seeds were given, the global random generators) are as the caller left them, "
     "whether it returned or an interrupt, a failing session or a failing callback ended it; and the same call made "
     "again works.",
     ["histories", "crash points", "fault sequences"], "all sequences of calls and points of failure",
     "Tests of multi-chain recording never let a chain fail and never look at the process afterwards.",
     [TR, "pysgmcmc/diagnostics/sampler_diagnostics.py", BNN] + ALL,
     [("the graph and session of every chain in pymc3_multitrace", TR)],
     ["tf.get_default_graph", "tf.get_default_session", "sessions opened", "np.geterr, logging.root, np.random.get_state, random.getstate", "the repeated call"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        p["statement"] = p["statement"].strip()
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
