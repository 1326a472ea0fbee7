"""Writes /verif/properties.jsonl (kept in one place so that ids, titles and statements stay in step)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mechanism, observe_at=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "observe_at": observe_at or [], "hook_needed": None}})


p("P01", "Unconditional diffusion paths have exactly the model's law",
  "For every admissible parameter, start value, horizon and set of query times, the values returned by a bundled diffusion model's path sampler without an end value are exact draws from that diffusion's finite-dimensional law (Gaussian for Ornstein-Uhlenbeck, non-central chi-square for Cox-Ingersoll-Ross). There is no discretisation error, every draw is on the data scale and inside the domain, and successive draws are independent.",
  ["inputs", "configurations"], "all thi, init_v, fin_t, query time sets inside the supported domain of ito.models.ou and ito.models.cir",
  "One OU fixture with 1000 draws at alpha=1e-2; CIR sampling has no test at all, and a law over all parameters cannot be sampled by one fixture.",
  ["ctbayes/ito/static.py", "ctbayes/ito/models/ou.py", "ctbayes/ito/models/cir.py", "ctbayes/ea3lib/skeleton.py", "ctbayes/misc/ars.py"],
  [("biased endpoint by adaptive rejection + Poisson coin on a layered bridge", "ctbayes/ea3lib/skeleton.py:sample_skeleton")], ["sample_sde(..., fin_v=None)"])
p("P02", "Conditioned diffusion bridges have exactly the model's law",
  "Whenever the end value is fixed, both bridge samplers (the one on the data scale and the one producing normalised seeds) return exact draws from the diffusion conditioned on its two end values, for every parameter, horizon and pair of end values. The interior values have the exact conditional mean, variance and dependence, independently of which layer, anchor side or proposal was accepted.",
  ["inputs", "configurations"], "all thi, fin_t, end values and query times",
  "One random OU fixture with near-equal end values; layer dependent acceptance errors only show for strongly curved or far-out bridges.",
  ["ctbayes/ito/static.py", "ctbayes/ea3lib/skeleton.py", "ctbayes/ea3lib/seed.py"],
  [("layer-wise Poisson coin with weight relative to the infimum", "ctbayes/ea3lib/seed.py:sample_bridge"), ("Poisson coin", "ctbayes/ea3lib/skeleton.py:flip_poisson_coin")])
p("P03", "Revealing a path at new times never contradicts what is known",
  "However often and in whatever order a path representation is queried, its end points and every value revealed earlier stay as they were, its times stay sorted and distinct, and repeating a query returns the same values. All revealed values stay between the two recorded levels of the path, the recorded extreme stays attained, and the record of which sections reach the intermediate level keeps one entry per section, never loses its last reaching section, and marks a section as not reaching it only if its values stay on the near side.",
  ["histories", "inputs"], "all histories of queries on paths of either orientation, any layer, and half-bounded domains",
  "Tests query a path once, at fresh times, and look only at the marginal law.",
  ["ctbayes/ea3lib/skeleton.py", "ctbayes/ea3lib/seed.py", "ctbayes/sdelib/interpolators.py"],
  [("interpolation with layer and hit constraints", "ctbayes/sdelib/interpolators.py:fill_wiener_inner"), ("reflection of upper-anchored paths", "ctbayes/ea3lib/skeleton.py:flip_skeleton")])
p("P04", "The law of a revealed path does not depend on the query schedule",
  "Averaged over the recorded layers, path proposals revealed through any schedule of queries (all at once, one by one, repeated or out of order) follow the Brownian bridge between their end values, or that bridge conditioned to stay inside a half-bounded domain. Levels, extremes and hit records are consistent with that bridge as well.",
  ["histories", "inputs", "configurations"], "all end values, horizons, domains and query schedules",
  "The two interpolation tests use one fixture each, one query of ten times, unbounded domain.",
  ["ctbayes/ea3lib/skeleton.py", "ctbayes/ea3lib/seed.py", "ctbayes/sdelib/layers.py", "ctbayes/sdelib/interpolators.py", "ctbayes/sdelib/paths.py"],
  [("layer, anchor and edge sampling", "ctbayes/sdelib/layers.py"), ("conditional refinement", "ctbayes/sdelib/paths.py:propose_layerbr")])
p("P05", "Discount bounds really bound the discount",
  "For every bundled model, parameter, regime and interval of states, the reported lower and upper bounds enclose the discount function on the whole interval, and the reported global infimum is a lower bound on the whole state space that is attained. The bounds along a path representation enclose the discount at every value the path can still be revealed to take.",
  ["inputs", "configurations"], "all intervals in the state space, all parameters (CIR: where the discount is bounded below)",
  "No test evaluates the bounds; an under-estimate biases every sampler silently.",
  ["ctbayes/ito/models/ou.py", "ctbayes/ito/models/cir.py", "ctbayes/switching/models/ou.py", "ctbayes/switching/models/ou2.py", "ctbayes/switching/models/ou3.py", "ctbayes/ea3lib/seed.py"],
  [("analytic bounds", "eval_bounds_disc in each model"), ("bounds along a seed", "ctbayes/ea3lib/seed.py:bound_disc_path")])
p("P06", "Diffusion likelihood estimates are unbiased",
  "For every observed series and parameter, the augmented likelihood estimate of a diffusion model has the exact likelihood of the data as its expectation, and the log version has the exact expected log path density; path coins succeed with exactly the probability implied by the discount along the path. The deterministic part equals the value written directly from the model's drift and transform, interval by interval.",
  ["inputs", "configurations"], "all observation times/values with one or more intervals, all parameters",
  "Tests use a single interval of one random fixture; multi-interval series, far-out values and near-boundary states are not reached.",
  ["ctbayes/ito/mcem.py", "ctbayes/ito/static.py", "ctbayes/ea3lib/seed.py", "ctbayes/ea3lib/skeleton.py"],
  [("Poisson estimator", "ctbayes/ea3lib/seed.py:est_poisson_coin"), ("biased density", "ctbayes/ito/static.py:eval_biased_log_lik")])
p("P07", "Switching likelihood estimates are unbiased",
  "For every regime path, observed series and parameter, the augmented likelihood estimate of each bundled regime-switching model has the exact likelihood of the data given the regimes as its expectation. The per-regime restricted likelihoods add up to the full one, and the anchors inserted at regime changes have the Gaussian bridge law implied by the regime volatilities.",
  ["inputs", "configurations"], "all regime paths, data series, parameters, number of regimes, the three bundled models",
  "The only test of this uses a reference with the wrong volatility parameterisation and fails; ou2 and ou3 have no test.",
  ["ctbayes/switching/static.py", "ctbayes/switching/mcem.py", "ctbayes/switching/models/ou.py", "ctbayes/switching/models/ou2.py", "ctbayes/switching/models/ou3.py"],
  [("augmentation and biased likelihood", "ctbayes/switching/static.py")])
p("P08", "Model ingredients are mutually consistent",
  "In every bundled model the drift antiderivative, drift and drift derivative belong to each other, the data transform and its inverse and derivative belong to each other, and the normalising and denormalising maps invert each other and fix the end points. The bound used when comparing two parameters dominates the true difference of the discount along every path within the recorded levels, so that comparison never aborts.",
  ["inputs", "configurations"], "all parameters, states, regimes (scalar or per-interval), pairs of parameters and path levels",
  "Only one round trip of the normalisation on one fixture is tested.",
  ["ctbayes/ito/models/ou.py", "ctbayes/ito/models/cir.py", "ctbayes/switching/models/ou.py", "ctbayes/switching/models/ou2.py", "ctbayes/switching/models/ou3.py", "ctbayes/ito/static.py", "ctbayes/switching/static.py"],
  [("curried model functions", "ctbayes/*/models"), ("gradient bounds", "eval_bounds_grad in each model")])
p("P09", "Diffusion parameter updates leave the posterior invariant",
  "A parameter update of the diffusion sampler leaves the joint law of parameter, data and path invariant, for every data size, proposal scale, portkey probability, coin batch size and with or without the preliminary coin. Hence long runs target prior times likelihood.",
  ["histories", "configurations", "inputs"], "all control settings, data series and proposal scales",
  "The only test of the posterior crashes on the original tree and would look at one data set with default settings.",
  ["ctbayes/ito/mcmc.py", "ctbayes/ea3lib/seed.py", "ctbayes/misc/adapt.py", "ctbayes/misc/bfactories.py"],
  [("two-coin with dual Poisson coins", "ctbayes/ito/mcmc.py:update_params")])
p("P10", "Diffusion path updates leave the conditional path law invariant",
  "Updating the hidden path between observations leaves its exact conditional law given parameter and data invariant, interval by interval, for every control setting and number of intervals.",
  ["histories", "configurations", "inputs"], "all parameters, data series, numbers of intervals and controls",
  "One fixture with one interval and default controls.",
  ["ctbayes/ito/mcmc.py", "ctbayes/ea3lib/seed.py", "ctbayes/misc/bfactories.py"],
  [("two-coin path update", "ctbayes/ito/mcmc.py:update_sde")])
p("P11", "Switching parameter and generator updates leave the posterior invariant",
  "Given the regimes, the parameter update of the switching sampler leaves the law of the regime parameters and path invariant for each regime independently, and the generator update draws the transition rates from their exact conjugate posterior given the complete regime path.",
  ["histories", "configurations", "inputs"], "all data series, regime paths, control settings, the three bundled models",
  "The integration test times out; nothing else exercises these updates.",
  ["ctbayes/switching/mcmc.py", "ctbayes/misc/adapt.py", "ctbayes/mjplib/inference.py"],
  [("per-regime two-coin update", "ctbayes/switching/mcmc.py:update_params"), ("conjugate update", "ctbayes/switching/mcmc.py:update_generator")])
p("P12", "Switching hidden-state updates leave the conditional law invariant",
  "Updating regimes, anchors and paths of the switching sampler leaves their exact conditional law given parameters, generator and data invariant, whichever observation times happen to be used as section boundaries and for every control setting.",
  ["histories", "configurations", "inputs"], "all data series, generators, section boundary choices and controls",
  "The integration test times out; nothing else exercises the hidden update.",
  ["ctbayes/switching/mcmc.py", "ctbayes/misc/adapt.py", "ctbayes/mjplib/skeleton.py", "ctbayes/switching/static.py"],
  [("sectioned proposal and acceptance", "ctbayes/switching/mcmc.py:update_hidden")])
p("P13", "Inference never loses or alters the data or the regime history",
  "Along every posterior or EM run, each state contains every observation time and value unchanged and in order, one path section per interval whose end points are the surrounding values, and parameters inside their bounds. The regimes read off the state form a valid jump path over the whole horizon that agrees with the regimes of the sections, and splitting a state at observation times and pasting it together returns the same state.",
  ["histories", "inputs", "configurations"], "all run lengths, data series (any number of observations, irregular times), controls",
  "No test inspects the hidden state of a run.",
  ["ctbayes/switching/mcmc.py", "ctbayes/switching/static.py", "ctbayes/switching/types.py", "ctbayes/ito/mcmc.py", "ctbayes/switching/mcem.py", "ctbayes/ito/mcem.py"],
  [("split and paste of the hidden state", "ctbayes/switching/mcmc.py:split_hidden"), ("augmentation", "ctbayes/switching/static.py:sample_aug")])
p("P14", "EM estimation progresses towards the posterior mode",
  "Every EM run continues from its own last estimate, its estimates respect the parameter bounds, and its parameter step maximises the sampled objective. Run long enough it arrives near the true posterior mode from any start, and the generator step returns the exact maximiser of the expected complete-data log posterior.",
  ["inputs", "histories"], "all data series and start values; interior modes",
  "Both MAP tests crash on the original tree.",
  ["ctbayes/ito/mcem.py", "ctbayes/switching/mcem.py", "ctbayes/mjplib/inference.py"],
  [("EM iteration", "ctbayes/ito/mcem.py:maximize_posterior"), ("generator step", "ctbayes/switching/mcem.py:update_generator")])
p("P15", "Jump process paths have exactly the law of their generator",
  "Forward, backward and bridge paths of a jump process follow the law given by the generator: states at every time have the matrix-exponential probabilities (conditioned on the fixed end states, or stationary where none is given), and jump counts and holding times agree as well.",
  ["inputs", "configurations"], "all irreducible generators with positive rates, horizons and end states",
  "Tests compare only long-run occupation on a horizon of 1e5, where boundary conditioning is invisible.",
  ["ctbayes/mjplib/skeleton.py"],
  [("uniformisation bridge", "ctbayes/mjplib/skeleton.py:sample_bridge"), ("forward simulation", "ctbayes/mjplib/skeleton.py:sample_forwards")])
p("P16", "Splitting, pasting and re-drawing jump paths keeps what it must",
  "Splitting a jump path at any times and pasting the pieces returns the same path, each piece equals the original shifted to its interval, and evaluating a path returns the state of the last jump at or before the time. Re-drawing a split path keeps the states at every split time and the length of each piece, and under the generator's own law it leaves the law of the path invariant.",
  ["inputs", "histories"], "all jump paths, split times (including jump times and none) and generators",
  "Doctests use random paths and split times that never coincide with jumps.",
  ["ctbayes/mjplib/skeleton.py"],
  [("partition/paste", "ctbayes/mjplib/skeleton.py:partition_skeleton"), ("mutation", "ctbayes/mjplib/skeleton.py:mutate_partition")])
p("P17", "Poisson process samplers are exact, in one go or in batches",
  "Both Poisson process samplers return points that lie inside the box, sorted by their first coordinate, with Poisson count of mean intensity times volume and uniform independent positions, for every batch size, intensity, dimension and box.",
  ["inputs", "configurations"], "all intensities, boxes of any dimension and batch sizes",
  "One doctest with batch size 2 and about 1e4 points, where the boundary error is invisible.",
  ["ctbayes/mjplib/skeleton.py"],
  [("sequential order statistics", "ctbayes/mjplib/skeleton.py:sample_batch_ppp"), ("direct sampling", "ctbayes/mjplib/skeleton.py:sample_ppp")])
p("P18", "Jump process inference is exact",
  "The posterior update counts every jump and all of the time spent in every state, the path log density and prior density equal their definitions, and prior times likelihood equals the updated posterior up to a constant. The statistics of a path do not depend on how it is split, and posterior mean, mode and draws match the gamma posterior with rows that sum to zero.",
  ["inputs"], "all jump paths, gamma hyper-parameters and generators",
  "One doctest compares a posterior mean with tolerance 0.1 on a very long path.",
  ["ctbayes/mjplib/inference.py", "ctbayes/mjplib/skeleton.py"],
  [("conjugate update", "ctbayes/mjplib/inference.py:update")])
p("P19", "Bernoulli factories have exactly the promised success probability",
  "Both coin factories return heads with probability w1 p1 / (w1 p1 + w2 p2), modified exactly as the escape probability prescribes, for all log weights however large or unequal. They return the proposal that belongs to the returned outcome (after an escape, the retained side as far as it has been revealed), use no more coin flips than needed, and raise the budget error instead of inventing an outcome.",
  ["inputs", "fault_sequences"], "all log weights, coin probabilities, escape probabilities and budgets",
  "One doctest checks one random probability; escapes, payloads, budgets and the joint variant are not reached.",
  ["ctbayes/misc/bfactories.py"],
  [("two-coin algorithm", "ctbayes/misc/bfactories.py:sample_twocoin")])
p("P20", "Adaptive rejection sampling is exact for log-concave targets",
  "For every strictly log-concave density with interior mode, bounded or unbounded support and valid or default starting points, the adaptive rejection sampler returns independent exact draws inside the support, and its hull really encloses the target and is sampled exactly. The number of draws asked for is delivered.",
  ["inputs", "configurations"], "all strictly log-concave targets, supports, starting points, hull sizes",
  "One doctest with a chi-square target.",
  ["ctbayes/misc/ars.py"],
  [("hull construction and sampling", "ctbayes/misc/ars.py:sample")])
p("P21", "Minimum and exit probabilities of bridges are exact",
  "For Brownian bridges the distribution function and quantile function of the minimum (also restricted to an interval) are inverse to each other and exact, sampled minima and their times have the exact joint law, and the exit events of Brownian and Bessel bridges, with or without an outer bound, occur with the exact probability and monotonically in the level for a fixed seed.",
  ["inputs", "configurations"], "all end values, horizons, levels, restrictions",
  "Doctests compare a sampler with its own series, or two samplers on one fixture.",
  ["ctbayes/sdelib/hitting.py", "ctbayes/sdelib/transforms.py"],
  [("closed forms and alternating series", "ctbayes/sdelib/hitting.py")])
p("P22", "Layers and layered bridges are exact",
  "Layers are nested, exhaust the domain and are drawn with exactly the probability that the bridge stays inside one but not the next inner layer; paths drawn given minimum and level constraints have exactly the law of the bridge under those constraints, with values inside the levels and hit records of the right probability.",
  ["inputs", "configurations"], "all end values, horizons, domains (free, one-sided, two-sided), layers and level constraints",
  "Doctests compare with coarse discretisations on one fixture, mostly with equal end values.",
  ["ctbayes/sdelib/layers.py", "ctbayes/sdelib/paths.py", "ctbayes/sdelib/hitting.py"],
  [("layer sampling", "ctbayes/sdelib/layers.py:sample_layer"), ("constrained paths", "ctbayes/sdelib/paths.py:sample_layerbr")])
p("P23", "Gaussian and Bessel path primitives match their moments",
  "Wiener, Brownian bridge, Bessel and Bessel bridge paths drawn at any set of times have exactly the joint law their closed-form moments state, those moments equal their textbook values, conditioning formulas agree with each other, and time reversal, reflection and pivoting are the maps they claim to be. Inserting values into a vector-valued path keeps the known points and draws the rest from the exact bridge.",
  ["inputs"], "all time sets, end values, drifts, dimensions",
  "Doctests use a random fixture each; vector-valued paths crash on the original tree.",
  ["ctbayes/sdelib/paths.py", "ctbayes/sdelib/moments.py", "ctbayes/sdelib/transforms.py", "ctbayes/sdelib/interpolators.py", "ctbayes/misc/testing.py"],
  [("Gaussian recursions", "ctbayes/sdelib/paths.py"), ("moments", "ctbayes/sdelib/moments.py")])
p("P24", "Results are a function of the inputs and the given generator alone",
  "With the same inputs and an equally seeded random generator, every sampler, posterior run and EM run returns identical results, whatever the state of the global random generator, of other runs in the same process, or the number of worker processes. No call modifies its input arrays or the path objects it is given, and resuming a switching run from the state it has reached (parameters, regimes, paths, adaptive samplers, generator) continues it exactly.",
  ["histories", "schedules", "configurations"], "all samplers, seeds, interleavings of several samplers, worker counts, resume points",
  "No test runs anything twice.",
  ["ctbayes/misc/adapt.py", "ctbayes/ito/mcmc.py", "ctbayes/switching/mcmc.py", "ctbayes/ito/static.py", "ctbayes/switching/static.py"],
  [("explicit generators and spawned child generators", "ctbayes/ito/mcmc.py:update_sde, ctbayes/switching/mcmc.py:update_hidden")])
p("P25", "Adaptive proposals are valid Metropolis proposals",
  "Proposals stay strictly inside half-open parameter bounds, the reported log densities are exactly those of the forward and backward moves up to a common constant, and the running mean and covariance equal those of the data seen. Adaptation raises the step size after high acceptance and lowers it after low acceptance, by vanishing amounts, and regime proposals keep the current regimes at the conditioning times they report.",
  ["inputs", "histories"], "all states, bounds, acceptance histories",
  "One doctest of the running moments (failing); nothing tests the proposals.",
  ["ctbayes/misc/adapt.py"],
  [("transformed random walk", "ctbayes/misc/adapt.py")])
p("P26", "Invalid requests are rejected and budgets are enforced",
  "Requests outside the stated domain of a sampler or evaluator (times outside the horizon, non-positive horizons, intensities, bounds or batch sizes, end points on or beyond the given bounds, inverted ranges for a minimum, probabilities outside [0, 1], negative levels, observation times out of order) are rejected with an error, never answered with a value, and a query of a path outside its horizon likewise. When an acceptance budget runs out, and not before, the dedicated budget error is raised; a sampler that has raised or been abandoned leaves later calls unaffected.",
  ["inputs", "fault_sequences"], "all malformed arguments of the public samplers, all budgets",
  "No test passes an invalid argument or exhausts a budget.",
  ["ctbayes/sdelib/hitting.py", "ctbayes/sdelib/layers.py", "ctbayes/sdelib/paths.py", "ctbayes/ea3lib/skeleton.py", "ctbayes/ea3lib/seed.py", "ctbayes/mjplib/skeleton.py", "ctbayes/misc/bfactories.py", "ctbayes/misc/exceptions.py"],
  [("precondition assertions and proposal budgets", "ctbayes/sdelib, ctbayes/ea3lib, ctbayes/misc")])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
            f.write(json.dumps(x) + "\n")
