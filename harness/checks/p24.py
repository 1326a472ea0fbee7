"""P24: results are a function of the inputs and of the given generator alone; inputs are left as they were."""
import copy, inspect, itertools, os, random
from joblib.externals.loky import get_reusable_executor
import numpy as np
from hypothesis import strategies as st
from core import Sub, note
from lib import *
from models import *
from ctbayes.ea3lib import seed as sde_seed, skeleton as ea3
from ctbayes.mjplib import skeleton as mjp, inference as mjp_inf
from ctbayes.misc import ars, bfactories, adapt, testing
from ctbayes.sdelib import paths, hitting, layers, interpolators
from ctbayes.switching import types
from ctbayes.switching.static import construct_gen_hyperprior
from ctbayes.misc.exceptions import BudgetConstraintError
from checks.p09 import controls
from checks.p13 import data

TITLE = "reproducibility"


def freeze(o):
    """Hashable deep value of an object, exact to the last bit; callables and generators are left out."""
    if isinstance(o, np.ndarray):
        return ('a', o.shape, tuple(freeze(x) for x in o.ravel().tolist()) if o.dtype == object else o.astype(float).tobytes())
    if isinstance(o, (bool, np.bool_)):
        return ('b', bool(o))
    if isinstance(o, (int, float, np.integer, np.floating)):
        return ('f', float(o).hex())
    if o is None or isinstance(o, str):
        return ('s', o)
    if isinstance(o, (list, tuple)):
        return ('l',) + tuple(freeze(x) for x in o)
    if isinstance(o, dict):
        return ('d',) + tuple((k, freeze(o[k])) for k in sorted(o))
    if isinstance(o, np.random.Generator) or callable(o) or inspect.isgenerator(o):
        return ('x',)
    if hasattr(o, '__dict__'):
        return ('o', type(o).__name__) + tuple((k, freeze(x)) for k, x in sorted(vars(o).items()))
    if hasattr(o, '__next__'):
        return ('x',)
    raise TypeError('cannot freeze %r' % type(o))


def module_generators():
    """Generators that the library holds as defaults: a caller's generator must be used instead of them."""
    out = []
    for mod in (paths, hitting, layers, interpolators, ea3, sde_seed, mjp, mjp_inf, ars, bfactories, testing):
        for f in vars(mod).values():
            if inspect.isfunction(f):
                out += [d for d in (f.__defaults__ or ()) if isinstance(d, np.random.Generator)]
    return out


def gen_state(g):
    return repr(g.bit_generator.state)


def global_state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2:]), random.getstate(), tuple(gen_state(g) for g in GENS)


GENS = module_generators()


# ---------------------------------------------------------------- samplers

REG = {}


def reg(f):
    REG[f.__name__] = f
    return f


def br(r):
    """T, x0, x1 of a bridge."""
    T = float(r.uniform(.1, 3))
    a = float(r.normal())
    return T, a, float(a + np.sqrt(T) * r.normal())


def ts(r, T, n=None):
    return np.sort(r.uniform(0, T, int(r.integers(1, 6)) if n is None else n))


@reg
def wiener(r): return paths.sample_wiener, (ts(r, 3), r.normal(size=3), [None, r.normal(size=3)][r.integers(2)])


@reg
def brownbr(r):
    T, a, b = br(r)
    return paths.sample_brownbr, (ts(r, T), T, a, b)


@reg
def bessel(r): return paths.sample_bessel, (ts(r, 3), float(r.uniform(0, 2)), int(r.integers(1, 5)), float(r.normal()))


@reg
def besselbr(r): return paths.sample_besselbr, (ts(r, 2.), 2., float(r.uniform(0, 2)), int(r.integers(1, 5)))


def layer_args(r):
    T, a, b = br(r)
    i = int(r.integers(1, 3))
    return T, a, b, i


@reg
def layerbr(r):
    T, a, b = br(r)
    lo, hi = min(a, b), max(a, b)
    return paths.sample_layerbr, (ts(r, T), T, a, b, lo - 1.5 * np.sqrt(T), hi + 2 * np.sqrt(T), hi + .3 * np.sqrt(T))


@reg
def brownbr_min(r):
    T, a, b = br(r)
    m = min(a, b)
    return hitting.sample_brownbr_min, (T, a, b) + [(), (m - 1., m - .2)][r.integers(2)]


@reg
def layerbr_min(r):
    T, a, b = br(r)
    m = min(a, b)
    return hitting.sample_layerbr_min, (T, a, b, max(a, b) + np.sqrt(T), m - np.sqrt(T), m - .2 * np.sqrt(T))


@reg
def brownbr_esc(r):
    T, a, b = br(r)
    hi = float(max(abs(a), abs(b)) + .5)
    return hitting.sample_brownbr_esc, (T, a, b, hi, [None, hi + 1.][r.integers(2)])


@reg
def bessel3br_esc(r):
    T, a, b = br(r)
    a, b = abs(a), abs(b)
    hi = float(max(a, b) + .5)
    return hitting.sample_bessel3br_esc, (T, a, b, hi, [None, hi + 1.][r.integers(2)])


@reg
def layer(r):
    T, a, b = br(r)
    return layers.sample_layer, (T, a, b) + [(), (min(a, b) - .5, np.inf), (min(a, b) - 1, max(a, b) + 1.)][r.integers(3)]


@reg
def anchor(r):
    T, a, b = br(r)
    return layers.sample_anchor, (T, a, b)


@reg
def edges(r):
    T, a, b = br(r)
    i, s, m, x = int(r.integers(1, 3)), np.sqrt(T), min(a, b), max(a, b)
    return layers.sample_edges, (T, a, b, (m - 1.5 * s, m - .1 * s), (x + .2 * s, x + 1.5 * s))


@reg
def fill_vector(r):
    t = np.concatenate([[0.], ts(r, 2.), [2.]])
    return interpolators.fill_wiener_vector, (t, r.normal(size=(len(t), int(r.integers(1, 4)))), ts(r, 2.))


def bessel_skeleton(r):
    """A three-dimensional Bessel path pinned at its minimum, as interpolators take it."""
    sk = ea3.sample_raw_skeleton(float(r.uniform(.5, 2)), float(r.normal()), float(r.normal()), (-np.inf, np.inf), r)
    return sk if sk.tight_x < sk.loose_x else ea3.flip_skeleton(sk)


@reg
def fill_inner(r):
    sk = bessel_skeleton(r)
    return interpolators.fill_wiener_inner, (sk.t, sk.x, ts(r, sk.t[-1]), sk.tight_x, sk.loose_x, sk.hit_x, sk.hit_i)


@reg
def fill_outer(r):
    sk = bessel_skeleton(r)
    k = 0 if r.uniform() < .5 else 1
    seg = slice(0, 2) if k == 0 else slice(1, 3)
    t = sk.t[seg]
    return interpolators.fill_wiener_outer, (t, sk.x[seg], t[0] + (t[1] - t[0]) * ts(r, 1.), sk.tight_x, sk.loose_x, sk.hit_x, sk.hit_i[seg] if sk.hit_i else None)


def raw(r, name='ou'):
    if name == 'cir':
        m, th = ITO['cir'], np.array([1., 1., .5])
        x0, x1 = (m.reduce(th, np.array([v]))[0] for v in r.uniform(.6, 1.5, 2))
        return m, th, ea3.sample_raw_skeleton(float(r.uniform(.1, .6)), x0, x1, m.bounds_x, r)
    m, th = ITO['ou'], np.array([r.uniform(.2, 1), 1.])
    return m, th, ea3.sample_raw_skeleton(float(r.uniform(.2, 1.2)), *(r.normal(size=2) * .7), m.bounds_x, r)


@reg
def raw_skeleton(r):
    T, a, b = br(r)
    return ea3.sample_raw_skeleton, (T, a, b, [(-np.inf, np.inf), (min(a, b) - .5, np.inf)][r.integers(2)])


@reg
def skeleton_coin(r):
    m, th, sk = raw(r, ['ou', 'cir'][r.integers(2)])
    return (lambda s, ome: ea3.flip_poisson_coin(s, m.eval_disc(th), m.eval_bounds_disc(th), ome)), (sk,)


@reg
def skeleton_est(r):
    m, th, sk = raw(r, ['ou', 'cir'][r.integers(2)])
    return (lambda s, ome: ea3.est_poisson_coin(s, m.eval_disc(th), m.eval_bounds_disc(th), ome)), (sk,)


@reg
def skeleton_fill(r):
    m, th, sk = raw(r)
    new = ts(r, sk.t[-1])
    sk, _ = ea3.interpolate_skeleton(sk, ts(r, sk.t[-1]), r)
    return ea3.interpolate_skeleton, (sk, new)


@reg
def skeleton_call(r):
    m, th, sk = raw(r)
    return (lambda s, t, ome: s(t, ome)), (sk, ts(r, sk.t[-1]))


@reg
def exact_bridges(r):
    m, th = ITO['ou'], np.array([r.uniform(.2, 1), 1.])
    a, b = r.normal(size=2) * .7
    return (lambda t, ome: list(itertools.islice(m.sample_sde(th, t, 1., a, b, ome), 3))), (ts(r, 1.),)


@reg
def exact_paths(r):
    if r.uniform() < .5:
        m, th, a, T = ITO['ou'], np.array([r.uniform(.2, 1), 1.]), r.normal() * .7, 1.
    else:
        m, th, a, T = ITO['cir'], np.array([1., 1., .5]), r.uniform(.6, 1.5), .5
    return (lambda t, ome: list(itertools.islice(m.sample_sde(th, t, T, a, None, ome), 3))), (ts(r, T),)


def raw_section(r, name):
    if name in ITO:
        m = ITO[name]
        th = np.array([r.uniform(.2, 1), r.uniform(.5, 2)]) if name == 'ou' else np.array([1., 1., .5])
        v = r.normal(size=2) * .6 if name == 'ou' else r.uniform(.6, 1.5, 2)
        T = float(r.uniform(.1, .6))
        (no, de), = m.gen_normops(th, np.array([0, T]), v)
        return m, th, m.eval_disc(th), m.eval_bounds_disc(th), no, de, sde_seed.sample_raw_seed(m.bounds_x, no, de, r)
    m = SW[name]
    th = r.uniform(.4, 1.2, (2, 2))
    T, y = float(r.uniform(.1, .6)), int(r.integers(2))
    (no, de), = m.gen_normops(th, np.array([0, T]), np.array([y, y]), r.normal(size=2) * .4)
    return m, th, m.eval_disc(th, y), m.eval_bounds_disc(th, y), no, de, sde_seed.sample_raw_seed((-np.inf, np.inf), no, de, r)


def any_section(r):
    return raw_section(r, ['ou', 'cir', 'sw_ou', 'sw_ou2', 'sw_ou3'][r.integers(5)])


@reg
def section_raw(r):
    m, th, di, bo, no, de, z = any_section(r)
    return (lambda ome: sde_seed.sample_raw_seed((-np.inf, np.inf), no, de, ome)), ()


@reg
def section_fill(r):
    m, th, di, bo, no, de, z = any_section(r)
    T = de(np.array([1.]), None)[0][0]
    z, _ = sde_seed.interpolate_seed(z, ts(r, T), no, de, r)
    return (lambda s, t, ome: sde_seed.interpolate_seed(s, t, no, de, ome)), (z, ts(r, T))


@reg
def section_call(r):
    m, th, di, bo, no, de, z = any_section(r)
    T = de(np.array([1.]), None)[0][0]
    return (lambda s, t, ome: s(t, no, de, ome)), (z, ts(r, T))


@reg
def section_coin(r):
    m, th, di, bo, no, de, z = any_section(r)
    return (lambda s, ome: sde_seed.flip_poisson_coin(s, no, de, di, bo, ome)), (z,)


@reg
def section_est(r):
    m, th, di, bo, no, de, z = any_section(r)
    return (lambda s, ome: sde_seed.est_poisson_coin(s, no, de, di, bo, ome)), (z,)


@reg
def section_bridges(r):
    m, th, di, bo, no, de, z = raw_section(r, 'ou')
    return (lambda ome: list(itertools.islice(sde_seed.sample_bridge((-np.inf, np.inf), no, de, di, bo, ome), 2))), ()


@reg
def section_dual(r):
    m, th, di, bo, no, de, z = raw_section(r, 'ou')
    th2 = th * np.array([1.1, 1.])
    up = bool(r.integers(2))
    T = de(np.array([1.]), None)[0][0]
    (no2, de2), = m.gen_normops(th2, np.array([0, T]), m.dereduce(th, de(np.array([0., 1.]), np.zeros(2))[1]))
    return (lambda s, ome: sde_seed.flip_dual_coin(s, 3., no, de, di, no2, de2, m.eval_disc(th2), up, ome)), (z,)


def gen_of(r, k=3):
    Q = r.uniform(.2, 2, (k, k))
    np.fill_diagonal(Q, 0)
    return Q - np.diag(Q.sum(1))


@reg
def ppp(r): return mjp.sample_ppp, (float(r.uniform(.5, 4)), (1., float(r.uniform(.5, 2))))


@reg
def ppp_batches(r):
    a, b, k = float(r.uniform(.5, 4)), (1., float(r.uniform(.5, 2))), int(r.integers(1, 4))
    return (lambda ome: list(mjp.sample_batch_ppp(a, b, k, ome))), ()


@reg
def jumps_forward(r): return mjp.sample_forwards, (float(r.uniform(.5, 4)), [None, 0, 2][r.integers(3)], gen_of(r))


@reg
def jumps_backward(r): return mjp.sample_backwards, (float(r.uniform(.5, 4)), int(r.integers(3)), gen_of(r))


@reg
def jumps_bridge(r): return mjp.sample_bridge, (float(r.uniform(.2, 3)), int(r.integers(3)), int(r.integers(3)), gen_of(r))


def jump_path(r):
    t, x = mjp_sim(r, 4., int(r.integers(3)), gen_of(r))
    return mjp.Skeleton(np.array(t), np.array(x), 4.)


@reg
def jumps_split(r): return mjp.sample_partition, (jump_path(r), 1.)


@reg
def jumps_mutate(r): return mjp.mutate_partition, (mjp.partition_skeleton(jump_path(r), ts(r, 4.)), gen_of(r))


@reg
def trial_generator(r): return mjp.sample_trial_generator, (int(r.integers(2, 5)),)


def hyper(r, k=3):
    a, b = r.uniform(.5, 3, (2, k, k))
    for q in (a, b):
        np.fill_diagonal(q, np.nan)
    return a, b


@reg
def generator_param(r): return mjp_inf.sample_param, hyper(r)


@reg
def generator_update(r):
    a, b = hyper(r)
    return (lambda y, a, b, ome: mjp_inf.update(y, a, b)), (jump_path(r), a, b)


@reg
def generator_logs(r):
    a, b = hyper(r)
    return (lambda y, g, a, b, ome: [mjp_inf.eval_loglik(y, g), mjp_inf.eval_logprior(g, a, b), mjp_inf.get_ev(a, b), mjp_inf.get_mode(a + 1, b),
                                     mjp.get_trans(1., g), mjp.get_stat(g), mjp.est_stat(y, np.arange(3))]), (jump_path(r), gen_of(r), a, b)


@reg
def jumps_layout(r):
    return (lambda y, t, s, ome: [mjp.partition_skeleton(y, t), mjp.repartition_skeleton(mjp.partition_skeleton(y, t), s),
                                  mjp.paste_partition(mjp.partition_skeleton(y, t))]), (jump_path(r), ts(r, 4.), ts(r, 4.))


@reg
def rejection(r):
    mu, sd = float(r.normal()), float(r.uniform(.3, 2))
    init = [None, np.array([mu + sd, mu - 2 * sd]), np.array([mu - sd, mu + sd])][r.integers(3)]
    return (lambda i, ome: list(ars.sample(lambda x: -(x - mu) ** 2 / 2 / sd ** 2, lambda x: -(x - mu) / sd ** 2, init=i, ome=ome, max_draws=8))), (init,)


@reg
def twocoin(r):
    p, q, w = r.uniform(.2, .8, 3)
    coin = lambda p_, ome: ((ome.uniform() < p_, i) for i in itertools.count())
    return (lambda ome: [bfactories.sample_twocoin(np.log(w), 0., coin(p, ome), coin(q, ome), .05, 'start', ome) for _ in range(5)]), ()


@reg
def twocoin_joint(r):
    p, q, w = r.uniform(.2, .8, 3)

    def coin(ome):
        i, up = 0, (yield None, 'start')
        while True:
            i += 1
            up = (yield ome.uniform() < (p if up else q), i)
    return (lambda ome: [bfactories.sample_twocoin_joint(np.log(w), 0., coin(ome), .05, ome) for _ in range(5)]), ()


@reg
def random_walk(r):
    x, n = float(r.uniform(.5, 2)), int(r.integers(1, 12))

    def f(ome):
        s = adapt.MyopicRwSampler(x, (0., np.inf))
        out = []
        for i in range(n):
            out.append(s.propose(ome)); s.adapt(out[-1][0], float(i % 2))
        return out, s.log_prop_scale
    return f, ()


@reg
def random_walk_mv(r):
    n = int(r.integers(1, 12))

    def f(x, lo, hi, ome):
        s = adapt.MyopicMvRwSampler(x, (lo, hi))
        out = []
        for i in range(n):
            out.append(s.propose(ome)); s.adapt(out[-1][0], float(i % 2))
        return out, s.log_prop_scale, s.prop_cov
    return f, (r.uniform(.5, 2, 2), np.zeros(2), np.full(2, np.inf))


@reg
def regime_walk(r):
    n = int(r.integers(1, 8))

    def f(y, g, t, ome):
        s = adapt.MyopicMjpSampler(y)
        out = []
        for i in range(n):
            out.append(s.propose(g, t, ome)); s.adapt(out[-1][0], float(i % 2))
        return out, s.log_prop_scale
    return f, (jump_path(r), gen_of(r), np.concatenate([[0.], ts(r, 4.), [4.]]))


@reg
def euler(r): return testing.euler_simulate, (3, 1., float(r.normal()), np.negative, np.cos, .1)


@reg
def ito_aug(r):
    m = ITO['ou']
    return (lambda th, t, v, ome: m.sample_aug(th, t, v, ome)), (np.array([r.uniform(.2, 2), r.uniform(.4, 2)]), np.array([0., .3, 1.]), r.normal(size=3))


@reg
def sw_aug(r):
    m = SW[['sw_ou', 'sw_ou2', 'sw_ou3'][r.integers(3)]]
    return (lambda th, y, t, v, ome: m.sample_aug(th, y, t, v, ome)), (r.uniform(.3, 2, (3, 2)), jump_path(r), np.array([0., 1.1, 2.3, 4.]), r.normal(size=4))


@reg
def densities(r):
    m = SW[['sw_ou', 'sw_ou2', 'sw_ou3'][r.integers(3)]]
    th, y, t, v = r.uniform(.3, 2, (3, 2)), jump_path(r), np.array([0., 1.1, 2.3, 4.]), r.normal(size=4)
    z, h = m.sample_aug(th, y, t, v, r)
    return (lambda th, z, h, ome: [m.eval_biased_log_lik(th, *h), m.eval_biased_log_lik(th, *h, 1), m.eval_log_prior(th), types.prune_anchorage(h),
                                   [de(z_.s, z_.z) for z_, (no, de) in zip(z, m.gen_normops(th, *h))],
                                   [sde_seed.integrate_disc_bound(z_, no, de, m.eval_bounds_disc(th, y0)) for z_, y0, (no, de) in zip(z, h.yt, m.gen_normops(th, *h))]]), (th, z, h)


sampler_case = st.fixed_dictionaries(dict(name=st.sampled_from(sorted(REG)), seed=seeds, noise=st.integers(0, 1000), kind=st.sampled_from(['PCG64', 'MT19937', 'Philox'])))


def run_sampler(case):
    f, args = REG[case['name']](rng_of(case))
    before = freeze(args)

    def call(a, g0):
        np.random.seed(g0); random.seed(g0)
        for g in GENS:
            g.bit_generator.state = np.random.default_rng(g0).bit_generator.state
        glob = global_state()
        ome = np.random.Generator(getattr(np.random, case['kind'])(case['seed'] % 1000))
        try:
            out = freeze(f(*a, ome=ome))
        except BudgetConstraintError:
            out = 'budget'
        need(global_state() == glob, case['name'] + ': draws from a generator it was not given')
        return out, gen_state(ome)

    one, s1 = call(args, 1)
    need(freeze(args) == before, case['name'] + ': modified its arguments')
    fresh = copy.deepcopy(args) if not any(callable(a) for a in args) else args
    two, s2 = call(fresh, 2 + case['noise'])
    need(one == two and s1 == s2, case['name'] + ': equal inputs and generators gave different results')
    three, s3 = call(args, 3 + case['noise'])
    need(one == three and s1 == s3, case['name'] + ': a repeated call on the same objects gave a different result')
    note(case['name'])
    return one != 'budget'


# ---------------------------------------------------------------- runs

@st.composite
def run_of(draw, em=True, kmax=4):
    c = draw(data(kmax))
    kind = draw(st.sampled_from(['ito', 'sw', 'sw'] + (['em', 'em_sw'] if em else [])))
    c.update(kind=kind, name=draw(st.sampled_from({'ito': ['ou'], 'em': ['ou', 'ou', 'cir']}.get(kind, list(SW)))), ctrl=draw(controls()),
             thin=draw(st.integers(1, 2)), nreg=draw(st.integers(2, 3)), a0=draw(grid(1.5, 4, 0.5)), b0=draw(grid(0.5, 4, 0.5)), n=draw(st.integers(2, 5)), seed=draw(seeds))
    if kind in ('em', 'em_sw'):
        c['n'] = min(c['n'], 3)
    return c


def obs_of(c):
    t, v = np.array(c['t']), np.array(c['v'])
    return t, 1.0 + 0.3 * np.tanh(v) if c['name'] == 'cir' else v


def start(c, t, v, cores=1, rng=None):
    rng = np.random.default_rng([c['seed'], 9]) if rng is None else rng
    if c['kind'] == 'ito':
        return ITO[c['name']].sample_posterior(t, v, rng, **dict(c['ctrl'], n_cores=cores))
    if c['kind'] == 'sw':
        return SW[c['name']].sample_posterior(t, v, c['nreg'], c['a0'], c['b0'], rng, **dict(c['ctrl'], n_cores=cores))
    kw = dict(n_thin_mcmc=c['thin'], n_cores=cores)
    if c['kind'] == 'em':
        return ITO[c['name']].maximize_posterior(t, v, rng, **kw)
    return SW[c['name']].maximize_posterior(t, v, c['nreg'], c['a0'], c['b0'], rng, **kw)


@st.composite
def runs_case(draw):
    return dict(a=draw(run_of()), b=draw(run_of()), order=draw(st.lists(st.booleans(), min_size=10, max_size=10)), twin=draw(st.booleans()), seed=draw(seeds))


MODELS = list(ITO.values()) + list(SW.values())


def constants():
    return freeze([[m.init_thi, m.bounds_thi, m.bounds_x] for m in MODELS])


def take(run, out):
    """One step of a run; a run that has ended or raised stays ended."""
    try:
        out.append(next(run))
        return True
    except (StopIteration, BudgetConstraintError, np.linalg.LinAlgError):
        return False


def run_runs(case):
    a, b = case['a'], dict(case['b'])
    if case['twin']:  # same model and data, other seed
        b = dict(a, seed=b['seed'], n=b['n'])
    const = constants()
    ref = {}
    for k, c in (('a', a), ('b', b)):
        t, v = obs_of(c)
        t0, v0 = freeze(t), freeze(v)
        np.random.seed(7); random.seed(7)
        glob = global_state()
        run, out, snaps = start(c, t, v), [], []
        for _ in range(c['n']):
            if not take(run, out):
                break
            snaps.append(freeze(out[-1]))
        need(global_state() == glob, 'a run draws from a generator it was not given')
        need(freeze(t) == t0 and freeze(v) == v0, 'a run modified the data')
        need([freeze(o) for o in out] == snaps, 'a run changed states it had already returned')
        ref[k] = snaps
    need(constants() == const, "a run changed the model's constants")
    # again, interleaved, on shared data arrays, with the global generators elsewhere
    np.random.seed(1234); random.seed(99)
    obs = {'a': obs_of(a), 'b': obs_of(b)}
    if case['twin']:
        obs['b'] = obs['a']
    runs = {k: start(c, *obs[k]) for k, c in (('a', a), ('b', b))}
    outs = {'a': [], 'b': []}
    for f in case['order']:
        k = 'a' if f else 'b'
        np.random.uniform(); random.random()
        if len(outs[k]) < len(ref[k]):
            take(runs[k], outs[k])
    for k in 'ab':
        got = [freeze(o) for o in outs[k]]
        need(got == ref[k][:len(got)], 'equal inputs and generators gave different runs (%s)' % (a if k == 'a' else b)['kind'])
    need(constants() == const, "a run changed the model's constants")
    note(a['kind'])
    return min(len(outs['a']), len(outs['b'])) > 0


# ---------------------------------------------------------------- worker processes

cores_case = run_of(kmax=3)


class Quiet:
    """Worker processes started in here are ended on leaving, and hold none of the check's output streams even if the check is killed."""

    def __enter__(self):
        self.saved = [os.dup(1), os.dup(2)]
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1); os.dup2(null, 2); os.close(null)

    def __exit__(self, *exc):
        try:
            get_reusable_executor(max_workers=2).shutdown(wait=True, kill_workers=True)
        finally:
            for fd, old in zip((1, 2), self.saved):
                os.dup2(old, fd); os.close(old)


def run_cores(case):
    with Quiet():
        return compare_cores(case)


def compare_cores(case):
    got = []
    for cores in (1, 2):
        t, v = obs_of(case)
        run, out = start(case, t, v, cores), []
        for _ in range(min(case['n'], 3)):
            if not take(run, out):
                break
        got.append([freeze(o) for o in out])
    need(got[0] == got[1], 'results depend on the number of worker processes (%s %s)' % (case['kind'], case['name']))
    note(case['kind'])
    return len(got[0]) > 0


# ---------------------------------------------------------------- resumption

@st.composite
def resume_case(draw):
    c = draw(run_of(em=False))
    c['kind'], c['name'] = 'sw', draw(st.sampled_from(list(SW)))
    c.update(k=draw(st.integers(1, 4)), j=draw(st.integers(1, 4)))
    return c


def run_resume(case):
    m = SW[case['name']]
    t, v = obs_of(case)
    k, j, n = case['k'], case['j'], case['nreg']
    got = []
    for stop in (None, k):
        rng = rng_of(case)
        lam = mjp_inf.get_ev(*construct_gen_hyperprior(n, case['a0'], case['b0']))
        thi = np.repeat(np.asarray(m.init_thi, float)[None], n, 0)
        y = mjp.sample_forwards(t[-1], 0, lam, rng)
        z, h = m.sample_aug(thi, y, t, v, rng)
        state = dict(thi=thi, lam=lam, z=z, h=h, param_samplers=[adapt.MyopicMvRwSampler(th, m.bounds_thi) for th in thi],
                     regime_sampler=adapt.MyopicMjpSampler(y), ome=rng)
        out = []
        for part in ([k + j] if stop is None else [k, j]):
            run = m.sample_posterior(t, v, n, case['a0'], case['b0'], np.random.default_rng(5), state=state, **case['ctrl'])
            new = []
            for _ in range(part):
                if not take(run, new):
                    break
            if not new:
                break
            out += [freeze(o) for o in new]
            state = dict(state, **dict(zip(('thi', 'lam', 'z', 'h'), new[-1])))
            if len(new) < part:
                break
        got.append(out)
    need(got[0] == got[1], 'a resumed run does not continue the run it was saved from')
    return len(got[0]) == k + j


SUBS = [
    Sub('samplers', sampler_case, run_sampler, 6000, 100000, '%d samplers and evaluators, three calls each with disturbed global and default generators; non-trivial: a result' % len(REG), cap=20),
    Sub('runs', runs_case(), run_runs, 480, 10000, 'two runs (posterior or EM, any model) alone and interleaved in any order; non-trivial: both advanced', cap=25),
    Sub('resume', resume_case(), run_resume, 480, 10000, 'switching runs interrupted after k updates and resumed for j; non-trivial: all updates made', cap=20),
    Sub('cores', cores_case, run_cores, 24, 200, 'one against two worker processes; non-trivial: the run advanced', cap=60, shards=8),
]
