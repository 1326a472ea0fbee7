"""P26: invalid requests are rejected, budgets are enforced exactly, and neither leaves a trace on later calls."""
import contextlib, itertools, signal
import numpy as np
from hypothesis import strategies as st
from core import Bad, Sub, note
from lib import *
from models import *
from ctbayes.ea3lib import seed as sde_seed, skeleton as ea3
from ctbayes.mjplib import skeleton as mjp
from ctbayes.misc import bfactories
from ctbayes.misc.exceptions import BudgetConstraintError
from ctbayes.sdelib import paths, hitting, layers, interpolators, moments, transforms
from checks.p24 import REG, br, ts, freeze, gen_of, jump_path, bessel_skeleton, raw, raw_section

TITLE = "rejection and budgets"

# ---------------------------------------------------------------- invalid requests

TABLE = {}


def req(**bad):
    """Register a function giving (callable, valid keyword arguments); bad: name -> corruption of the arguments."""
    def deco(f):
        for k, g in bad.items():
            TABLE[f.__name__ + ':' + k] = f, g
        return f
    return deco


def off(r):
    """A non-negative excess: zero (the boundary itself), tiny or large."""
    return float([0., 1e-9, r.uniform(0, .1), r.uniform(0, 5)][r.integers(4)])


def pos_off(r):
    return float([1e-6, r.uniform(1e-3, .1), r.uniform(.1, 5)][r.integers(3)])


def into(t, x, r):
    """Replace one of the times by x."""
    t = np.array(t, float)
    t[r.integers(len(t))] = x
    return np.sort(t)


def early(key='t'):  # a time at or before zero
    return lambda a, r: a.update({key: into(a[key], -off(r), r)})


def late(key='t', fin='fin_t'):  # a time at or beyond the horizon
    return lambda a, r: a.update({key: into(a[key], a[fin] + off(r), r)})


def nonpos(key):
    return lambda a, r: a.update({key: -off(r)})


def neg(key):
    return lambda a, r: a.update({key: -pos_off(r)})


def shut(key):  # a budget that admits nothing
    return lambda a, r: a.update({key: -int(r.integers(0, 3))})


def outside01(key):
    return lambda a, r: a.update({key: [-pos_off(r), 1 + pos_off(r)][r.integers(2)]})


def above(key, other):  # key at or above other(args)
    return lambda a, r: a.update({key: float(other(a) + off(r))})


def strictly_above(key, other):
    return lambda a, r: a.update({key: float(other(a) + pos_off(r))})


def below(key, other):
    return lambda a, r: a.update({key: float(other(a) - off(r))})


def strictly_below(key, other):
    return lambda a, r: a.update({key: float(other(a) - pos_off(r))})


lo = lambda a: min(a['init_x'], a['fin_x'])
hi = lambda a: max(a['init_x'], a['fin_x'])


def bridge(r):
    T, a, b = br(r)
    return dict(fin_t=T, init_x=a, fin_x=b)


@req(early=early())
def wiener(r): return paths.sample_wiener, dict(t=ts(r, 3), init_x=r.normal(size=2), ome=r)


@req(early=early(), late=late(), horizon=nonpos('fin_t'))
def brownbr(r):
    c = bridge(r)
    return paths.sample_brownbr, dict(c, t=ts(r, c['fin_t']), ome=r)


@req(early=early(), level=neg('init_x'), dimension=lambda a, r: a.update(dim=-int(r.integers(0, 3))))
def bessel(r): return paths.sample_bessel, dict(t=ts(r, 3), init_x=float(r.uniform(0, 2)), dim=int(r.integers(1, 5)), ome=r)


@req(early=early(), late=late(), horizon=nonpos('fin_t'), dimension=lambda a, r: a.update(dim=-int(r.integers(0, 3))))
def besselbr(r): return paths.sample_besselbr, dict(t=ts(r, 2.), fin_t=2., fin_x=float(r.uniform(0, 2)), dim=int(r.integers(1, 5)), ome=r)


@req(early=early(), late=late(), horizon=nonpos('fin_t'), budget=shut('max_props'), floor=strictly_above('inf_x', lo), ceiling=below('ub_sup_x', hi),
     layer=above('lb_sup_x', lambda a: a['ub_sup_x']))
def layerbr(r):
    c = bridge(r)
    s = np.sqrt(c['fin_t'])
    return paths.sample_layerbr, dict(c, t=ts(r, c['fin_t']), inf_x=lo(c) - 1.5 * s, ub_sup_x=hi(c) + 2 * s, lb_sup_x=hi(c) + .3 * s, ome=r)


@req(early=lambda a, r: a.update(new_t=into(a['new_t'], a['t'][0] - off(r), r)), late=lambda a, r: a.update(new_t=into(a['new_t'], a['t'][-1] + pos_off(r), r)),
     shape=lambda a, r: a.update(x=a['x'][:-1]), negative=lambda a, r: a.update(t=a['t'] - a['t'][0] - pos_off(r)))
def fill_vector(r):
    t = np.concatenate([[0.], ts(r, 2.), [2.]])
    return interpolators.fill_wiener_vector, dict(t=t, x=r.normal(size=(len(t), 2)), new_t=ts(r, 2.), ome=r)


def inside(r):
    sk = bessel_skeleton(r)
    return dict(t=sk.t, x=sk.x, new_t=ts(r, sk.t[-1]), min_x=sk.tight_x, ue_x=sk.loose_x, hit_x=sk.hit_x, hit_i=sk.hit_i, ome=r)


FILL = dict(floor=strictly_above('min_x', lambda a: a['x'].min()), ceiling=below('ue_x', lambda a: a['x'].max()), high=above('hit_x', lambda a: a['ue_x']), low=below('hit_x', lambda a: a['min_x']),
            negative=lambda a, r: a.update(t=a['t'] - pos_off(r), new_t=a['new_t'] - a['t'][0] + 0.))


@req(early=lambda a, r: a.update(new_t=into(a['new_t'], a['t'][0] - off(r), r)), late=lambda a, r: a.update(new_t=into(a['new_t'], a['t'][-1] + off(r), r)), **FILL)
def fill_inner(r): return interpolators.fill_wiener_inner, inside(r)


@req(early=lambda a, r: a.update(new_t=into(a['new_t'], a['t'][0] - pos_off(r), r)), late=lambda a, r: a.update(new_t=into(a['new_t'], a['t'][-1] + pos_off(r), r)), **FILL)
def fill_outer(r): return interpolators.fill_wiener_outer, inside(r)


def min_args(r):
    c = bridge(r)
    return dict(c, lb_min_x=lo(c) - 1.2, ub_min_x=lo(c) - float([0., .3][r.integers(2)]))


MIN = dict(horizon=nonpos('fin_t'), inverted=above('lb_min_x', lambda a: a['ub_min_x']), high=strictly_above('ub_min_x', lo))


@req(**MIN)
def min_cdf(r):
    c = min_args(r)
    return hitting.cdf_brownbr_min, dict(c, min_x=(c['lb_min_x'] + c['ub_min_x']) / 2)


@req(p=outside01('p'), **MIN)
def min_ppf(r): return hitting.ppf_brownbr_min, dict(min_args(r), p=float(r.uniform()))


@req(**MIN)
def brownbr_min(r): return hitting.sample_brownbr_min, dict(min_args(r), ome=r)


@req(ceiling=strictly_below('ub_x', hi), **MIN)
def layerbr_min(r):
    c = min_args(r)
    return hitting.sample_layerbr_min, dict(c, ub_x=hi(c) + 1., ome=r)


@req(horizon=nonpos('fin_t'), seed=outside01('seed'))
def brownbr_esc(r):
    c = bridge(r)
    return hitting.sample_brownbr_esc, dict(c, ue_x=max(abs(lo(c)), abs(hi(c))) + .5, seed=float(r.uniform()), ome=r)


@req(horizon=nonpos('fin_t'), seed=outside01('seed'), start=neg('init_x'), end=nonpos('fin_x'))
def bessel3br_esc(r):
    c = bridge(r)
    c.update(init_x=abs(c['init_x']), fin_x=abs(c['fin_x']) + .01)
    return hitting.sample_bessel3br_esc, dict(c, ue_x=hi(c) + .5, seed=float(r.uniform()), ome=r)


@req(horizon=nonpos('fin_t'), level=nonpos('ue_x'), layer=nonpos('ub_x'))
def series_brownbr(r):
    c = bridge(r)
    m = max(abs(lo(c)), abs(hi(c)))
    return (lambda **k: list(itertools.islice(hitting.series_brownbr_esc(**k), 4))), dict(c, ue_x=m + .5, ub_x=m + 1.)


@req(horizon=nonpos('fin_t'), start=neg('init_x'), end=nonpos('fin_x'), level=nonpos('ue_x'), layer=nonpos('ub_x'))
def series_bessel(r):
    c = bridge(r)
    c.update(init_x=abs(c['init_x']), fin_x=abs(c['fin_x']) + .01)
    return (lambda **k: list(itertools.islice(hitting.series_bessel3br_esc(**k), 4))), dict(c, ue_x=hi(c) + .5, ub_x=hi(c) + 1.)


LAY = dict(horizon=nonpos('fin_t'), low=above('lb_x', lo), high=below('ub_x', hi))


def one_sided(r):
    c = bridge(r)
    if r.uniform() < .5:
        return dict(c, lb_x=lo(c) - float(r.uniform(.1, 2)), ub_x=np.inf)
    return dict(c, lb_x=-np.inf, ub_x=hi(c) + float(r.uniform(.1, 2)))


def shut_side(a, r):  # the end points leave the finite bound that there is
    if np.isinf(a['ub_x']):
        a['lb_x'] = lo(a) + off(r)
    else:
        a['ub_x'] = hi(a) - off(r)


@req(horizon=nonpos('fin_t'), bound=shut_side)
def layer(r): return layers.sample_layer, dict(one_sided(r), ome=r)


@req(horizon=nonpos('fin_t'), bound=shut_side)
def anchor(r): return layers.sample_anchor, dict(one_sided(r), ome=r)


@req(index=lambda a, r: a.update(i=-1 - int(r.integers(3))), **LAY)
def edges_of(r):
    c = one_sided(r)
    return layers.compute_edges, dict(c, i=int(r.integers(0, 4)))


@req(horizon=nonpos('fin_t'), budget=shut('max_props'), sector=lambda a, r: a.update(bounds_inf_x=a['bounds_inf_x'][::-1]),
     low=lambda a, r: a.update(bounds_inf_x=(a['bounds_inf_x'][0], lo(a) + pos_off(r))), high=lambda a, r: a.update(bounds_sup_x=(hi(a) - .2, hi(a) - .1)))
def edges(r):
    c = bridge(r)
    s = np.sqrt(c['fin_t'])
    return layers.sample_edges, dict(c, bounds_inf_x=(lo(c) - 1.5 * s, lo(c) - .1 * s), bounds_sup_x=(hi(c) + .2 * s, hi(c) + 1.5 * s), ome=r)


@req(early=early())
def wiener_moments(r): return moments.moments_wiener, dict(t=ts(r, 3), init_x=0., mu=1.)


@req(early=early(), late=late(), horizon=nonpos('fin_t'))
def brownbr_moments(r):
    c = bridge(r)
    return moments.moments_brownbr, dict(c, t=ts(r, c['fin_t']))


@req(early=lambda a, r: a.update(t=into(a['t'], -pos_off(r), r)), late=lambda a, r: a.update(t=into(a['t'], a['fin_t'] + pos_off(r), r)))
def reverse(r):
    t = ts(r, 2.)
    return transforms.reverse, dict(t=t, x=r.normal(size=len(t)), fin_t=2.)


@req(early=lambda a, r: a.update(t=into(a['t'], -pos_off(r), r)))
def reflect(r):
    t = ts(r, 2.)
    return transforms.reflect, dict(t=t, x=r.normal(size=len(t)), reflect_x=1.)


@req(early=lambda a, r: a.update(s=into(a['s'], -pos_off(r), r)), late=lambda a, r: a.update(s=into(a['s'], 1 + pos_off(r), r)), horizon=nonpos('fin_t'))
def pivot(r):
    s = ts(r, 1.)
    return transforms.pivot_brownbr, dict(bridge(r), s=s, z=r.normal(size=len(s)))


@req(early=early('s'), late=lambda a, r: a.update(s=into(a['s'], 1 + off(r), r)), horizon=nonpos('fin_t'))
def seeded_bessel(r):
    s = ts(r, 1.)
    return transforms.gen_seeded_bessel3br, dict(s=s, z=r.normal(size=(len(s), 3)), fin_t=float(r.uniform(.1, 2)), fin_x=1.)


@req(u=lambda a, r: a.update(u=tuple(np.roll([[0., 1., -.1, 1.2][r.integers(4)], *a['u'][1:]], r.integers(3)))), square=nonpos('r2'), horizon=nonpos('fin_t'))
def seeded_min(r): return transforms.gen_seeded_brownbr_min, dict(bridge(r), u=tuple(r.uniform(.01, .99, 3)), r2=float(r.chisquare(1)))


@req(late=lambda a, r: a.update(t=into(a['t'], 4 + pos_off(r), r)), early=lambda a, r: a.update(t=into(a['t'], -pos_off(r), r)))
def jump_query(r):
    y = jump_path(r)
    return (lambda t: y(t)), dict(t=ts(r, 4.))


@req(horizon=nonpos('fin_t'))
def jumps_forward(r): return mjp.sample_forwards, dict(fin_t=2., init_x=[None, 1][r.integers(2)], gen=gen_of(r), ome=r)


@req(horizon=nonpos('fin_t'))
def jumps_backward(r): return mjp.sample_backwards, dict(fin_t=2., fin_x=int(r.integers(3)), gen=gen_of(r), ome=r)


@req(horizon=nonpos('fin_t'))
def jumps_bridge(r): return mjp.sample_bridge, dict(fin_t=2., init_x=int(r.integers(3)), fin_x=int(r.integers(3)), gen=gen_of(r), ome=r)


def nil_bound(key):
    def f(a, r):
        b = list(a[key])
        b[r.integers(len(b))] = -off(r)
        a[key] = tuple(b)
    return f


@req(intensity=nonpos('intensity'), bound=nil_bound('bound'))
def ppp(r): return mjp.sample_ppp, dict(intensity=float(r.uniform(.1, 3)), bound=(1., float(r.uniform(.5, 2))), ome=r)


@req(intensity=nonpos('intensity'), bound=nil_bound('bounds'), batch=lambda a, r: a.update(batch_size=-int(r.integers(0, 3))))
def ppp_batches(r):
    return (lambda **k: list(mjp.sample_batch_ppp(**k))), dict(intensity=float(r.uniform(.1, 3)), bounds=(1., float(r.uniform(.5, 2))), batch_size=int(r.integers(1, 4)), ome=r)


@req(late=lambda a, r: a.update(t=into(a['t'], a['s'].t[-1] + pos_off(r), r)), early=lambda a, r: a.update(t=into(a['t'], -pos_off(r), r)))
def skeleton_query(r):
    m, th, sk = raw(r)
    return (lambda s, t: s(t, r)), dict(s=sk, t=ts(r, sk.t[-1]))


@req(late=lambda a, r: a.update(new_t=into(a['new_t'], a['skel'].t[-1] + pos_off(r), r)), early=lambda a, r: a.update(new_t=into(a['new_t'], -pos_off(r), r)))
def skeleton_fill(r):
    m, th, sk = raw(r)
    return ea3.interpolate_skeleton, dict(skel=sk, new_t=ts(r, sk.t[-1]), ome=r)


@req(horizon=nonpos('fin_t'), bound=lambda a, r: a.update(bounds_x=(lo(a) + off(r), np.inf)), inverted=lambda a, r: a.update(bounds_x=(-np.inf, lo(a) - off(r))))
def raw_skeleton(r): return ea3.sample_raw_skeleton, dict(bridge(r), bounds_x=(-np.inf, np.inf), ome=r)


def section(r):
    m, th, di, bo, no, de, z = raw_section(r, ['ou', 'sw_ou', 'sw_ou2', 'sw_ou3'][r.integers(4)])
    return di, bo, no, de, z, float(de(np.array([1.]), None)[0][0])


@req(late=lambda a, r: a.update(t=into(a['t'], a['T'] + pos_off(r), r)), early=lambda a, r: a.update(t=into(a['t'], -pos_off(r), r)))
def section_query(r):
    di, bo, no, de, z, T = section(r)
    return (lambda s, t, T: s(t, no, de, r)), dict(s=z, t=ts(r, T), T=T)


@req(late=lambda a, r: a.update(t=into(a['t'], a['T'] + pos_off(r), r)), early=lambda a, r: a.update(t=into(a['t'], -pos_off(r), r)))
def section_fill(r):
    di, bo, no, de, z, T = section(r)
    return (lambda s, t, T: sde_seed.interpolate_seed(s, t, no, de, r)), dict(s=z, t=ts(r, T), T=T)


@req(bounds=lambda a, r: a.update(bounds_x=(1. + off(r), 1.)), budget=neg('max_props'))
def section_bridge(r):
    di, bo, no, de, z, T = section(r)
    return (lambda bounds_x, max_props: next(sde_seed.sample_bridge(bounds_x, no, de, di, bo, r, max_props))), dict(bounds_x=(-np.inf, np.inf), max_props=10000)


@req(late=lambda a, r: a.update(t=into(a['t'], a['fin_t'] + pos_off(r), r)), early=lambda a, r: a.update(t=into(a['t'], -pos_off(r), r)))
def model_paths(r):
    v = r.normal(size=2) * .6
    return (lambda t, fin_t: next(ITO['ou'].sample_sde(np.array([1., 1.]), t, fin_t, v[0], [None, v[1]][r.integers(2)], r))), dict(t=ts(r, 1.), fin_t=1.)


@req(horizon=nonpos('fin_t'))
def model_bridges(r):
    v = r.normal(size=2) * .6
    return (lambda t, fin_t: next(ITO['ou'].sample_sde(np.array([1., 1.]), t, fin_t, v[0], v[1], r))), dict(t=ts(r, 1.), fin_t=1.)


@req(start=nonpos('v0'), end=neg('v1'))
def cir_bridges(r):
    return (lambda v0, v1: next(ITO['cir'].sample_sde(np.array([1., 1., .5]), np.array([.1]), .3, v0, v1, r))), dict(v0=float(r.uniform(.6, 1.5)), v1=float(r.uniform(.6, 1.5)))


def shuffled(a, r):
    t = a['t'].copy()
    i = int(r.integers(len(t) - 1))
    if r.uniform() < .5:
        t[i + 1] = t[i]
    else:
        t[i], t[i + 1] = t[i + 1], t[i]
    a['t'] = t


@req(order=shuffled)
def posterior(r):
    t = np.concatenate([[0.], np.cumsum(r.uniform(.1, .5, 3))])
    k = int(r.integers(4))
    if k == 0:
        return (lambda t, v: next(ITO['ou'].sample_posterior(t, v, r))), dict(t=t, v=r.normal(size=4) * .3)
    return (lambda t, v: next(ITO['ou'].maximize_posterior(t, v, r))), dict(t=t, v=r.normal(size=4) * .3)


invalid_case = st.fixed_dictionaries(dict(name=st.sampled_from(sorted(TABLE)), seed=seeds))


def run_invalid(case):
    build, spoil = TABLE[case['name']]
    r = rng_of(case)
    f, args = build(r)
    if 'hit_x' in args and case['name'].endswith((':high', ':low')) and args['hit_x'] is None:
        return False
    good = f(**args)  # the request as such is valid
    need(good is not None, 'a valid request was not answered')
    spoil(args, r)
    before = freeze({k: x for k, x in args.items() if k != 'ome'})
    try:
        with np.errstate(all='ignore'):
            ans = f(**args)
    except Exception:
        need(freeze({k: x for k, x in args.items() if k != 'ome'}) == before, case['name'] + ': a rejected request was modified')
        note('rejected ' + case['name'].split(':')[0])
        return True
    need(False, lambda: 'invalid request %s answered: %s -> %s' % (case['name'], repr(args)[:400], repr(ans)[:300]))


# ---------------------------------------------------------------- exact budgets of the coin races

@st.composite
def race_case(draw):
    return dict(joint=draw(st.booleans()), w=draw(sgrid(2, 0.25)), first=draw(st.integers(1, 30)), budget=draw(st.integers(0, 30)),
                key=draw(st.sampled_from([0.0, 0.0, 0.0, 0.2])), seed=draw(seeds))


def run_race(case):
    """The coin succeeds at its n-th flip: the race ends there, or with the budget error if fewer flips were allowed."""
    flips = [0]

    def flip():
        flips[0] += 1
        return flips[0] >= case['first']

    def single():
        while True:
            yield flip(), flips[0]

    def double():
        yield None, 0
        while True:
            yield flip(), flips[0]
    rng = rng_of(case)
    try:
        if case['joint']:
            out = bfactories.sample_twocoin_joint(case['w'], 0., double(), case['key'], rng, case['budget'])
        else:
            c = single()
            out = bfactories.sample_twocoin(case['w'], 0., c, c, case['key'], 0, rng, case['budget'])
    except BudgetConstraintError:
        out = None
    need(flips[0] <= case['budget'], 'more coins flipped than the budget allows')
    if out is None:
        need(flips[0] == case['budget'] and case['first'] > case['budget'], 'gave up before the budget was used up')
    elif out[1]:
        need(case['key'] > 0, 'escaped without an escape probability')
        need(flips[0] < case['first'], 'escaped after a success')
    else:
        need(flips[0] == case['first'], 'stopped at the wrong flip')
        need(out[2] == case['first'], 'the returned proposal is not the successful one')
    return case['first'] > 1 and case['budget'] > 0


# ---------------------------------------------------------------- budgets of the path samplers

@st.composite
def path_budget_case(draw):
    return dict(kind=draw(st.sampled_from(['skeleton', 'section', 'layer'])), p=draw(grid(0.1, 0.9, 0.1)), budget=draw(st.integers(0, 4)), T=draw(grid(0.2, 2, 0.2)), a=draw(sgrid(1, 0.25)),
                b=draw(sgrid(1, 0.25)), seed=draw(seeds))


@contextlib.contextmanager
def cpu_limit(sec, msg):
    """A call with a budget of a few proposals takes milliseconds: seconds of processor time mean that the budget does not bound it."""
    def expire(*_):
        raise Bad(msg)
    old = signal.signal(signal.SIGVTALRM, expire)
    signal.setitimer(signal.ITIMER_VIRTUAL, sec)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def run_path_budget(case):
    """Every proposal is accepted with known probability p: a path is refused with probability (1 - p)^budget, each path anew."""
    T, a, b, m = case['T'], case['a'] * np.sqrt(case['T']), case['b'] * np.sqrt(case['T']), case['budget']
    p = case['p']
    rate = -np.log(p) / T
    if case['kind'] == 'layer':
        half = max(abs(a), abs(b)) + .4 * np.sqrt(T)
        d = 2 * half
        k = np.arange(-60, 61)
        p = float(np.sum(np.exp(-2 * k * d * (k * d + b - a) / T) - np.exp(-2 * (k * d + a + half) * (k * d + b + half) / T)))
        if m == 0:
            m = 1

    def one(rng):
        try:
            if case['kind'] == 'skeleton':
                it = ea3.sample_skeleton(T, a, (-np.inf, np.inf), itertools.repeat(b), lambda x: np.full(np.shape(x), 2 * rate), lambda lo_, hi_: (0., 0., rate), rng, m)
            elif case['kind'] == 'section':
                no, de = section_ops(T, a, b)
                it = sde_seed.sample_bridge((-np.inf, np.inf), no, de, lambda x: np.full(np.shape(x), 2 * rate), lambda lo_, hi_: (0., 0., rate), rng, m)
            else:
                it = (layers.sample_layer(T, a, b, -half, half, rng, m) for _ in range(2))
            with cpu_limit(8, 'a call with a budget of %d proposals does not end' % m):
                next(it)
        except BudgetConstraintError:
            return 0
        try:
            with cpu_limit(8, 'a call with a budget of %d proposals does not end' % m):
                next(it)
        except BudgetConstraintError:
            return 1
        return 2

    def f(n, rng):
        got = np.array([one(rng) for _ in range(n)])
        q = (1 - p) ** m
        return {'first path': binom_p(np.sum(got == 0), n, q), 'second path': binom_p(np.sum(got == 1), max(np.sum(got > 0), 0), q) if np.any(got > 0) else 1.0}
    two_stage(case, f, 120, what='%s refused within its budget' % case['kind'])
    note(case['kind'])
    return m > 0


def section_ops(T, a, b):
    s = np.sqrt(T)
    no = lambda t, x: (t / T, None if x is None else (x - a - t / T * (b - a)) / s)
    de = lambda u, z: (u * T, None if z is None else z * s + a + u * (b - a))
    return no, de


@st.composite
def generic_budget_case(draw):
    return dict(kind=draw(st.sampled_from(['layerbr', 'layerbr_min', 'edges', 'edge_part'])), T=draw(grid(0.2, 2, 0.2)), a=draw(sgrid(0.5, 0.25)), b=draw(sgrid(0.5, 0.25)),
                gap=draw(grid(0.7, 1.5, 0.1)), top=draw(grid(0.6, 1.2, 0.1)), t=draw(fracs(1, 2)), budget=draw(st.integers(2, 4)), seed=draw(seeds))


def run_generic_budget(case):
    """With refusal probability q for one proposal, m proposals are refused with probability q^m; without budget none is."""
    s = np.sqrt(case['T'])
    T, a, b = case['T'], case['a'] * s, case['b'] * s
    low, high = min(a, b), max(a, b)
    t = np.array(case['t']) * T

    def call(m, rng):
        k = dict(max_props=m, ome=rng)
        if case['kind'] == 'layerbr':
            return paths.sample_layerbr(t, T, a, b, low - case['gap'] * s, high + case['top'] * s, high + case['top'] * s / 2, **k)
        if case['kind'] == 'layerbr_min':
            return hitting.sample_layerbr_min(T, a, b, high + case['top'] * s * .8, low - case['gap'] * s, low, **k)
        if case['kind'] == 'edges':
            return layers.sample_edges(T, a, b, (low - case['gap'] * s, low - .05 * s), (high + case['top'] * s, high + 1.5 * case['top'] * s), **k)
        return paths.propose_layerbr_edge(t, T, case['gap'] * s, (case['gap'] + case['top']) * s, None, **k)

    def refused(m, n, rng):
        k = 0
        for _ in range(n):
            try:
                call(m, rng)
            except BudgetConstraintError:
                k += 1
        return k
    seen = [0]

    def f(n, rng):
        one, more = refused(1, n, rng), refused(case['budget'], n, rng)
        seen[0] = max(seen[0], more)
        q, m = (one + .5) / (n + 1), case['budget']
        var = (m * q ** (m - 1)) ** 2 * q * (1 - q) / n + max(q ** m * (1 - q ** m), .5 / n) / n
        out = {'refusals': 2 * stats.norm.sf(abs(more / n - q ** m) / np.sqrt(var))}
        need(refused(100000, 5, rng) == 0, 'refused in spite of an ample budget')
        return out
    two_stage(case, f, 150, what='%s refused within its budget' % case['kind'])
    note(case['kind'])
    return seen[0] > 0


# ---------------------------------------------------------------- no trace

trace_case = st.fixed_dictionaries(dict(name=st.sampled_from(sorted(REG)), bad=st.lists(st.sampled_from(sorted(TABLE)), min_size=1, max_size=3),
                                        budgets=st.integers(0, 3), seed=seeds))


def run_trace(case):
    def target():
        f, args = REG[case['name']](rng_of(case))
        try:
            return freeze(f(*args, ome=np.random.default_rng(case['seed'] % 997)))
        except BudgetConstraintError:
            return 'budget'
    ref = target()
    r = rng_of(case, 1)
    m, th = ITO['ou'], np.array([1., 1.])
    iters = [m.sample_sde(th, np.array([.5]), 1., 0., None, r), m.sample_posterior(np.array([0., .3, .6]), np.array([0., .1, .2]), r),
             SW['sw_ou'].sample_posterior(np.array([0., .3, .6]), np.array([0., .1, .2]), 2, 1., 1., r), mjp.sample_batch_ppp(5., (1., 1.), 1, r)]
    for it in iters:
        next(it, None)
    for name in case['bad']:
        build, spoil = TABLE[name]
        f, args = build(r)
        spoil(args, r)
        try:
            f(**args)
        except Exception:
            pass
    for _ in range(case['budgets']):
        for g in (lambda: layers.sample_layer(1., 0., 0., -.1, .1, r, 1), lambda: hitting.sample_layerbr_min(1., 0., 0., .01, -3., -2., r, 1),
                  lambda: next(ea3.sample_skeleton(1., 0., (-np.inf, np.inf), itertools.repeat(0.), lambda x: x * 0 + 60., lambda a, b: (0., 0., 50.), r, 2)),
                  lambda: bfactories.sample_twocoin(0., 0., itertools.repeat((False, 0)), itertools.repeat((False, 0)), 0, None, r, 3)):
            try:
                g()
            except BudgetConstraintError:
                pass
    need(target() == ref, case['name'] + ': a call answers differently after failed or abandoned calls')
    for it in iters[1:3]:
        next(it)
        it.close()
    need(target() == ref, case['name'] + ': a call answers differently after closed runs')
    return ref != 'budget'


SUBS = [
    Sub('invalid', invalid_case, run_invalid, 30000, 400000, '%d kinds of invalid requests at and beyond the boundary, each next to a valid one; non-trivial: rejected' % len(TABLE), cap=20),
    Sub('race', race_case(), run_race, 20000, 200000, 'coins that first succeed at flip n against budgets of 0-30; non-trivial: more than one flip', cap=10),
    Sub('paths', path_budget_case(), run_path_budget, 480, 8000, '120 attempts at two paths with known acceptance; non-trivial: positive budget', cap=60),
    Sub('proposals', generic_budget_case(), run_generic_budget, 480, 8000, '2 x 150 attempts with budgets 1 and m; non-trivial: some refused', cap=60),
    Sub('trace', trace_case, run_trace, 4000, 60000, 'any sampler before and after rejected requests, exhausted budgets and abandoned or closed runs; non-trivial: a result', cap=20),
]
