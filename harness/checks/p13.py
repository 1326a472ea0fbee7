"""P13: along every run the data are retained, sections fit their end points, regimes form one valid jump path, bounds hold."""
import numpy as np
from hypothesis import strategies as st
from core import Sub, note
from lib import *
from models import *
from ctbayes.ea3lib import seed as sde_seed
from ctbayes.ito import mcem as ito_mcem, mcmc as ito_mcmc
from ctbayes.switching import mcem, mcmc, types
from ctbayes.switching.static import construct_gen_hyperprior
from ctbayes.misc.adapt import MyopicMvRwSampler, MyopicMjpSampler
from checks.p09 import controls

TITLE = "retention of data and regimes"


@st.composite
def data(draw, kmax=6, vmax=1.2):
    k = draw(st.integers(1, kmax))
    gaps = draw(st.lists(st.one_of(grid(0.05, 0.8, 0.05), st.sampled_from([0.001, 0.3])), min_size=k, max_size=k))
    v = draw(st.lists(sgrid(vmax, 0.1), min_size=k + 1, max_size=k + 1))
    steps = np.clip(np.diff(v), -2.5 * np.sqrt(gaps), 2.5 * np.sqrt(gaps))  # plausible at the start value of the runs
    v = [round(float(x), 6) for x in v[0] + np.concatenate([[0], np.cumsum(steps)])]
    return dict(t=[0.0] + [round(float(u), 6) for u in np.cumsum(gaps)], v=v)


def seed_ok(z_, no, de, what):
    s, x = np.asarray(z_.s), np.asarray(z_.z)
    need(len(s) == len(x), what + ': times and values of a section differ in number')
    need(np.all(np.isfinite(x)) and np.all(np.diff(s) > 0) and (len(s) == 0 or (s[0] >= 0 and s[-1] <= 1)), what + ': section times out of order or outside the section')
    lo, hi = sorted((z_.tight_z, z_.loose_z))
    need(len(x) == 0 or (x.min() >= lo - 1e-9 and x.max() <= hi + 1e-9), what + ': section leaves its recorded bounds')


def ends_ok(m, no, de, thi, dt, v0, v1, what):
    """A section with its end points pinned at zero starts and ends at the neighbouring values."""
    q, x = de(np.array([0., 1.]), np.zeros(2))
    need_close(q, [0, dt], what + ': time span of a section', 1e-9, 1e-12)
    v = m.dereduce(thi, x) if thi is not None else m.dereduce(x)
    need_close(v, [v0, v1], what + ': end points of a section', 1e-9, 1e-9)


def in_bounds(thi, bounds, what):
    th = np.asarray(thi, float)
    need(np.all(np.isfinite(th)) and np.all(th > bounds[0]) and np.all(th < bounds[1]), lambda: what + ': parameter %r outside its bounds' % th.tolist())


def generator_ok(lam, n, what):
    lam = np.asarray(lam)
    off = ~np.eye(n, dtype=bool)
    need(lam.shape == (n, n) and np.all(np.isfinite(lam)) and np.all(lam[off] >= 0) and np.allclose(lam.sum(1), 0, atol=1e-9 * (1 + np.abs(lam).max())), what + ': not a generator')


def state_ok(m, thi, z, h, t, v, n, what):
    """The anchored state of a switching run is consistent with the data."""
    ht, hy, hv = np.asarray(h.t), np.asarray(h.yt), np.asarray(h.vt)
    need(len(ht) == len(hy) == len(hv) and len(z) == len(ht) - 1, what + ': numbers of times, regimes, values and sections do not fit')
    need(np.all(np.diff(ht) > 0) and ht[0] == t[0] and ht[-1] == t[-1], what + ': times out of order, or not the observed range')
    pos = np.searchsorted(ht, t)
    need(np.all(pos < len(ht)) and np.array_equal(ht[np.minimum(pos, len(ht) - 1)], t), what + ': an observation time was lost')
    need_close(hv[pos], v, what + ': observed values', 1e-12, 1e-12)
    need(np.all((hy >= 0) & (hy < n)) and np.all(np.isfinite(hv)), what + ': regime outside the state space')
    is_obs = np.isin(ht, t)
    change = np.append(False, hy[1:] != hy[:-1])
    need(not np.any(change & is_obs), what + ': regime changes at an observation time')
    need(np.all(change | is_obs), what + ': an anchor is neither observed nor a change of regime')
    y = types.prune_anchorage(h)
    need(y.fin_t == t[-1] and y.t[0] == 0, what + ': the regime path does not cover the horizon')
    need(len(y.t) == len(y.xt) and np.all(np.diff(y.t) > 0) and np.all(np.diff(y.xt) != 0), what + ': not a jump path')
    mid = (ht[1:] + ht[:-1]) / 2
    need(np.array_equal(y.xt[np.searchsorted(y.t, mid, 'right') - 1], hy[:-1]), what + ': regimes of path and sections differ')
    need(np.array_equal(y.t, ht[(ht == 0) | change]), what + ': jump times')
    for z_, (no, de), dt, v0, v1 in zip(z, m.gen_normops(thi, *h), np.diff(ht), hv, hv[1:]):
        seed_ok(z_, no, de, what)
        ends_ok(m, no, de, None, dt, v0, v1, what)


@st.composite
def ito_case(draw):
    c = draw(data())
    c.update(ctrl=draw(controls()), n=draw(st.integers(3, 12)), seed=draw(seeds))
    return c


def run_ito(case):
    m = ITO['ou']
    t, v = np.array(case['t']), np.array(case['v'])
    t0, v0 = t.copy(), v.copy()
    moved, old = 0, np.asarray(m.init_thi, float)
    for (thi, z), _ in zip(m.sample_posterior(t, v, rng_of(case), **case['ctrl']), range(case['n'])):
        in_bounds(thi, m.bounds_thi, 'posterior run')
        need(len(thi) == 2 and len(z) == len(t) - 1, 'posterior run: number of parameters or sections')
        for z_, (no, de), dt, a, b in zip(z, m.gen_normops(thi, t, v), np.diff(t), v, v[1:]):
            seed_ok(z_, no, de, 'posterior run'); ends_ok(m, no, de, thi, dt, a, b, 'posterior run')
        need(np.sum(np.asarray(thi) != old) <= 1, 'more than one parameter moved at a time')
        moved += not np.array_equal(thi, old)
        old = np.asarray(thi, float)
    need(np.array_equal(t, t0) and np.array_equal(v, v0), 'the data were modified')
    note('moves', moved)
    return moved > 0


@st.composite
def sw_case(draw):
    c = draw(data())
    c.update(name=draw(st.sampled_from(list(SW))), nreg=draw(st.integers(2, 3)), a0=draw(grid(0.5, 4, 0.5)), b0=draw(grid(0.5, 4, 0.5)), ctrl=draw(controls()),
             n=draw(st.integers(2, 8)), resume=draw(st.booleans()), seed=draw(seeds))
    return c


def run_sw(case):
    m = SW[case['name']]
    t, v = np.array(case['t']), np.array(case['v'])
    t0, v0 = t.copy(), v.copy()
    rng = rng_of(case)
    run = m.sample_posterior(t, v, case['nreg'], case['a0'], case['b0'], rng, **case['ctrl'])
    jumps = 0
    for (thi, lam, z, h), i in zip(run, range(case['n'])):
        need(np.shape(thi) == (case['nreg'], 2), 'shape of the parameters')
        in_bounds(thi, m.bounds_thi, 'posterior run')
        generator_ok(lam, case['nreg'], 'posterior run')
        state_ok(m, thi, z, h, t, v, case['nreg'], 'posterior run')
        jumps += len(types.prune_anchorage(h).t) - 1
    if case['resume']:
        smp = [MyopicMvRwSampler(th, m.bounds_thi) for th in thi]
        state = dict(thi=thi, lam=lam, z=z, h=h, param_samplers=smp, regime_sampler=MyopicMjpSampler(types.prune_anchorage(h)), ome=rng)
        for (thi, lam, z, h), _ in zip(m.sample_posterior(t, v, case['nreg'], case['a0'], case['b0'], rng, state=state, **case['ctrl']), range(3)):
            in_bounds(thi, m.bounds_thi, 'resumed run')
            generator_ok(lam, case['nreg'], 'resumed run')
            state_ok(m, thi, z, h, t, v, case['nreg'], 'resumed run')
    need(np.array_equal(t, t0) and np.array_equal(v, v0), 'the data were modified')
    note(case['name'])
    return jumps > 0


@st.composite
def em_case(draw):
    c = draw(data(4))
    c.update(name=draw(st.sampled_from(['ou', 'ou', 'cir'] + list(SW))), nreg=2, a0=draw(grid(1.5, 4, 0.5)), b0=draw(grid(0.5, 4, 0.5)),
             thin=draw(st.integers(1, 3)), supp=draw(st.integers(1, 4)), lr=draw(st.sampled_from([1.0, 1.5, 2.0])), buf=draw(st.sampled_from([1e-2, 1e-3])),
             n=draw(st.integers(1, 4)), seed=draw(seeds))
    return c


def run_em(case):
    t, v = np.array(case['t']), np.array(case['v'])
    rng = rng_of(case)
    kw = dict(n_thin_mcmc=case['thin'], n_disc_supports=case['supp'], learning_rate=case['lr'], bound_buffer=case['buf'])
    if case['name'] == 'cir':
        v = 1.0 + 0.3 * np.tanh(v)
    t0, v0 = t.copy(), v.copy()
    size = []
    if case['name'] in ITO:
        m = ITO[case['name']]
        for (obj, thi, zz), _ in zip(m.maximize_posterior(t, v, rng, **kw), range(case['n'])):
            in_bounds(thi, m.bounds_thi, 'EM run')
            need(np.isfinite(obj), 'EM run: objective')
            size.append(len(zz))
            for z in zz:
                need(len(z) == len(t) - 1, 'EM run: number of sections')
                for z_, (no, de), dt, a, b in zip(z, m.gen_normops(thi, t, v), np.diff(t), v, v[1:]):
                    ends_ok(m, no, de, thi, dt, a, b, 'EM run')
                    if case['name'] == 'ou':
                        seed_ok(z_, no, de, 'EM run')
    else:
        m = SW[case['name']]
        for (obj, thi, lam, zz, hh), _ in zip(m.maximize_posterior(t, v, case['nreg'], case['a0'], case['b0'], rng, **kw), range(case['n'])):
            in_bounds(thi, m.bounds_thi, 'EM run')
            generator_ok(lam, case['nreg'], 'EM run')
            size.append(len(zz))
            need(len(zz) == len(hh), 'EM run: numbers of paths and histories differ')
            for z, h in zip(zz, hh):
                state_ok(m, thi, z, h, t, v, case['nreg'], 'EM run')
    need(all(b >= a for a, b in zip(size, size[1:])), 'the number of sampled histories went down')
    need(np.array_equal(t, t0) and np.array_equal(v, v0), 'the data were modified')
    note(case['name'])
    return len(t) > 2


@st.composite
def split_case(draw):
    n, r = draw(gen_strategy(2, 4, 0.2, 3))
    return dict(n=n, r=r, T=draw(grid(0.5, 6, 0.1)), obs=draw(fracs(0, 8)), pick=draw(st.lists(st.booleans(), min_size=8, max_size=8)),
                mode=draw(st.sampled_from(['mask', 'all', 'none', 'mask'])), extra=draw(fracs(0, 2)), seed=draw(seeds))


def run_split(case):
    rng = rng_of(case)
    T, n = case['T'], case['n']
    jt, jx = mjp_sim(rng, T, int(rng.integers(n)), dense_gen(case['r'], n))
    obs = np.unique(np.array([0.0] + case['obs'] + [1.0]) * T)
    obs = obs[~np.isin(obs, jt[1:])]
    ht = np.unique(np.concatenate([obs, jt]))
    hy = jx[np.searchsorted(jt, ht, 'right') - 1]
    h = types.Anchorage(ht, hy, rng.standard_normal(len(ht)))
    z = [sde_seed.SeedSkeleton(np.array([0.5]), rng.standard_normal(1), -9., 9., 1.0, None) for _ in ht[1:]]
    inner = obs[1:-1]
    pick = np.array((case['pick'] * 2)[:len(inner)], bool)
    cond = inner[pick] if case['mode'] == 'mask' else inner if case['mode'] == 'all' else inner[:0]
    zp, hp = mcmc.split_hidden(z, h, cond)
    edges = np.concatenate([[0], cond, [T]])
    need(len(zp) == len(hp) == len(edges) - 1, 'number of parts')
    for z_, h_, a, b in zip(zp, hp, edges, edges[1:]):
        k = (ht >= a) & (ht <= b)
        need(np.array_equal(h_.t, ht[k]) and np.array_equal(h_.vt, h.vt[k]), 'a part does not hold the times and values of its range')
        need(np.array_equal(h_.yt[:-1], hy[k][:-1]) and len(h_.yt) == k.sum(), 'a part does not hold the regimes of its range')
        sec = [q for q, u in zip(z, ht) if a <= u < b]
        need(len(z_) == len(sec) and all(p is q or p == q for p, q in zip(z_, sec)), 'a part does not hold the sections of its range')
    z2, h2 = mcmc.paste_hidden(zp, hp)
    need(len(z2) == len(z) and all(p is q for p, q in zip(z2, z)), 'splitting and pasting changed the sections')
    need(all(np.array_equal(a, b) for a, b in zip(h2, h)), 'splitting and pasting changed the history')
    y, y2 = types.prune_anchorage(h), types.prune_anchorage(h2)
    need(np.array_equal(y.t, jt) and np.array_equal(y.xt, jx) and y.fin_t == T, 'regimes read off the history')
    need(np.array_equal(y2.t, jt) and np.array_equal(y2.xt, jx), 'regimes read off the pasted history')
    return len(cond) > 0 and len(jt) > 1


SUBS = [
    Sub('split', split_case(), run_split, 8000, 100000, 'splitting and pasting at any subset of observation times, regimes read off; non-trivial: a boundary and a jump', cap=30),
    Sub('diffusion', ito_case(), run_ito, 1600, 30000, '3-12 updates, 2-7 observations, random controls; non-trivial: a parameter moved', cap=15),
    Sub('switching', sw_case(), run_sw, 1600, 30000, '2-8 updates, 3 models, 2-7 observations, optionally resumed; non-trivial: a regime change', cap=15),
    Sub('em', em_case(), run_em, 640, 10000, '1-4 EM steps of five models; non-trivial: inner observations', cap=15),
]
