"""P14: EM estimation: the sampled objective is right, its maximiser is found, runs continue and arrive, bounds hold."""
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import minimize
from core import Sub, note
from lib import *
from models import *
from ctbayes.ea3lib import seed as sde_seed
from ctbayes.ito import mcem as ito_mcem
from ctbayes.ito.models import ou, cir
from ctbayes.mjplib import skeleton as mjp, inference as mjp_inf
from ctbayes.switching import mcem, types
from ctbayes.switching.static import construct_gen_hyperprior
from checks.p07 import params
from checks.p09 import path as ito_path, ou_cost
from checks.p11 import forward, rate_vols, path as sw_path, skeleton_of

TITLE = "EM estimation"
NODES, WEIGHTS = np.polynomial.legendre.leggauss(24)
NODES, WEIGHTS = (NODES + 1) / 2, WEIGHTS / 2


def bridge_moments(bet, T, x0, x1, s):
    """Mean and variance of the unit-volatility OU bridge."""
    sh = np.sinh
    return ((x0 * sh(bet * (T - s)) + x1 * sh(bet * s)) / sh(bet * T), sh(bet * s) * sh(bet * (T - s)) / (bet * sh(bet * T)))


def q_section(old, new, T, v0, v1):
    """Exact expected complete-data log-likelihood of one section; old, new = (rate, vol). The path is carried as normalised bridge."""
    (r, s), (r1, s1) = old, new
    u = NODES * T
    m, var = bridge_moments(r, T, v0 / s, v1 / s, u)
    lin = v0 + (v1 - v0) * NODES
    x2 = (m - lin / s + lin / s1) ** 2 + var
    phi = T * np.sum(WEIGHTS * (r1 ** 2 * x2 - r1) / 2)
    return stats.norm.logpdf(v1, v0, s1 * np.sqrt(T)) - r1 * (v1 ** 2 - v0 ** 2) / 2 / s1 ** 2 - phi


def q_ito(old, new, t, v):
    return sum(q_section(old, new, d, a, b) for d, a, b in zip(np.diff(t), v, v[1:]))


def prior_of(mu, sd):
    return lambda th: float(np.sum(stats.norm.logpdf(np.log(th), mu, sd) - np.log(th))) if np.all(np.asarray(th) > 0) else -np.inf


@st.composite
def ito_case(draw, kmax=3):
    k = draw(st.integers(1, kmax))
    dt = draw(st.lists(grid(0.1, 1.5, 0.1), min_size=k, max_size=k))
    return dict(t=[0.0] + [round(float(u), 4) for u in np.cumsum(dt)], thi=[draw(grid(0.2, 2, 0.1)), draw(grid(0.3, 2, 0.1))],
                x=draw(st.lists(sgrid(1.5, 0.1), min_size=k + 1, max_size=k + 1)), new=[draw(sgrid(1, 0.25)), draw(sgrid(0.75, 0.25))],
                mu=[draw(sgrid(0.5, 0.25)), draw(sgrid(0.5, 0.25))], sd=[draw(grid(0.3, 1, 0.1)), draw(grid(0.3, 1, 0.1))],
                supp=draw(st.integers(1, 4)), seed=draw(seeds))


def ito_setup(case):
    """Data shrunk until exact bridges are affordable."""
    thi, x = np.array(case['thi'], float), np.array(case['x'], float)
    t = np.array(case['t'])
    for _ in range(60):
        if max(ou_cost(thi[0], d, a, b) for d, a, b in zip(np.diff(t), x, x[1:])) < 1.5:
            break
        x *= 0.9; thi[0] *= 0.97
    return thi, t, x * thi[1], prior_of(np.array(case['mu']), np.array(case['sd']))


def ito_model(t, v, lp, bounds=None):
    return ito_mcem.Model(t, v, bounds or ou.bounds_thi, lp, ou.sample_aug, ou.gen_normops, ou.eval_biased_log_lik, ou.eval_disc, ou.eval_bounds_disc)


def run_obj_ito(case):
    thi, t, v, lp = ito_setup(case)
    mod, ctrl = ito_model(t, v, lp), ito_mcem.Controls(n_disc_supports=case['supp'])
    news = [thi * np.exp(case['new']), thi * np.exp([0.5, 0]), thi * np.exp([0, -0.5]), thi]
    ref = np.array([q_ito(thi, th, t, v) + lp(th) for th in news])

    def f(n, rng):
        gens = [sde_seed.sample_bridge(ou.bounds_x, no, de, ou.eval_disc(thi), ou.eval_bounds_disc(thi), rng) for no, de in ou.gen_normops(thi, t, v)]
        Y = []
        for _ in range(n):
            zz = [[next(g) for g in gens]]
            obj = ito_mcem.update_objective(thi, zz, mod, ctrl, rng, SeqPool())
            Y.append([obj(th)[0] for th in news])
        Y = np.array(Y) - ref
        return {'value%d' % i: mean_p(Y[:, i]) for i in range(len(news))}
    two_stage(case, f, 400, mult=8, what='sampled EM objective')
    return len(t) > 2


@st.composite
def sw_case(draw):
    name = draw(st.sampled_from(list(SW)))
    nreg = draw(st.integers(2, 3))
    k = draw(st.integers(1, 3))
    gaps = draw(st.lists(grid(0.1, 1.2, 0.1), min_size=k, max_size=k))
    rv = [[draw(grid(0.2, 1.5, 0.1)), draw(grid(0.4, 1.6, 0.1))] for _ in range(nreg)]
    return dict(name=name, rv=rv, t=[0.0] + [round(float(u), 4) for u in np.cumsum(gaps)], jumps=draw(fracs(0, 3)),
                steps=draw(st.lists(st.integers(1, nreg - 1), min_size=4, max_size=4)), v0=draw(sgrid(0.6, 0.1)),
                new=[[draw(sgrid(0.75, 0.25)), draw(sgrid(0.75, 0.25))] for _ in range(nreg)],
                mu=draw(sgrid(0.5, 0.25)), sd=draw(grid(0.3, 1, 0.1)), supp=draw(st.integers(1, 4)), seed=draw(seeds))


def sw_setup(case):
    name = case['name']
    t, y = skeleton_of(case)
    rv = np.array(case['rv'], float)
    for i in range(60):
        h = forward(rv, t, y, case['v0'], rng_of(case, 40 + i))
        thi = params(name, rv)
        if max(ou_cost(r, d, a / s, b / s) for (r, s), d, a, b in zip(rv[np.asarray(h.yt)[:-1]], np.diff(h.t), h.vt, h.vt[1:])) < 1.5:
            break
        rv[:, 0] *= 0.93
    return name, SW[name], t, h, thi, rv, prior_of(case['mu'], case['sd'])


def sw_model(m, t, h, n, lp, bounds=None, a0=2.0, b0=1.0):
    return mcem.Model(t, h.vt[np.isin(h.t, t)], bounds or m.bounds_thi, construct_gen_hyperprior(n, a0, b0), lp, m.sample_aug, m.gen_normops,
                      m.eval_biased_log_lik, m.eval_disc, m.eval_bounds_disc)


def q_sw(rv, new, h, k):
    return sum(q_section(rv[k], new, d, a, b) for y, d, a, b in zip(h.yt, np.diff(h.t), h.vt, h.vt[1:]) if y == k)


def run_obj_sw(case):
    name, m, t, h, thi, rv, lp = sw_setup(case)
    n = len(thi)
    mod, ctrl = sw_model(m, t, h, n, lp), mcem.Controls(n_disc_supports=case['supp'])
    new = thi * np.exp(np.array(case['new']))
    nrv = rate_vols(name, new)
    seen = sorted(set(np.asarray(h.yt)[:-1].tolist()))
    items = []
    for k in seen:
        th = thi.copy(); th[k] = new[k]
        items.append((th, k, q_sw(rv, nrv[k], h, k) + lp(th)))

    def f(N, rng):
        gens = [sde_seed.sample_bridge(m.bounds_x, no, de, m.eval_disc(thi, k), m.eval_bounds_disc(thi, k), rng) for (no, de), k in zip(m.gen_normops(thi, *h), h.yt)]
        Y = []
        for _ in range(N):
            obj = mcem.update_objective(thi, [[next(g) for g in gens]], [h], mod, ctrl, rng, SeqPool())
            Y.append([float(np.ravel(obj(th, k))[0]) - ref for th, k, ref in items])
        Y = np.array(Y)
        return {'regime%d' % k: mean_p(Y[:, i]) for i, (_, k, _) in enumerate(items)}
    two_stage(case, f, 300, mult=8, what='sampled EM objective')
    note(name)
    return len(seen) > 1


def best(q, x0, lo, hi):
    """Maximiser of q within the box, on the log scale."""
    lo, hi = np.maximum(lo, 1e-4), np.minimum(hi, 1e4)
    out = None
    for start in (x0, np.sqrt(np.maximum(lo, .1) * np.minimum(hi, 10))):
        r = minimize(lambda u: -q(np.exp(u)), np.clip(np.log(start), np.log(lo), np.log(hi)), bounds=list(zip(np.log(lo), np.log(hi))), method='L-BFGS-B', options=dict(ftol=1e-13, gtol=1e-9))
        if out is None or r.fun < out.fun:
            out = r
    return np.exp(out.x), -out.fun


@st.composite
def box(draw):
    """Bounds on the parameters, possibly binding, and the buffer."""
    return dict(lo=[draw(st.sampled_from([0.0, 0.0, 0.3, 0.8])), draw(st.sampled_from([0.0, 0.0, 0.3, 0.8]))],
                width=[draw(st.sampled_from([np.inf, np.inf, 0.5, 1.5, 0.01])) for _ in range(2)], buf=draw(st.sampled_from([1e-2, 1e-3, 0.1])), none=draw(st.booleans()))


def unbox(b, thi):
    lo = np.array(b['lo'])
    hi = lo + np.array(b['width'])
    if b['none'] and np.all(lo == 0):
        hi[:] = np.inf
    d = np.minimum((hi - lo) / 2, b['buf'])
    return (lo, hi), lo + d, hi - d, np.clip(thi, lo + d, hi - d)


def inside(x, lo, hi):
    need(np.all(np.isfinite(x)) and np.all(x >= lo - 1e-9) and np.all(x <= hi + 1e-9), lambda: 'estimate %r outside the buffered bounds %r' % (np.asarray(x).tolist(), [lo.tolist(), hi.tolist()]))


@st.composite
def step_ito_case(draw):
    c = draw(ito_case(3)); c['box'] = draw(box())
    return c


def run_step_ito(case):
    thi0, t, v, lp = ito_setup(case)
    bounds, lo, hi, thi = unbox(case['box'], thi0)
    x = v / thi[1]
    if max(ou_cost(thi[0], d, a, b) for d, a, b in zip(np.diff(t), x, x[1:])) > 2.5:
        return False
    mod = ito_model(t, v, lp, bounds)
    ctrl = ito_mcem.Controls(n_disc_supports=24, ftol=1e-9, bound_buffer=case['box']['buf'])
    q = lambda th: q_ito(thi, th, t, v) + lp(th)
    top = best(q, thi, lo, hi)[1]

    def g(n, rng):
        zz = [ito_path(thi, t, v, rng) for _ in range(n)]
        x, obj = ito_mcem.update_param(thi, zz, mod, ctrl, rng, SeqPool())
        inside(x, lo, hi)
        return q(np.asarray(x)), obj
    rng = rng_of(case)
    if abs(top) > 300:
        return False
    tol = 0.1 + 2e-3 * abs(top)
    val, obj = g(40, rng)
    if top - val > 3 * tol or abs(obj - val) > 10 * tol:
        val, obj = g(200, rng)
        need(top - val < tol, lambda: 'the step reaches %.4f of the expected objective, its maximum within the bounds is %.4f' % (val, top))
        need(abs(obj - val) < 4 * tol, lambda: 'the reported objective %.4f is far from its expectation %.4f' % (obj, val))
    return True


@st.composite
def step_sw_case(draw):
    c = draw(sw_case()); c['box'] = draw(box())
    return c


def run_step_sw(case):
    name, m, t, h, thi0, rv0, lp = sw_setup(case)
    bounds, lo, hi, thi = unbox(case['box'], thi0)
    n = len(thi)
    rv = rate_vols(name, thi)
    if max(ou_cost(r, d, a / s, b / s) for (r, s), d, a, b in zip(rv[np.asarray(h.yt)[:-1]], np.diff(h.t), h.vt, h.vt[1:])) > 2.5:
        return False
    mod = sw_model(m, t, h, n, lp, bounds)
    ctrl = mcem.Controls(n_disc_supports=24, ftol=1e-9, bound_buffer=case['box']['buf'])

    def q(th, k):
        full = thi.copy(); full[k] = th
        return q_sw(rv, rate_vols(name, full)[k], h, k) + lp(full)
    tops = [best(lambda th: q(th, k), thi[k], lo, hi)[1] for k in range(n)]

    def g(N, rng):
        zz = [sw_path(m, thi, h, rng) for _ in range(N)]
        x, obj = mcem.update_param(thi, zz, [h] * N, mod, ctrl, rng, SeqPool())
        for k in range(n):
            inside(x[k], lo, hi)
        return [q(x[k], k) for k in range(n)], obj
    rng = rng_of(case)
    if max(np.abs(tops)) > 300:
        return False
    tol = 0.1 + 2e-3 * max(np.abs(tops))
    val, obj = g(25, rng)
    if max(np.subtract(tops, val)) > 3 * tol:
        val, obj = g(150, rng)
        need(max(np.subtract(tops, val)) < tol, lambda: 'the step reaches %r of the expected objectives per regime, their maxima are %r' % (val, tops))
    need(np.isfinite(obj), 'objective')
    note(name)
    return len(set(np.asarray(h.yt)[:-1].tolist())) > 1


@st.composite
def gen_case(draw):
    n, r = draw(gen_strategy(2, 4))
    return dict(n=n, r=r, T=draw(grid(0.5, 6, 0.1)), N=draw(st.integers(1, 5)), obs=draw(fracs(0, 4)), a0=draw(grid(1.1, 4, 0.1)), b0=draw(grid(0.2, 4, 0.2)), matrix=draw(st.booleans()), seed=draw(seeds))


def run_gen(case):
    n, T = case['n'], case['T']
    rng = rng_of(case)
    a, b = construct_gen_hyperprior(n, case['a0'], case['b0'])
    if case['matrix']:
        a = a * rng.uniform(1, 2, (n, n)); b = b * rng.uniform(0.5, 2, (n, n))
    hh, N, R = [], np.zeros((n, n)), np.zeros(n)
    for _ in range(case['N']):
        jt, jx = mjp_sim(rng, T, int(rng.integers(n)), dense_gen(case['r'], n))
        tt = np.unique(np.concatenate([np.array([0.0] + case['obs'] + [1.0]) * T, jt]))
        hh.append(types.Anchorage(tt, jx[np.searchsorted(jt, tt, 'right') - 1], np.zeros(len(tt))))
        for i, x in enumerate(jx):
            R[x] += (jt[i + 1] if i + 1 < len(jt) else T) - jt[i]
            if i + 1 < len(jx):
                N[x, jx[i + 1]] += 1
    off = ~np.eye(n, dtype=bool)

    def obj(L):  # expected complete-data log posterior up to a constant
        return float(np.sum(((N / case['N'] + a - 1) * np.log(L) - (b + R[:, None] / case['N']) * L)[off]))
    lam, val = mcem.update_generator(hh, (a, b))
    need(lam.shape == (n, n) and np.all(lam[off] > 0) and np.allclose(lam.sum(1), 0, atol=1e-9 * np.abs(lam).max()), 'not a generator')
    top = obj(lam)
    need(abs(val - top) < 1e-8 * (1 + abs(top)), lambda: 'the reported objective is %r instead of %r' % (val, top))
    for i in np.argwhere(off):
        for e in (1e-3, -1e-3, 0.3, -0.3):
            L = lam.copy(); L[tuple(i)] *= np.exp(e)
            need(obj(L) < top, 'another transition rate has a larger objective')
    return case['N'] > 1 and N.sum() > 0


@st.composite
def run_case_(draw):
    k = draw(st.integers(4, 10))
    which = draw(st.sampled_from(['ou', 'ou', 'cir']))
    if which == 'ou':
        thi = [draw(grid(0.3, 1.5, 0.1)), draw(grid(0.4, 2, 0.1))]
        start = [draw(st.sampled_from([0.3, 3.0, 1.0])), draw(st.sampled_from([0.4, 2.5, 1.0]))]
        dt = draw(st.lists(grid(0.2, 1.2, 0.1), min_size=k, max_size=k))
    else:
        thi = [draw(grid(0.5, 2, 0.1)), draw(grid(0.8, 1.5, 0.1)), draw(grid(0.3, 0.6, 0.1))]
        start = [draw(st.sampled_from([0.5, 2.0, 1.0])), draw(st.sampled_from([0.7, 1.5, 1.0])), draw(st.sampled_from([0.7, 1.5]))]
        dt = draw(st.lists(grid(0.1, 0.3, 0.05), min_size=k, max_size=k))
    return dict(which=which, thi=thi, start=start, dt=dt, sd=draw(st.sampled_from([0.3, 0.5, 1.0])), thin=draw(st.integers(1, 3)), seed=draw(seeds))


def run_arrive(case):
    """A run from a distant start, against the mode of the exact posterior."""
    rng = rng_of(case)
    thi = np.array(case['thi'])
    t = np.concatenate([[0], np.cumsum(case['dt'])])
    is_ou = case['which'] == 'ou'
    lp = prior_of(np.log(thi), case['sd'])
    if is_ou:
        v = [0.3 * thi[1]]
        for d in case['dt']:
            mean, var = ou_trans(*thi, d, v[-1])
            v.append(mean + np.sqrt(var) * rng.standard_normal())
        v = np.array(v)
        post = lambda th: ou_loglik(*th, t, v) + lp(th)
        mod = ito_model(t, v, lp)
    else:
        v = [thi[1]]
        for d in case['dt']:
            v.append(float(cir_dist(thi, d, v[-1]).rvs(random_state=rng)))
        v = np.array(v)
        if v.min() < 0.3:
            return False
        post = lambda th: float(np.sum([np.log(cir_pdf(th, d, a, b)) for d, a, b in zip(np.diff(t), v, v[1:])])) + lp(th) if np.all(th > 0) else -np.inf
        mod = ito_mcem.Model(t, v, cir.bounds_thi, lp, cir.sample_aug, cir.gen_normops, cir.eval_biased_log_lik, cir.eval_disc, cir.eval_bounds_disc)
    start = thi * np.array(case['start'])
    if not is_ou:  # the discount needs 4 k m > 3 s^2 to be bounded below
        for _ in range(20):
            if 4 * start[0] * start[1] > 4 * start[2] ** 2:
                break
            start[2] *= 0.8
    mode, top = best(post, thi, np.full(len(thi), 1e-3), np.full(len(thi), 9.0))
    ctrl = ito_mcem.Controls(n_thin_mcmc=case['thin'], n_disc_supports=4, learning_rate=1.0, ftol=1e-6)
    gaps = [top - post(start)]
    for (obj, th, zz), _ in zip(ito_mcem.maximize_posterior(start, mod, ctrl, rng), range(24)):
        gaps.append(top - post(np.asarray(th)))
        need(np.all(th > 0), 'estimate outside its bounds')
    need(len(gaps) > 20 or abs(gaps[-1]) < 0.25, 'the run ended early')
    tail = np.mean(gaps[-4:])
    need(tail < 0.25 + 0.02 * gaps[0], lambda: 'log posterior of the run stays %.3f below that of the mode (start: %.3f), %r' % (tail, gaps[0], np.round(gaps, 3).tolist()))
    note('start_gap_above_3', gaps[0] > 3)
    note(case['which'])
    return gaps[0] > 3


@st.composite
def tied_case(draw):
    k = draw(st.integers(1, 3))
    return dict(name=draw(st.sampled_from(list(SW))), a0=draw(grid(1.8, 2.8, 0.2)), b0=draw(grid(0.5, 1.5, 0.1)), T=draw(grid(2, 4, 0.5)), fr=draw(fracs(0, 1)),
                rv=[draw(grid(0.1, 0.3, 0.1)), draw(grid(0.5, 1.5, 0.1))], thin=draw(st.integers(1, 2)), seed=draw(seeds))


def run_tied(case):
    """Regimes with the same parameters: the data say nothing about the rates, so each EM step has a closed form in the rates before it."""
    name, m = case['name'], SW[case['name']]
    a, b, T = case['a0'], case['b0'], case['T']
    thi = params(name, [case['rv']] * 2)
    t = np.unique(np.array([0.0] + case['fr'] + [1.0])) * T
    lp = lambda th: float(np.sum(stats.norm.logpdf(np.log(th), np.log(thi[0]), 0.02)))
    ctrl = mcem.Controls(n_thin_mcmc=case['thin'], ftol=1e-6, learning_rate=1.2)

    def once(rng):
        h = forward(rate_vols(name, thi), t, mjp.Skeleton(np.array([0.]), np.array([0]), T), 0.0, rng)
        mod0 = sw_model(m, t, h, 2, lp, None, a, b)
        used = []

        def sample_aug(th, *rest):
            used.append(np.array(th))
            return mod0.sample_aug(th, *rest)
        want, got, last = np.array([a / b] * 2), [], thi
        for i, (obj, th, lam, zz, hh) in zip(range(14), mcem.maximize_posterior(thi[0].copy(), mod0._replace(sample_aug=sample_aug), ctrl, rng)):
            need(len(used) > 0 and all(np.array_equal(u, last) for u in used), 'the histories were sampled under other parameters than the last estimate')
            used.clear(); last = np.array(th)
            pi = want[::-1] / want.sum()
            want = (a - 1 + pi * want * T) / (b + pi * T)
            got.append(np.log(np.maximum([lam[0, 1], lam[1, 0]], 1e-9)))
        return float(np.mean(np.mean(got[-5:], 0) - np.log(want)))
    dev = once(rng_of(case))
    e, rest = a / b, a / b
    for _ in range(14):
        e = (a - 1 + e * T / 2) / (b + T / 2)
    rest = np.log((a - 1 + a / b * T / 2) / (b + T / 2)) - np.log(e)
    if rest < 0.25:
        return False
    if dev > 0.75 * rest:
        note('second_stages')
        dev = np.mean([once(rng_of(case, 7, i)) for i in range(14)])
        need(dev < 0.65 * rest, lambda: 'log transition rates after 14 steps are %.3f above the EM sequence on average; without ever using the last rates they would be %.3f above' % (dev, rest))
    return True


@st.composite
def stop_case(draw):
    k = draw(st.integers(1, 3))
    return dict(which=draw(st.sampled_from(['ou', 'sw_ou', 'sw_ou2', 'sw_ou3'])), dt=draw(st.lists(grid(0.1, 0.6, 0.1), min_size=k, max_size=k)),
                x=draw(st.lists(sgrid(0.6, 0.1), min_size=k + 1, max_size=k + 1)), ftol=draw(st.sampled_from([1e-2, 0.1, 0.5, 3.0])),
                lr=draw(st.sampled_from([0.5, 1.0, 1.5])), thin=draw(st.integers(1, 2)), seed=draw(seeds))


def run_stop(case):
    """A run ends exactly when the objective has settled."""
    t, v = np.concatenate([[0], np.cumsum(case['dt'])]), np.array(case['x'])
    kw = dict(ftol=case['ftol'], learning_rate=case['lr'], n_thin_mcmc=case['thin'])
    rng = rng_of(case)
    run = ou.maximize_posterior(t, v, rng, **kw) if case['which'] == 'ou' else SW[case['which']].maximize_posterior(t, v, 2, 2.0, 1.0, rng, **kw)
    objs, ended = [], False
    for _ in range(9):
        try:
            objs.append(float(next(run)[0]))
        except StopIteration:
            ended = True
            break
    d = np.abs(np.diff(objs))
    need(len(objs) >= 2, 'the run ended after one step')
    need(not ended or d[-1] < case['ftol'] + 1e-12, lambda: 'the run ended although the objective had not settled: %r' % objs)
    need(np.all(d[:-1] >= case['ftol'] - 1e-12), lambda: 'the run went on although the objective had settled: %r' % objs)
    return ended


SUBS = [
    Sub('stop', stop_case(), run_stop, 160, 3000, 'runs end exactly when the objective moves by less than the tolerance; non-trivial: the run ended', cap=20),
    Sub('generator', gen_case(), run_gen, 1500, 40000, '2-4 regimes, 1-5 regime histories: no other generator has a larger objective; non-trivial: several histories with jumps', cap=30),
    Sub('objective', ito_case(), run_obj_ito, 32, 320, 'sampled objective over exact bridges against its closed form at 4 parameters; non-trivial: several intervals', cap=200),
    Sub('objective_sw', sw_case(), run_obj_sw, 32, 320, 'the same per regime of three switching models; non-trivial: several regimes visited', cap=200),
    Sub('step', step_ito_case(), run_step_ito, 64, 640, 'parameter step over exact bridges against the constrained maximum of the closed-form objective', cap=200),
    Sub('step_sw', step_sw_case(), run_step_sw, 48, 480, 'the same per regime; non-trivial: several regimes visited', cap=200),
    Sub('tied', tied_case(), run_tied, 24, 480, '14 EM steps of a switching model whose regimes have the same parameters: sampled under the last estimate, rates near the closed-form EM sequence; non-trivial: clearly different from never updating them', cap=200),
    Sub('arrive', run_case_(), run_arrive, 32, 320, '24 EM iterations of OU or CIR from a distant start against the mode of the exact posterior; non-trivial: start at least 3 below the mode', cap=200),
]
