"""P06: likelihood estimates of the Ito models are unbiased, coins have the probability the discount implies."""
import numpy as np
from hypothesis import strategies as st
from scipy.stats import norm
from core import Sub, note
from lib import *
from models import *
from ctbayes.ea3lib import seed as sde_seed, skeleton as ea_skel
from ctbayes.ito import mcem

TITLE = "diffusion likelihood estimates"


def model(name, t, v):
    m = ITO[name]
    return mcem.Model(t, v, m.bounds_thi, m.eval_log_prior, m.sample_aug, m.gen_normops, m.eval_biased_log_lik, m.eval_disc, m.eval_bounds_disc)


def biased_ref(name, thi, t, v):
    """sum of log|dx/dv| + log N(x1; x0, dt) + A(x1) - A(x0), written from the model formulas."""
    t, v = np.asarray(t, float), np.asarray(v, float)
    if name == 'ou':
        x, ljac = v / thi[1], np.full(len(v) - 1, -np.log(thi[1]))
        A = -thi[0] * x ** 2 / 2
    else:
        x, ljac = 2 * np.sqrt(v) / thi[2], -np.log(thi[2] * np.sqrt(v[1:]))
        A = (2 * thi[0] * thi[1] / thi[2] ** 2 - .5) * np.log(x) - thi[0] * x ** 2 / 4
    return float(np.sum(ljac + norm.logpdf(np.diff(x), 0, np.sqrt(np.diff(t))) + np.diff(A)))


def loglik(name, thi, t, v):
    if name == 'ou':
        return ou_loglik(thi[0], thi[1], t, v)
    return float(np.sum([np.log(cir_pdf(thi, d, a, b)) for d, a, b in zip(np.diff(t), v[:-1], v[1:])]))


def inf_disc(name, thi):
    if name == 'ou':
        return -thi[0] / 2
    xs = np.exp(np.linspace(np.log(1e-2), np.log(1e2), 20000))
    return float(np.min(disc(name, thi, xs)))


@st.composite
def form_case(draw):
    name = draw(st.sampled_from(['ou', 'cir']))
    n = draw(st.integers(2, 8))
    c = dict(name=name, thi=draw(cir_thi() if name == 'cir' else ou_thi), t0=draw(grid(0, 5, 0.5)),
             gaps=draw(st.lists(grid(0.01, 3, 0.01), min_size=n - 1, max_size=n - 1)))
    c['v'] = draw(st.lists(grid(0.1, 8, 0.1) if name == 'cir' else sgrid(8, 0.1), min_size=n, max_size=n))
    return c


def run_form(case):
    name, thi = case['name'], np.array(case['thi'], float)
    t = case['t0'] + np.concatenate([[0], np.cumsum(case['gaps'])])
    v = np.array(case['v'], float)
    got = float(ITO[name].eval_biased_log_lik(thi, t, v))
    ref = biased_ref(name, thi, t, v)
    need(abs(got - ref) <= 1e-9 * (1 + abs(ref)) + 1e-7 * len(v), lambda: '%s: deterministic part %r, should be %r' % (name, got, ref))
    parts = sum(float(ITO[name].eval_biased_log_lik(thi, t[i:i + 2], v[i:i + 2])) for i in range(len(t) - 1))
    need(abs(got - parts) <= 1e-8 * (1 + abs(got)), 'the deterministic part is not the sum over intervals')
    return len(t) > 2


@st.composite
def data_case(draw, kmax=4):
    name = draw(st.sampled_from(['ou', 'ou', 'ou', 'cir']))
    k = draw(st.integers(1, kmax))
    gaps = draw(st.lists(grid(0.1, 1, 0.05), min_size=k, max_size=k))
    w = draw(st.lists(sgrid(2, 0.1), min_size=k, max_size=k))
    t0 = draw(st.sampled_from([0.0, 0.0, 2.5]))
    t = t0 + np.concatenate([[0], np.cumsum(gaps)])
    if name == 'ou':
        bet, sig = draw(grid(0.1, 2.5, 0.1)), draw(grid(0.2, 3, 0.1))
        bet = min(bet, round(2.5 / sum(gaps), 2))
        x = draw(sgrid(2, 0.1)) + np.concatenate([[0], np.cumsum(np.array(w) * np.sqrt(gaps))])
        thi = [bet, sig]
        fac = 1.0
        while True:
            v = np.round(x * fac * sig, 4)
            r = loglik(name, thi, t, v) - biased_ref(name, thi, t, v) + (t[-1] - t[0]) * inf_disc(name, thi)
            if r > np.log(0.15) or fac < .01:
                break
            fac *= .8
    else:
        thi = [draw(grid(0.3, 1.5, 0.1)), draw(grid(1, 3, 0.1)), draw(grid(0.2, 0.6, 0.05))]
        gaps = [min(g, 0.4) for g in gaps]
        t = t0 + np.concatenate([[0], np.cumsum(gaps)])
        x = 2 * draw(grid(0.8, 1.6, 0.1)) * np.sqrt(thi[1]) / thi[2] + np.concatenate([[0], np.cumsum(np.array(w) / 2 * np.sqrt(gaps))])
        x = np.maximum(x, 4.5 * np.sqrt(max(gaps)))
        v = np.round((x * thi[2] / 2) ** 2, 4)
    return dict(name=name, thi=thi, t=[round(float(u), 4) for u in t], v=[float(u) for u in v], seed=draw(seeds))


def setup(case):
    name, thi = case['name'], np.array(case['thi'], float)
    t, v = np.array(case['t']), np.array(case['v'])
    r = np.exp(loglik(name, thi, t, v) - biased_ref(name, thi, t, v))
    top = np.exp(-(t[-1] - t[0]) * inf_disc(name, thi))
    note(name)
    return name, thi, t, v, r, top


def run_est(case):
    name, thi, t, v, r, top = setup(case)
    if not 0.1 < r / top <= 1 + 1e-9:
        return False
    mod = model(name, t, v)
    base = biased_ref(name, thi, t, v)

    def f(n, rng):
        e = np.empty(n)
        for i in range(n):
            l, z = mcem.est_aug_lik(thi, mod.sample_aug(thi, t, v, rng), mod, rng)
            e[i] = np.exp(l - base)
        need(len(z) == len(t) - 1, 'one path section per interval')
        return {'est': bounded_mean_p(e, top, r, rng)}
    two_stage(case, f, 700, mult=6, what='likelihood estimate (mean should be %r relative to the deterministic part)' % r)
    return len(t) > 2


def run_coin(case):
    """Both coins and the estimator of one interval, through the seed and the skeleton interface."""
    name, thi, t, v, _, _ = setup(case)
    t, v = t[:2] - t[0], v[:2]
    r = np.exp(loglik(name, thi, t, v) - biased_ref(name, thi, t, v))
    top = np.exp(-t[1] * inf_disc(name, thi))
    q = r / top
    if not 0.1 < q <= 1 + 1e-9:
        return False
    m = ITO[name]
    no, de = m.gen_normops(thi, t, v)[0]
    x = m.reduce(thi, v)
    fd, fb = m.eval_disc(thi), m.eval_bounds_disc(thi)

    def f(n, rng):
        o = np.empty((5, n))
        for i in range(n):
            bs = 1 + i % 4
            ok, lb, _ = sde_seed.flip_poisson_coin(m.sample_aug(thi, t, v, rng)[0], no, de, fd, fb, rng, bs)
            o[0, i] = np.exp(lb) * ok
            e, lb, _ = sde_seed.est_poisson_coin(m.sample_aug(thi, t, v, rng)[0], no, de, fd, fb, rng)
            o[1, i] = np.exp(lb + e)
            ok, _ = ea_skel.flip_poisson_coin(ea_skel.sample_raw_skeleton(t[1], x[0], x[1], m.bounds_x, rng), fd, fb, rng, bs)
            o[2, i] = ok
            e, _ = ea_skel.est_poisson_coin(ea_skel.sample_raw_skeleton(t[1], x[0], x[1], m.bounds_x, rng), fd, fb, rng)
            o[3, i] = np.exp(e)
            z = m.sample_aug(thi, t, v, rng)[0]
            ok, lb, z = sde_seed.flip_poisson_coin(z, no, de, fd, fb, rng, bs)  # twice: success of both is exp(-2 int)
            o[4, i] = lb - sde_seed.integrate_disc_bound(z, no, de, fb)
        need(np.max(np.abs(o[4])) < 1e-9, 'the coin reports another bound than integrate_disc_bound')
        return dict(seed_coin=bounded_mean_p(o[0], top, r, rng), seed_est=bounded_mean_p(o[1], top, r, rng), skel_coin=binom_p(o[2].sum(), n, q), skel_est=bounded_mean_p(o[3], 1.0, q, rng))
    two_stage(case, f, 500, mult=6, what='coin / estimator (means should be %r, %r)' % (r, q))
    return q < 0.95


@st.composite
def log_case(draw):
    c = draw(data_case())
    while c['name'] != 'ou':
        c = draw(data_case())
    c['thi'][0] = draw(grid(0.2, 3, 0.1))
    c['thi2'] = [draw(grid(0.2, 3, 0.1)), draw(grid(0.3, 3, 0.1))]
    c['m'] = draw(st.integers(1, 5))
    return c


def run_log(case):
    thi = np.array(case['thi'], float)
    t, v = np.array(case['t']), np.array(case['v'])
    mod = model('ou', t, v)
    dt = np.diff(t)

    def target(th):
        x = v / th[1]
        e2 = dt * (x[:-1] ** 2 + x[:-1] * x[1:] + x[1:] ** 2) / 3 + dt ** 2 / 6
        return biased_ref('ou', th, t, v) - th[0] ** 2 / 2 * e2.sum() + th[0] / 2 * dt.sum()

    def f(n, rng):
        o = np.empty((2, n))
        for i in range(n):
            z = mod.sample_aug(thi, t, v, rng)
            supp = [np.sort(rng.uniform(0, d, case['m'])) for d in dt]
            for j, th in enumerate((thi, np.array(case['thi2']))):
                o[j, i], z = mcem.est_log_aug_lik(th, z, mod, supp, rng)
        return dict(own=mean_p(o[0], target(thi)), other=mean_p(o[1], target(np.array(case['thi2']))))
    two_stage(case, f, 600, mult=6, what='expected log path density')
    return len(t) > 2


SUBS = [
    Sub('formula', form_case(), run_form, 3000, 40000, 'deterministic part written from the model, any series; non-trivial: several intervals', cap=20, shards=8),
    Sub('estimate', data_case(), run_est, 24, 200, 'series of 2-5 observations; mean of exp(estimate) against the exact transition densities', cap=240),
    Sub('coins', data_case(1), run_coin, 16, 160, 'one interval, batch sizes 1-4; non-trivial: success probability below 0.95', cap=240),
    Sub('log', log_case(), run_log, 12, 120, 'mean of the log estimate at the parameter of the path and at another one', cap=240),
]
