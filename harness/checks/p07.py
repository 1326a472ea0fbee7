"""P07: likelihood estimates of the switching models are unbiased, restricted parts add up, anchors have the bridge law."""
import numpy as np
from hypothesis import strategies as st
from scipy.stats import norm
from core import Sub, note
from lib import *
from models import *
from ctbayes.mjplib import skeleton as mjp
from ctbayes.switching import mcem, types
from ctbayes.switching.static import construct_gen_hyperprior

TITLE = "switching likelihood estimates"


@st.composite
def reg_case(draw, kmax=4, jmax=4, rate=(0.2, 2.0)):
    name = draw(st.sampled_from(list(SW)))
    nreg = draw(st.integers(2, 3))
    k = draw(st.integers(1, kmax))
    gaps = draw(st.lists(grid(0.1, 1.5, 0.05), min_size=k, max_size=k))
    rv = [[draw(grid(*rate, 0.1)), draw(grid(0.3, 2, 0.1))] for _ in range(nreg)]
    return dict(name=name, rv=rv, t=[0.0] + [round(float(u), 4) for u in np.cumsum(gaps)], jumps=draw(fracs(0, jmax)),
                steps=draw(st.lists(st.integers(1, nreg - 1), min_size=jmax + 1, max_size=jmax + 1)),
                v=draw(st.lists(sgrid(2, 0.1), min_size=k + 1, max_size=k + 1)), seed=draw(seeds))


def params(name, rv):
    """Model parameters of regimes given by (rate, vol)."""
    f = {'sw_ou': lambda r, s: [r, 1 / s], 'sw_ou2': lambda r, s: [r, r / s], 'sw_ou3': lambda r, s: [s, r / s]}[name]
    return np.array([f(r, s) for r, s in rv])


def unpack(case):
    t = np.array(case['t'])
    T = t[-1]
    jt = np.array([0.0] + [f * T for f in case['jumps'] if np.min(np.abs(f * T - t)) > 1e-6])
    y = np.cumsum([case['steps'][0] - 1] + list(case['steps'][1:len(jt)])) % len(case['rv'])
    return t, np.array(case['v'], float), mjp.Skeleton(jt, y, T), np.array(case['rv'], float), params(case['name'], case['rv'])


def model(name, t, v, nreg):
    m = SW[name]
    return mcem.Model(t, v, m.bounds_thi, construct_gen_hyperprior(nreg, 1, 1), m.eval_log_prior, m.sample_aug,
                      m.gen_normops, m.eval_biased_log_lik, m.eval_disc, m.eval_bounds_disc)


def sections(t, v, y, rv):
    """Boundaries, regimes of the refined grid of observation and jump times."""
    tt = np.unique(np.concatenate([t, y.t]))
    yy = y.xt[np.searchsorted(y.t, tt[:-1], 'right') - 1]
    return tt, yy


def pieces(h, rv):
    """Per section of the anchorage: (r, s, dt, x0, x1)."""
    yt = np.asarray(h.yt)[:-1]
    return rv[yt, 0], rv[yt, 1], np.diff(h.t), np.asarray(h.vt)[:-1], np.asarray(h.vt)[1:]


def det_parts(t, v, h, rv, restrict=None):
    r, s, dt, x0, x1 = pieces(h, rv)
    sel = np.ones(len(dt), bool) if restrict is None else np.asarray(h.yt)[:-1] == restrict
    p_vt = norm.logpdf(x1, x0, s * np.sqrt(dt))
    p_del = -r * (x1 ** 2 - x0 ** 2) / 2 / s ** 2
    obs = 0.0
    for a, b, va, vb in zip(t, t[1:], v, v[1:]):
        inside = (h.t[:-1] >= a - 1e-12) & (h.t[1:] <= b + 1e-12)
        obs += norm.logpdf(vb, va, np.sqrt(np.sum(s[inside] ** 2 * dt[inside])))
    return np.sum((p_vt + p_del)[sel]), obs - np.sum(p_vt[sel])


def ratios(h, rv):
    """Exact OU transition density over the biased one, per section, and its upper bound."""
    r, s, dt, x0, x1 = pieces(h, rv)
    m, s2 = x0 * np.exp(-r * dt), s ** 2 * -np.expm1(-2 * r * dt) / (2 * r)
    lr = norm.logpdf(x1, m, np.sqrt(s2)) - norm.logpdf(x1, x0, s * np.sqrt(dt)) + r * (x1 ** 2 - x0 ** 2) / 2 / s ** 2
    return np.exp(lr), np.exp(r * dt / 2)


def obs_lik(t, v, y, rv):
    """Exact log-likelihood of the data given the regime path."""
    tt, yy = sections(t, v, y, rv)
    out = 0.0
    for a, b, va, vb in zip(t, t[1:], v, v[1:]):
        m, s2 = va, 0.0
        for u0, u1, k in zip(tt, tt[1:], yy):
            if u0 >= a - 1e-12 and u1 <= b + 1e-12:
                r, s = rv[k]
                e = np.exp(-r * (u1 - u0))
                m, s2 = m * e, s2 * e ** 2 + s ** 2 * -np.expm1(-2 * r * (u1 - u0)) / (2 * r)
        out += norm.logpdf(vb, m, np.sqrt(s2))
    return out


def run_formula(case):
    t, v, y, rv, thi = unpack(case)
    m = SW[case['name']]
    z, h = m.sample_aug(thi, y, t, v, rng_of(case))
    tt, yy = sections(t, v, y, rv)
    need_close(h.t, tt, 'anchor times', 0, 1e-9)
    need(np.array_equal(np.asarray(h.yt)[:-1], yy) and h.yt[-1] == y.xt[-1], 'anchor regimes')
    need(len(z) == len(tt) - 1, 'one path section per anchored interval')
    pos = [int(np.argmin(np.abs(h.t - u))) for u in t]
    need_close(np.asarray(h.vt)[pos], v, 'observed values among the anchors', 1e-9, 1e-9)
    full = m.eval_biased_log_lik(thi, *h)
    ref = det_parts(t, v, h, rv)
    need_close(full, ref, 'deterministic parts', 1e-7, 1e-6)
    tot = 0.0
    for k in range(len(rv)):
        got = m.eval_biased_log_lik(thi, *h, k)
        need_close(got, det_parts(t, v, h, rv, k), 'deterministic parts restricted to one regime', 1e-7, 1e-6)
        tot += got[0]
    need(abs(tot - full[0]) <= 1e-7 * (1 + abs(full[0])), 'the restricted parts do not add up to the full one')
    note('jumps_%d' % (len(y.t) - 1))
    return len(y.t) > 1 and len(t) > 2


def run_anchor(case):
    t, v, y, rv, thi = unpack(case)
    tt, yy = sections(t, v, y, rv)
    if len(tt) == len(t):
        return False
    m = SW[case['name']]
    clock = np.concatenate([[0], np.cumsum(np.diff(tt) * rv[yy, 1] ** 2)])

    def f(n, rng):
        X = np.array([m.sample_aug(thi, y, t, v, rng)[1].vt for _ in range(n)])
        Z = []
        for a, b, va, vb in zip(t, t[1:], v, v[1:]):
            i, j = int(np.argmin(np.abs(tt - a))), int(np.argmin(np.abs(tt - b)))
            if j > i + 1:
                Z.append(bb_white(clock[i + 1:j] - clock[i], clock[j] - clock[i], va, vb, X[:, i + 1:j]))
        return gauss_ps(np.hstack(Z))
    two_stage(case, f, 500, mult=8, what='anchors')
    return len(tt) - len(t) > 1


def shrunk(case, mod_of, rng):
    """Augmentation with data scaled down until the estimate is not too unlikely to be positive."""
    t, v, y, rv, thi = unpack(case)
    for _ in range(30):
        z, h = SW[case['name']].sample_aug(thi, y, t, v, rng)
        r, top = ratios(h, rv)
        if np.prod(r / top) > 0.15:
            break
        v = np.round(v * 0.75, 4)
    return t, v, y, rv, thi, h, r, top


def run_est(case):
    """Given the anchors: exp of the random part averages to the product of density ratios, full and per regime."""
    t, v, y, rv, thi, h, r, top = shrunk(case, None, rng_of(case, 5))
    if np.prod(r / top) < 0.1:
        return False
    mod = model(case['name'], t, v, len(rv))
    m = SW[case['name']]
    ops = m.gen_normops(thi, *h)
    picks = [None] + [k for k in range(len(rv)) if np.any(np.asarray(h.yt)[:-1] == k)]
    base = {k: sum(det_parts(t, v, h, rv, k)) for k in picks}

    def f(n, rng):
        e = {k: np.empty(n) for k in picks}
        for i in range(n):
            k = picks[i % len(picks)]
            z = [seed_raw(m, no, de, rng) for no, de in ops]
            e[k][i] = np.exp(mcem.est_aug_lik(thi, z, h, mod, rng, k)[0] - base[k])
        out = {}
        for j, k in enumerate(picks):
            sel = np.ones(len(r), bool) if k is None else np.asarray(h.yt)[:-1] == k
            out[str(k)] = bounded_mean_p(e[k][j::len(picks)], np.prod(top[sel]), np.prod(r[sel]), rng)
        return out
    two_stage(case, f, 1000, mult=6, what='likelihood estimate given the anchors')
    return len(picks) > 2


def seed_raw(m, no, de, rng):
    from ctbayes.ea3lib import seed as sde_seed
    return sde_seed.sample_raw_seed(m.bounds_x, no, de, rng)


def run_full(case):
    """Mean over anchors and paths against the exact likelihood of the data; only where the weights are light tailed."""
    t, v, y, rv, thi, h, r, top = shrunk(case, None, rng_of(case, 5))
    tt, yy = sections(t, v, y, rv)
    # weight of an anchor is exp(c x^2) with x of variance at most s2
    for a, b in zip(t, t[1:]):
        i, j = int(np.argmin(np.abs(tt - a))), int(np.argmin(np.abs(tt - b)))
        s2 = np.sum(np.diff(tt)[i:j] * rv[yy[i:j], 1] ** 2) / 4
        q = rv[yy[i:j], 0] / rv[yy[i:j], 1] ** 2
        if np.sum(np.maximum(np.diff(q), 0)) / 2 * s2 > 0.06:
            return False
    if not 0.15 < np.prod(r / top) < 0.9:
        return False
    mod = model(case['name'], t, v, len(rv))
    ex = obs_lik(t, v, y, rv)

    def f(n, rng):
        e = np.empty(n)
        for i in range(n):
            z, h_ = mod.sample_aug(thi, y, t, v, rng)
            e[i] = np.exp(mcem.est_aug_lik(thi, z, h_, mod, rng)[0] - ex)
        return dict(full=mean_p(e, 1.0))
    two_stage(case, f, 500, mult=8, what='likelihood estimate (relative mean should be 1)')
    return len(tt) > len(t)


@st.composite
def log_case(draw):
    c = draw(reg_case(2, 2))
    c['m'] = draw(st.integers(1, 4))
    return c


def run_log(case):
    t, v, y, rv, thi = unpack(case)
    m, mod = SW[case['name']], model(case['name'], t, v, len(rv))
    _, h = m.sample_aug(thi, y, t, v, rng_of(case, 5))
    ops = m.gen_normops(thi, *h)
    r, s, dt, x0, x1 = pieces(h, rv)
    e2 = dt * (x0 ** 2 + x0 * x1 + x1 ** 2) / 3 + s ** 2 * dt ** 2 / 6
    ephi = (r ** 2 / s ** 2 * e2 - r * dt) / 2
    picks = [None] + [k for k in range(len(rv)) if np.any(np.asarray(h.yt)[:-1] == k)]

    def f(n, rng):
        o = {k: np.empty(n) for k in picks}
        for i in range(n):
            k = picks[i % len(picks)]
            z = [seed_raw(m, no, de, rng) for no, de in ops]
            supp = [np.sort(rng.uniform(0, d, case['m'])) for d in dt]
            o[k][i] = mcem.est_log_aug_lik(thi, z, h, mod, supp, rng, k)[0]
        out = {}
        for j, k in enumerate(picks):
            sel = np.ones(len(r), bool) if k is None else np.asarray(h.yt)[:-1] == k
            out[str(k)] = mean_p(o[k][j::len(picks)], det_parts(t, v, h, rv, k)[0] - ephi[sel].sum())
        return out
    two_stage(case, f, 900, mult=6, what='expected log path density given the anchors')
    return len(picks) > 2


SUBS = [
    Sub('formula', reg_case(), run_formula, 1500, 20000, 'regime path with 0-4 jumps over 1-4 intervals, all models; non-trivial: several intervals and a jump', cap=20, shards=8),
    Sub('anchors', reg_case(), run_anchor, 16, 160, 'law of the inserted anchors against the time-changed bridge; non-trivial: at least two anchors', cap=200),
    Sub('estimate', reg_case(2, 3, (0.2, 1.2)), run_est, 16, 160, 'mean of the estimate given the anchors, full and per regime', cap=240),
    Sub('full', reg_case(2, 2, (0.2, 1.2)), run_full, 24, 200, 'mean of the estimate over anchors and paths against the exact likelihood', cap=240),
    Sub('log', log_case(), run_log, 8, 80, 'mean of the log estimate, full and per regime', cap=240),
]
