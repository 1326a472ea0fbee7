"""P11: parameter and generator updates of the switching sampler leave the joint law of parameters, data and path invariant."""
import numpy as np
from hypothesis import strategies as st
from core import Sub, note
from lib import *
from models import *
from ctbayes.mjplib import skeleton as mjp
from ctbayes.ea3lib import seed as sde_seed
from ctbayes.switching import mcmc, types
from ctbayes.switching.static import construct_gen_hyperprior
from ctbayes.misc.adapt import MyopicMvRwSampler
from checks.p07 import params, sections
from checks.p09 import controls, Stub, balance_p, paired_p, forgotten, keeps, ou_cost

TITLE = "switching parameter updates"


def model(name, t, v, nreg, log_prior, a0=1, b0=1):
    m = SW[name]
    return mcmc.Model(t, v, m.bounds_thi, construct_gen_hyperprior(nreg, a0, b0), log_prior, m.sample_aug, m.gen_normops,
                      m.eval_biased_log_lik, m.eval_disc, m.eval_bounds_disc, m.eval_bounds_grad)


def rate_vols(name, thi):
    return np.array([sw_rate_vol(name, th) for th in thi])


def forward(rv, t, y, v0, rng):
    """Exact switching OU path at the observation and jump times."""
    tt, yy = sections(t, None, y, rv)
    v = [v0]
    for d, k in zip(np.diff(tt), yy):
        m, s2 = ou_trans(*rv[k], d, v[-1])
        v.append(m + np.sqrt(s2) * rng.standard_normal())
    return types.Anchorage(tt, np.append(yy, y.xt[-1]), np.array(v))


def logdens(rv, h):
    """Exact log density of the anchored path given its regimes, section by section."""
    r, s = rv[np.asarray(h.yt)[:-1]].T
    m, s2 = ou_trans(r, s, np.diff(h.t), h.vt[:-1])
    return stats.norm.logpdf(h.vt[1:], m, np.sqrt(s2))


def path(m, thi, h, rng):
    return [next(sde_seed.sample_bridge(m.bounds_x, no, de, m.eval_disc(thi, k), m.eval_bounds_disc(thi, k), rng))
            for (no, de), k in zip(m.gen_normops(thi, *h), h.yt)]


def white_sections(m, name, thi, z, h, fr, rng, pick):
    """Whitened interior values of the picked sections."""
    rv, out = rate_vols(name, thi), []
    ops = m.gen_normops(thi, *h)
    for i in pick:
        no, de = ops[i]
        d = h.t[i + 1] - h.t[i]
        q = np.array(fr) * d
        x = m.dereduce(sde_seed.interpolate_seed(z[i], q, no, de, rng)[1])
        out.append(ou_bridge_white(*rv[h.yt[i]], q, d, h.vt[i], h.vt[i + 1], np.asarray(x)[None])[0])
    return np.concatenate(out)


@st.composite
def case_(draw):
    name = draw(st.sampled_from(list(SW)))
    nreg = draw(st.integers(2, 3))
    k = draw(st.integers(1, 3))
    gaps = draw(st.lists(grid(0.1, 0.9, 0.1), min_size=k, max_size=k))
    rv = [[draw(grid(0.3, 0.9, 0.1)), draw(grid(0.3, 1.6, 0.1))] for _ in range(nreg)]
    return dict(name=name, rv=rv, t=[0.0] + [round(float(u), 4) for u in np.cumsum(gaps)], jumps=draw(fracs(0, 3)),
                steps=draw(st.lists(st.integers(1, nreg - 1), min_size=4, max_size=4)), v0=draw(sgrid(0.6, 0.1)),
                sd=draw(st.lists(grid(0.1, 0.4, 0.1), min_size=2, max_size=2)), scale=draw(st.sampled_from([-2.0, -1.0, -3.0])),
                ctrl=draw(controls()), m=draw(st.integers(1, 3)), seed=draw(seeds))


def skeleton_of(case):
    t = np.array(case['t'])
    T = t[-1]
    jt = np.array([0.0] + [f * T for f in case['jumps'] if np.min(np.abs(f * T - t)) > 1e-6])
    y = np.cumsum([case['steps'][0] - 1] + list(case['steps'][1:len(jt)])) % len(case['rv'])
    return t, mjp.Skeleton(jt, y, T)


def run_case(case):
    name, m = case['name'], SW[case['name']]
    t, y = skeleton_of(case)
    mid = params(name, case['rv'])
    nreg = len(mid)
    mu, sd = np.log(mid), np.array(case['sd'])
    lp = lambda th: float(np.sum(stats.norm.logpdf(np.log(th), mu, sd) - np.log(th))) if np.all(th > 0) else -np.inf
    ctrl = mcmc.Controls(**case['ctrl'])

    def one(rng):
        u = rng.standard_normal(mid.shape)
        thi = np.exp(mu + sd * u)
        h = forward(rate_vols(name, thi), t, y, case['v0'], rng)
        mod = model(name, t, h.vt[np.isin(h.t, t)], nreg, lp)
        z = path(m, thi, h, rng)
        th = thi
        for _ in range(case['m']):
            samplers = [MyopicMvRwSampler(th[i], m.bounds_thi, ctrl.opt_acc_prob) for i in range(nreg)]
            for s in samplers:
                s.log_prop_scale = [case['scale']]
            th, z = mcmc.update_params(th, z, h, mod, ctrl, samplers, rng, SeqPool())
            need(len(z) == len(h.t) - 1, 'number of path sections changed')
        S = np.tanh([np.mean(np.diff(h.vt) ** 2 / np.diff(h.t)), h.vt[-1]])
        return u, (np.log(th) - mu) / sd, S, white_sections(m, name, th, z, h, [0.4], rng, range(len(z)))

    def f(n, rng):
        U0, U1, S, Z = (np.array(x) for x in zip(*[one(rng) for _ in range(n)]))
        need(np.all(np.isfinite(U1)), 'parameter outside its bounds')
        out = {'path_' + k: p for k, p in gauss_ps(Z).items()}
        out.update({'prior_' + k: p for k, p in gauss_ps(U1.reshape(n, -1)).items()})
        g0, g1 = np.tanh(U0), np.tanh(U1)
        for i in range(nreg):
            for j in range(2):
                d = g1[:, i, j] - g0[:, i, j]
                out['mean%d%d' % (i, j)] = paired_p(d)
                out['spread%d%d' % (i, j)] = paired_p(g1[:, i, j] ** 2 - g0[:, i, j] ** 2)
                for l in range(2):
                    out['data%d%d%d' % (i, j, l)] = paired_p(d * S[:, l])
            out['cross%d' % i] = paired_p(g1[:, i, 0] * g1[:, i, 1] - g0[:, i, 0] * g0[:, i, 1])
            moved = np.mean(np.any(np.abs(U1[:, i] - U0[:, i]) > 1e-9, 1))
            need(moved > 0.005 or n < 400, 'the parameters of a regime never moved')
        return out
    two_stage(case, f, 600, mult=6, what='joint law of parameters, data and path')
    note(name); note('precoin' if case['ctrl']['precoin'] else 'no_precoin')
    return len(y.t) > 1


@st.composite
def bal_case(draw):
    c = draw(case_())
    c.update(reg=draw(st.integers(0, 2)), d=[draw(st.sampled_from([0.5, -0.5, 1.0, 0.0])), draw(st.sampled_from([0.5, -0.5, 0.0]))],
             tilt=draw(sgrid(1, 0.5)), fw=draw(sgrid(3, 0.5)), speed=draw(st.sampled_from([1.0, 2.0, 3.0])))
    return c


def two_points(case, every=False):
    """Parameters A and B which differ in one regime only (or in all), and an anchorage, with affordable coins."""
    name, m = case['name'], SW[case['name']]
    t, y = skeleton_of(case)
    rv = np.array(case['rv'], float)
    rv[:, 0] *= case['speed']
    k = int(y.xt[case['reg'] % len(y.xt)])
    d = np.array(case['d'])
    if not d.any():
        d[0] = 0.5
    for i in range(60):
        A = params(name, rv)
        B = A.copy(); B[:] *= np.exp(d) if every else 1; B[k] *= 1 if every else np.exp(d)
        h = forward(rv, t, y, case['v0'], rng_of(case, 40 + i))
        cost = max(sum(ou_cost(r, dt, a / s, b / s) for (r, s), dt, a, b in zip(rate_vols(name, th)[np.asarray(h.yt)[:-1]], np.diff(h.t), h.vt, h.vt[1:]))
                   for th in (A, B))
        if cost < 2.5:
            break
        rv[:, 0] *= 0.93
    return name, m, t, y, k, A, B, h


def run_balance(case):
    name, m, t, y, k, A, B, h = two_points(case)
    nreg = len(A)
    lp = lambda th: float(np.sum(stats.norm.logpdf(np.log(th), 0, 1) - np.log(th)))
    mod, ctrl = model(name, t, h.vt[np.isin(h.t, t)], nreg, lp), mcmc.Controls(**case['ctrl'])
    post = lambda th: lp(th) + float(np.sum(logdens(rate_vols(name, th), h)))
    gap = post(B) - post(A)
    fw, bw = case['fw'], case['fw'] - gap + case['tilt']
    at = [i for i, q in enumerate(h.yt[:-1]) if q == k]

    def flow(start, end, fw, bw, n, rng):
        acc, half = np.zeros(n), np.zeros(n)
        ops = mod.gen_normops(start, *h)
        for i in range(n):
            z = path(m, start, h, rng)
            st_ = [Stub(end[c].copy(), fw if c == k else 0., bw if c == k else 0.) for c in range(nreg)]
            th, z = mcmc.update_params(start, z, h, mod, ctrl, st_, rng, SeqPool())
            if not np.array_equal(th, start):
                need(np.array_equal(th, end), 'an accepted proposal was altered')
                acc[i] = 1
                no, de = ops[at[0]]
                q = np.array([0.35, 0.65]) * (h.t[at[0] + 1] - h.t[at[0]])
                half[i] = np.abs(no(q, sde_seed.interpolate_seed(z[at[0]], q, no, de, rng)[1])[1]).sum() < 0.7
        return acc, acc * half

    def g(n, rng):
        (a, ah), (b, bh) = flow(A, B, fw, bw, n, rng), flow(B, A, bw, fw, n, rng)
        note('accepted', a.sum() + b.sum())
        need(a.sum() + b.sum() > 0, 'no proposal was ever accepted')
        r = np.exp(gap + bw - fw)
        return {'flow': balance_p(a, b, r), 'low': balance_p(ah, bh, r), 'high': balance_p(a - ah, b - bh, r)}
    two_stage(case, g, 500, mult=8, what='detailed balance between two parameters of one regime')
    note(name)
    return len(at) < len(h.yt) - 1


def run_memory(case):
    """Whatever the update has looked at stays on the path of its section; sections of other regimes are left alone."""
    name, m, t, y, k, A, B, h = two_points(case, True)
    rng = rng_of(case)
    nreg = len(A)
    mod0, ctrl = model(name, t, h.vt[np.isin(h.t, t)], nreg, lambda th: 0.0), mcmc.Controls(**case['ctrl'])
    log = []

    def eval_disc(th, reg):
        def g(x):
            log.append((int(reg), np.array(x, float).ravel()))
            return mod0.eval_disc(th, reg)(x)
        return g
    mod = mod0._replace(eval_disc=eval_disc)
    dl = logdens(rate_vols(name, B), h) - logdens(rate_vols(name, A), h)
    gap = [float(np.sum(dl[np.asarray(h.yt)[:-1] == c])) for c in range(nreg)]
    z = [sde_seed.sample_raw_seed(m.bounds_x, no, de, rng) for no, de in m.gen_normops(A, *h)]
    th, seen = A, 0
    for _ in range(3):
        old = z
        back = [np.array_equal(th[c], B[c]) for c in range(nreg)]
        st_ = [Stub((A if back[c] else B)[c].copy(), 0., gap[c] if back[c] else -gap[c]) for c in range(nreg)]
        th, z = mcmc.update_params(th, z, h, mod, ctrl, st_, rng, SeqPool())
        need(len(z) == len(old), 'number of path sections changed')
        need(all(keeps(b, a.s, a.z) for a, b in zip(old, z)), 'a known point of the path was lost or altered')
        for reg in range(nreg):
            known = np.concatenate([mod0.gen_normops(q, *h)[i][1](z_.s, z_.z)[1] for i, z_ in enumerate(z) if h.yt[i] == reg for q in (A, B) if len(z_.s)] or [np.zeros(0)])
            lost = forgotten([x for r, x in log if r == reg], known)
            need(len(lost) == 0, lambda: 'the discount of regime %d was evaluated at %r, not on the returned path' % (reg, lost[:5].tolist()))
        seen += sum(len(x) for _, x in log)
        log.clear()
    return seen > 0


@st.composite
def gen_case(draw):
    name = draw(st.sampled_from(list(SW)))
    n, r = draw(gen_strategy(2, 4))
    return dict(n=n, r=r, T=draw(grid(0.5, 6, 0.1)), obs=draw(fracs(0, 6)), a0=draw(grid(0.2, 4, 0.2)), b0=draw(grid(0.2, 4, 0.2)),
                mode=draw(st.sampled_from(['const', 'matrix'])), seed=draw(seeds))


def run_gen(case):
    n, T = case['n'], case['T']
    rng0 = rng_of(case, 3)
    jt, jx = mjp_sim(rng0, T, int(rng0.integers(n)), dense_gen(case['r'], n))
    obs = np.array([0.0] + case['obs'] + [1.0]) * T
    tt = np.unique(np.concatenate([obs, jt]))
    yt = jx[np.searchsorted(jt, tt, 'right') - 1]
    h = types.Anchorage(tt, yt, np.zeros(len(tt)))
    a, b = construct_gen_hyperprior(n, case['a0'], case['b0'])
    if case['mode'] == 'matrix':
        a = a * rng0.uniform(0.5, 2, (n, n)); b = b * rng0.uniform(0.5, 2, (n, n))
    N, R = np.zeros((n, n)), np.zeros(n)
    for i, x in enumerate(jx):
        R[x] += (jt[i + 1] if i + 1 < len(jt) else T) - jt[i]
        if i + 1 < len(jx):
            N[x, jx[i + 1]] += 1
    off = ~np.eye(n, dtype=bool)
    keep = a.copy(), b.copy()

    def f(m, rng):
        L = np.array([mcmc.update_generator(h, (a, b), rng) for _ in range(m)])
        need(L.shape == (m, n, n) and np.all(L[:, off] >= 0), 'not a generator')
        need(np.allclose(L.sum(2), 0, atol=1e-9 * (1 + np.abs(L).max())), 'rows of the generator do not add up to zero')
        U = stats.gamma.cdf(L, a + N, scale=1 / (b + R[:, None]))[:, off]
        return unif_ps(U)
    two_stage(case, f, 500, mult=8, what='transition rates')
    need(np.array_equal(keep[0], a, equal_nan=True) and np.array_equal(keep[1], b, equal_nan=True), 'the hyperparameters were modified')
    return len(jt) > 1 and len(tt) > len(jt) + 1


SUBS = [
    Sub('memory', bal_case(), run_memory, 800, 12000, 'up to 3 updates between two parameters of every regime; every point looked at stays on the path; non-trivial: something was looked at', cap=60),
    Sub('generator', gen_case(), run_gen, 48, 480, '2-4 regimes, scalar or matrix hyperparameters; posterior gamma transforms; non-trivial: path with jumps, observed in between', cap=60),
    Sub('balance', bal_case(), run_balance, 40, 400, 'two parameters of one regime far apart, any densities reported by the proposal; non-trivial: other regimes present', cap=400),
    Sub('invariance', case_(), run_case, 24, 240, 'three models, 2-3 regimes, 0-3 jumps, 1-3 updates of exact joint draws; non-trivial: a jump', cap=400),
]
