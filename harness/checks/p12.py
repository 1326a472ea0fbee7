"""P12: regime, anchor and path updates of the switching sampler leave their conditional law given the data invariant."""
import numpy as np
from hypothesis import strategies as st
from core import Sub, note
from lib import *
from models import *
from ctbayes.mjplib import skeleton as mjp
from ctbayes.ea3lib import seed as sde_seed
from ctbayes.switching import mcmc, types
from ctbayes.misc.adapt import MyopicMjpSampler
from checks.p07 import params, sections, obs_lik
from checks.p09 import controls, balance_p, paired_p, forgotten, keeps, ou_cost
from checks.p11 import model, rate_vols, forward, path, white_sections

TITLE = "switching hidden-state updates"


@st.composite
def case_(draw, rmax=0.9):
    name = draw(st.sampled_from(list(SW)))
    n, r = draw(gen_strategy(2, 3, 0.1, 1.2))
    k = draw(st.integers(1, 4))
    gaps = draw(st.lists(grid(0.1, 1.0, 0.1), min_size=k, max_size=k))
    rv = [[draw(grid(0.2, rmax, 0.1)), draw(grid(0.5, 1.2, 0.1))] for _ in range(n)]
    return dict(name=name, n=n, r=r, rv=rv, t=[0.0] + [round(float(u), 4) for u in np.cumsum(gaps)], v0=draw(sgrid(1, 0.1)),
                cond=draw(st.sampled_from([0.0, 1.5, -1.5, -6.0, 6.0])), ctrl=draw(controls()), m=draw(st.integers(1, 3)), seed=draw(seeds))


def state_at(ts, xs, q):
    return np.asarray(xs)[np.searchsorted(ts, q, 'right') - 1]


def occupation(ts, xs, T, k):
    return float(np.sum(np.diff(np.append(ts, T))[np.asarray(xs) == k])) / T


def reg_stats(ts, xs, T, n):
    """Bounded summaries of a regime path."""
    return np.array([occupation(ts, xs, T, 0), np.tanh(len(ts) - 1), state_at(ts, xs, T / 3) == 0, state_at(ts, xs, T) == 0, xs[0] == 0] + [occupation(ts, xs, T, 1)] * (n > 2), float)


def run_case(case):
    name, m, n = case['name'], SW[case['name']], case['n']
    t = np.array(case['t'])
    T = t[-1]
    gen = dense_gen(case['r'], n)
    pi = stat_law(gen)
    thi = params(name, case['rv'])
    rv = rate_vols(name, thi)
    ctrl = mcmc.Controls(**case['ctrl'])
    qs = np.array([0, 0.3, 0.75, 1]) * T

    def one(rng):
        ts, xs = mjp_sim(rng, T, int(rng.choice(n, p=pi)), gen)
        h = forward(rv, t, mjp.Skeleton(ts, xs, T), case['v0'], rng)
        v = h.vt[np.isin(h.t, t)]
        mod = model(name, t, v, n, lambda th: 0.0)
        z, y = path(m, thi, h, rng), mjp.Skeleton(ts, xs, T)
        moved = 0
        for _ in range(case['m']):
            smp = MyopicMjpSampler(y, ctrl.opt_acc_prob)
            smp.log_prop_scale = [case['cond']]
            z, h = mcmc.update_hidden(thi, gen, z, h, mod, ctrl, smp, rng, SeqPool())
            new = types.prune_anchorage(h)
            moved += not (np.array_equal(new.t, y.t) and np.array_equal(new.xt, y.xt))
            y = new
        need(np.allclose(h.vt[np.isin(h.t, t)], v, 0, 1e-9), 'data altered')
        tt, yy = np.asarray(h.t), np.asarray(h.yt)[:-1]
        mu, s2 = ou_trans(*rv[yy].T, np.diff(tt), h.vt[:-1])
        u = (h.vt[1:] - mu) / np.sqrt(s2)
        K = len(u)
        pick = sorted({0, K // 2, K - 1})
        pick = (pick * 3)[:3] if len(pick) < 3 else pick
        inno = [u[0], u[K // 2] if K // 2 not in (0, K - 1) else rng.standard_normal(), u[-1] if K > 1 else rng.standard_normal()]
        S = np.tanh([np.mean(np.diff(v) ** 2 / np.diff(t)), v[-1] ** 2, v[len(v) // 2] ** 2])
        at = [state_at(y.t, y.xt, q) for q in qs]
        return (reg_stats(ts, xs, T, n), reg_stats(y.t, y.xt, T, n), S, at, len(y.t) - 1, inno,
                white_sections(m, name, thi, z, h, [0.35], rng, [int(rng.integers(K))]), moved)

    def f(N, rng):
        R0, R1, S, at, nj, inno, Z, moved = (np.array(x) for x in zip(*[one(rng) for _ in range(N)]))
        out = {'innovation_' + k: p for k, p in gauss_ps(inno).items()}
        out.update({'bridge_' + k: p for k, p in gauss_ps(Z).items()})
        for j in range(len(qs)):
            out['state%d' % j] = chi2_p(np.bincount(at[:, j], minlength=n), pi)
            if j:
                joint = pi[:, None] * expm(gen * (qs[j] - qs[j - 1]))
                out['pair%d' % j] = chi2_p(np.bincount(at[:, j - 1] * n + at[:, j], minlength=n * n), joint.ravel())
        p = np.maximum(np.einsum('i,kij->k', pi, count_trans(T, gen, 12)), 0)
        out['jumps'] = chi2_p(np.bincount(np.minimum(nj, 12), minlength=13), p)
        for i in range(R0.shape[1]):
            d = R1[:, i] - R0[:, i]
            out['reg%d' % i] = paired_p(d)
            for j in range(S.shape[1]):
                out['data%d%d' % (i, j)] = paired_p(d * S[:, j])
            for j in range(3):  # innovations are independent of the regimes
                out['cross%d%d' % (i, j)] = mean_p((R1[:, i] - R1[:, i].mean()) * inno[:, j]) if np.sum(R1[:, i] != R1[0, i]) > 60 else 1.0
                out['cross2%d%d' % (i, j)] = mean_p((R1[:, i] - R1[:, i].mean()) * np.minimum(inno[:, j] ** 2, 9)) if np.sum(R1[:, i] != R1[0, i]) > 60 else 1.0
        need(moved.sum() > 0 or N < 400, 'the regimes never moved')
        note('moved', np.sum(moved > 0)); note('draws_all', N)
        return out
    two_stage(case, f, 500, mult=6, what='joint law of regimes, data and path')
    note(name); note('precoin' if case['ctrl']['precoin'] else 'no_precoin'); note('cond_%g' % case['cond'])
    return len(t) > 2


class Fixed:
    """A regime proposal with given outcome."""

    def __init__(self, y, t_cond):
        self.out = y, t_cond

    def propose(self, lam, t, ome):
        return self.out

    def adapt(self, sample, prob):
        self.sample, self.prob = sample, prob


@st.composite
def pair_case(draw):
    c = draw(case_(1.5))
    k = len(c['t'])
    c.update(v=draw(st.lists(sgrid(1.5, 0.1), min_size=k, max_size=k)), ja=draw(fracs(0, 3)), jb=draw(fracs(0, 3)),
             sa=draw(st.lists(st.integers(1, c['n'] - 1), min_size=5, max_size=5)), sb=draw(st.lists(st.integers(1, c['n'] - 1), min_size=5, max_size=5)),
             pick=draw(st.lists(st.booleans(), min_size=4, max_size=4)), share=draw(st.booleans()))
    return c


def make(jumps, steps, n, t):
    T = t[-1]
    ts = np.array([0.0] + [f * T for f in jumps if np.min(np.abs(f * T - t)) > 1e-6])
    return ts, np.cumsum([steps[0] - 1] + list(steps[1:len(ts)])) % n


def graft(ta, xa, lo, hi, inner, n, T):
    """The path (ta, xa) with other jump times between lo and hi."""
    ts, xs = list(ta[ta <= lo]), list(xa[ta <= lo])
    for u in inner:
        ts.append(u); xs.append((xs[-1] + 1) % n)
    end = int(state_at(ta, xa, hi))
    if hi < T and xs[-1] != end:
        ts.append((max(ts[-1], lo) + hi) / 2); xs.append(end)
    if hi < T:
        ts += list(ta[ta > hi]); xs += list(xa[ta > hi])
    return np.array(ts), np.array(xs)


def two_paths(case):
    """Regime paths A and B which agree at the section boundaries, with affordable data."""
    name, n = case['name'], case['n']
    t = np.array(case['t'])
    T = t[-1]
    ta, xa = make(case['ja'], case['sa'], n, t)
    tb, xb = make(case['jb'], case['sb'], n, t)
    if case['share'] and len(t) > 2:  # B equals A outside one stretch between neighbouring observations
        i = len(case['ja']) % (len(t) - 1)
        tb, xb = graft(ta, xa, t[i], t[i + 1], [u for u in tb if t[i] < u < t[i + 1]], n, T)
    A, B = mjp.Skeleton(ta, xa, T), mjp.Skeleton(tb, xb, T)
    cand = [u for u, p in zip(t[1:-1], case['pick'] + [True] * 9) if p]
    t_cond = np.array([u for u in cand if state_at(ta, xa, u) == state_at(tb, xb, u)])
    rv = np.array(case['rv'], float)
    v = np.array(case['v'], float)
    for _ in range(60):
        cost = 0
        for y in (A, B):
            tt, yy = sections(t, v, y, rv)
            vv = np.interp(tt, t, v)
            cost = max(cost, sum(ou_cost(rv[k][0], d, a / rv[k][1], b / rv[k][1]) for k, d, a, b in zip(yy, np.diff(tt), vv, vv[1:])))
        gap = obs_lik(t, v, A, rv) - obs_lik(t, v, B, rv)
        if cost < 1.5 and abs(gap) < 2.5:
            break
        v *= 0.9; rv[:, 0] *= 0.97
    return t, v, A, B, t_cond, rv, params(name, rv)


def anchors(t, v, y, rv, rng):
    """Exact draw of the values at the jump times given the data and the regimes."""
    tt, yy = sections(t, v, y, rv)
    h = forward(rv, t, y, v[0], rng)
    out = np.empty(len(tt)); out[0] = v[0]
    obs = np.flatnonzero(np.isin(tt, t))
    for i, j, va, vb in zip(obs, obs[1:], v, v[1:]):
        a = np.exp(-rv[yy[i:j], 0] * np.diff(tt[i:j + 1]))
        q = ou_trans(*rv[yy[i:j]].T, np.diff(tt[i:j + 1]), 0.0)[1]
        x, w, c = [va], [0.0], [1.0]
        for a_, q_ in zip(a, q):  # simulate, with the variance given the left end
            x.append(a_ * x[-1] + np.sqrt(q_) * rng.standard_normal())
            w.append(a_ * a_ * w[-1] + q_)
        tail = np.append(np.cumprod(a[::-1])[::-1], 1.0)
        gain = np.array(w) * tail / w[-1]
        out[i:j + 1] = np.array(x) + gain * (vb - x[-1])
        out[j] = vb
    return types.Anchorage(tt, np.append(yy, y.xt[-1]), out)


def value_at(m, thi, z, h, q, rng):
    i = min(int(np.searchsorted(h.t, q, 'right')) - 1, len(z) - 1)
    no, de = m.gen_normops(thi, *h)[i]
    return float(m.dereduce(sde_seed.interpolate_seed(z[i], np.array([q - h.t[i]]), no, de, rng)[1])[0])


def same(y, h):
    p = types.prune_anchorage(h)
    return len(p.t) == len(y.t) and np.allclose(p.t, y.t, 0, 1e-9) and np.array_equal(p.xt, y.xt)


def run_balance(case):
    t, v, A, B, t_cond, rv, thi = two_paths(case)
    name, m = case['name'], SW[case['name']]
    if len(A.t) == len(B.t) and np.allclose(A.t, B.t) and np.array_equal(A.xt, B.xt):
        return False
    mod, ctrl = model(name, t, v, case['n'], lambda th: 0.0), mcmc.Controls(**case['ctrl'])
    gap = obs_lik(t, v, B, rv) - obs_lik(t, v, A, rv)
    gen = dense_gen(case['r'], case['n'])
    q = 0.45 * t[-1] + 1e-7
    i = np.searchsorted(t, q) - 1
    mid = v[i] + (v[i + 1] - v[i]) * (q - t[i]) / (t[i + 1] - t[i])

    def flow(start, end, N, rng):
        acc, s, e = np.zeros(N), np.zeros(N), np.zeros(N)
        for j in range(N):
            h0 = anchors(t, v, start, rv, rng)
            z0 = path(m, thi, h0, rng)
            smp = Fixed(end, t_cond)
            z1, h1 = mcmc.update_hidden(thi, gen, z0, h0, mod, ctrl, smp, rng, SeqPool())
            if same(end, h1):
                acc[j] = 1
                s[j] = value_at(m, thi, z0, h0, q, rng) > mid
                e[j] = value_at(m, thi, z1, h1, q, rng) > mid
        return acc, s, e

    def g(N, rng):
        (a, as_, ae), (b, bs, be) = flow(A, B, N, rng), flow(B, A, N, rng)
        note('accepted', a.sum() + b.sum())
        need(a.sum() + b.sum() > 0 or N < 400, 'no proposal was ever accepted')
        r = np.exp(gap)
        return {'flow': balance_p(a, b, r), 'A_high': balance_p(as_, be, r), 'B_high': balance_p(ae, bs, r), 'A_low': balance_p(a - as_, b - be, r),
                'B_low': balance_p(a - ae, b - bs, r), 'same_side': balance_p(as_ * ae, bs * be, r)}
    two_stage(case, g, 500, mult=8, what='detailed balance between two regime paths')
    note(name); note('parts_%d' % (len(t_cond) + 1)); note('precoin' if case['ctrl']['precoin'] else 'no_precoin')
    return len(A.t) != len(B.t)


def run_memory(case):
    """While a section keeps its current state, everything the update has looked at on it stays on it; hopeless proposals are not taken."""
    t, v, A, B, t_cond, rv, thi = two_paths(case)
    name, m = case['name'], SW[case['name']]
    rng = rng_of(case)
    mod0, ctrl = model(name, t, v, case['n'], lambda th: 0.0), mcmc.Controls(**case['ctrl'])
    log, bad = [], []
    gen = dense_gen(case['r'], case['n'])

    def eval_disc(th, reg):
        def g(x):
            log.append(np.array(x, float).ravel())
            return mod0.eval_disc(th, reg)(x)
        return g

    def sample_aug(*a):
        z, h = mod0.sample_aug(*a)
        for z_, (no, de) in zip(z, mod0.gen_normops(thi, *h)):
            lo, hi = sorted((z_.tight_z, z_.loose_z))
            bad.append((de(np.array([0., 1.]), np.repeat(lo, 2))[1].min(), de(np.array([0., 1.]), np.repeat(hi, 2))[1].max()))
        return z, h

    def eval_bounds_disc(th, reg):
        def g(lo, hi):
            inf, a, b = mod0.eval_bounds_disc(th, reg)(lo, hi)
            if any(abs(o[0] - lo) + abs(o[1] - hi) < 1e-9 for o in bad):
                return inf + 1e5, a + 1e5, b + 1e5
            return inf, a, b
        return g
    mod = mod0._replace(eval_disc=eval_disc, sample_aug=sample_aug, eval_bounds_disc=eval_bounds_disc)
    z, h = mod0.sample_aug(thi, A, t, v, rng)
    seen = 0
    for _ in range(4):
        old, h0 = z, h
        smp = Fixed(B, t_cond)
        z, h = mcmc.update_hidden(thi, gen, z, h, mod, ctrl, smp, rng, SeqPool())
        need(all(np.array_equal(a, b) for a, b in zip(h, h0)), 'the anchors changed although the proposal is hopeless')
        need(smp.prob == 0 and same(A, h) and np.array_equal(smp.sample.t, types.prune_anchorage(h).t), 'the proposal sampler was told something else')
        need(all(keeps(b, a.s, a.z) for a, b in zip(old, z)), 'a known point of the kept path was lost or altered')
        known = np.concatenate([de(z_.s, z_.z)[1] for z_, (no, de) in zip(z, mod0.gen_normops(thi, *h)) if len(z_.s)] or [np.zeros(0)])
        lost = forgotten(log, known)
        need(len(lost) == 0, lambda: 'the discount was evaluated at %r, which is not on the returned path' % lost[:5].tolist())
        seen += sum(len(x) for x in log)
        log.clear(); bad.clear()
    return seen > 0


SUBS = [
    Sub('memory', pair_case(), run_memory, 1600, 30000, 'hopeless proposals, so that the current state is kept: every point looked at stays on it; non-trivial: something was looked at', cap=20),
    Sub('balance', pair_case(), run_balance, 48, 480, 'two regime paths which agree at the chosen boundaries, exact anchors and paths: flows in both directions agree, also given a path value before or after; non-trivial: different numbers of jumps', cap=400),
    Sub('invariance', case_(), run_case, 24, 240, 'three models, 2-3 regimes, stationary regimes, 1-4 intervals, 1-3 updates of exact joint draws; non-trivial: inner observations', cap=400),
]
