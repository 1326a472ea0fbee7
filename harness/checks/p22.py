"""P22: layers and layered bridges are exact."""
import numpy as np
from hypothesis import strategies as st
from core import Sub, note
from lib import *
from ctbayes.sdelib import layers, paths
from checks import p21

TITLE = "layers and layered bridges"


@st.composite
def br_case(draw, far=2.5):
    """A bridge and a domain (free, one- or two-sided), distances in units of the root of the horizon."""
    T = draw(st.one_of(grid(0.05, 3, 0.05), st.sampled_from([0.001, 0.01, 20.0])))
    d = draw(st.one_of(st.just(0.0), sgrid(far, 0.1)))
    return dict(T=T, a=draw(sgrid(3, 0.1)), d=d, lo=draw(st.one_of(st.just(None), grid(0.1, 2, 0.05))),
                hi=draw(st.one_of(st.just(None), grid(0.1, 2, 0.05))), seed=draw(seeds))


def unpack(c):
    s = np.sqrt(c['T'])
    a, b = c['a'], c['a'] + c['d'] * s
    lb = -np.inf if c['lo'] is None else min(a, b) - c['lo'] * s
    ub = np.inf if c['hi'] is None else max(a, b) + c['hi'] * s
    return c['T'], s, a, b, lb, ub


def run_edges(case):
    T, s, a, b, lb, ub = unpack(case)
    last = layers.compute_edges(0, T, a, b, lb, ub)
    need(last == (min(a, b), max(a, b)), lambda: 'layer 0 is %r' % (last,))
    for i in (1, 2, 3, 5, 10, 100, 10 ** 4):
        e = layers.compute_edges(i, T, a, b, lb, ub)
        need(lb <= e[0] < last[0] and last[1] < e[1] <= ub, lambda: 'layer %d = %r not around the previous one %r, or beyond (%r, %r)' % (i, e, last, lb, ub))
        last = e
    if np.isinf(lb) and np.isinf(ub):
        need(last[0] < min(a, b) - 1.5 * s and last[1] > max(a, b) + 1.5 * s or abs(case['d']) > 1, 'layers do not exhaust the line')
    e = layers.compute_edges(10 ** 12, T, a, b, lb, ub)
    if np.isfinite(lb):
        need_close(e[0], lb, 'layers do not reach the lower bound', 1e-5, 1e-4 * s)
    if np.isfinite(ub):
        need_close(e[1], ub, 'layers do not reach the upper bound', 1e-5, 1e-4 * s)
    far = 1 - pr_stay(T, a, b, *e) / pr_stay(T, a, b, lb, ub)
    need(far < 1e-5, lambda: 'probability %r outside of all layers' % far)
    return np.isfinite(lb) or np.isfinite(ub)


def run_stay(case):
    T, s, a, b, lb, ub = unpack(case)
    lo = lb if np.isfinite(lb) else min(a, b) - 1.0 * s
    hi = ub if np.isfinite(ub) else max(a, b) + 0.7 * s
    p = pr_stay(T, a, b, lo, hi)
    need_close(layers.eval_pr_stay(T, a, b, lo, hi), p, 'probability to stay inside', 1e-6, 1e-10)
    need(layers.eval_pr_stay(T, a, b, min(a, b), hi) == 0, 'level touched by an end point')
    return 0.01 < p < 0.99


def run_layer(case):
    T, s, a, b, lb, ub = unpack(case)
    dom = pr_stay(T, a, b, lb, ub)
    if dom < 0.02:
        return False
    cdf = [0.0] + [pr_stay(T, a, b, *layers.compute_edges(l, T, a, b, lb, ub)) / dom for l in range(1, 9)]
    pr = np.append(np.diff(cdf), 1 - cdf[-1])

    def f(n, rng):
        l = np.array([layers.sample_layer(T, a, b, lb, ub, rng) for _ in range(n)])
        need(np.all(l >= 1), 'layer below one')
        c = np.bincount(np.minimum(l, 9), minlength=10)[1:]
        return {'layer': chi2_p(c, np.maximum(pr, 0)), 'first': binom_p(c[0], n, pr[0]), 'two': binom_p(c[0] + c[1], n, cdf[2])}
    two_stage(case, f, 500, what='layer')
    return np.isfinite(lb) or np.isfinite(ub)


def run_anchor(case):
    """Layer and side of the anchor: sides are reached with their exact probability, double hits split evenly."""
    T, s, a, b, lb, ub = unpack(case)
    dom = pr_stay(T, a, b, lb, ub)
    if dom < 0.02:
        return False
    E = [layers.compute_edges(l, T, a, b, lb, ub) for l in range(0, 7)]
    P = []
    for i in range(1, 7):
        inn, out = E[i - 1], E[i]
        p_in, p_out = pr_stay(T, a, b, *inn), pr_stay(T, a, b, *out)
        lo = pr_stay(T, a, b, out[0], inn[1]) - p_in    # only the lower sector reached
        hi = pr_stay(T, a, b, inn[0], out[1]) - p_in
        both = p_out - p_in - lo - hi
        P += [lo + both / 2, hi + both / 2]
    P = np.maximum(np.array(P) / dom, 0)

    def f(n, rng):
        c = np.zeros(13)
        for _ in range(n):
            is_lo, los, his = layers.sample_anchor(T, a, b, lb, ub, rng)
            k = [i for i in range(1, 7) if abs(los[0] - E[i][0]) < 1e-9 * s and abs(his[1] - E[i][1]) < 1e-9 * s]
            if not k:
                need(los[0] <= E[6][0] and his[1] >= E[6][1], lambda: 'sectors %r %r are no layer' % (los, his))
                c[12] += 1
                continue
            need(abs(los[1] - E[k[0] - 1][0]) < 1e-9 * s and abs(his[0] - E[k[0] - 1][1]) < 1e-9 * s, 'sectors do not belong together')
            c[2 * (k[0] - 1) + (0 if is_lo else 1)] += 1
        lo, hi = c[0:12:2].sum(), c[1:12:2].sum()
        return {'anchor': chi2_p(c, np.append(P, max(0, 1 - P.sum()))), 'side': binom_p(lo, int(lo + hi), P[::2].sum() / P.sum())}
    two_stage(case, f, 500, what='anchor side')
    return case['d'] != 0 or lb != -ub


# ------------------------------------------------------------------ edges given a sector

@st.composite
def sect_case(draw):
    T = draw(st.one_of(grid(0.05, 3, 0.05), st.sampled_from([0.001, 20.0])))
    x = draw(st.one_of(st.just(0.0), grid(0.02, 0.6)))
    y = draw(st.one_of(st.just(0.0), grid(0.1, 0.8))) if x > 0 else 0.0
    return dict(T=T, a=draw(sgrid(2, 0.1)), d=draw(st.one_of(st.just(0.0), sgrid(1.2, 0.1))), x=x, dx=draw(grid(0.1, 1)), y=y, dy=draw(grid(0.1, 1)), seed=draw(seeds))


def run_sector(case):
    T, a = case['T'], case['a']
    s = np.sqrt(T)
    b = a + case['d'] * s
    inf = (min(a, b) - (case['x'] + case['dx']) * s, min(a, b) - case['x'] * s)
    sup = (max(a, b) + case['y'] * s, max(a, b) + (case['y'] + case['dy']) * s)
    # proper layers have no or both edges at the end points
    if (case['x'] == 0) != (case['y'] == 0):
        return False
    inner = case['x'] == 0
    g = lambda m: 0.0 if inner or m >= min(a, b) else pr_stay(T, a, b, m, sup[0])
    h = lambda m: 0.0 if m >= min(a, b) else pr_stay(T, a, b, m, sup[1])
    G = (lambda m: h(m)) if inner else (lambda m: (g(m) + h(m)) / 2)
    tot = G(inf[0]) - G(inf[1])
    if h(inf[0]) - h(inf[1]) < 0.02:
        return False
    p_none = (g(inf[0]) - g(inf[1])) / 2 / tot * 2 if not inner else None

    def f(n, rng):
        t, m, hits = [], [], []
        for _ in range(n):
            t_, m_, lo, hi, hit = layers.sample_edges(T, a, b, inf, sup, rng)
            need((lo, hi) == sup and 0 < t_ < T and inf[0] - 1e-9 <= m_ <= inf[1] + 1e-9, lambda: 'edges %r' % ((t_, m_, lo, hi, hit),))
            need((hit is None) == inner, lambda: 'hit record %r' % (hit,))
            t.append(t_); m.append(m_); hits.append(hit)
        t, m = np.array(t), np.array(m)
        U = [np.array([(tot - (G(m_) - G(inf[1]))) / tot for m_ in m])]
        # time of the minimum, weighting paths below the inner level fully and the others by one half
        out = []
        for t_, m_ in zip(t, m):
            S, R = T * p21.SU, T * p21.SU[::-1]
            x, y = a - m_, b - m_
            ld = np.log(x * y) - 1.5 * np.log(S * R) - x ** 2 / (2 * S) - y ** 2 / (2 * R) + np.log(p21.SU * p21.SU[::-1])
            w = p21.stay3(S, x, sup[1] - m_) * p21.stay3(R, y, sup[1] - m_)
            if not inner:
                w = (w + p21.stay3(S, x, sup[0] - m_) * p21.stay3(R, y, sup[0] - m_)) / 2
            d = np.exp(ld - ld.max()) * w
            c = np.concatenate([[0], np.cumsum((d[1:] + d[:-1]) / 2)])
            out.append(np.interp(np.log(t_ / (T - t_)), p21.U, c / c[-1]))
        U.append(np.array(out))
        if not inner:
            # hit records given minimum and time
            for t_, m_, hit in zip(t, m, hits):
                pass
            k = sum(not any(x) for x in hits)
            ps = {'no hit': binom_p(k, n, p_none)}
            V = []
            for t_, m_, hit in zip(t, m, hits):
                q = [bes_stay(t_, a - m_, sup[0] - m_) / bes_stay(t_, a - m_, sup[1] - m_) if sup[0] > a else 0.0,
                     bes_stay(T - t_, b - m_, sup[0] - m_) / bes_stay(T - t_, b - m_, sup[1] - m_) if sup[0] > b else 0.0]
                wt = {(False, False): q[0] * q[1], (True, False): (1 - q[0]) * q[1] / 2, (False, True): q[0] * (1 - q[1]) / 2, (True, True): (1 - q[0]) * (1 - q[1]) / 2}
                z = sum(wt.values())
                acc = 0.0
                for key, v in wt.items():
                    if key == tuple(bool(h_) for h_ in hit):
                        V.append(acc / z + v / z * rng.uniform())
                    acc += v
            U.append(np.array(V))
        else:
            ps = {}
        return {**ps, **unif_ps(np.array(U).T)}
    two_stage(case, f, 300, what='edges of a path given its sector')
    note('innermost layer' if inner else 'outer layer')
    return True


# ------------------------------------------------------------------ paths given levels

@st.composite
def lbr_case(draw):
    T = draw(st.one_of(grid(0.05, 3, 0.05), st.sampled_from([0.001, 20.0])))
    touch = draw(st.sampled_from(['no', 'no', 'init', 'fin']))
    x = draw(grid(0.05, 1.2)) if touch == 'no' else 0.0
    d = draw(sgrid(1.5, 0.1))
    if touch != 'no':
        d = max(abs(d), 0.1) * (1 if touch == 'init' else -1)
    y = draw(st.one_of(st.just(None), grid(0.1, 1.2)))
    z = draw(st.one_of(st.just(None), st.just(0.0), grid(0.02, 0.9)))
    return dict(T=T, a=draw(sgrid(2, 0.1)), d=d, x=x, up=y, lev=z, fr=draw(fracs(1, 3)), seed=draw(seeds))


def run_layerbr(case):
    T, a = case['T'], case['a']
    s = np.sqrt(T)
    b = a + case['d'] * s
    inf = min(a, b) - case['x'] * s if case['x'] else min(a, b)
    up = None if case['up'] is None else max(a, b) + case['up'] * s
    lev = None if case['lev'] is None else max(a, b) + case['lev'] * (case['up'] or 1) * s
    t = np.array(case['fr']) * T
    dt = np.diff(np.concatenate([[0], t, [T]]))
    hi, me = (np.inf if up is None else up), lev
    eps = 1e-4 * s
    A, B = max(a, inf + eps), max(b, inf + eps)  # proportional to the excursion density when an end touches
    K = lambda D, x0, x1, top: kill_dens(D, x0, x1, inf, top)
    st_hi, st_lo = pr_stay(T, A, B, inf, hi), 0.0 if me is None else pr_stay(T, A, B, inf, me)
    pos = pr_stay(T, A, B, inf, np.inf)
    if pos < 1e-7 or (st_hi / pos if case['x'] else st_hi / pos) < 0.1 or st_hi - st_lo < 0.05 * st_hi or (case['x'] and st_hi < 0.03):
        return False
    top = hi if np.isfinite(hi) else max(a, b) + 6 * s
    xs = np.linspace(inf, top, 1501)

    def f(n, rng):
        X, H = [], []
        for _ in range(n):
            x_, h_ = paths.sample_layerbr(t, T, a, b, inf, up, lev, rng)
            need(len(x_) == len(t) and np.all(np.asarray(x_) > inf) and np.all(np.asarray(x_) < hi), lambda: 'values %r outside of (%r, %r)' % (np.asarray(x_).tolist(), inf, hi))
            if lev is None:
                need(not h_, lambda: 'hit record %r without a level' % (h_,))
            else:
                need(len(h_) == len(t) + 1 and any(h_), lambda: 'hit record %r' % (h_,))
            X.append(np.asarray(x_, float)); H.append(h_)
        X = np.array(X)
        U, w_hi, w_me = [], np.ones(n), np.ones(n)
        prev = np.full(n, A)
        for j in range(len(t)):
            rem = T - t[j]
            D = w_hi[:, None] * K(dt[j], prev[:, None], xs[None], hi) * K(rem, xs[None], B, hi)
            if me is not None:
                D = D - w_me[:, None] * K(dt[j], prev[:, None], xs[None], me) * K(rem, xs[None], B, me)
            U.append(cdf_grid(np.maximum(D, 0), X[:, j], xs))
            w_hi = w_hi * K(dt[j], prev, X[:, j], hi)
            if me is not None:
                w_me = w_me * K(dt[j], prev, X[:, j], me)
            sc = np.maximum(w_hi, 1e-300)
            w_hi, w_me = w_hi / sc, w_me / sc
            prev = X[:, j]
        if me is not None:  # hit record given the values and at least one hit
            Y = np.column_stack([np.full(n, A), X, np.full(n, B)])
            q = np.array([1 - K(dt[j], Y[:, j], Y[:, j + 1], me) / np.maximum(K(dt[j], Y[:, j], Y[:, j + 1], hi), 1e-300) for j in range(len(dt))]).T
            q = np.clip(q, 0, 1)
            hit = np.array(H, bool)
            need(not np.any(~hit & (q > 1 - 1e-9)), 'section of a value beyond the level recorded as not reaching it')
            open_ = np.ones(n, bool)  # no hit so far
            for j in range(len(dt)):
                anyrest = 1 - np.prod(1 - q[:, j:], axis=1)
                p = np.where(open_, q[:, j] / np.maximum(anyrest, 1e-300), q[:, j])
                p = np.clip(p, 0, 1)
                u = rng.uniform(size=n)
                U.append(np.where(hit[:, j], u * p, p + u * (1 - p)))
                open_ &= ~hit[:, j]
        return unif_ps(np.array(U).T)
    two_stage(case, f, 300, what='bridge between levels')
    note(('touching end, ' if not case['x'] else '') + ('level' if lev is not None else 'no level') + (', bounded' if up is not None else ''))
    return up is not None or lev is not None


SUBS = [
    Sub('edges', br_case(), run_edges, 1500, 40000, 'bounded domains', shards=8),
    Sub('stay', br_case(), run_stay, 1500, 40000, 'probability inside (0.01, 0.99)', shards=8),
    Sub('layer', br_case(), run_layer, 120, 3000, 'bounded domains', cap=80),
    Sub('anchor', br_case(), run_anchor, 96, 2500, 'unequal end values or asymmetric domains', cap=100),
    Sub('sector', sect_case(), run_sector, 120, 2500, 'reachable sectors of proper layers', cap=150),
    Sub('layerbr', lbr_case(), run_layerbr, 160, 4000, 'with an upper bound or a level to reach', cap=150),
]
