"""P04: revealed path proposals follow the (conditioned) Brownian bridge whatever the query schedule."""
import numpy as np
from hypothesis import strategies as st
from core import Sub, note
from lib import *
from ctbayes.ea3lib import skeleton as ea_skel, seed as sde_seed
from ctbayes.sdelib import layers
from ctbayes.ito.models import ou

TITLE = "law of revealed paths"


@st.composite
def schedule(draw, kmax=3):
    """k target times, revealed by a list of batches of target indices (repeats allowed) and decoys."""
    k = draw(st.integers(1, kmax))
    fr = draw(fracs(k, k))
    batches = draw(st.lists(st.lists(st.integers(-3, k - 1), min_size=1, max_size=3), min_size=1, max_size=4))
    dec = draw(fracs(3, 3))
    return dict(fr=fr, batches=batches, dec=dec)


def reveal(s, case, T, query):
    """Values at the target times after following the schedule."""
    fr, dec = case['fr'], [d for d in case['dec'] if d not in case['fr']] or [0.0005]
    got = {}
    for b in case['batches'] + [list(range(len(fr)))]:
        q = sorted({(fr[i] if i >= 0 else dec[(-i - 1) % len(dec)]) * T for i in b})
        s, x = query(s, np.array(q))
        got.update(zip(q, x))
    return [got[f * T] for f in fr]


@st.composite
def free_case(draw):
    T = draw(st.sampled_from([1.0, 0.02, 0.3, 3.0, 30.0])) * draw(grid(0.5, 1.5, 0.1))
    d = draw(st.sampled_from([0.0, 0.3, 1.0, 2.5, 5.0])) * T ** .5 * draw(st.sampled_from([1, -1]))
    a = draw(sgrid(5, 0.5))
    return dict(T=round(T, 4), a=a, b=round(a + d, 4), api=draw(st.sampled_from(['skeleton', 'seed'])), seed=draw(seeds), **draw(schedule()))


def run_free(case):
    T, a, b = case['T'], case['a'], case['b']
    t = np.array(case['fr']) * T
    no, de = ou.gen_normops(np.array([1.0, 2.0]), np.array([0.0, T]), np.array([2 * a, 2 * b]))[0]

    def f(n, rng):
        X = []
        for _ in range(n):
            if case['api'] == 'seed':
                s = sde_seed.sample_raw_seed(ou.bounds_x, no, de, rng)
                X.append(reveal(s, case, T, lambda s, q: sde_seed.interpolate_seed(s, q, no, de, rng)))
            else:
                s = ea_skel.sample_raw_skeleton(T, a, b, (-np.inf, np.inf), rng)
                X.append(reveal(s, case, T, lambda s, q: ea_skel.interpolate_skeleton(s, q, rng)))
        return gauss_ps(bb_white(t, T, a, b, np.array(X)))
    two_stage(case, f, 600, mult=8, what='revealed bridge')
    note('api_' + case['api'])
    return len(case['batches']) > 1


@st.composite
def half_case(draw):
    T = draw(st.sampled_from([1.0, 0.1, 4.0])) * draw(grid(0.5, 1.5, 0.1))
    d = draw(st.lists(grid(0.1, 2.5, 0.05), min_size=2, max_size=2))
    return dict(T=round(T, 4), d=[round(x * T ** .5, 4) for x in d], edge=draw(sgrid(3, 0.5)), up=draw(st.booleans()),
                seed=draw(seeds), **draw(schedule(2)))


def run_half(case):
    T, (da, db), c = case['T'], case['d'], case['edge']
    sg = -1.0 if case['up'] else 1.0
    bounds = (-np.inf, c) if case['up'] else (c, np.inf)
    t = np.array(case['fr']) * T

    def f(n, rng):
        X = []
        for _ in range(n):
            s = ea_skel.sample_raw_skeleton(T, c + sg * da, c + sg * db, bounds, rng)
            X.append(reveal(s, case, T, lambda s, q: ea_skel.interpolate_skeleton(s, q, rng)))
        D = sg * (np.array(X) - c)
        need(np.all(D > 0), 'a path leaves its domain')
        U, prev, tp = [], np.full(n, da), 0.0
        for j, tj in enumerate(t):
            U.append(bb_pos_cdf(D[:, j], tj - tp, T - tp, prev, db))
            prev, tp = D[:, j], tj
        return unif_ps(np.clip(np.array(U).T, 0, 1))
    two_stage(case, f, 500, mult=8, what='bridge kept inside the domain')
    note('upper' if case['up'] else 'lower')
    return len(case['batches']) > 1


@st.composite
def level_case(draw):
    T = draw(st.sampled_from([1.0, 0.05, 8.0])) * draw(grid(0.5, 1.5, 0.1))
    d = draw(st.sampled_from([0.0, 0.2, 0.8, 2.0])) * T ** .5 * draw(st.sampled_from([1, -1]))
    a = draw(sgrid(2, 0.5))
    half = draw(st.sampled_from([None, None, 'lo', 'hi']))
    return dict(T=round(T, 4), a=a, b=round(a + d, 4), half=half, gap=draw(grid(0.2, 2, 0.1)), seed=draw(seeds))


def run_level(case):
    """Layer and anchor side, the attained extreme, its time and the hit record."""
    T, a, b = case['T'], case['a'], case['b']
    lb = min(a, b) - case['gap'] * T ** .5 if case['half'] == 'lo' else -np.inf
    ub = max(a, b) + case['gap'] * T ** .5 if case['half'] == 'hi' else np.inf
    K = 25
    E = [layers.compute_edges(i, T, a, b, lb, ub) for i in range(K + 1)]
    stay = lambda lo, hi: pr_stay(T, a, b, lo, hi)
    norm = stay(lb, ub)
    # cells: (layer, side) ; side 0 = anchored low
    P = np.zeros((K, 2)); PB = np.zeros(K)
    for l in range(1, K + 1):
        (Lo, Uo), (Li, Ui) = E[l], E[l - 1]
        pin, pou = (stay(Li, Ui) if l > 1 else 0.0), stay(Lo, Uo)
        plo, phi_ = stay(Lo, Ui) - pin, stay(Li, Uo) - pin
        if l == 1:
            plo = phi_ = 0.0
        both = pou - pin - plo - phi_
        P[l - 1] = (plo + both / 2) / norm, (phi_ + both / 2) / norm
        PB[l - 1] = both / norm
    dlt = 1e-9 * (1 + abs(a) + abs(b))

    def f(n, rng):
        S = [ea_skel.sample_raw_skeleton(T, a, b, (lb, ub), rng) for _ in range(n)]
        cnt, U, hits, tcdf = np.zeros((K, 2)), [], np.zeros((K, 2)), []
        rest = 0
        for s in S:
            side = 0 if s.tight_x < s.loose_x else 1
            near = [abs(e[1 - side] - s.loose_x) + abs(e0[1 - side] - s.hit_x) for e, e0 in zip(E[1:], E[:-1])]
            l = int(np.argmin(near)) + 1
            if near[l - 1] > dlt * 10:
                rest += 1
                continue
            cnt[l - 1, side] += 1
            if side == 0:
                lo, hi0, hi1 = E[l][0], E[l - 1][1], E[l][1]
                g = lambda y: (stay(lo, hi0) - stay(y, hi0)) / 2 + (stay(lo, hi1) - stay(y, hi1)) / 2
                U.append(g(s.tight_x) / g(E[l - 1][0]))
                need(lo - dlt <= s.tight_x <= E[l - 1][0] + dlt, 'attained minimum outside its sector')
            else:
                hi, lo0, lo1 = E[l][1], E[l - 1][0], E[l][0]
                g = lambda y: (stay(lo0, hi) - stay(lo0, y)) / 2 + (stay(lo1, hi) - stay(lo1, y)) / 2
                U.append(g(s.tight_x) / g(E[l - 1][1]))
                need(hi + dlt >= s.tight_x >= E[l - 1][1] - dlt, 'attained maximum outside its sector')
            if s.hit_i is None:
                need(l == 1, 'hit record missing although the inner level is away from the end points')
            else:
                hits[l - 1, side] += any(s.hit_i)
        out = dict(cells=chi2_p(np.append(cnt.ravel(), rest), np.append(P.ravel(), max(0.0, 1 - P.sum()))),
                   extreme=ks_u(np.array(U)))
        for l in (2, 3):
            for side in (0, 1):
                if cnt[l - 1, side] >= 30:
                    out['hits_%d_%d' % (l, side)] = binom_p(hits[l - 1, side], cnt[l - 1, side], PB[l - 1] / 2 / P[l - 1, side])
        return out
    two_stage(case, f, 1500, mult=6, what='layer / extreme / hit')
    note('levels_' + str(case['half']))
    return True


SUBS = [
    Sub('free', free_case(), run_free, 24, 300, 'end values, horizon, 1-3 target times revealed by a random schedule with repeats and decoys, either interface; non-trivial: more than one batch', cap=200),
    Sub('half', half_case(), run_half, 16, 200, 'the same in a half-bounded domain of either side', cap=200),
    Sub('levels', level_case(), run_level, 16, 160, 'layer and side frequencies, law of the attained extreme, hit frequencies', cap=200),
]
