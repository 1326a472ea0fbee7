"""P15: jump process paths have exactly the law of their generator."""
import numpy as np
from scipy.linalg import expm
from hypothesis import strategies as st
from core import Sub, note
from lib import *
from ctbayes.mjplib import skeleton as mjp

TITLE = "jump process paths"

rate = st.one_of(grid(0.1, 3), st.sampled_from([0.02, 0.05, 6.0, 12.0]))


@st.composite
def law_case(draw, nmax=4):
    n = draw(st.integers(2, nmax))
    r = draw(st.lists(rate, min_size=n * (n - 1), max_size=n * (n - 1)))
    return dict(n=n, rates=r, T=draw(st.one_of(grid(0.05, 3), st.sampled_from([0.01, 8.0, 20.0]))), i=draw(st.integers(0, n - 1)),
                j=draw(st.integers(0, n - 1)), kind=draw(st.sampled_from(['forward', 'stationary', 'backward', 'bridge', 'bridge'])),
                f=draw(fracs(2, 2)), seed=draw(seeds))


def valid(s, T, gen):
    t, x = np.asarray(s.t, float), np.asarray(s.xt)
    need(s.fin_t == T and len(t) == len(x) and t[0] == 0 and np.all(np.diff(t) > 0) and t[-1] < T, lambda: 'invalid path %r' % (s,))
    need(np.all((x >= 0) & (x < len(gen))) and np.all(x[1:] != x[:-1]), lambda: 'path has no real jumps: %r' % (s,))


def draw_paths(kind, n, T, i, j, gen, rng):
    if kind == 'forward':
        return [mjp.sample_forwards(T, i, gen, rng) for _ in range(n)]
    if kind == 'stationary':
        return [mjp.sample_forwards(T, None, gen, rng) for _ in range(n)]
    if kind == 'backward':
        return [mjp.sample_backwards(T, j, gen, rng) for _ in range(n)]
    return [mjp.sample_bridge(T, i, j, gen, rng) for _ in range(n)]


def run_law(case):
    gen = dense_gen(case['rates'], case['n'])
    k, T, i, j, kind = case['n'], case['T'], case['i'], case['j'], case['kind']
    q = -np.min(np.diag(gen)) * T
    if q > 60:
        T = round(60 / -np.min(np.diag(gen)), 3)
        q = 60
    P = expm(gen * T)
    if kind == 'bridge' and P[i, j] < 1e-6:
        return False
    pi = stat_law(gen)
    init = {'forward': np.eye(k)[i], 'bridge': np.eye(k)[i], 'stationary': pi, 'backward': pi}[kind]
    fin = np.eye(k)[j] if kind in ('bridge', 'backward') else np.ones(k)
    t1, t2 = [f * T for f in case['f']]
    A, B, C = expm(gen * t1), expm(gen * (t2 - t1)), expm(gen * (T - t2))
    joint = np.einsum('a,ab,bc,cd,d->abcd', init, A, B, C, fin)
    joint = np.maximum(joint, 0) / joint.sum()
    m = int(q + 5 * np.sqrt(q) + 8) if q < 25 else 0
    if m:
        N = np.einsum('a,nab,b->n', init, count_trans(T, gen, m), fin)
        N = np.maximum(N, 0) / N.sum()
    end = P @ fin  # weight of a path from each state

    def f(n, rng):
        S = draw_paths(kind, n, T, i, j, gen, rng)
        X = np.zeros((k,) * 4)
        J, U, V = np.zeros(m + 1), [], []
        for s in S:
            valid(s, T, gen)
            x0, xT = s.xt[0], s.xt[-1]
            need(kind not in ('forward', 'bridge') or x0 == i, 'initial state not kept')
            need(kind not in ('backward', 'bridge') or xT == j, 'final state not kept')
            v = s(np.array([0.0, t1, t2, T]))
            X[tuple(v)] += 1
            J[min(len(s.t) - 1, m)] += 1
            # first holding time: P(hold > u) = exp(q_x u) (e^{(T-u)Q} fin)_x / (e^{TQ} fin)_x
            u = s.t[1] if len(s.t) > 1 else T
            sv = np.exp(gen[x0, x0] * u) * (expm(gen * (T - u)) @ fin)[x0] / end[x0]
            U.append(sv if u < T else sv * rng.uniform())
            # last holding time, seen backwards
            u = T - s.t[-1]
            row = init @ expm(gen * (T - u))
            sv = row[xT] * np.exp(gen[xT, xT] * u) / (init @ P)[xT]
            V.append(sv if u < T else sv * rng.uniform())
        out = {'states': chi2_p(X, joint), 'first_hold': ks_u(U), 'last_hold': ks_u(V)}
        z = stats.norm.ppf(np.clip(U, 1e-9, 1 - 1e-9))
        out['lag'] = 2 * stats.norm.sf(abs(np.sum(z[1:] * z[:-1])) / np.sqrt(n - 1))
        if m:
            out['jumps'] = chi2_p(J, N)
        return out
    two_stage(case, f, 400, what='%s jump process path' % kind)
    note(kind)
    return q > 0.2


# ------------------------------------------------------------------ occupation of long paths

@st.composite
def occ_case(draw):
    n = draw(st.integers(2, 4))
    return dict(n=n, rates=draw(st.lists(grid(0.2, 3), min_size=n * (n - 1), max_size=n * (n - 1))),
                T=draw(grid(1, 30, 0.5)), kind=draw(st.sampled_from(['forward', 'stationary', 'backward', 'bridge'])),
                i=draw(st.integers(0, n - 1)), j=draw(st.integers(0, n - 1)), seed=draw(seeds))


def run_occ(case):
    """Expected occupation times and jump numbers, per state, over long paths."""
    gen = dense_gen(case['rates'], case['n'])
    k, T, i, j, kind = case['n'], case['T'], case['i'], case['j'], case['kind']
    pi = stat_law(gen)
    init = {'forward': np.eye(k)[i], 'bridge': np.eye(k)[i], 'stationary': pi, 'backward': pi}[kind]
    fin = np.eye(k)[j] if kind in ('bridge', 'backward') else np.ones(k)
    tot = init @ expm(gen * T) @ fin

    def integ(M):  # int_0^T init e^{sQ} M e^{(T-s)Q} fin ds / tot
        Z = np.zeros((2 * k, 2 * k))
        Z[:k, :k], Z[:k, k:], Z[k:, k:] = gen, M, gen
        return init @ expm(Z * T)[:k, k:] @ fin / tot
    occ = [integ(np.outer(np.eye(k)[a], np.eye(k)[a])) for a in range(k)]
    jmp = {(a, b): integ(gen[a, b] * np.outer(np.eye(k)[a], np.eye(k)[b])) for a in range(k) for b in range(k) if a != b}

    def f(n, rng):
        O, J = np.zeros((n, k)), {ab: np.zeros(n) for ab in jmp}
        for m, s in enumerate(draw_paths(kind, n, T, i, j, gen, rng)):
            valid(s, T, gen)
            O[m] = np.bincount(s.xt, np.diff(np.append(s.t, T)), k)
            for a, b in zip(s.xt, s.xt[1:]):
                J[a, b][m] += 1
        out = {}
        for a in range(k):
            if min(occ[a], T - occ[a]) > 0.02 * T:
                out['occ%d' % a] = bounded_mean_p(O[:, a], T, occ[a], rng)
                if min(occ[a], T - occ[a]) > 0.1 * T and T > 3:
                    out['occm%d' % a] = mean_p(O[:, a], occ[a])
        for ab, e in jmp.items():
            if e > 1 and T > 3:
                out['jmp%d%d' % ab] = mean_p(J[ab], e)
        return out
    two_stage(case, f, 300, what='occupation of a %s jump process path' % kind)
    return True


# ------------------------------------------------------------------ matrices

@st.composite
def mat_case(draw):
    n = draw(st.integers(2, 5))
    return dict(n=n, rates=draw(st.lists(rate, min_size=n * (n - 1), max_size=n * (n - 1))), T=draw(grid(0, 5)),
                s=draw(grid(0, 5)), jt=draw(fracs(0, 6)), xs=draw(st.lists(st.integers(0, n - 1), min_size=7, max_size=7)), seed=draw(seeds))


def run_mat(case):
    gen = dense_gen(case['rates'], case['n'])
    keep = gen.copy()
    P, Q = mjp.get_trans(case['T'], gen), mjp.get_trans(case['s'], gen)
    w = np.linalg.eig(gen)
    ref = np.real(w[1] @ np.diag(np.exp(w[0] * case['T'])) @ np.linalg.inv(w[1])) if np.linalg.cond(w[1]) < 1e5 else expm(gen * case['T'])
    need_close(P, ref, 'transition matrix', 1e-7, 1e-8)
    need_close(P.sum(1), np.ones(len(gen)), 'rows of the transition matrix')
    need_close(P @ Q, mjp.get_trans(case['T'] + case['s'], gen), 'semigroup', 1e-7, 1e-9)
    pi = mjp.get_stat(gen)
    need_close(pi, stat_law(gen), 'stationary law', 1e-6, 1e-9)
    need_close(pi @ P, pi, 'stationary law not invariant', 1e-6, 1e-9)
    # est_stat: fraction of time per state
    T = 2.0
    t = np.array([0.0] + [f * T for f in case['jt']])
    x = np.cumsum([case['xs'][0]] + [1 + v % (len(gen) - 1) for v in case['xs'][1:len(t)]]) % len(gen)
    hold = np.diff(np.append(t, T))
    need_close(mjp.est_stat(mjp.Skeleton(t, x, T), np.arange(len(gen))), [hold[x == a].sum() / T for a in range(len(gen))], 'est_stat')
    g = mjp.sample_trial_generator(case['n'], rng_of(case))
    need_close(g.sum(1), np.zeros(case['n']), 'trial generator rows')
    need(np.all(g - np.diag(np.diag(g)) >= 0) and np.array_equal(gen, keep), 'trial generator signs / input modified')
    return True


SUBS = [
    Sub('law', law_case(), run_law, 200, 4000, 'paths with more than 0.2 expected transitions and a reachable end state', cap=150),
    Sub('occupation', occ_case(), run_occ, 120, 2000, 'all', cap=150),
    Sub('matrices', mat_case(), run_mat, 1500, 30000, 'all', shards=8),
]
