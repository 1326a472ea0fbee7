"""P16: splitting, pasting and re-drawing jump paths keeps what it must."""
import numpy as np
from scipy.linalg import expm
from hypothesis import strategies as st
from core import Sub, note
from lib import *
from ctbayes.mjplib import skeleton as mjp

TITLE = "splitting, pasting and re-drawing jump paths"


@st.composite
def split_case(draw):
    """Times are k / 64 (exact arithmetic) or arbitrary fractions; split times may coincide with jumps, ends or each other."""
    exact = draw(st.booleans())
    top = 640
    jumps = sorted(draw(st.lists(st.integers(1, top - 1), max_size=8, unique=True)))
    extra = draw(st.lists(st.integers(0, top), max_size=6))
    onjump = draw(st.lists(st.integers(0, 7), max_size=3))
    cut = extra + [jumps[i % len(jumps)] for i in onjump if jumps]
    if not draw(st.booleans()):
        cut = list(set(cut) - {0, top})
    return dict(exact=exact, scale=draw(grid(0.1, 3)), jumps=jumps, cuts=sorted(cut), cuts2=sorted(draw(st.lists(st.integers(1, top - 1), max_size=4, unique=True))),
                steps=draw(st.lists(st.integers(1, 2), min_size=9, max_size=9)), n=3, seed=draw(seeds))


def build(case):
    u = 1 / 64 if case['exact'] else case['scale'] / 61.7
    t = np.array([0.0] + [k * u for k in case['jumps']])
    x = np.cumsum(case['steps'][:len(t)]) % 3
    return u, mjp.Skeleton(t, x, 640 * u)


def same(a, b, exact, what):
    need(len(a.t) == len(b.t) and np.array_equal(a.xt, b.xt), lambda: '%s: %r != %r' % (what, a, b))
    if exact:
        need(np.array_equal(a.t, b.t) and a.fin_t == b.fin_t and a == b, lambda: '%s: %r != %r' % (what, a, b))
    else:
        need_close(a.t, b.t, what, 1e-12, 1e-12); need_close(a.fin_t, b.fin_t, what, 1e-12, 1e-12)


def at(s, t):
    """State of the last jump at or before t (independent of Skeleton.__call__)."""
    return s.xt[max(k for k in range(len(s.t)) if s.t[k] <= t)]


def run_split(case):
    u, s = build(case)
    T, ex = s.fin_t, case['exact']
    cut = np.array([k * u for k in case['cuts']])
    orig = (s.t.copy(), s.xt.copy(), cut.copy())
    # evaluation
    for t in list(s.t) + [0.0, T, T / 2, T / 3] + [k * u for k in case['cuts']]:
        need(s(t) == at(s, t), lambda: 'evaluating at %r gives %r' % (t, s(t)))
    tt = np.array(sorted([0.0, T] + list(s.t)))
    need(np.array_equal(s(tt), [at(s, t) for t in tt]), 'evaluating at many times')
    try:
        s(np.array([T * 1.001]))
        need(False, 'evaluation beyond the horizon answered')
    except ValueError:
        pass
    # pieces
    parts = mjp.partition_skeleton(s, cut)
    edge = np.concatenate([[0.0], cut, [T]])
    need(len(parts) == len(cut) + 1, 'number of pieces')
    for p, a, b in zip(parts, edge, edge[1:]):
        need_close(p.fin_t, b - a, 'length of piece', 1e-12, 1e-12)
        if b == a:
            continue
        need(p.t[0] == 0 and np.all(np.diff(p.t) > 0) and p.t[-1] < p.fin_t and len(p.t) == len(p.xt), lambda: 'piece is no path: %r' % (p,))
        inner = [k for k in range(len(s.t)) if a < s.t[k] < b]
        need(np.array_equal(p.xt, np.concatenate([[at(s, a)], s.xt[inner]]).astype(int)), lambda: 'states of piece [%r, %r]: %r' % (a, b, p))
        need_close(p.t, np.concatenate([[0.0], s.t[inner] - a]), 'times of piece', 1e-12, 1e-12)
    same(mjp.paste_partition(parts), s, ex, 'pasted path')
    cut2 = np.array([k * u for k in case['cuts2']])
    for p, q in zip(mjp.repartition_skeleton(parts, cut2), mjp.partition_skeleton(s, cut2)):
        if ex:
            same(p, q, True, 're-split path')
    need(np.array_equal(s.t, orig[0]) and np.array_equal(s.xt, orig[1]) and np.array_equal(cut, orig[2]), 'inputs modified')
    q, nt = mjp.sample_partition(s, 1 / u / 100, rng_of(case))
    need(len(q) == len(nt) + 1 and np.all((nt > 0) & (nt < T)), 'random split times')
    same(mjp.paste_partition(q), s, False, 'pasted random partition')
    # equality means equality
    o = mjp.Skeleton(s.t, s.xt, T * 2)
    need(s == mjp.Skeleton(s.t.copy(), s.xt.copy(), T) and not s == o, 'path equality')
    need(not s == mjp.Skeleton(s.t, (s.xt + 1) % 3, T), 'path equality ignores states')
    if set(case['cuts']) & set(case['jumps']):
        note('split at a jump')
    if len(set(case['cuts'])) < len(case['cuts']) or {0, 640} & set(case['cuts']):
        note('empty pieces')
    return len(s.t) > 1 and len(cut) > 0


@st.composite
def mut_case(draw):
    c = draw(split_case())
    c['cuts'] = sorted(set(c['cuts']) - {0, 640})
    c['rates'] = draw(st.lists(grid(0.05, 3), min_size=6, max_size=6))
    return c


def run_mut(case):
    u, s = build(case)
    gen = dense_gen(case['rates'], 3)
    u_ = 4.0 / s.fin_t  # keep the number of transitions moderate
    s = mjp.Skeleton(s.t * u_, s.xt, s.fin_t * u_)
    cut = np.array([k * u * u_ for k in case['cuts']])
    parts = mjp.partition_skeleton(s, cut)
    keep = [(p.t.copy(), p.xt.copy(), p.fin_t) for p in parts]
    rng = rng_of(case)
    for _ in range(3):
        new = mjp.mutate_partition(parts, gen, rng)
        need(len(new) == len(parts), 'number of pieces changed')
        for k, (p, q) in enumerate(zip(parts, new)):
            need(q.fin_t == p.fin_t, 'length of a piece changed')
            need(q.t[0] == 0 and np.all(np.diff(q.t) > 0) and q.t[-1] < q.fin_t and np.all(q.xt[1:] != q.xt[:-1]), lambda: 'invalid piece %r' % (q,))
            need(k == 0 or q.xt[0] == p.xt[0], 'state at a split time changed')
            need(k == len(parts) - 1 or q.xt[-1] == p.xt[-1], 'state before a split time changed')
        path = mjp.paste_partition(new)
        need_close(path.fin_t, s.fin_t, 'horizon', 1e-12, 1e-12)
        for c, p in zip(cut, parts[1:]):
            need(at(path, c + 1e-9) == p.xt[0], 'state right after a split time')
        parts_ = new
    need(all(np.array_equal(p.t, a) and np.array_equal(p.xt, b) and p.fin_t == c for p, (a, b, c) in zip(parts, keep)), 'inputs modified')
    return len(cut) > 0


# ------------------------------------------------------------------ invariance of re-drawing

@st.composite
def inv_case(draw):
    n = draw(st.integers(2, 3))
    return dict(n=n, rates=draw(st.lists(grid(0.2, 3), min_size=n * (n - 1), max_size=n * (n - 1))), T=draw(grid(0.3, 4)),
                cuts=draw(fracs(0, 3)), at=draw(fracs(3, 3)), rounds=draw(st.integers(1, 2)), seed=draw(seeds))


def run_inv(case):
    gen = dense_gen(case['rates'], case['n'])
    k, T = case['n'], case['T']
    pi = stat_law(gen)
    cut = np.array(case['cuts']) * T
    at_ = np.array(case['at']) * T
    A = [expm(gen * d) for d in np.diff(np.concatenate([[0], at_, [T]]))]
    joint = np.maximum(np.einsum('a,ab,bc,cd,de->abcde', pi, *A), 0)
    m = int(-np.min(np.diag(gen)) * T * 1.5 + 10)
    N = np.maximum(np.einsum('a,nab->n', pi, count_trans(T, gen, m)), 0)

    def f(n, rng):
        X, J, U, V = np.zeros((k,) * 5), np.zeros(m + 1), [], []
        for _ in range(n):
            x0 = int(rng.choice(k, p=pi / pi.sum()))
            s = mjp.Skeleton(*mjp_sim(rng, T, x0, gen), T)
            for _ in range(case['rounds']):
                s = mjp.paste_partition(mjp.mutate_partition(mjp.partition_skeleton(s, cut), gen, rng))
            X[tuple(s(np.concatenate([[0], at_, [min(T, s.fin_t)]])))] += 1
            J[min(len(s.t) - 1, m)] += 1
            u = s.t[1] if len(s.t) > 1 else T
            U.append(np.exp(gen[s.xt[0], s.xt[0]] * u) * (1 if u < T else rng.uniform()))
            for c in cut:  # the holding time in progress at a split time is exponential
                nxt = s.t[s.t > c + 1e-9]
                if len(nxt):
                    V.append(np.exp(gen[at(s, c + 1e-12), at(s, c + 1e-12)] * (nxt[0] - c)))
                else:
                    V.append(np.exp(gen[at(s, c), at(s, c)] * (T - c)) * rng.uniform())
        out = {'states': chi2_p(X, joint / joint.sum()), 'jumps': chi2_p(J, N / N.sum()), 'first_hold': ks_u(U)}
        for q in range(len(cut)):
            out['hold%d' % q] = ks_u(V[q::len(cut)])
        return out
    two_stage(case, f, 500, what='re-drawn jump path')
    return len(cut) > 0


SUBS = [
    Sub('split', split_case(), run_split, 3000, 60000, 'at least one jump and one split time', shards=8),
    Sub('mutate', mut_case(), run_mut, 800, 16000, 'at least one split time', shards=8),
    Sub('invariance', inv_case(), run_inv, 120, 2000, 'at least one split time', cap=150),
]
