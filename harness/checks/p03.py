"""P03: histories of queries on one path representation, checked against a dictionary of what was revealed."""
import numpy as np
from hypothesis import strategies as st
from core import Sub, note
from lib import *
import coins
from ctbayes.ea3lib import skeleton as ea_skel, seed as sde_seed
from ctbayes.ito.models import ou

TITLE = "refinement never contradicts what is known"


@st.composite
def raw_case(draw):
    T = draw(st.sampled_from([1.0, 0.125, 0.1, 0.3, 0.7, 2.0, 5.0]))
    x0, d = draw(sgrid(3, 0.1)), draw(sgrid(3, 0.1))
    x1 = round(x0 + d * T ** .5, 6)
    dom = draw(st.sampled_from(['free', 'free', 'low', 'high']))
    gap = draw(grid(0.2, 2, 0.1)) * T ** .5
    bounds = {'free': [None, None], 'low': [min(x0, x1) - gap, None], 'high': [None, max(x0, x1) + gap]}[dom]
    qs = draw(st.lists(st.lists(st.integers(0, 40), min_size=0, max_size=6, unique=True).map(sorted), min_size=1, max_size=8))
    return dict(T=T, x0=x0, x1=x1, bounds=bounds, qs=qs, anchor_q=draw(st.booleans()), seed=draw(seeds))


class View:
    """Uniform view of Skeleton and SeedSkeleton (both are named tuples in this order)."""
    def __init__(self, s):
        self.t, self.x = np.asarray(s[0], float), np.asarray(s[1], float)
        self.tight, self.loose, self.hit, self.hits = float(s[2]), float(s[3]), float(s[4]), s[5]


def check_state(v, T, a, b, bounds, tol, first=None):
    need(v.t.ndim == 1 and v.t.shape == v.x.shape, 'times and values differ in number')
    need(np.all(np.isfinite(v.x)), 'non-finite value')
    need(np.all(np.diff(v.t) > 0), lambda: 'times not strictly increasing: %r' % v.t.tolist())
    need(abs(v.t[0]) <= tol and abs(v.t[-1] - T) <= tol, 'horizon changed')
    need(abs(v.x[0] - a) <= tol and abs(v.x[-1] - b) <= tol, 'end points changed')
    lo, hi = min(v.tight, v.loose), max(v.tight, v.loose)
    need(np.all(v.x >= lo - tol) and np.all(v.x <= hi + tol), lambda: 'values leave the recorded levels [%r, %r]: %r' % (lo, hi, v.x.tolist()))
    need(np.min(np.abs(v.x - v.tight)) <= tol, 'the recorded extreme is not attained')
    if bounds[0] is not None:
        need(lo >= bounds[0] - tol, 'level outside the domain')
    if bounds[1] is not None:
        need(hi <= bounds[1] + tol, 'level outside the domain')
    need(lo - tol <= v.hit <= hi + tol, 'intermediate level outside the levels')
    if v.hits is not None:
        h = [bool(x) for x in v.hits]
        need(len(h) == len(v.t) - 1, lambda: 'hit record has %d entries for %d sections' % (len(h), len(v.t) - 1))
        sgn = 1.0 if v.tight < v.loose else -1.0
        for i, hi_ in enumerate(h):
            if not hi_:
                need(sgn * max(sgn * v.x[i], sgn * v.x[i + 1]) * sgn <= sgn * v.hit + tol,
                     lambda: 'section %d is recorded as not reaching %r but has values %r' % (i, v.hit, v.x[i:i + 2].tolist()))


def check_step(old, new, q, xs, T, tol):
    """old -> new by asking for the times q with answer xs."""
    xs = np.asarray(xs, float)
    need(xs.shape == (len(q),), 'one value per query time')
    for lab in ('tight', 'loose', 'hit'):
        need(abs(getattr(old, lab) - getattr(new, lab)) <= tol, 'recorded level %s changed' % lab)
    need((old.tight < old.loose) == (new.tight < new.loose), 'orientation changed')
    fresh = [u for u in q if np.min(np.abs(old.t - u)) > tol]
    need(len(new.t) == len(old.t) + len(fresh), lambda: '%d times became %d after %d new queries' % (len(old.t), len(new.t), len(fresh)))
    pos = [int(np.argmin(np.abs(new.t - u))) for u in old.t]
    need(np.all(np.abs(new.t[pos] - old.t) <= tol), 'a known time was lost')
    need(np.all(np.abs(new.x[pos] - old.x) <= tol), lambda: 'a known value changed: %r -> %r' % (old.x.tolist(), new.x[pos].tolist()))
    for u, x in zip(q, xs):
        j = int(np.argmin(np.abs(new.t - u)))
        need(abs(new.t[j] - u) <= tol and abs(new.x[j] - x) <= tol, 'the returned value is not the recorded one')
    need((old.hits is None) == (new.hits is None), 'hit record appeared or vanished')
    if old.hits is not None:
        need(any(new.hits) == any(old.hits), 'the last reaching section was lost or invented')
        for i, (i0, i1) in enumerate(zip(pos, pos[1:])):
            need(any(new.hits[i0:i1]) == bool(old.hits[i]), lambda: 'section %d recorded as %r was split into %r' % (i, bool(old.hits[i]), list(new.hits[i0:i1])))


def back(u, T):
    """A data time that maps to the normalised time u exactly, if there is one."""
    c = u * T
    for t in (c, np.nextafter(c, np.inf), np.nextafter(c, -np.inf)):
        if t / T == u:
            return t
    return None


def data_t(q, T):
    return np.array([u * T if back(u, T) is None else back(u, T) for u in q])


def walk(s, case, T, a, b, bounds, query, askable=lambda u: True):
    tol = 1e-9 * max(1.0, abs(a), abs(b), T)
    v = View(s)
    check_state(v, T, a, b, bounds, tol)
    note('anchor_low' if v.tight < v.loose else 'anchor_high')
    note('hits_none' if v.hits is None else 'hits_%d' % sum(map(bool, v.hits)))
    nq, frozen = 0, [np.array(s[0], copy=True), np.array(s[1], copy=True)]
    for k, q in enumerate(case['qs']):
        q = [u / 40 for u in q]
        if case['anchor_q'] and k == len(case['qs']) // 2:
            q = q + [None]
        # a recorded time is asked for by its exact value, all others by the same float every time
        q = np.sort([float(v.t[len(v.t) // 2]) if u is None else u * T for u in q])
        if case['anchor_q'] and k == len(case['qs']) // 2:
            if not askable(float(v.t[len(v.t) // 2])) or np.any(np.diff(q) < 1e-12):
                continue
        s2, xs = query(s, q)
        w = View(s2)
        check_step(v, w, q, xs, T, tol)
        check_state(w, T, a, b, bounds, tol)
        if len(q):
            s3, ys = query(s2, q)
            need(np.all(np.abs(np.asarray(ys) - np.asarray(xs)) <= tol), 'repeating a query changed the answer')
            check_step(w, View(s3), q, ys, T, tol)
            s2, w = s3, View(s3)
            nq += 1
        s, v = s2, w
    return nq >= 2


def run_raw(case):
    rng = rng_of(case)
    T, a, b = case['T'], case['x0'], case['x1']
    bounds = [(-np.inf if case['bounds'][0] is None else case['bounds'][0]), (np.inf if case['bounds'][1] is None else case['bounds'][1])]
    s = ea_skel.sample_raw_skeleton(T, a, b, tuple(bounds), rng)
    return walk(s, case, T, a, b, case['bounds'], lambda s_, q: ea_skel.interpolate_skeleton(s_, q, rng))


def run_seed(case):
    """The same through the seed interface: values asked on the data clock of a random diffusion."""
    rng = rng_of(case)
    T = case['T']
    thi = np.array([1.0, 0.5])
    no, de = ou.gen_normops(thi, np.array([0.0, T]), np.array([case['x0'] * .5, case['x1'] * .5]))[0]
    s = sde_seed.sample_raw_seed(ou.bounds_x, no, de, rng)
    x0, x1 = case['x0'], case['x1']

    def query(s_, q):
        s2, x = sde_seed.interpolate_seed(s_, data_t(q, T), no, de, rng)
        z = (np.asarray(x) - x0 - q * (x1 - x0)) / np.sqrt(T) if len(q) else np.asarray(x)
        return s2, z
    return walk(s, case, 1.0, 0.0, 0.0, [None, None], query, lambda u: back(u, T) is not None)


def run_accepted(case):
    """Accepted bridges and their coins keep the invariants as well."""
    rng = rng_of(case)
    T = min(case['T'], 1.0)
    thi = np.array([1.0, 1.0])
    v = np.array([max(-1.5, min(1.5, case['x0'])), max(-1.5, min(1.5, case['x1']))])
    no, de = ou.gen_normops(thi, np.array([0.0, T]), v)[0]
    s = next(sde_seed.sample_bridge(ou.bounds_x, no, de, ou.eval_disc(thi), ou.eval_bounds_disc(thi), rng))
    for _ in range(3):
        old = View(s)
        _, _, s = sde_seed.flip_poisson_coin(s, no, de, ou.eval_disc(thi), ou.eval_bounds_disc(thi), rng)
        new = View(s)
        check_state(new, 1.0, 0.0, 0.0, [None, None], 1e-9)
        extra = [u for u in new.t if np.min(np.abs(old.t - u)) > 1e-9]
        j = [int(np.argmin(np.abs(new.t - u))) for u in extra]
        check_step(old, new, np.array(extra), new.x[j] if j else np.array([]), 1.0, 1e-9)
    x0, x1 = v

    def query(s_, q):
        s2, x = sde_seed.interpolate_seed(s_, data_t(q, T), no, de, rng)
        return s2, (np.asarray(x) - x0 - q * (x1 - x0)) / np.sqrt(T) if len(q) else np.asarray(x)
    return walk(s, case, 1.0, 0.0, 0.0, [None, None], query, lambda u: back(u, T) is not None)


SUBS = [
    Sub('coins', coins.kept_case(), coins.run_kept, 3000, 40000, 'all five coins and estimates, several in a row on one path: nothing known or tested is lost; non-trivial: more than one batch', cap=20, shards=8),
    Sub('skeleton', raw_case(), run_raw, 5000, 60000, 'path on the data scale (free or half-bounded), 1-8 queries of 0-6 grid times with repeats and known times; non-trivial: at least two non-empty queries', cap=20, shards=8),
    Sub('seed', raw_case(), run_seed, 3200, 40000, 'the same through the normalised interface', cap=20, shards=8),
    Sub('accepted', raw_case(), run_accepted, 1000, 15000, 'bridges accepted by the exact sampler, after further coins', cap=20, shards=8),
]
