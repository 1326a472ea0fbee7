"""P05: reported bounds of the discount against the formula written out independently, over whole intervals."""
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import minimize_scalar
from core import Sub, note
from lib import *
from models import *
from ctbayes.ea3lib import seed as sde_seed

TITLE = "discount bounds"
NAMES = ['ou', 'cir', 'sw_ou', 'sw_ou2', 'sw_ou3']


@st.composite
def bound_case(draw):
    name = draw(st.sampled_from(NAMES))
    if name == 'cir':
        thi = draw(cir_thi())
        lo, w = draw(grid(0.05, 12, 0.05)), draw(grid(0, 12, 0.05))
        if draw(st.integers(0, 5)) == 0:
            lo = -draw(grid(0.1, 3, 0.1))
    elif name == 'ou':
        thi = draw(ou_thi)
        lo, w = draw(sgrid(12, 0.1)), draw(grid(0, 15, 0.1))
    else:
        thi = draw(st.integers(1, 3).flatmap(sw_thi))
        lo, w = draw(sgrid(12, 0.1)), draw(grid(0, 15, 0.1))
    return dict(name=name, thi=thi, y=draw(st.integers(0, 2)), lo=lo, w=w)


def funcs(case):
    """(code's disc, code's bounds, reference disc, row of parameters)"""
    name, thi = case['name'], np.array(case['thi'], float)
    if name in ITO:
        m = ITO[name]
        return m.eval_disc(thi), m.eval_bounds_disc(thi), lambda x: disc(name, thi, x), thi
    m, y = SW[name], case['y'] % len(thi)
    return m.eval_disc(thi, y), m.eval_bounds_disc(thi, y), lambda x: disc(name, thi[y], x), thi[y]


def ref_min(name, row):
    """Global infimum over the state space, numerically."""
    f = lambda x: disc(name, row, x)
    if name == 'cir':
        xs = np.exp(np.linspace(np.log(1e-3), np.log(1e3), 4000))
        i = int(np.argmin(f(xs)))
        r = minimize_scalar(f, bounds=(xs[max(i - 1, 0)], xs[min(i + 1, 3999)]), method='bounded', options=dict(xatol=1e-12))
        return min(r.fun, f(xs[i]))
    return float(f(0.0))


def run_bounds(case):
    f, fb, ref, row = funcs(case)
    lo, hi = case['lo'], case['lo'] + case['w']
    inf_, le, ue = [float(v) for v in fb(lo, hi)]
    xs = np.unique(np.concatenate([np.linspace(lo, hi, 801), [lo, hi], [0.0] if lo <= 0 <= hi else []]))
    if case['name'] == 'cir':
        note('cir_outside' if lo < 0 else 'cir_inside')
        xs = xs[xs > 0]
        if not len(xs):
            return False
    v = ref(xs)
    tol = 1e-8 * (1 + np.max(np.abs(v)))
    need_close(f(xs), v, 'discount differs from (drift^2/vol^2 + drift\')/2', 1e-7, 1e-7 * (1 + np.max(np.abs(v))))
    need(le <= v.min() + tol, lambda: 'lower bound %r exceeds discount %r on [%r, %r]' % (le, v.min(), lo, hi))
    need(ue >= v.max() - tol, lambda: 'upper bound %r is below discount %r on [%r, %r]' % (ue, v.max(), lo, hi))
    m = ref_min(case['name'], row)
    need(abs(inf_ - m) <= 1e-6 * (1 + abs(m)), lambda: 'global infimum %r, should be %r' % (inf_, m))
    return case['w'] > 0


@st.composite
def inner_case(draw):
    """Intervals ending at, straddling or hugging the minimiser, where the branches switch."""
    c = draw(bound_case())
    c['side'] = draw(st.sampled_from(['left', 'right', 'across', 'touch_l', 'touch_r']))
    c['d'] = [draw(grid(0.001, 2, 0.001)), draw(grid(0.001, 2, 0.001))]
    return c


def run_inner(case):
    f, fb, ref, row = funcs(case)
    if case['name'] == 'cir':
        k = 2 * row[0] * row[1] / row[2] ** 2 - .5
        x0 = (4 * (k * k - k) / row[0] ** 2) ** .25
    else:
        x0 = 0.0
    a, b = case['d']
    lo, hi = dict(left=(x0 - a - b, x0 - a), right=(x0 + a, x0 + a + b), across=(x0 - a, x0 + b), touch_l=(x0 - a, x0), touch_r=(x0, x0 + b))[case['side']]
    if case['name'] == 'cir':
        lo = max(lo, x0 / 50)
        hi = max(hi, lo)
    note(case['side'])
    run_bounds(dict(case, lo=lo, w=hi - lo))
    return True


@st.composite
def path_case(draw):
    name = draw(st.sampled_from(NAMES))
    c = dict(name=name, T=draw(grid(0.05, 3, 0.05)), seed=draw(seeds), k=draw(st.integers(1, 6)), sub=draw(fracs(0, 4)), y=draw(st.integers(0, 2)))
    if name == 'cir':
        c['thi'] = draw(cir_thi())
        c['v'] = [draw(grid(0.2, 6, 0.1)), draw(grid(0.2, 6, 0.1))]
    elif name == 'ou':
        c['thi'] = draw(ou_thi)
        c['v'] = [draw(sgrid(6, 0.1)), draw(sgrid(6, 0.1))]
    else:
        c['thi'] = draw(st.integers(1, 3).flatmap(sw_thi))
        c['v'] = [draw(sgrid(6, 0.1)), draw(sgrid(6, 0.1))]
    return c


def run_path(case):
    rng = rng_of(case)
    f, fb, ref, row = funcs(case)
    thi, T, v = np.array(case['thi'], float), case['T'], np.array(case['v'], float)
    t = np.array([0.0, T])
    if case['name'] in ITO:
        m = ITO[case['name']]
        no, de = m.gen_normops(thi, t, v)[0]
    else:
        m, y = SW[case['name']], case['y'] % len(thi)
        no, de = m.gen_normops(thi, t, np.array([y, y]), v)[0]
    z = sde_seed.sample_raw_seed(m.bounds_x, no, de, rng)
    parts = np.array([0.0, *[u * T for u in case['sub']], T]) if len(case['sub']) else case['k']
    tt, le, ue = sde_seed.bound_disc_path(z, no, de, fb, parts)
    tt, le, ue = np.asarray(tt, float), np.asarray(le, float), np.asarray(ue, float)
    if isinstance(parts, int):
        need_close(tt, np.linspace(0, T, parts + 1), 'times of the bounds')
    else:
        need_close(tt, parts, 'times of the bounds')
    lz, uz = min(z[2], z[3]), max(z[2], z[3])
    worst = 0.0
    for j in range(len(tt) - 1):
        s = np.linspace(tt[j], tt[j + 1], 25) / T
        for q in np.linspace(0, 1, 21):
            x = de(s, np.repeat(lz + q * (uz - lz), len(s)))[1]
            if case['name'] == 'cir':
                x = x[x > 0]
                if not len(x):
                    continue
            p = ref(x)
            tol = 1e-8 * (1 + np.max(np.abs(p)))
            need(le[j] <= p.min() + tol, lambda: 'lower bound %r of section %d exceeds the discount %r of a path inside the levels' % (le[j], j, p.min()))
            need(ue[j] >= p.max() - tol, lambda: 'upper bound %r of section %d is below the discount %r of a path inside the levels' % (ue[j], j, p.max()))
    # the revealed path itself
    u = np.sort(rng.uniform(0, T, 6))
    z2, x = sde_seed.interpolate_seed(z, u, no, de, rng)
    j = np.clip(np.searchsorted(tt, u, 'right') - 1, 0, len(le) - 1)
    if case['name'] != 'cir' or np.all(x > 0):
        p = ref(x)
        tol = 1e-7 * (1 + np.max(np.abs(p)))
        need(np.all(p >= le[j] - tol) and np.all(p <= ue[j] + tol), 'a revealed value violates the bounds')
    if len(le) > 1 or not isinstance(parts, int):
        note('several_sections')
    need(abs(float(sde_seed.integrate_disc_bound(z, no, de, fb)) - float(-np.diff(sde_seed.bound_disc_path(z, no, de, fb, 1)[0]) @ sde_seed.bound_disc_path(z, no, de, fb, 1)[1])) <= 1e-9 * (1 + abs(le.min()) * T), 'integrated lower bound')
    return True


SUBS = [
    Sub('interval', bound_case(), run_bounds, 4000, 60000, 'model, parameters, regime and interval; discount evaluated from the model formula on 800 points; non-trivial: interval of positive width', cap=20, shards=8),
    Sub('branches', inner_case(), run_inner, 3000, 40000, 'intervals left of, right of, across and touching the minimiser', cap=20, shards=8),
    Sub('path', path_case(), run_path, 600, 10000, 'levels of a sampled path, 1-6 sections, discount at all reachable values on a grid', cap=20, shards=8),
]
