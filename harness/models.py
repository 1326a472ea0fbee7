"""The bundled models, with strategies for their parameters and their formulas written out independently."""
import numpy as np
from hypothesis import strategies as st
from lib import grid
from ctbayes.ito.models import ou as ito_ou, cir as ito_cir
from ctbayes.switching.models import ou as sw_ou, ou2 as sw_ou2, ou3 as sw_ou3

ITO = {'ou': ito_ou, 'cir': ito_cir}
SW = {'sw_ou': sw_ou, 'sw_ou2': sw_ou2, 'sw_ou3': sw_ou3}


# (rate, vol) of dX = -rate X dt + vol dW for one row of parameters of a switching model
def sw_rate_vol(name, th):
    if name == 'sw_ou':
        return th[0], 1 / th[1]
    if name == 'sw_ou2':
        return th[0], th[0] / th[1]
    return th[0] * th[1], th[0]


def drift(name, thi, x):
    """Drift of the reduced (unit volatility for Ito models) process."""
    if name == 'ou':
        return -thi[0] * x
    if name == 'cir':
        return (2 * thi[0] * thi[1] / thi[2] ** 2 - .5) / x - thi[0] * x / 2
    r, _ = sw_rate_vol(name, thi)
    return -r * x


def disc(name, thi, x):
    """phi = (drift^2 / vol^2 + drift') / 2"""
    x = np.asarray(x, float)
    if name == 'ou':
        return (thi[0] ** 2 * x ** 2 - thi[0]) / 2
    if name == 'cir':
        k = 2 * thi[0] * thi[1] / thi[2] ** 2 - .5
        return ((k / x - thi[0] * x / 2) ** 2 - k / x ** 2 - thi[0] / 2) / 2
    r, s = sw_rate_vol(name, thi)
    return (r ** 2 * x ** 2 / s ** 2 - r) / 2


pos = grid(0.05, 5, 0.05)
ou_thi = st.tuples(pos, pos).map(list)


@st.composite
def cir_thi(draw):
    """Parameters with 4 thi0 thi1 > 3 thi2^2, where the discount is bounded below."""
    a, b = draw(grid(0.1, 4, 0.1)), draw(grid(0.1, 4, 0.1))
    f = draw(grid(0.05, 0.95, 0.05))
    return [a, b, round(float(np.sqrt(4 * a * b / 3) * f), 4)]


def sw_thi(k):
    return st.lists(ou_thi, min_size=k, max_size=k)
