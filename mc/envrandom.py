"""Puts the random draws of the code under test behind a seam that the harness decides.

Gaussian draws return mu + k * sigma with k taken from a script, uniform draws return a + u * (b - a) with u
taken from a script.  Module functions and the methods of random.Random are both replaced, before openspace is
imported, so it does not matter how the code reaches them.
"""
import random

GAUSS = []  # script of k
UNIFORM = []  # script of u in [0, 1]
KEYED = []  # (sigma, k): draws with this sigma answer k, whatever their order
LOG = []  # ("g", sigma) / ("u", a, b)
ACTIVE = [False]
_orig = {}


def _k():
    return GAUSS.pop(0) if GAUSS else 0.0


def _u():
    return UNIFORM.pop(0) if UNIFORM else 0.0


def g(mu=0.0, sigma=1.0):
    LOG.append(("g", sigma))
    for want, k in KEYED:
        if abs(sigma - want) <= 1e-9 * abs(want):
            return mu + k * sigma
    return mu + _k() * sigma


def u(a, b):
    LOG.append(("u", a, b))
    return a + _u() * (b - a)


def rnd():
    LOG.append(("u", 0.0, 1.0))
    return _u()


def install():
    random.gauss = g
    random.normalvariate = g
    random.uniform = u
    random.random = rnd
    random.Random.gauss = lambda self, mu=0.0, sigma=1.0: g(mu, sigma)
    random.Random.normalvariate = lambda self, mu=0.0, sigma=1.0: g(mu, sigma)
    random.Random.uniform = lambda self, a, b: u(a, b)


def script(gs, us, keyed=()):
    GAUSS[:] = gs
    KEYED[:] = keyed
    UNIFORM[:] = us
    LOG.clear()


def drawn():
    return [x for x in LOG if x[0] == "g"], [x for x in LOG if x[0] == "u"]
