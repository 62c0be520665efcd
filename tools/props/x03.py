"""Vectors, matrices, polynomials, knots, parametrizations, lines and planes through the C interface."""
from .viac import through_c

CAPI = True
SOURCES = {"m01": 60, "m03": 60, "k01": 60, "k02": 60, "c19": 60}


def plan(tier):
    return through_c(SOURCES, tier)
