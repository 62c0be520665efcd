"""A02: senseless arguments of operations and constructions are refused."""
from .a01 import calls


def plan(tier):
    return calls(tier, ("ops", "make", "smake"), "a02")
