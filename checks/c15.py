"""Global properties: k-safe, quasi-liveness, liveness, stable-marking."""
from . import c14

LEVEL = "model_checking"


def check(c):
    c14.check(c, True)
