"""Collects the cases of a property over the families of specifications."""
import importlib
from .common import L
from . import SPECS

FAMILIES = ['numeric', 'simplex', 'dicts', 'arrays', 'psd', 'files', 'wrappers', 'objective', 'precond', 'hessian', 'grouped', 'linear', 'derivatives']


def cases(prop, tier):
    c = L()
    for f in FAMILIES:
        m = importlib.import_module('specs.' + f)
        fn = getattr(m, prop.lower(), None)
        if fn is not None:
            fn(c, tier)
    return c


def meta(prop):
    return SPECS.get(prop, {})
