"""NumPy entry points that would otherwise convert symbolic numbers through float()."""
import functools

import numpy as np


def _conc(x):
    from .sym import SymInt, SymReal
    from .explore import EngineError
    if isinstance(x, SymInt):
        return int(x.__index__())
    if isinstance(x, SymReal):
        from .explore import is_sym
        if is_sym(x.v):
            raise EngineError('np.arange of a symbolic real')
        return float(x.v)
    return x


def install():
    from . import sym
    if getattr(np, '_verif_patched', False):
        return
    np._verif_patched = True
    arange = np.arange

    @functools.wraps(arange)
    def _arange(*a, **k):
        return arange(*[_conc(x) for x in a], **{n: _conc(x) for n, x in k.items()})
    np.arange = _arange
