"""Replacement of the compiled `_flib` module by the symbolic execution of its IR.

The f2py documentation of each function (the real build's) gives the Python signature and
the conversions; the Fortran subroutine itself is executed by `interp.Machine`.
"""
import ast
import os
import re
import sys
import types
from fractions import Fraction

import numpy as np

from . import explore as X
from . import sym
from .explore import EngineError, is_sym
from .fbuild import REPO
from .gimple import INT, LOGICAL, REAL, VOID, Obj, Ptr, T, UNDEF
from .interp import Machine

z3 = X.z3
CH = {'b': ('int', 1), 'h': ('int', 2), 'i': ('int', 4), 'l': ('int', 8), 'q': ('int', 8), 'f': ('real', 4),
      'd': ('real', 8)}


class State:
    prog = None
    codec = None
    clib = None
    nthreads = 1
    functions = set()
    calls = 0
    steps = 0
    fuel = 3_000_000
    domain = None
    trace = []


class Sig:
    def __init__(self, mod, name, doc):
        self.mod, self.name = mod, name
        line = doc.splitlines()[0]
        m = re.match(r'(?:(.*) = )?(\w+)\((.*)\)', line)
        if not m:
            raise EngineError(f'f2py signature {line!r}')
        self.ret = [r.strip() for r in m[1].split(',')] if m[1] else []
        args = m[3].replace('[', '').replace(']', '')
        self.args = [a.strip() for a in args.split(',') if a.strip()]
        self.info = {}
        cur = None
        for l in doc.splitlines()[1:]:
            m = re.match(r'(\w+) : (.*)', l)
            if m:
                cur = m[1]
                self.info[cur] = m[2]
                continue
            m = re.match(r'\s+Default: (.*)', l)
            if m and cur:
                self.info[cur] += ' DEFAULT ' + m[1]


def _split_top(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
            continue
        d += ch == '('
        d -= ch == ')'
        cur += ch
    return out + [cur]


def _cint(expr, env):
    """Evaluate an f2py (C) integer expression."""
    def ev(n):
        if isinstance(n, ast.Expression):
            return ev(n.body)
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.Name):
            if n.id not in env:
                raise KeyError(n.id)
            v = env[n.id]
            if isinstance(v, np.ndarray):
                raise KeyError(n.id)
            return v
        if isinstance(n, ast.BinOp):
            a, b = ev(n.left), ev(n.right)
            if isinstance(n.op, ast.Add):
                return a + b
            if isinstance(n.op, ast.Sub):
                return a - b
            if isinstance(n.op, ast.Mult):
                return a * b
            if isinstance(n.op, (ast.Div, ast.FloorDiv)):
                return int(a / b)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            return -ev(n.operand)
        if isinstance(n, ast.Call) and n.func.id in ('max', 'min'):
            return (max if n.func.id == 'max' else min)(ev(a) for a in n.args)
        if isinstance(n, ast.Call) and n.func.id in ('shape', 'len', 'size'):
            a = env[n.args[0].id]
            if a is None:
                raise KeyError(n.args[0].id)
            if n.func.id == 'len':
                return a.shape[0]
            if n.func.id == 'size':
                return a.size
            return a.shape[ev(n.args[1])]
        raise EngineError(f'f2py expression {expr}')
    return ev(ast.parse(expr.strip(), mode='eval'))


_HIDE = None


def hidden_exprs():
    """(rendered sources) subroutine -> {hidden argument: expression}"""
    global _HIDE
    if _HIDE is None:
        import glob
        _HIDE = {}
        for p in glob.glob(State.prog.dir + '/*.f90'):
            cur = None
            for l in open(p, errors='replace'):
                m = re.match(r'\s*(?:pure |elemental )*(?:subroutine|function)\s+(\w+)', l, re.I)
                if m:
                    cur = m[1].lower()
                m = re.match(r'\s*!f2py .*intent\(hide\).*::\s*(\w+)\s*=\s*(.*)', l, re.I)
                if m and cur:
                    _HIDE.setdefault(cur, {})[m[1].lower()] = m[2]
    return _HIDE


class F2pyError(ValueError):
    pass


def scalar_in(v, kind):
    """Python scalar -> domain value."""
    if kind == 'float':
        if isinstance(v, np.ndarray):
            v = v.ravel()[0]
        r = sym.raw(v)
        if r is NotImplemented:
            r = State.codec.dec(float(v))
        return r
    if isinstance(v, sym.SymInt):
        return v.e
    if isinstance(v, sym.SymBool):
        return v._i().e
    if isinstance(v, np.ndarray):
        v = v.ravel()[0]
    return int(v)


class ShimFunction:
    def __init__(self, mod, name, real):
        self.mod, self.name = mod, name
        self.__doc__ = real.__doc__
        self.__name__ = name
        self._sig = None

    def sig(self):
        if self._sig is None:
            self._sig = Sig(self.mod, self.name, self.__doc__)
        return self._sig

    def __call__(self, *args, **kw):
        sig = self.sig()
        if len(args) > len(sig.args):
            raise TypeError(f'{self.name}() takes at most {len(sig.args)} arguments')
        given = dict(zip(sig.args, args))
        for k, v in kw.items():
            if k not in sig.args or k in given:
                raise TypeError(f'{self.name}(): bad keyword {k}')
            given[k] = v
        given = {k: v for k, v in given.items() if not (v is None and 'optional' in sig.info[k])}
        env = {}
        # scalars given explicitly first, then arrays, then defaults
        arrays = {}
        for a in sig.args:
            info = sig.info[a]
            if 'array' in info.split(' DEFAULT ')[0]:
                if a not in given:
                    raise TypeError(f'{self.name}() missing argument {a}')
                arr, orig, inout, ch = self.convert(a, info, given[a])
                rank = len(_split_top(re.search(r'bounds \((.*)\)', info)[1]))
                if arr.ndim > rank:
                    arr = arr.reshape(arr.shape[:rank - 1] + (-1,), order='F')
                elif arr.ndim < rank:
                    arr = arr.reshape(arr.shape + (1,) * (rank - arr.ndim))
                arrays[a] = arr, orig, inout, ch
                env[a] = arr
            elif a in given:
                kind = 'float' if 'float' in info else 'int'
                env[a] = scalar_in(given[a], kind)
            elif 'DEFAULT' not in info:
                raise TypeError(f'{self.name}() missing argument {a}')
        for a in sig.args:
            if a not in env:
                env[a] = _cint(sig.info[a].split(' DEFAULT ')[1], env)
        f = State.prog.funcs.get(f'__{self.mod}_MOD_{self.name}') or State.prog.find(self.name)
        f.parse()
        params = [re.sub(r'D\.\d+$', '', p) for p in f.params]
        hid = hidden_exprs().get(self.name.lower(), {})
        low = {k.lower(): k for k in env}
        for p in params:
            if p not in low and p in hid:
                env[p] = _cint(hid[p], env)
                low[p] = p
        # check the dimensions as f2py does
        def dims(info):
            b = re.search(r'bounds \((.*)\)', info)[1]
            out = []
            for e in _split_top(b):
                try:
                    v = _cint(e, env)
                except KeyError:
                    v = None
                if is_sym(v):
                    v = X.ctx().concretize(v)
                out.append(v)
            return out
        for a, (arr, orig, inout, ch) in list(arrays.items()):
            want = dims(sig.info[a])
            if len(want) != arr.ndim:
                if arr.ndim < len(want):
                    arr = arr.reshape(arr.shape + (1,) * (len(want) - arr.ndim))
                else:
                    lead = arr.shape[:len(want) - 1]
                    arr = arr.reshape(lead + (-1,), order='F')
                arrays[a] = arr, orig, inout, ch
            for k, (w, h) in enumerate(zip(want, arr.shape)):
                if w is None:
                    continue
                if w != h:
                    raise F2pyError(f'{self.name}: {k}-th dimension of {a} must be fixed to {w} but got {h}')
        if State.clib is not None:
            from . import debuglib
            return debuglib.ccall(self, f, sig, params, low, env, arrays, dims)
        m = Machine(State.prog, State.domain, nthreads=State.nthreads, fuel=State.fuel, codec=State.codec)
        argv = []
        post = []
        names = {r.lower(): r for r in sig.ret}
        alias = {}       # the same memory given twice (in-place calls)
        for p, full in zip(params, f.params):
            if p in low:
                a = low[p]
                if a in arrays:
                    arr, orig, inout, ch = arrays[a]
                    key = arr.__array_interface__['data'][0], arr.nbytes
                    if arr.nbytes and key in alias:
                        o, prev = alias[key]
                        if inout and not prev:
                            o.ro = False
                            alias[key] = o, True
                            post.append((arr, orig, o, ch))
                        argv.append(Ptr(o, 0, T('ptr', 8, VOID)))
                        continue
                    o = Obj(a, kind='buffer')
                    o.set_raw(arr.tobytes(order='F'), State.codec)
                    o.ro = not inout
                    alias[key] = o, inout
                    argv.append(Ptr(o, 0, T('ptr', 8, VOID)))
                    if inout:
                        post.append((arr, orig, o, ch))
                    continue
                o = Obj(a, None, 'buffer')
                o.cells[0] = env[a]
                argv.append(Ptr(o, 0, T('ptr', 8, VOID)))
                if p in names:
                    raise EngineError('in/out scalar')
                continue
            if p in names:
                info = sig.info[names[p]]
                if 'array' in info:
                    ch = re.search(r"array\('(.)'\)", info)[1]
                    arr = np.zeros(dims(info), dtype=ch, order='F')
                    o = Obj(p, kind='buffer')
                    o.set_raw(arr.tobytes(order='F'), State.codec)
                    argv.append(Ptr(o, 0, T('ptr', 8, VOID)))
                    post.append((arr, None, o, ch))
                    env['<ret>' + p] = arr
                else:
                    kind = 'float' if 'float' in info else 'int'
                    # f2py initialises output scalars to zero
                    o = Obj(p, None, 'buffer')
                    o.cells[0] = Fraction(0) if kind == 'float' else 0
                    argv.append(Ptr(o, 0, T('ptr', 8, VOID)))
                    env['<ret>' + p] = (o, kind)
                continue
            raise EngineError(f'{self.name}: parameter {p} without a value')
        State.calls += 1
        if len(State.trace) < 50:
            State.trace.append(self.name)
        try:
            res = m.call(f, argv)
        finally:
            State.functions |= m.functions
            State.steps += m.steps
        for arr, orig, o, ch in post:
            self.writeback(arr, orig, o, ch)
        out = []
        for r in sig.ret:
            k = '<ret>' + r.lower()
            if k in env:
                v = env[k]
            else:      # function result
                v = (res, 'float' if 'float' in sig.info[r] else 'int')
            if isinstance(v, tuple):
                v = self.scalar_out(v[0].cells[0] if isinstance(v[0], Obj) else v[0], v[1])
            out.append(v)
        if not out:
            return None
        return out[0] if len(out) == 1 else tuple(out)

    def scalar_out(self, v, kind):
        if v is UNDEF:
            X.ctx().check(False, 'undefined result', self.name)
            raise X.PathAbort()
        if kind == 'float':
            return sym.SymReal(v) if State.symbolic_results else State.codec.enc(v)
        if isinstance(v, bool):
            return int(v)
        if is_sym(v):
            if v.sort_kind() == z3.Z3_BOOL_SORT:
                return int(X.ctx().branch(v))
            return X.ctx().concretize(v)
        return int(v)

    def convert(self, a, info, v):
        ch = re.search(r"array\('(.)'\)", info)[1]
        inout = info.startswith('in/output')
        dt = np.dtype(ch)
        if inout:
            if not isinstance(v, np.ndarray):
                raise F2pyError(f'{self.name}: {a}: argument must be an array')
            if v.dtype.itemsize != dt.itemsize or v.dtype.kind not in (
                    {'f': 'f', 'i': 'ib'}[dt.kind]):
                raise F2pyError(f'{self.name}: failed to initialize intent(inout) array {a} '
                                f'-- input {v.dtype} not {dt}')
            if not (v.flags.f_contiguous or (v.ndim == 1 and v.flags.c_contiguous)):
                raise F2pyError(f'{self.name}: intent(inout) array {a} must be contiguous')
            return v, v, True, ch
        if isinstance(v, np.ndarray) and v.dtype == object:
            w = np.empty(v.shape, dt, order='F')
            for i in np.ndindex(*v.shape):
                w[i] = float(v[i]) if dt.kind == 'f' else int(v[i])
            v = w
        elif isinstance(v, sym.SymReal):
            v = np.array(float(v), dt)
        with np.errstate(all='ignore'):
            arr = np.asarray(v).astype(dt, order='F', copy=False)
        # the matrix of the polygon integration is intent(inout) in Fortran but intent(in) for f2py: the writes reach the
        # argument when it is passed without a copy
        visible = self.name.startswith('matrix_polygon_integration') and a == 'matrix' and np.may_share_memory(arr, v)
        return arr, None, visible, ch

    def writeback(self, arr, orig, o, ch):
        kind, size = CH[ch]
        et = REAL[size] if kind == 'real' else INT[size]
        buf = bytearray(o.raw)
        for off, v in o.cells.items():
            t = o.wt.get(off)
            if t is None:
                if ch == 'b':
                    raise EngineError('untyped cell in a byte buffer')
                t = et
            if v is UNDEF:
                X.ctx().check(False, 'undefined value stored in an argument', f'{self.name} {o.name}+{off}')
                raise X.PathAbort()
            b = State.codec.encode(v, t)
            buf[off:off + len(b)] = b
        new = np.frombuffer(bytes(buf), dtype=arr.dtype).reshape(arr.shape, order='F')
        tgt = orig if orig is not None else arr
        if tgt.shape != new.shape:
            new = new.reshape(tgt.shape, order='F')
        tgt[...] = new


State.symbolic_results = False


class ShimModule(types.ModuleType):
    pass


def install(prog, codec):
    """Swap the real compiled module for the shim in every loaded pysimulators module."""
    import pysimulators._flib as real
    if isinstance(real, ShimModule):
        State.prog, State.codec = prog, codec
        return
    import pkgutil
    import importlib
    import pysimulators
    State.prog, State.codec = prog, codec
    top = ShimModule('pysimulators._flib')
    top.__file__ = getattr(real, '__file__', None)
    swap = {id(real): top}
    keep = [real]
    for n in dir(real):
        sub = getattr(real, n)
        if n.startswith('_') or not type(sub).__name__ == 'fortran':
            continue
        sm = ShimModule('pysimulators._flib.' + n)
        swap[id(sub)] = sm
        keep.append(sub)
        for k in dir(sub):
            fn = getattr(sub, k)
            if k.startswith('_') or not callable(fn):
                continue
            sf = ShimFunction(n, k, fn)
            setattr(sm, k, sf)
            swap[id(fn)] = sf
            keep.append(fn)
        setattr(top, n, sm)
    State.real = keep
    sys.modules['pysimulators._flib'] = top
    pysimulators._flib = top
    for name, mod in list(sys.modules.items()):
        if name == 'pysimulators' or name.startswith('pysimulators.'):
            for k, v in list(vars(mod).items()) if mod is not top else ():
                if id(v) in swap:
                    setattr(mod, k, swap[id(v)])
