"""Interpreter of parsed GIMPLE over symbolic values (see gimple.py)."""
import math
from fractions import Fraction

from . import explore as X
from .domains import RealDomain, is_nan, NAN
from .explore import EngineError, PathAbort, is_sym
from .gimple import (CHAR, INT, LAZY, LOGICAL, REAL, UNDEF, VOID, FnRef, Func, Obj, P, Program, Ptr, T,
                     Undef, desc_type, parse_type)

z3 = X.z3

ATOMIC_LOADS = ('__atomic_load_', '__atomic_exchange_')


class Access:
    __slots__ = ('tid', 'write', 'locks', 'fn')

    def __init__(self, tid, write, locks, fn):
        self.tid, self.write, self.locks, self.fn = tid, write, locks, fn


class ThreadCtx:
    def __init__(self, tid, n):
        self.tid, self.n = tid, n
        self.locks = []
        self.single_seen = 0


class Region:
    def __init__(self, n):
        self.n = n
        self.log = {}       # (obj, off) -> {(tid, write, locks)}
        self.single = {}


class Machine:
    def __init__(self, prog: Program, dom=None, nthreads=1, per_iteration=True, fuel=3_000_000, codec=None):
        self.prog = prog
        self.dom = dom or RealDomain()
        self.nthreads = nthreads
        self.threads = []        # stack of ThreadCtx (innermost last)
        self.region = None
        self.globals = {}
        self.consts = {}
        self.fuel = fuel
        self.steps = 0
        self.functions = set()
        self.cur = None
        self.codec = codec
        self.race_free = True
        self.regions = 0
        self.heap_n = 0
        self.lib = {}

    # ------------------------------------------------------------------ harness API
    def buffer(self, name, elemtypes, values, ro=False):
        """A buffer of consecutive cells: elemtypes = list of T, values = list."""
        o = Obj(name, kind='buffer')
        off = 0
        for t, v in zip(elemtypes, values):
            if v is not None:
                o.cells[off] = v
            off += t.size
        o.size = off
        o.ro = ro
        return o

    def array(self, name, t, values, ro=False):
        o = self.buffer(name, [t] * len(values), values, ro)
        o.size = t.size * len(values)
        return Ptr(o, 0, T('ptr', 8, T('array', None, t)))

    def scalar(self, t, v, name='scalar'):
        o = Obj(name, t.size, 'buffer')
        if v is not None:
            o.cells[0] = v
        return Ptr(o, 0, T('ptr', 8, t))

    def read(self, p, t, n, start=0):
        return [p.obj.cells.get(p.off + t.size * (start + i), UNDEF) for i in range(n)]

    def call(self, name, args):
        g = self.exec_fn(self.prog.find(name) if isinstance(name, str) else name, list(args))
        try:
            while True:
                ev = next(g)
                if ev[0] != 'barrier':
                    raise EngineError(f'event {ev} outside a parallel region')
        except StopIteration as e:
            return e.value

    # ------------------------------------------------------------------ errors
    def fail(self, label, detail=''):
        """An error reached on this (feasible) path."""
        X.ctx().check(False, label, f'{detail} in {self.cur.asm if self.cur else "?"}')
        raise PathAbort()

    # ------------------------------------------------------------------ memory
    def log(self, obj, off, write, atomic=False, value=None):
        if self.region is None or obj.kind == 'const':
            return
        th = self.threads[-1]
        locks = frozenset(th.locks) | ({'<atomic>'} if atomic else frozenset())
        key = (id(obj), off)
        d = self.region.log.get(key)
        if d is None:
            d = self.region.log[key] = (obj, set())
        # (constant) value written: threads writing the same constant do not conflict
        if value is not None and (not isinstance(value, (bool, int, Fraction)) or atomic):
            value = None
        d[1].add((th.tid, write, locks, self.cur.asm, value))

    def check_races(self):
        r = self.region
        for (oid, off), (obj, accs) in r.log.items():
            if len({a[0] for a in accs}) < 2 or not any(a[1] for a in accs):
                continue
            accs = list(accs)
            for i, a in enumerate(accs):
                for b in accs[i + 1:]:
                    if a[0] != b[0] and (a[1] or b[1]) and not (a[2] & b[2]) and not (
                            a[1] and b[1] and a[4] is not None and a[4] == b[4]):
                        self.race_free = False
                        X.ctx().check(False, 'race', f'{obj.name}+{off} between threads '
                                      f'{a[0]} and {b[0]} in {a[3]}')
                        raise PathAbort()
        r.log = {}

    def load(self, obj, off, t, atomic=False):
        if obj.freed:
            self.fail('use after free', obj.name)
        if obj.size is not None and isinstance(off, int):
            sz = t.size or 1
            if off < 0 or off + sz > obj.size:
                self.fail('out-of-bounds read', f'{obj.name} offset {off} size {obj.size}')
        if self.region is not None:
            self.log(obj, off, False, atomic)
        v = obj.cells.get(off, UNDEF)
        if obj.raw is not None and isinstance(off, int) and t.k != 'lazy':
            if v is not UNDEF:
                wt = obj.wt.get(off)
                if wt is not None and wt.k in ('int', 'real') and t.k in ('int', 'real') and \
                        (wt.k, wt.size) != (t.k, t.size) and not (
                            wt.size == t.size and self.dom.isreal(v)):
                    raise EngineError(f'type punning of {obj.name}+{off}: {wt} read as {t}')
                return v != 0 if t.k == 'logical' and type(v) is int else v
            n = t.size or 1
            if all(obj.valid[off:off + n]):
                return obj.codec.decode(bytes(obj.raw[off:off + n]), t)
        if v is UNDEF:
            if obj.zeros is not None and self._zeroed(obj, off):
                return self.zero(t)
            if obj.kind == 'buffer' and obj.cells and isinstance(off, int):
                # a partially overlapping cell means that layouts disagree
                for d in range(1, 8):
                    if off - d in obj.cells and self._cellsize(obj, off - d) > d:
                        raise EngineError(f'misaligned access to {obj.name}+{off}')
        return v != 0 if t.k == 'logical' and type(v) is int else v

    def _cellsize(self, obj, off):
        return 1

    def _zeroed(self, obj, off):
        for z in obj.zeros:
            if z is True:
                return True
            if isinstance(z, tuple) and z and z[0] == 'range':
                if isinstance(off, int) and z[1] <= off < z[2]:
                    return True
            elif isinstance(off, tuple) and off[:len(z)] == z:
                return True
        return False

    def zero(self, t):
        if t is None:
            return 0
        if t.k == 'real':
            return self.dom.const(Fraction(0), t.size)
        if t.k == 'logical':
            return False
        if t.k == 'ptr':
            return None
        return 0

    def store(self, obj, off, v, t, atomic=False):
        if obj.freed:
            self.fail('use after free', obj.name)
        if obj.size is not None and isinstance(off, int):
            sz = (t.size if t is not None else 1) or 1
            if off < 0 or off + sz > obj.size:
                self.fail('out-of-bounds write', f'{obj.name} offset {off} size {obj.size}')
        if obj.ro or obj.kind == 'const':
            self.fail('write to an intent(in) argument', obj.name)
        if self.region is not None:
            self.log(obj, off, True, atomic, v)
        obj.cells[off] = v
        if obj.raw is not None and isinstance(off, int):
            if t is not None and t.k != 'lazy':
                obj.wt[off] = t
                obj.valid[off:off + (t.size or 1)] = bytes(t.size or 1)
            else:
                obj.wt.pop(off, None)
                obj.valid[off] = 0

    # ------------------------------------------------------------------ ints
    def wrap(self, v, t):
        if t is None or t.k != 'int':
            return v
        bits = 8 * t.size
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            if t.signed:
                v &= (1 << bits) - 1
                return v - (1 << bits) if v >> (bits - 1) else v
            return v & ((1 << bits) - 1)
        if is_sym(v) and v.sort_kind() == z3.Z3_INT_SORT:
            c = X.ctx()
            if t.signed:
                c.side.append((z3.And(v >= -(1 << (bits - 1)), v < (1 << (bits - 1))),
                               f'int{bits} overflow in {self.cur.asm}'))
            else:
                # unsigned arithmetic is modular: decide the wrap by forking
                if c.branch(v < 0):
                    return v + (1 << bits)
        return v

    def toint(self, v):
        """Booleans to 0/1."""
        if isinstance(v, bool):
            return int(v)
        if is_sym(v) and v.sort_kind() == z3.Z3_BOOL_SORT:
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v

    def tobool(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return v != 0
        if is_sym(v) and v.sort_kind() == z3.Z3_BOOL_SORT:
            return v
        if is_sym(v):
            return v != 0
        raise EngineError(f'truth value of {v!r}')

    # ------------------------------------------------------------------ execution
    def exec_fn(self, f: Func, args):
        f.parse()
        self.functions.add(f.asm)
        if len(args) != len(f.params):
            raise EngineError(f'{f.asm}: {len(args)} arguments for {len(f.params)}')
        frame = Frame(f)
        for p, a in zip(f.params, args):
            if isinstance(a, Ptr) and a.t is not None:
                t = f.types.get(p)
                if a.t.sub is VOID or (t is not None and t.k == 'ptr' and t.sub.k == 'array'):
                    a = self.conv(a, t)
            frame.vars[p] = a
        prev = self.cur
        self.cur = f
        bb = f.order[0]
        try:
            while True:
                stmts = f.blocks[bb]
                nxt = None
                i = 0
                while i < len(stmts):
                    st = stmts[i]
                    if st[0] == 'raw':
                        st = stmts[i] = f.stmt(st[1])
                    i += 1
                    self.steps += 1
                    if self.steps > self.fuel:
                        raise EngineError('step bound hit (unwinding)')
                    op = st[0]
                    if op == 'set':
                        self.assign(frame, st[1], st[2])
                    elif op == 'call':
                        call = st[2]
                        name = call[1]
                        if name in BUILTINS_GEN or name.startswith('.') or self.is_builtin(name):
                            r = yield from self.builtin(frame, name, call[2], st[1])
                        else:
                            fn = self.prog.find(name, f.unit)
                            if fn.asm in self.lib:
                                r = self.lib[fn.asm](self, [self.ev(frame, a) for a in call[2]])
                            else:
                                r = yield from self.exec_fn(fn, [self.ev(frame, a) for a in call[2]])
                            self.cur = f
                        if st[1] is not None:
                            self.set_lhs(frame, st[1], r)
                    elif op == 'if':
                        c = self.tobool(self.ev_cond(frame, st[1]))
                        nxt = st[2] if X.ctx().branch(c) else st[3]
                        break
                    elif op == 'goto':
                        nxt = st[1]
                        break
                    elif op == 'return':
                        if st[1] is None:
                            return None
                        return self.ev(frame, st[1])
                    elif op == 'switch':
                        nxt = self.do_switch(frame, st)
                        break
                if nxt is None:
                    nxt = f.next.get(bb)
                    if nxt is None:
                        return None
                bb = nxt
        finally:
            self.cur = prev

    def do_switch(self, frame, st):
        import re
        v = self.ev(frame, st[1])
        default = None
        for part in st[2].split(', '):
            m = re.match(r'(default|case (-?\d+)(?: \.\.\. (-?\d+))?): <(?:bb )?(\w+)>', part.strip())
            if not m:
                raise EngineError(f'switch {st[2]}')
            tgt = m[4]
            if not tgt.isdigit():
                raise EngineError(f'switch label {tgt}')
            if m[1] == 'default':
                default = int(tgt)
                continue
            lo = int(m[2])
            hi = int(m[3]) if m[3] else lo
            c = z3.And(v >= lo, v <= hi) if is_sym(v) else lo <= v <= hi
            if X.ctx().branch(c):
                return int(tgt)
        return default

    def assign(self, frame, lhs, rhs):
        k = rhs[0]
        if k == 'clobber':
            return
        if k == 'zero':
            obj, off, t = self.lval(frame, lhs)
            if t.k in ('int', 'real', 'logical', 'ptr'):
                self.store(obj, off, self.zero(t), t)
                return
            if obj.raw is not None:
                self.memset(Ptr(obj, off), 0, self.sizeof(t))
                return
            obj.zeros = obj.zeros or []
            if off == 0:
                obj.cells = {}
                obj.zeros = [True]
            elif isinstance(off, tuple):
                obj.zeros.append(off)
                for kk in [q for q in obj.cells if isinstance(q, tuple) and q[:len(off)] == off]:
                    del obj.cells[kk]
            else:
                n = self.sizeof(t)
                for kk in [q for q in obj.cells if isinstance(q, int) and off <= q < off + n]:
                    del obj.cells[kk]
                obj.zeros.append(('range', off, off + n))
            return
        if k == 'list':
            obj, off, t = self.lval(frame, lhs)
            if t.k == 'complex':
                raise EngineError('complex constructor')
            es = self.sizeof(t.sub)
            for i, it in enumerate(rhs[1]):
                self.store(obj, off + i * es, self.conv(self.ev(frame, it), t.sub), t.sub)
            return
        # fast path for plain variables
        if rhs[0] in ('var', 'deref', 'fld', 'idx', 'mem') and not (
                rhs[0] == 'var' and rhs[1] in frame.vars):
            # possibly an aggregate copy
            lt = self.type_of_lhs(frame, lhs)
            if lt is not None and lt.k in ('struct', 'array', 'lazy'):
                so, soff, stp = self.lval(frame, rhs)
                do, doff, dtp = self.lval(frame, lhs)
                if dtp.k == 'lazy' and stp.k not in ('struct', 'array', 'lazy'):
                    v = self.ev(frame, rhs)
                    self.store(do, doff, v, stp)
                    return
                if not (dtp.k == 'lazy' and self._is_leaf(so, soff)):
                    self.copy_agg(so, soff, stp, do, doff, dtp)
                    return
        v = self.ev_rhs(frame, rhs, lhs)
        self.set_lhs(frame, lhs, v)

    def _is_leaf(self, obj, off):
        return off in obj.cells

    def copy_agg(self, so, soff, st, do, doff, dt):
        if isinstance(soff, tuple) or isinstance(doff, tuple) or so.size is None:
            sp = soff if isinstance(soff, tuple) else ((soff,) if soff else None)
            # copy by prefix
            items = []
            for k, v in list(so.cells.items()):
                if sp is None:
                    items.append((k, v))
                elif isinstance(k, tuple) and k[:len(sp)] == sp:
                    items.append((k[len(sp):], v))
            dp = doff if isinstance(doff, tuple) else ()
            for k, v in items:
                kk = (dp + (k if isinstance(k, tuple) else (k,))) if dp else k
                self.store(do, kk, v, None)
            if so.zeros:
                do.zeros = (do.zeros or []) + [z for z in so.zeros]
            return
        n = self.sizeof(dt) or self.sizeof(st)
        if not n:
            raise EngineError('aggregate copy of unknown size')
        self.memmove(Ptr(do, doff), Ptr(so, soff), n)

    def type_of_lhs(self, frame, lhs):
        if lhs[0] == 'var':
            t = frame.f.types.get(lhs[1])
            return t
        try:
            return self.lval(frame, lhs)[2]
        except KeyError:
            return None

    def set_lhs(self, frame, lhs, v):
        if lhs[0] == 'var':
            name = lhs[1]
            t = frame.f.types.get(name)
            if name in frame.objs:
                o = frame.objs[name]
                self.store(o, 0, self.conv(v, t), t)
                return
            if name in frame.f.statics or (t is None and not _is_temp(name)):
                o, off, t = self.lval(frame, lhs)
                self.store(o, off, self.conv(v, t), t)
                return
            frame.vars[name] = self.conv(v, t) if t is not None else v
            return
        obj, off, t = self.lval(frame, lhs)
        while t is not None and t.k == 'array' and t.sub is not None:
            t = t.sub
        self.store(obj, off, self.conv(v, t), t)

    def conv(self, v, t):
        """Value stored in a place of type t."""
        if t is None:
            return v
        if t.k == 'logical':
            if v is UNDEF:
                return v
            return self.tobool(v) if not isinstance(v, Ptr) else v
        if t.k == 'int':
            if isinstance(v, bool) or (is_sym(v) and v.sort_kind() == z3.Z3_BOOL_SORT):
                return self.toint(v)
            if isinstance(v, int):
                return self.wrap(v, t)
            return v
        if t.k == 'ptr' and isinstance(v, Ptr):
            if v.t is None or t.sub.k not in ('void', 'lazy'):
                return Ptr(v.obj, v.off, t)
            return v
        return v

    # -- variables as objects (address taken) ---------------------------------
    def var_obj(self, frame, name):
        o = frame.objs.get(name)
        if o is not None:
            return o
        t = frame.f.types.get(name)
        if name in frame.f.statics or t is None:
            return self.global_obj(frame, name)
        o = Obj(name, kind='local')
        n = self.sizeof(t)
        if n:
            o.size = n
        frame.objs[name] = o
        if name in frame.vars:
            o.cells[0] = frame.vars.pop(name)
        return o

    def global_obj(self, frame, name):
        import re
        st = frame.f.statics.get(name)
        key = (frame.f.unit, name)
        if st is not None and st[1] is None:
            base = re.sub(r'D\.\d+$', '', name)
            key = (frame.f.unit, base)
        elif st is None:
            base = re.sub(r'D\.\d+$', '', name)
            key = ('', base)
        o = self.globals.get(key)
        if o is None:
            o = Obj(key[1], kind='global')
            self.globals[key] = o
            if st is not None and st[1] is not None:
                self.init_static(frame, o, st[0], st[1])
                if name.startswith('A.') or name.startswith('C.'):
                    o.kind = 'const'
        return o

    def init_static(self, frame, o, t, init):
        if init[0] == 'list':
            es = self.sizeof(t.sub)
            for i, it in enumerate(init[1]):
                o.cells[i * es] = self.conv(self.ev(frame, it), t.sub)
            o.size = es * len(init[1])
        elif init[0] == 'str':
            for i, ch in enumerate(init[1]):
                o.cells[i] = ord(ch)
        elif init[0] == 'zero':
            o.zeros = [True]
        else:
            o.cells[0] = self.conv(self.ev(frame, init), t)

    # -- sizes ------------------------------------------------------------------
    def sizeof(self, t):
        if t is None:
            return None
        if t.k == 'array':
            s = self.sizeof(t.sub)
            return s * t.n if s and t.n is not None else None
        if t.k == 'struct':
            l = self.prog.layout(t.name)
            return l[0] if l else None
        return t.size

    # -- lvalues ----------------------------------------------------------------
    def lval(self, frame, e):
        """-> (obj, off, type)"""
        k = e[0]
        if k == 'var':
            name = e[1]
            t = frame.f.types.get(name)
            o = self.var_obj(frame, name)
            return o, 0, t or LAZY
        if k == 'deref':
            p = self.ev(frame, e[1])
            return self.deref(p)
        if k == 'mem':
            p = self.ev(frame, e[2])
            if isinstance(p, Ptr):
                off = p.off + e[3] if e[3] else p.off
                return p.obj, off, e[1] or (p.t.sub if p.t else LAZY)
            return self.deref(p)
        if k == 'idx':
            o, off, t = self.lval(frame, e[1])
            i = self.ev(frame, e[2])
            lb = self.ev(frame, e[3]) if e[3] is not None else None
            if t.k == 'array':
                es = self.sizeof(t.sub)
                b = lb if lb is not None else t.lb
                if es:
                    d = i - b if not (isinstance(b, int) and b == 0) else i
                    if not isinstance(off, tuple):
                        noff = self.addoff(off, d, es)
                        return o, noff, t.sub
                    d = X.ctx().concretize(d) if is_sym(d) else d
                    return o, (off + (('i', d),) if d or True else off), t.sub
                d = X.ctx().concretize(i) if is_sym(i) else i
                return o, _tup(off) + (('i', d),), t.sub
            if t.k in ('lazy', 'opaque', 'struct'):
                d = X.ctx().concretize(i) if is_sym(i) else i
                return o, _tup(off) + (('i', d),), LAZY
            raise EngineError(f'indexing a {t}')
        if k == 'fld':
            o, off, t = self.lval(frame, e[1])
            if t.k == 'struct':
                l = self.prog.layout(t.name)
                if l is not None and e[2].lower() in l[1]:
                    fo, fd = l[1][e[2].lower()]
                    if isinstance(off, tuple):
                        return o, off + (('f', e[2]),), desc_type(fd)
                    return o, off + fo, desc_type(fd)
            return o, _tup(off) + (('f', e[2]),), LAZY
        if k == 'cast':
            return self.lval(frame, e[2])
        if k == 'view':
            o, off, t = self.lval(frame, e[2])
            return o, off, e[1]
        if k == 'str':
            o = self.const_str(e[1])
            return o, 0, T('array', None, CHAR, len(e[1]), 1)
        if k == 'addr':
            raise EngineError('lvalue of an address')
        if k == 'bi' and e[1] in ('REALPART_EXPR', 'IMAGPART_EXPR'):
            o, off, t = self.lval(frame, e[2][0])
            return o, off + (0 if e[1][0] == 'R' else t.size // 2), REAL.get(t.size // 2)
        raise EngineError(f'lvalue {e!r}')

    def addoff(self, off, d, es):
        if is_sym(d):
            d = X.ctx().concretize(d)
        return off + d * es

    def const_str(self, s):
        o = self.consts.get(s)
        if o is None:
            o = Obj(repr(s), kind='const')
            for i, ch in enumerate(s):
                o.cells[i] = ord(ch)
            self.consts[s] = o
        return o

    def deref(self, p):
        if p is None:
            self.fail('null pointer dereference')
        if p is UNDEF:
            self.fail('dereference of an undefined pointer')
        if not isinstance(p, Ptr):
            raise EngineError(f'dereference of {p!r}')
        return p.obj, p.off, (p.t.sub if p.t is not None and p.t.k == 'ptr' else LAZY)

    # -- rvalues ------------------------------------------------------------------
    def ev_cond(self, frame, e):
        return self.ev_rhs(frame, e, None)

    def ev_rhs(self, frame, e, lhs):
        if e[0] == 'bin':
            lt = None
            if lhs is not None and lhs[0] == 'var':
                lt = frame.f.types.get(lhs[1])
            return self.binop(frame, e, lt)
        return self.ev(frame, e)

    def ev(self, frame, e):
        k = e[0]
        if k == 'var':
            name = e[1]
            v = frame.vars.get(name, frame)
            if v is not frame:
                return v
            o = frame.objs.get(name)
            t = frame.f.types.get(name)
            if o is None and t is not None and name not in frame.f.statics:
                if t.k in ('struct', 'array'):
                    raise EngineError(f'aggregate value {name}')
                return UNDEF
            if o is None:
                if t is None:
                    base = name.rsplit('D.', 1)[0]
                    if base in self.prog.funcs:
                        return FnRef(base)
                o = self.global_obj(frame, name)
            return self.load(o, 0, t or LAZY)
        if k == 'const':
            return e[1]
        if k == 'rconst':
            return self.dom.const(e[1], 8)
        if k == 'null':
            return None
        if k in ('deref', 'idx', 'fld', 'mem'):
            o, off, t = self.lval(frame, e)
            while t.k == 'array' and t.sub is not None:
                t = t.sub
            return self.load(o, off, t)
        if k == 'addr':
            if e[1][0] == 'var' and e[1][1] not in frame.f.types:
                nm = e[1][1]
                import re
                base = re.sub(r'D\.\d+$', '', nm)
                if base not in self.prog.funcs and nm in self.prog.funcs:
                    base = nm
                if base in self.prog.funcs:
                    return FnRef(base)
            o, off, t = self.lval(frame, e[1])
            return Ptr(o, off, T('ptr', 8, t))
        if k == 'cast':
            return self.cast(self.ev(frame, e[2]), e[1])
        if k == 'view':
            return self.view(self.ev(frame, e[2]), e[1])
        if k == 'un':
            return self.unop(e[1], self.ev(frame, e[2]))
        if k == 'bin':
            return self.binop(frame, e, None)
        if k == 'bi':
            return self.bi(frame, e)
        if k == 'cond':
            c = self.tobool(self.ev(frame, e[1]))
            return self.ev(frame, e[2] if X.ctx().branch(c) else e[3])
        if k == 'str':
            return Ptr(self.const_str(e[1]), 0, T('ptr', 8, CHAR))
        raise EngineError(f'expression {e!r}')

    def cast(self, v, t):
        if v is UNDEF:
            return v
        if t.k == 'ptr':
            if isinstance(v, Ptr):
                return Ptr(v.obj, v.off, t)
            if v is None or v == 0:
                return None
            return v
        if t.k == 'int':
            if isinstance(v, Ptr) or v is None:
                return v       # pointer as integer
            if self.dom.isreal(v):
                r = self.dom.trunc(v)
                return self.wrap(r, t)
            v = self.toint(v)
            return self.wrap(v, t)
        if t.k == 'real':
            if self.dom.isreal(v):
                return self.dom.convert(v, t.size)
            return self.dom.from_int(self.toint(v), t.size)
        if t.k == 'logical':
            return self.tobool(v)
        if t.k == 'char':
            return self.wrap(v, INT[1]) if not is_sym(v) else v
        raise EngineError(f'cast to {t}')

    def view(self, v, t):
        # reinterpretation of the same cell (atomics): symbolic values are carried unchanged,
        # bits read from the caller's memory are decoded
        if v is UNDEF or t is None:
            return v
        if t.k == 'real' and isinstance(v, int) and not isinstance(v, bool) and self.codec is not None:
            return self.codec.decode((v % (1 << (8 * t.size))).to_bytes(t.size, 'little'), t)
        return v

    def undef_use(self):
        self.fail('use of an undefined value')

    def unop(self, op, v):
        if v is UNDEF:
            self.undef_use()
        if op == '-':
            if self.dom.isreal(v):
                return self.dom.neg(v)
            return -v
        if op == '!':
            v = self.tobool(v)
            return (not v) if isinstance(v, bool) else z3.Not(v)
        if op == '~':
            if isinstance(v, bool):
                return not v
            if is_sym(v) and v.sort_kind() == z3.Z3_BOOL_SORT:
                return z3.Not(v)
            return -v - 1
        raise EngineError(op)

    def binop(self, frame, e, lt):
        op = e[1]
        a = self.ev(frame, e[2])
        b = self.ev(frame, e[3])
        return self.arith(op, a, b, lt)

    def arith(self, op, a, b, lt=None):
        if a is UNDEF or b is UNDEF:
            self.undef_use()
        if isinstance(a, Ptr) or isinstance(b, Ptr) or a is None or b is None:
            return self.ptrop(op, a, b)
        ra, rb = self.dom.isreal(a), self.dom.isreal(b)
        if ra or rb:
            if not (ra and rb):
                raise EngineError(f'mixed operands {a!r} {op} {b!r}')
            if op == '+':
                return self.dom.add(a, b)
            if op == '-':
                return self.dom.sub(a, b)
            if op == '*':
                return self.dom.mul(a, b)
            if op == '/':
                return self.dom.div(a, b)
            return self.dom.cmp(op, a, b)
        # booleans
        ba = isinstance(a, bool) or (is_sym(a) and a.sort_kind() == z3.Z3_BOOL_SORT)
        bb = isinstance(b, bool) or (is_sym(b) and b.sort_kind() == z3.Z3_BOOL_SORT)
        if op in ('&', '|', '^') and (ba or bb):
            a, b = self.tobool(a), self.tobool(b)
            if isinstance(a, bool) and isinstance(b, bool):
                return (a and b) if op == '&' else (a or b) if op == '|' else (a != b)
            if isinstance(a, bool):
                a, b = b, a
            if isinstance(b, bool):
                if op == '&':
                    return a if b else False
                if op == '|':
                    return True if b else a
                return z3.Not(a) if b else a
            return z3.And(a, b) if op == '&' else z3.Or(a, b) if op == '|' else z3.Xor(a, b)
        if ba and bb and op in ('==', '!='):
            if isinstance(a, bool) and isinstance(b, bool):
                return (a == b) if op == '==' else (a != b)
            r = X.z3.BoolVal(a) == b if isinstance(a, bool) else a == b
            return r if op == '==' else z3.Not(r)
        if ba and isinstance(b, int) and b == 0 and op in ('!=', '=='):
            return a if op == '!=' else self.unop('!', a)
        a, b = self.toint(a), self.toint(b)
        if op == '+':
            return self.wrap(a + b, lt)
        if op == '-':
            return self.wrap(a - b, lt)
        if op == '*':
            return self.wrap(a * b, lt)
        if op in ('/', '/[ex]'):
            self.nonzero(b)
            if not is_sym(a) and not is_sym(b):
                q = abs(a) // abs(b)
                return q if (a >= 0) == (b >= 0) else -q
            return self.tdiv(a, b)
        if op == '%':
            self.nonzero(b)
            if not is_sym(a) and not is_sym(b):
                return int(math.fmod(a, b)) if abs(a) < 2 ** 50 else a - b * self.arith('/', a, b)
            return a - b * self.tdiv(a, b)
        if op in ('/[fl]', '%[fl]'):
            self.nonzero(b)
            if not is_sym(a) and not is_sym(b):
                return a // b if op[0] == '/' else a % b
            if X.ctx().branch(b > 0):
                q = X.z3.IntVal(0) + (a / b if is_sym(a) else z3.IntVal(a) / b)
                return q if op[0] == '/' else a - b * q
            raise EngineError('floor division by a negative symbolic value')
        if op in ('==', '!=', '<', '<=', '>', '>='):
            return {'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b,
                    '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b}[op]()
        if op in ('&', '|', '^', '<<', '>>'):
            if is_sym(a) or is_sym(b):
                raise EngineError('bitwise operation on symbolic integers')
            r = {'&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b,
                 '<<': lambda: a << b, '>>': lambda: a >> b}[op]()
            return self.wrap(r, lt)
        raise EngineError(f'operator {op}')

    def nonzero(self, b):
        z = X.ctx().branch(b == 0) if is_sym(b) else b == 0
        if z:
            self.fail('integer division by zero')

    def tdiv(self, a, b):
        a = a if is_sym(a) else z3.IntVal(a)
        c = X.ctx()
        b = b if is_sym(b) else z3.IntVal(b)
        if c.branch(b < 0):
            if c.branch(a >= 0):
                return -(a / -b)
            return (-a) / (-b)
        if c.branch(a >= 0):
            return a / b
        return -((-a) / b)

    def ptrop(self, op, a, b):
        if op in ('==', '!='):
            def nrm(x):
                return None if x == 0 and not isinstance(x, Ptr) else x
            a, b = (None if isinstance(x, int) and x == 0 else x for x in (a, b))
            if a is None or b is None:
                eq = a is b
            else:
                eq = a.obj is b.obj and a.off == b.off
            return eq if op == '==' else not eq
        if op == '+' and isinstance(a, Ptr):
            if is_sym(b):
                b = X.ctx().concretize(b)
            if b >= 1 << 63:
                b -= 1 << 64
            if isinstance(a.off, tuple):
                if b == 0:
                    return a
                raise EngineError('pointer arithmetic on a lazy object')
            return Ptr(a.obj, a.off + b, a.t)
        if op == '-' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
            return a.off - b.off
        if op == '-' and isinstance(a, Ptr) and isinstance(b, int):
            return Ptr(a.obj, a.off - b, a.t)
        if op in ('<', '<=', '>', '>=') and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
            return {'<': a.off < b.off, '<=': a.off <= b.off, '>': a.off > b.off, '>=': a.off >= b.off}[op]
        raise EngineError(f'pointer operation {a} {op} {b}')

    def bi(self, frame, e):
        nm = e[1]
        args = [self.ev(frame, a) for a in e[2]]
        if any(a is UNDEF for a in args):
            self.undef_use()
        if nm in ('MAX_EXPR', 'MIN_EXPR'):
            a, b = args
            if self.dom.isreal(a) or self.dom.isreal(b):
                return self.dom.minmax(nm == 'MAX_EXPR', a, b)
            a, b = self.toint(a), self.toint(b)
            if not is_sym(a) and not is_sym(b):
                return max(a, b) if nm == 'MAX_EXPR' else min(a, b)
            c = a >= b if nm == 'MAX_EXPR' else a <= b
            return z3.If(c, _zi(a), _zi(b))
        if nm in ('ABS_EXPR', 'ABSU_EXPR'):
            a, = args
            if self.dom.isreal(a):
                return self.dom.abs(a)
            return z3.If(a >= 0, a, -a) if is_sym(a) else abs(a)
        if nm == 'REALPART_EXPR':
            return args[0][0] if isinstance(args[0], tuple) else args[0]
        if nm == 'IMAGPART_EXPR':
            return args[0][1]
        raise EngineError(nm)

    # ------------------------------------------------------------------ builtins
    def is_builtin(self, name):
        return name not in self.prog.funcs and (
            name in LIBM or name in BUILTINS or name.startswith(('_gfortran_', '__builtin_', '__atomic_', 'GOMP_', 'omp_')))

    def builtin(self, frame, name, argx, lhs):
        c = X.ctx()
        if name.startswith('__builtin_'):
            name = name[10:]
        if name == '.ATOMIC_COMPARE_EXCHANGE':
            p = self.ev(frame, argx[0])
            new = self.ev(frame, argx[2])
            old = self.ev(frame, argx[1])
            o, off, t = self.deref(p)
            self.load(o, off, t, atomic=True)
            self.store(o, off, new, t, atomic=True)
            return (old, 1)
        if name == '.MUL_OVERFLOW':
            a, b = (self.ev(frame, x) for x in argx)
            return (a * b, 0)
        if name in ('GOMP_parallel', 'GOMP_parallel_loop_guided', 'GOMP_parallel_loop_dynamic',
                    'GOMP_parallel_loop_nonmonotonic_guided', 'GOMP_parallel_loop_nonmonotonic_dynamic',
                    'GOMP_parallel_loop_static', 'GOMP_parallel_loop_runtime',
                    'GOMP_parallel_loop_maybe_nonmonotonic_runtime'):
            args = [self.ev(frame, a) for a in argx]
            self.parallel(name, args)
            return None
        args = [self.ev(frame, a) for a in argx]
        if name == 'omp_get_num_threads':
            return self.threads[-1].n if self.threads else 1
        if name == 'omp_get_thread_num':
            return self.threads[-1].tid if self.threads else 0
        if name in ('omp_get_max_threads', 'omp_get_num_procs'):
            return self.nthreads
        if name == 'omp_in_parallel':
            return bool(self.threads)
        if name in ('GOMP_critical_start', 'GOMP_critical_name_start', 'GOMP_atomic_start'):
            if self.threads:
                self.threads[-1].locks.append('atomic-lock' if 'atomic' in name else
                                              'critical' + (str(id(args[0].obj)) if args else ''))
            return None
        if name in ('GOMP_critical_end', 'GOMP_critical_name_end', 'GOMP_atomic_end'):
            if self.threads:
                self.threads[-1].locks.pop()
            return None
        if name == 'GOMP_barrier':
            if self.threads and self.threads[-1].n > 1:
                yield ('barrier',)
            return None
        if name == 'GOMP_single_start':
            th = self.threads[-1] if self.threads else None
            if th is None:
                return True
            k = th.single_seen
            th.single_seen += 1
            if k not in self.region.single:
                self.region.single[k] = th.tid
            return self.region.single[k] == th.tid
        if name.startswith('GOMP_loop_') and name.endswith(('_next', '_start')):
            th = self.threads[-1]
            if name.endswith('_start'):
                start, end, incr = (c.concretize(v) if is_sym(v) else v for v in args[:3])
                th.chunks = [(i, i + incr) for k, i in enumerate(range(start, end, incr)) if k % th.n == th.tid % th.n]
                args = args[-2:]
            q = th.chunks
            if not q:
                return False
            s, e = q.pop(0)
            for p, v in zip(args, (s, e)):
                o, off, t = self.deref(p)
                self.store(o, off, v, t)
            return True
        if name in ('GOMP_loop_end', 'GOMP_loop_end_nowait'):
            if name == 'GOMP_loop_end' and self.threads and self.threads[-1].n > 1:
                yield ('barrier',)
            return None
        if name.startswith('__atomic_load'):
            o, off, t = self.deref(args[0])
            return self.load(o, off, t, atomic=True)
        if name.startswith('__atomic_store'):
            o, off, t = self.deref(args[0])
            self.store(o, off, args[1], t, atomic=True)
            return None
        if name.startswith('__atomic_fetch_add') or name.startswith('__atomic_add_fetch') or \
                name.startswith('__atomic_fetch_sub') or name.startswith('__atomic_fetch_or') or \
                name.startswith('__atomic_or_fetch'):
            o, off, t = self.deref(args[0])
            v = self.load(o, off, t, atomic=True)
            n = self.arith('|' if 'or' in name else '+' if 'add' in name else '-', v, args[1])
            self.store(o, off, n, t, atomic=True)
            return v if 'fetch_' in name else n
        if name == 'malloc':
            n = c.concretize(args[0]) if is_sym(args[0]) else args[0]
            self.heap_n += 1
            o = Obj(f'heap{self.heap_n}', n, 'heap')
            return Ptr(o, 0, T('ptr', 8, VOID))
        if name == 'calloc':
            n = args[0] * args[1]
            self.heap_n += 1
            o = Obj(f'heap{self.heap_n}', n, 'heap')
            o.zeros = [True]
            return Ptr(o, 0, T('ptr', 8, VOID))
        if name == 'realloc':
            p, n = args
            n = c.concretize(n) if is_sym(n) else n
            self.heap_n += 1
            o = Obj(f'heap{self.heap_n}', n, 'heap')
            if p is not None:
                o.cells = {k: v for k, v in p.obj.cells.items() if not isinstance(k, int) or k < n}
                p.obj.freed = True
            return Ptr(o, 0, T('ptr', 8, VOID))
        if name == 'alloca_with_align' or name == 'alloca':
            n = c.concretize(args[0]) if is_sym(args[0]) else args[0]
            return Ptr(Obj('alloca', n, 'local'), 0, T('ptr', 8, VOID))
        if name in ('stack_save', 'stack_restore'):
            return None
        if name == 'free':
            if args[0] is not None:
                if args[0].obj.freed:
                    self.fail('double free')
                args[0].obj.freed = True
            return None
        if name in ('memmove', 'memcpy'):
            self.memmove(args[0], args[1], args[2])
            return args[0]
        if name == 'memset':
            self.memset(args[0], args[1], args[2])
            return args[0]
        if name in ('unreachable',):
            self.fail('unreachable code reached')
        if name in ('iround', 'lround', 'llround', 'iroundf', 'lroundf', 'irint', 'lrint'):
            v = self.dom.nint(args[0])
            t = INT[4] if name.startswith('i') else INT[8]
            return self.wrap(v, t)
        if name in ('ifloor', 'lfloor', 'llfloor', 'ifloorf', 'lfloorf'):
            if isinstance(args[0], float):
                self.fail('conversion of NaN or infinity to an integer')
            return self.wrap(self.dom.floor(args[0]), INT[4] if name[0] == 'i' else INT[8])
        if name in ('iceil', 'lceil', 'llceil', 'iceilf', 'lceilf'):
            if isinstance(args[0], float):
                self.fail('conversion of NaN or infinity to an integer')
            v = self.dom.floor(self.dom.neg(args[0]))
            return self.wrap(-v, INT[4] if name[0] == 'i' else INT[8])
        if name in LIBM:
            if any(a is UNDEF for a in args):
                self.undef_use()
            return self.dom.fn(name, args)
        if name in ('isnan',):
            return self.dom.cmp('unord', args[0], args[0])
        if name == 'expect':
            return args[0]
        if name.startswith('_gfortran_runtime_error') or name.startswith('_gfortran_os_error') or \
                name.startswith('_gfortran_stop') or name.startswith('_gfortran_error_stop'):
            self.fail('fortran runtime error')
        if name.startswith(('_gfortran_st_write', '_gfortran_transfer_')) and 'st_read' not in name:
            return None
        if name == 'memcmp':
            a, b, n = args
            for i in range(n):
                x = self.load(a.obj, a.off + i, CHAR)
                y = self.load(b.obj, b.off + i, CHAR)
                if x != y:
                    return -1 if x < y else 1
            return 0
        if name == '_gfortran_compare_string':
            return self.cmpstr(*args)
        if name in ('_gfortran_internal_pack',):
            raise EngineError('internal_pack')
        raise EngineError(f'builtin {name}')
        yield

    def cmpstr(self, n1, p1, n2, p2):
        g = lambda p, n, i: self.load(p.obj, p.off + i, CHAR) if i < n else 32
        for i in range(max(n1, n2)):
            x, y = g(p1, n1, i), g(p2, n2, i)
            lt = X.ctx().branch(x < y) if (is_sym(x) or is_sym(y)) else x < y
            if lt:
                return -1
            gt = X.ctx().branch(x > y) if (is_sym(x) or is_sym(y)) else x > y
            if gt:
                return 1
        return 0

    def memmove(self, d, s, n):
        c = X.ctx()
        n = c.concretize(n) if is_sym(n) else n
        if n == 0:
            return
        if isinstance(d.off, tuple) or isinstance(s.off, tuple):
            raise EngineError('memmove of a lazy object')
        for p, what in ((s, 'read'), (d, 'write')):
            if p.obj.freed:
                self.fail('use after free')
            if p.obj.size is not None and (p.off < 0 or p.off + n > p.obj.size):
                self.fail(f'out-of-bounds {what}', f'{p.obj.name} offset {p.off}+{n} size {p.obj.size}')
        items = [(k - s.off, v, s.obj.wt.get(k) if s.obj.wt else None) for k, v in s.obj.cells.items()
                 if isinstance(k, int) and s.off <= k < s.off + n]
        src = None
        if s.obj.raw is not None:
            src = bytes(s.obj.raw[s.off:s.off + n]), bytes(s.obj.valid[s.off:s.off + n])
            if self.region is not None:
                for k in range(n):
                    if src[1][k]:
                        self.log(s.obj, s.off + k, False)
        for k in [k for k in d.obj.cells if isinstance(k, int) and d.off <= k < d.off + n]:
            del d.obj.cells[k]
        if s.obj.zeros:
            d.obj.zeros = (d.obj.zeros or []) + [('range', d.off, d.off + n)]
        if src is not None and d.obj.raw is None:
            if d.obj.size is None:
                raise EngineError('copy of raw memory to an object of unknown size')
            d.obj.raw = bytearray(d.obj.size)
            d.obj.valid = bytearray(d.obj.size)
            d.obj.wt = {}
            d.obj.codec = s.obj.codec
        if d.obj.raw is not None:
            if d.obj.ro or d.obj.kind == 'const':
                self.fail('write to an intent(in) argument', d.obj.name)
            for k in [k for k in d.obj.wt if d.off <= k < d.off + n]:
                del d.obj.wt[k]
            d.obj.raw[d.off:d.off + n] = src[0] if src else bytes(n)
            d.obj.valid[d.off:d.off + n] = src[1] if src else bytes(n)
            if src and self.region is not None:
                for k in range(n):
                    if src[1][k]:
                        self.log(d.obj, d.off + k, True)
        for k, v, wt in items:
            if self.region is not None:
                self.log(s.obj, s.off + k, False)
            self.store(d.obj, d.off + k, v, wt)

    def memset(self, d, v, n):
        c = X.ctx()
        n = c.concretize(n) if is_sym(n) else n
        if n == 0:
            return
        if isinstance(d.off, tuple):
            if v == 0:
                d.obj.zeros = (d.obj.zeros or []) + [d.off]
                return
            raise EngineError('memset of a lazy object')
        if d.obj.size is not None and (d.off < 0 or d.off + n > d.obj.size):
            self.fail('out-of-bounds write', f'memset {d.obj.name}')
        if v == 0:
            # zero the typed cells; unknown cells read as zero afterwards
            for k in [k for k in d.obj.cells if isinstance(k, int) and d.off <= k < d.off + n]:
                if self.region is not None:
                    self.log(d.obj, k, True)
                del d.obj.cells[k]
            if d.obj.ro or d.obj.kind == 'const':
                self.fail('write to an intent(in) argument', d.obj.name)
            if d.obj.raw is not None:
                for k in [k for k in d.obj.wt if d.off <= k < d.off + n]:
                    del d.obj.wt[k]
                d.obj.raw[d.off:d.off + n] = bytes(n)
                d.obj.valid[d.off:d.off + n] = b'\1' * n
                if self.region is not None:
                    for k in range(n):
                        self.log(d.obj, d.off + k, True)
                return
            d.obj.zeros = (d.obj.zeros or []) + [('range', d.off, d.off + n)]
            return
        for i in range(n):
            self.store(d.obj, d.off + i, v, CHAR)

    def alias_unnamed(self, f, obj):
        """Unnamed fields of the data record carry different uids in the caller and in
        the outlined function.  GCC chains the fields of the record by decreasing
        alignment, a field being inserted before those of the same alignment, and numbers
        the copies for the outlined function along the chain: so they are matched by
        decreasing size, then in reverse order of creation."""
        import re
        here = sorted({int(m) for l in f.raw for m in re.findall(r'\.omp_data_i(?:D\.\d+)?->D\.(\d+)', l)})
        there = sorted(int(k[0][1][2:]) for k in obj.cells
                       if isinstance(k, tuple) and len(k) == 1 and re.fullmatch(r'D\.\d+', str(k[0][1])))
        if not here or set(here) <= set(there):
            return
        size = {}
        base = f.asm.split('._omp_fn')[0]
        for name, g in self.prog.funcs.items():
            if g is not f and g.asm.split('._omp_fn')[0] != base:
                continue
            for l in g.raw:
                m = (re.match(r'\s*(\S+) = \.omp_data_i(?:D\.\d+)?->(D)\.(\d+);', l) if g is f else
                     re.match(r'\s*(?:\.omp_data_o\S*)\.D\.(\d+) = ([^;]+);', l))
                if not m:
                    continue
                g.parse()
                uid, var = (int(m.group(3)), m.group(1)) if g is f else (int(m.group(1)), m.group(2))
                t = g.types.get(var)
                size[uid] = t.size if t is not None and t.size else 8
        there = sorted(there, key=lambda u: (-size.get(u, 8), -u))
        here = sorted(here, key=lambda u: (-size.get(u, 8), u))
        if len(here) != len(there):
            raise EngineError(f'{f.asm}: cannot match the unnamed fields of the data record')
        if [size.get(u, 8) for u in here] != [size.get(u, 8) for u in there]:
            raise EngineError(f'{f.asm}: cannot match the unnamed fields of the data record')
        for a, b in zip(here, there):
            obj.cells[(('f', f'D.{a}'),)] = obj.cells[(('f', f'D.{b}'),)]

    def parallel(self, name, args):
        fn, data = args[0], args[1]
        if not isinstance(fn, FnRef):
            raise EngineError('parallel region function')
        f = self.prog.funcs[fn.name]
        f.parse()
        n = self.nthreads
        if self.region is not None:
            n = 1
        if isinstance(data, Ptr):
            self.alias_unnamed(f, data.obj)
        self.regions += 1
        chunks = None
        if 'loop' in name:
            start, end, incr = args[3], args[4], args[5]
            start, end = (X.ctx().concretize(v) if is_sym(v) else v for v in (start, end))
            its = list(range(start, end, incr))
            chunks = [[] for _ in range(n)]
            for k, i in enumerate(its):
                chunks[k % n].append((i, i + incr))
        outer = self.region
        r = self.region = Region(n) if outer is None else outer
        gens = []
        for t in range(n):
            th = ThreadCtx(t, n) if outer is None else ThreadCtx(0, 1)
            if outer is not None:
                th.tid = self.threads[-1].tid
                th.locks = list(self.threads[-1].locks)
            if chunks is not None:
                th.chunks = list(chunks[t])
            gens.append((th, self.exec_fn(f, [data] if f.params else [])))
        live = list(gens)
        cur = self.cur
        if outer is not None:
            th, g = gens[0]
            th2 = ThreadCtx(0, 1)
            th2.locks = th.locks
            # nested region: a team of one thread, logged under the outer thread id
            self.threads.append(_Nested(th.tid, th.locks, getattr(th, 'chunks', None)))
            try:
                for ev in g:
                    pass
            finally:
                self.threads.pop()
                self.cur = cur
            return
        try:
            while live:
                nxt = []
                for th, g in live:
                    self.threads.append(th)
                    try:
                        ev = next(g)
                        nxt.append((th, g))
                    except StopIteration:
                        pass
                    finally:
                        self.threads.pop()
                self.check_races()
                live = nxt
        finally:
            self.region = outer
            self.cur = cur


class _Nested(ThreadCtx):
    def __init__(self, tid, locks, chunks):
        self._tid = tid
        self.n = 1
        self.locks = locks
        self.single_seen = 0
        self.chunks = chunks

    @property
    def tid(self):
        return self._tid


class Frame:
    __slots__ = ('f', 'vars', 'objs')

    def __init__(self, f):
        self.f = f
        self.vars = {}
        self.objs = {}


def _zi(v):
    return v if is_sym(v) else z3.IntVal(v)


def _tup(off):
    if isinstance(off, tuple):
        return off
    return (off,) if off else ()


def _is_temp(name):
    import re
    return re.fullmatch(r'_\d+|[A-Za-z_.][\w.]*_\d+|D\.\d+', name) is not None and 'D.' not in name[1:]


LIBM = {'sqrt', 'cos', 'sin', 'tan', 'exp', 'log', 'log10', 'atan', 'atan2', 'acos', 'asin', 'fmod', 'powi', 'pow',
        'floor', 'ceil', 'trunc', 'round', 'copysign', 'fabs', 'sqrtf', 'cosf', 'sinf', 'expf', 'logf', 'fmodf',
        'fabsf', 'floorf', 'ceilf', 'truncf', 'roundf', 'copysignf', 'atan2f', 'tanf'}
BUILTINS = {'malloc', 'calloc', 'free', 'realloc', 'memmove', 'memcpy', 'memset', 'memcmp', 'iround', 'lround',
            'llround', 'iroundf', 'lroundf', 'ifloor', 'lfloor', 'llfloor', 'iceil', 'lceil', 'llceil', 'ifloorf',
            'lfloorf', 'iceilf', 'lceilf', 'alloca_with_align', 'alloca', 'stack_save', 'stack_restore',
            'unreachable', 'isnan', 'expect', 'omp_get_num_threads', 'omp_get_thread_num'}
BUILTINS_GEN = BUILTINS
