"""Symbolic executor for GCC GIMPLE dumps (after OpenMP expansion).

The dump is regenerated from /repo's sources on every run (fbuild.build).  Memory is
concretely addressed (symbolic offsets are concretised by solver-driven forking, every
feasible value is explored); scalars are Python numbers or z3 terms.  Integers are
mathematical with no-overflow side obligations, reals are exact reals plus NaN/inf (or
IEEE floats with FPDomain).  OpenMP regions run for a given number of threads and every
pair of conflicting unsynchronised accesses by two threads is reported.
"""
import glob
import math
import os
import re
from fractions import Fraction

from . import explore as X
from . import fbuild
from .explore import EngineError, PathAbort, is_sym

z3 = X.z3

# ------------------------------------------------------------------------------- types


class T:
    __slots__ = ('k', 'size', 'sub', 'n', 'lb', 'name', 'signed')

    def __init__(self, k, size=None, sub=None, n=None, lb=0, name=None, signed=True):
        self.k, self.size, self.sub, self.n, self.lb, self.name = k, size, sub, n, lb, name
        self.signed = signed

    def __repr__(self):
        if self.k == 'ptr':
            return f'{self.sub}*'
        if self.k == 'array':
            return f'{self.sub}[{self.lb}:{self.n}]'
        return f'{self.k}{self.size or ""}{self.name or ""}'


def tint(n, signed=True):
    return T('int', n, signed=signed)


INT = {1: tint(1), 2: tint(2), 4: tint(4), 8: tint(8), 16: tint(16)}
REAL = {4: T('real', 4), 8: T('real', 8)}
LOGICAL = {1: T('logical', 1), 4: T('logical', 4), 8: T('logical', 8)}
LAZY = T('lazy')
VOID = T('void', 1)
CHAR = T('char', 1)
NAMED = {
    'sizetype': tint(8, False), 'bitsizetype': tint(16, False), 'ssizetype': tint(8),
    'unsigned long': tint(8, False), 'unsigned int': tint(4, False), 'int': INT[4],
    'unsigned char': tint(1, False), 'long': INT[8], 'long int': INT[8], 'char': CHAR,
    'unsigned long long': tint(8, False), '_Bool': T('logical', 1), 'bool': T('logical', 1),
    'void': VOID, 'signed char': INT[1], 'short': INT[2], 'short int': INT[2],
    'long unsigned int': tint(8, False), 'unsigned short': tint(2, False),
    '<unnamed-unsigned:1>': T('logical', 1), 'float': REAL[4], 'double': REAL[8],
}
_TYPE_START = re.compile(
    r'\s*(static\s+|const\s+|__complex__\s+)*(integer\(|real\(|logical\(|character\(|complex\(|struct\b|union\b|'
    r'void\b|voidD\.|unsigned\b|sizetype\b|bitsizetype\b|ssizetype\b|signed\b|long\b|int\b|'
    r'char\b|_Bool\b|bool\b|short\b|<unnamed|float\b|double\b|__int128)')
_UID = re.compile(r'(?<=[\w)\]>])D\.\d+')


def is_type(s):
    return _TYPE_START.match(s) is not None


_tcache = {}


def parse_type(s):
    t = _tcache.get(s)
    if t is None:
        t = _tcache[s] = _parse_type(s)
    return t


def _parse_type(s):
    s0 = s
    s = s.strip()
    s = re.sub(r'^(static|const)\s+', '', s)
    m = re.match(r'__complex__ (.*)$', s)
    if m:
        sub = _parse_type(m[1])
        return T('complex', 2 * (sub.size or 8), sub=sub)
    m = re.match(r'(integer|real|logical|character|complex)\(kind=(\d+)\)(D\.\d+)?', s)
    if m:
        k, n = m[1], int(m[2])
        base = {'integer': lambda: INT[n], 'real': lambda: REAL.get(n) or T('real', n),
                'logical': lambda: LOGICAL.get(n) or T('logical', n),
                'character': lambda: CHAR if n == 1 else tint(n, False),
                'complex': lambda: T('complex', 2 * n)}[k]()
        rest = s[m.end():]
    elif s.startswith('struct') or s.startswith('union'):
        m = re.match(r'(struct|union)\s+([\w.]+(\([\w=]+\))?(?:\.\d+)?)', s)
        name = re.sub(r'D\.\d+$', '', m[2])
        base = T('struct', name=name.lower())
        rest = s[m.end():]
        rest = re.sub(r'^D\.\d+', '', rest)
    else:
        m = re.match(r'(__complex__ )?([<>\w:\- ]+?)(D\.\d+)?(?=\s*([\[*&{]|$|restrict))', s)
        if not m:
            raise EngineError(f'type {s0!r}')
        nm = m[2].strip()
        base = NAMED.get(nm)
        if base is None:
            base = T('opaque', name=nm)
        if m[1]:
            base = T('complex', 2 * (base.size or 8), sub=base)
        rest = s[m.end():]
    arr = []
    for m in re.finditer(r'\[([^\]]*)\]|([*&])|(\{ref-all\})|(\w+)', rest):
        if m[1] is not None:
            arr.append(m[1])
        elif m[2]:
            base = _mkarr(base, arr)
            arr = []
            base = T('ptr', 8, base)
    return _mkarr(base, arr)


def _mkarr(base, arr):
    for a in reversed(arr):
        a = a.strip()
        if ':' in a:
            lo, up = a.split(':', 1)
            lb = int(lo) if re.fullmatch(r'-?\d+', lo) else 0
            n = int(up) - lb + 1 if re.fullmatch(r'-?\d+', up) else None
        else:
            lb = 0
            n = int(a) if a.isdigit() else None
        base = T('array', None, base, n, lb)
    return base


# ----------------------------------------------------------------------------- memory


class Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


class Obj:
    __slots__ = ('name', 'size', 'cells', 'zeros', 'heap', 'freed', 'kind', 'ro', 'raw', 'valid', 'wt', 'codec')
    count = 0

    def __init__(self, name, size=None, kind='local'):
        self.name, self.size, self.cells, self.zeros = name, size, {}, None
        self.kind = kind
        self.freed = False
        self.ro = False
        self.raw = None        # bytes backing the object (decoded at the type of the access)
        self.valid = None
        self.wt = None
        self.codec = None

    def __repr__(self):
        return f'<{self.name}>'

    def set_raw(self, data, codec):
        self.raw = bytearray(data)
        self.valid = bytearray(b'\1' * len(data))
        self.wt = {}
        self.codec = codec
        self.size = len(data)


class Ptr:
    __slots__ = ('obj', 'off', 't')

    def __init__(self, obj, off, t=None):
        self.obj, self.off, self.t = obj, off, t

    def __repr__(self):
        return f'&{self.obj.name}+{self.off}:{self.t}'

    def __add__(self, n):
        return Ptr(self.obj, self.off + n, self.t)


class FnRef:
    def __init__(self, name):
        self.name = name


NULL = None


class Violation(Exception):
    """Memory-safety or runtime error found on the current path (recorded in ctx)."""


# ----------------------------------------------------------------------------- parser
_TOK = re.compile(r'''
   \s*(?:
   (?P<str>"(?:\\.|[^"\\])*")
 | (?P<name>[A-Za-z_.][\w.]*?D\.\d+|D\.\d+(?:_\d+)?|<retval>|[A-Za-z_][\w.]*_\d+(?!\w)|_\d+|C\.\d+|[A-Za-z_.][\w.]*)
 | (?P<num>\d+(?:\.\d+)?(?:e[+-]?\d+)?(?:B)?)
 | (?P<op>->|\[fl\]|\[ex\]|\[cl\]|<=|>=|==|!=|<<|>>|u<=|u>=|[-+*/%&|^~!<>=(){}\[\],.:;?])
   )''', re.X)


class P:
    """Expression parser for one statement."""

    def __init__(self, s):
        self.s = s
        self.i = 0

    def ws(self):
        while self.i < len(self.s) and self.s[self.i] == ' ':
            self.i += 1

    def peek(self, lit):
        self.ws()
        return self.s.startswith(lit, self.i)

    def eat(self, lit):
        self.ws()
        if not self.s.startswith(lit, self.i):
            raise EngineError(f'expected {lit!r} at {self.s[self.i:]!r} in {self.s!r}')
        self.i += len(lit)

    def tryeat(self, lit):
        if self.peek(lit):
            self.i += len(lit)
            return True
        return False

    def match(self, rx):
        self.ws()
        m = rx.match(self.s, self.i)
        if m:
            self.i = m.end()
        return m

    def until_close(self, o, c):
        """Text up to the matching closing char (self.i just after the opening)."""
        d = 1
        j = self.i
        while d:
            ch = self.s[j]
            if ch == o:
                d += 1
            elif ch == c:
                d -= 1
            j += 1
        t = self.s[self.i:j - 1]
        self.i = j
        return t

    NAME = re.compile(r'[A-Za-z_.][\w.]*?D\.\d+|D\.\d+|[A-Za-z_][\w.]*_\d+(?![\w])|_\d+|C\.\d+|[A-Za-z_.][\w.]*')
    NUM = re.compile(r'-?\d+(?:\.\d+)?(?:e[+-]?\d+)?(?:B)?(?![\w])|[-+]?Inf\b|[-+]?Q?Nan\b|[-+]?Q?NaN\b')
    BIN = re.compile(r'(/\[ex\]|/\[fl\]|/\[cl\]|%\[fl\]|%\[cl\]|<<|>>|<=|>=|==|!=|u<=|u>=|u<|u>|u==|<>|'
                     r'unord|ord|\+|-|\*|/|%|&|\||\^|<|>)(?=\s)')
    BUILTIN = re.compile(r'(MAX_EXPR|MIN_EXPR|ABS_EXPR|REALPART_EXPR|IMAGPART_EXPR|COMPLEX_EXPR|'
                         r'ABSU_EXPR|CONJ_EXPR) <')

    def postfix(self, e):
        while True:
            if self.s.startswith('[', self.i):
                self.i += 1
                idx = self.operand()
                self.eat(']')
                lb = None
                if self.peek('{lb:'):
                    self.i += 4
                    self.ws()
                    lb = self.operand()
                    self.eat('sz:')
                    self.operand()
                    self.eat('}')
                e = ('idx', e, idx, lb)
            elif self.s.startswith('->', self.i):
                self.i += 2
                e = ('fld', ('deref', e), self.field())
            elif self.s.startswith('.', self.i):
                self.i += 1
                e = ('fld', e, self.field())
            else:
                return e

    def field(self):
        m = self.match(self.NAME)
        n = m[0]
        n2 = re.sub(r'D\.\d+$', '', n)
        return n2 if n2 else n

    def mem(self):
        # after 'MEM'
        t = None
        if self.peek('<'):
            self.eat('<')
            d = 1
            j = self.i
            while d:
                if self.s[j] == '<':
                    d += 1
                elif self.s[j] == '>':
                    d -= 1
                j += 1
            t = parse_type(self.s[self.i:j - 1])
            self.i = j
        self.eat('[')
        if self.peek('('):
            self.eat('(')
            ct = parse_type(self.until_close('(', ')'))
            base = self.operand()
        else:
            base = self.operand()
            ct = None
        off = 0
        if self.tryeat('+'):
            self.ws()
            m = self.match(re.compile(r'-?\d+B'))
            off = int(m[0][:-1])
        self.eat(']')
        if t is None:
            t = ct.sub if ct is not None else None
        return ('mem', t, base, off)

    def primary(self):
        self.ws()
        s, i = self.s, self.i
        c = s[i]
        if c == '"':
            m = self.match(re.compile(r'"(?:\\.|[^"\\])*"'))
            e = ('str', m[0][1:-1].encode().decode('unicode_escape'))
            return self.postfix(e)
        if c == '&':
            self.i += 1
            return ('addr', self.primary())
        if c == '*':
            self.i += 1
            e = self.primary_nopost()
            return ('deref', e)
        if c == '(':
            self.i += 1
            if is_type(s[self.i:]):
                t = parse_type(self.until_close('(', ')'))
                e = self.primary()
                return self.postfix(('cast', t, e))
            e = self.primary()
            # parenthesised: possibly binary
            self.ws()
            if not self.peek(')'):
                e = self.binrest(e)
            self.eat(')')
            return self.postfix(e)
        if c == '{':
            self.i += 1
            txt = self.until_close('{', '}')
            if txt.startswith('CLOBBER'):
                return ('clobber',)
            if not txt.strip():
                return ('zero',)
            p = P(txt)
            items = []
            while True:
                p.ws()
                if p.i >= len(txt):
                    break
                m = p.match(re.compile(r'\.[\w.]+='))
                items.append(p.operand())
                if not p.tryeat(','):
                    break
            return ('list', items)
        if c == '~':
            self.i += 1
            return ('un', '~', self.primary())
        if c == '!':
            self.i += 1
            return ('un', '!', self.primary())
        m = self.match(self.NUM)
        if m:
            return num(m[0])
        if c == '-':
            self.i += 1
            return ('un', '-', self.primary())
        m = self.match(self.BUILTIN)
        if m:
            args = [self.operand()]
            while self.tryeat(','):
                args.append(self.operand())
            self.eat('>')
            return ('bi', m[1], args)
        if s.startswith('VIEW_CONVERT_EXPR<', self.i):
            self.i += len('VIEW_CONVERT_EXPR<')
            t = parse_type(self.until_close('<', '>'))
            self.eat('(')
            e = self.operand()
            self.eat(')')
            return self.postfix(('view', t, e))
        if s.startswith('MEM', self.i) and re.match(r'MEM( <|\[)', s[self.i:]):
            self.i += 3
            return self.postfix(self.mem())
        return self.postfix(self.primary_nopost())

    def primary_nopost(self):
        self.ws()
        if self.peek('('):
            return self.primary()
        m = self.match(self.NAME)
        if not m:
            raise EngineError(f'cannot parse {self.s!r} at {self.s[self.i:]!r}')
        return ('var', m[0])

    def binrest(self, e):
        m = self.match(self.BIN)
        if not m:
            return e
        r = self.primary()
        return ('bin', m[1], e, r)

    def operand(self):
        return self.primary()

    def rhs(self):
        self.ws()
        m = re.compile(r'([A-Za-z_.][\w.]*?)(D\.\d+)? \(').match(self.s, self.i)
        if m and not is_type(self.s[self.i:]) and not m[1].startswith('MEM'):
            self.i = m.end()
            args = []
            if not self.tryeat(')'):
                while True:
                    args.append(self.operand())
                    if self.tryeat(','):
                        continue
                    self.eat(')')
                    break
            return ('call', m[1], args)
        e = self.primary()
        self.ws()
        if self.i < len(self.s):
            if self.peek('?'):
                self.eat('?')
                a = self.operand()
                self.eat(':')
                b = self.operand()
                return ('cond', e, a, b)
            e2 = self.binrest(e)
            if e2 is e:
                raise EngineError(f'trailing {self.s[self.i:]!r} in {self.s!r}')
            e = e2
            self.ws()
            if self.peek('?'):
                self.eat('?')
                a = self.operand()
                self.eat(':')
                b = self.operand()
                return ('cond', e, a, b)
        return e


def num(s):
    if s.endswith('B'):
        return ('null',) if s == '0B' else ('const', int(s[:-1]))
    l = s.lower()
    if 'nan' in l:
        return ('rconst', float('nan'))
    if 'inf' in l:
        return ('rconst', float('-inf') if s[0] == '-' else float('inf'))
    if '.' in s or 'e' in s:
        return ('rconst', Fraction(s))
    return ('const', int(s))


class Func:
    def __init__(self, name, asm, header, lines, unit):
        self.name, self.asm, self.header, self.lines, self.unit = name, asm, header, lines, unit
        self.parsed = False
        self.raw = lines

    def parse(self):
        if self.parsed:
            return
        self.parsed = True
        h = self.header
        i = h.index(' (') if ' (' in h else h.index('(')
        # params: split at top level commas of last paren group
        p0 = h.rindex(self.short()) if False else None
        m = re.search(r'D\.\d+ \((.*)\)$', h)
        body = m[1]
        # the greedy first ' (' after the function name
        mm = re.match(r'(.*?)([\w.]+?)D\.\d+ \((.*)\)$', h)
        # find the "name (": the first occurrence of "D.<n> (" outside of kinds
        pos = [x.end() for x in re.finditer(r'D\.\d+ \(', h)]
        body = h[pos[0]:-1]
        rettype = h[:pos[0]]
        self.ret = None
        parts, d, cur = [], 0, ''
        for ch in body:
            if ch in '([<':
                d += 1
            elif ch in ')]>':
                d -= 1
            if ch == ',' and d == 0:
                parts.append(cur)
                cur = ''
            else:
                cur += ch
        if cur.strip():
            parts.append(cur)
        self.params = []
        self.types = {}
        for p in parts:
            p = p.strip()
            if p in ('void', 'voidD.27') or re.fullmatch(r'voidD\.\d+', p):
                continue
            m = re.match(r'(.*[\s&*])([A-Za-z_.][\w.]*?D\.\d+|D\.\d+)$', p)
            if not m:
                raise EngineError(f'param {p!r} of {self.asm}')
            self.params.append(m[2])
            self.types[m[2]] = parse_type(m[1])
        self.statics = {}
        self.locals = []
        blocks = {}
        order = []
        cur = None
        it = iter(self.lines)
        body_started = False
        for line in it:
            l = line.strip()
            if not l or l.startswith('//') or l in ('{', '}'):
                continue
            m = re.match(r'<bb (\d+)>', l)
            if m:
                cur = int(m[1])
                blocks[cur] = []
                order.append(cur)
                continue
            if cur is None:
                self.decl(l)
                continue
            if re.match(r'<?[\w.]+>?:( \[.*\])?$', l) or re.match(r'<L\d+>:', l):
                continue
            if l.startswith('if ('):
                cond = l[l.index('(') + 1:l.rindex(')')]
                g1 = next(it).strip()
                e = next(it).strip()
                g2 = next(it).strip()
                t1 = int(re.search(r'<bb (\d+)>', g1)[1])
                t2 = int(re.search(r'<bb (\d+)>', g2)[1])
                blocks[cur].append(('if', self.pexpr(cond), t1, t2))
                continue
            if l.startswith('goto '):
                blocks[cur].append(('goto', int(re.search(r'<bb (\d+)>', l)[1])))
                continue
            if l.startswith('return'):
                r = l[6:].rstrip(';').strip()
                blocks[cur].append(('return', P(r).operand() if r else None))
                continue
            if l.startswith('switch ('):
                while not l.endswith(';') and '>' not in l:
                    l += ' ' + next(it).strip()
                m = re.match(r'switch \((.*?)\) <(.*)>', l)
                blocks[cur].append(('switch', P(m[1]).operand(), m[2]))
                continue
            if l.startswith('__attribute__') or l.startswith('[local count'):
                continue
            blocks[cur].append(('raw', l))
        self.blocks, self.order = blocks, order
        self.next = {a: b for a, b in zip(order, order[1:])}

    def decl(self, l):
        l = l.rstrip(';')
        if '[value-expr:' in l:
            return
        init = None
        if ' = ' in l:
            l, init = l.split(' = ', 1)
        static = l.startswith('static ')
        if static:
            l = l[7:]
        m = re.match(r'(.*?[\s&*])([A-Za-z_.][\w.]*?D\.\d+|D\.\d+|_\d+|[A-Za-z_.][\w.]*_\d+|C\.\d+)((?:\[[^\]]*\])*)$', l)
        if not m:
            m2 = re.match(r'(.*?[\s&*])([\w.]+)((?:\[[^\]]*\])*)$', l)
            if not m2:
                return
            m = m2
        t = parse_type(m[1] + m[3])
        self.types[m[2]] = t
        if static:
            self.statics[m[2]] = (t, P(init).operand() if init else None)

    def pexpr(self, s):
        p = P(s)
        return p.rhs()

    def short(self):
        return self.name

    def stmt(self, raw):
        """Parse 'lhs = rhs;' or a call."""
        l = raw.rstrip()
        if l.endswith(';'):
            l = l[:-1]
        l = re.sub(r' \[(?:tail call|return slot optimization|static-chain[^\]]*|must tail call)\]', '', l)
        p = P(l)
        # call without lhs?
        m = re.match(r'([A-Za-z_.][\w.]*?)(D\.\d+)? \(', l)
        if m and ' = ' not in l[:m.end()]:
            return ('call', None, p.rhs())
        lhs = p.primary()
        p.ws()
        if p.peek('={v}'):
            p.eat('={v}')
        else:
            p.eat('=')
        r = p.rhs()
        p.ws()
        if p.i < len(l) and l[p.i:].strip() and not l[p.i:].strip().startswith('['):
            raise EngineError(f'trailing {l[p.i:]!r} in {l!r}')
        if r[0] == 'call':
            return ('call', lhs, r)
        return ('set', lhs, r)


class Program:
    def __init__(self, irdir=None):
        self.dir = irdir or fbuild.build()
        self.funcs = {}       # asm -> Func
        self.layouts = {}
        for p in sorted(glob.glob(self.dir + '/*.ompexp')):
            self._scan(p)
        self.byshort = {}
        for f in self.funcs.values():
            self.byshort.setdefault(f.name, []).append(f)
        for p in sorted(glob.glob(self.dir + '/*.dw')):
            for k, v in fbuild.parse_dwarf(p).items():
                self.layouts.setdefault(k, v)

    def _scan(self, path):
        unit = os.path.basename(path).split('.')[0]
        name = asm = None
        header = None
        lines = []
        inbody = False
        with open(path) as f:
            for line in f:
                if line.startswith(';; Function '):
                    m = re.match(r';; Function (\S+) \(([^,]+),', line)
                    name, asm = m[1], m[2]
                    header = None
                    lines = []
                    inbody = False
                elif inbody:
                    if line.startswith('}'):
                        inbody = False
                        self.funcs[asm] = Func(name, asm, header, lines, unit)
                        lines = []
                    else:
                        lines.append(line)
                elif line.startswith('{') and header:
                    inbody = True
                elif line[0] not in ' \n;_{}' or (line.startswith('_') and not line.startswith('__attribute__')):
                    if ' (' in line and line.rstrip().endswith(')'):
                        header = line.rstrip()
                elif line.startswith('__attribute__'):
                    continue

    def find(self, name, unit=None):
        f = self.funcs.get(name)
        if f:
            return f
        c = self.byshort.get(name, [])
        if unit:
            cc = [x for x in c if x.unit == unit]
            if cc:
                c = cc
        c = [x for x in c if '._omp_fn' not in x.asm]
        if len(c) == 1:
            return c[0]
        raise EngineError(f'function {name!r}: {len(c)} candidates')

    def layout(self, name):
        name = re.sub(r'd\.\d+$', '', name)
        return self.layouts.get(name)


def desc_type(d):
    if d[0] == 'base':
        n, nm = d[1], d[2].lower()
        if nm == 'pointer':
            return T('ptr', 8, LAZY)
        if nm.startswith('real'):
            return REAL[n]
        if nm.startswith('logical'):
            return LOGICAL[n]
        if nm.startswith('integer'):
            return INT[n]
        if 'char' in nm or nm == 'string':
            return T('array', None, CHAR, n, 1) if nm == 'string' else CHAR
        return T('opaque', n, name=nm)
    if d[0] == 'array':
        return T('array', None, desc_type(d[2]), d[1], 0)
    if d[0] == 'struct':
        return T('struct', name=d[1])
    return LAZY
