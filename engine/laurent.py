"""Normal form of a real term: a sum of monomials with integer, possibly negative exponents.

The atoms are the sub-terms that are not sums, products or quotients.  A quotient is only taken
where the divisor is not zero on the path (the division forks on it), so that cancelling is sound.
"""
import math
from fractions import Fraction

from .explore import R, z3

LIMIT = 400


class _No(Exception):
    pass


def has_div(e):
    return _has(e, lambda t: t.decl().kind() == z3.Z3_OP_DIV)


def reducible(e):
    """Whether a term has quotients or sines: the normal form knows more than the solver's."""
    return _has(e, lambda t: t.decl().kind() == z3.Z3_OP_DIV or t.decl().name() == 'u_sin')


def _has(e, what):
    seen = set()
    todo = [e]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if what(t):
                return True
            if t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                todo += t.children()
    return False


def _mul(p, q):
    if len(p) * len(q) > LIMIT:
        raise _No
    out = {}
    for m, a in p.items():
        for n, b in q.items():
            e = dict(m)
            for k, x in n:
                e[k] = e.get(k, 0) + x
            key = tuple(sorted((k, x) for k, x in e.items() if x))
            out[key] = out.get(key, 0) + a * b
    return {k: v for k, v in out.items() if v}


class Form:
    def __init__(self):
        self.atoms = {}
        self.cache = {}

    def atom(self, t):
        self.atoms[t.get_id()] = t
        if t.decl().name() == 'u_sin':
            # sin^2 = 1 - cos^2
            c = z3.Function('u_cos', z3.RealSort(), z3.RealSort())(t.arg(0))
            self.atoms[c.get_id()] = c
        return {((t.get_id(), 1),): Fraction(1)}

    def inverse(self, p):
        if len(p) == 1:
            (m, c), = p.items()
            return {tuple((k, -x) for k, x in m): 1 / c}
        if not p:
            raise _No
        # 1 / polynomial: made unique up to a factor and a monomial
        low = {}
        for k in {k for m in p for k, x in m}:
            low[k] = min(dict(m).get(k, 0) for m in p)
        p = _mul(p, {tuple(sorted((k, -x) for k, x in low.items() if x)): Fraction(1)})
        lead = max(p)
        c = p[lead]
        t = z3.simplify(self.build({k: v / c for k, v in p.items()}), som=True)
        self.atoms[t.get_id()] = t
        low[t.get_id()] = 1
        return {tuple(sorted((k, -x) for k, x in low.items() if x)): 1 / c}

    def parse(self, t):
        k = t.get_id()
        if k not in self.cache:
            self.cache[k] = (self.reduce(self._parse(t)), t)
        return self.cache[k][0]

    def reduce(self, p):
        """even powers of square roots and of sines"""
        out = {}
        for m, c in p.items():
            q = {(): c}
            for k, x in m:
                a = self.atoms[k]
                if a.decl().name() == 'u_sqrt' and abs(x) > 1:
                    r = self.parse(a.arg(0))
                    h = int(x / 2)
                    for _ in range(abs(h)):
                        q = _mul(q, r if h > 0 else self.inverse(r))
                    x -= 2 * h
                elif a.decl().name() == 'u_sin' and x > 1:
                    cos = next((n for n, t in self.atoms.items() if t.decl().name() == 'u_cos' and t.arg(0).eq(a.arg(0))), None)
                    if cos is not None:
                        for _ in range(x // 2):
                            q = _mul(q, {(): Fraction(1), ((cos, 2),): Fraction(-1)})
                        x %= 2
                if x:
                    q = _mul(q, {((k, x),): Fraction(1)})
            for n, v in q.items():
                out[n] = out.get(n, 0) + v
        return {k: v for k, v in out.items() if v}

    def _parse(self, t):
        if z3.is_rational_value(t) or z3.is_int_value(t):
            f = t.as_fraction() if z3.is_rational_value(t) else Fraction(t.as_long())
            return {(): f} if f else {}
        if not z3.is_app(t):
            return self.atom(t)
        k = t.decl().kind()
        ch = t.children()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            out = dict(self.parse(ch[0]))
            for x in ch[1:]:
                for m, v in self.parse(x).items():
                    out[m] = out.get(m, 0) + (v if k == z3.Z3_OP_ADD else -v)
            if len(out) > LIMIT:
                raise _No
            return {m: v for m, v in out.items() if v}
        if k == z3.Z3_OP_UMINUS:
            return {m: -v for m, v in self.parse(ch[0]).items()}
        if k == z3.Z3_OP_MUL:
            out = self.parse(ch[0])
            for x in ch[1:]:
                out = _mul(out, self.parse(x))
            return out
        if k == z3.Z3_OP_DIV:
            return _mul(self.parse(ch[0]), self.inverse(self.parse(ch[1])))
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].as_fraction().denominator == 1:
            n = ch[1].as_fraction().numerator
            if abs(n) > 8:
                raise _No
            p = self.parse(ch[0])
            if n < 0:
                p = self.inverse(p)
            out = {(): Fraction(1)}
            for _ in range(abs(n)):
                out = _mul(out, p)
            return out
        if t.decl().name() == 'u_sqrt' and z3.is_rational_value(t.arg(0)):
            return {(): Fraction(math.sqrt(float(t.arg(0).as_fraction())))}
        return self.atom(t)

    def build(self, p):
        terms = []
        for m, c in sorted(p.items()):
            num, den = R(c), None
            for k, x in m:
                a = self.atoms[k]
                for _ in range(abs(x)):
                    if x > 0:
                        num = num * a
                    else:
                        den = a if den is None else den * a
            terms.append(num if den is None else num / den)
        return z3.Sum(terms) if terms else R(0)


def normal(e):
    """The normal form of a term, or the term itself."""
    f = Form()
    try:
        p = f.parse(e)
        return f.build(p)
    except _No:
        return e


def equal(a, b, tol=Fraction(1, 10 ** 12)):
    """Whether two terms have the same normal form, up to the rounding of the constants."""
    return same(Form(), a, b, tol)


def near(a, b, tol=Fraction(1, 10 ** 10)):
    """Whether the coefficients of the normal forms agree within an absolute tolerance."""
    f = Form()
    try:
        p, q = f.parse(a), f.parse(b)
    except _No:
        return False
    return all(abs(p.get(m, 0) - q.get(m, 0)) <= tol for m in set(p) | set(q))


def same(f, a, b, tol=Fraction(1, 10 ** 12)):
    try:
        p, q = f.parse(a), f.parse(b)
    except _No:
        return False
    for m in set(p) | set(q):
        x, y = p.get(m, 0), q.get(m, 0)
        if abs(x - y) > tol * (abs(x) + abs(y)):
            return False
    return True
