"""Algebraic value numbers: multivariate (generalised) polynomials over opaque
atoms with rational coefficients.  Two expressions get the same value number iff
they are equal as rational expressions over the atoms (decided by normal form,
and by evaluation in a prime field for quotients)."""
from fractions import Fraction
import random

_atoms = []
_ids = {}


def atom_id(a):
    i = _ids.get(a)
    if i is None:
        i = len(_atoms)
        _ids[a] = i
        _atoms.append(a)
    return i


def atom(i):
    return _atoms[i]


_vcount = [0]


def fresh_var():
    _vcount[0] += 1
    return ("v", _vcount[0])


def is_var(x):
    return isinstance(x, tuple) and len(x) == 2 and x[0] == "v" and isinstance(x[1], int)


GATES = {"gate"}


class Poly:
    __slots__ = ("t", "top", "why")

    def __init__(self, t=None, top=False, why=None):
        self.t = t if t is not None else {}
        self.top = top
        self.why = why

    # -- construction
    @staticmethod
    def const(c):
        if isinstance(c, float):
            c = Fraction(repr(c))
        c = Fraction(c)
        return Poly({(): c} if c != 0 else {})

    @staticmethod
    def a(at, exp=1):
        return Poly({((atom_id(at), exp),): Fraction(1)})

    def is_const(self):
        return not self.top and all(m == () for m in self.t)

    def constval(self):
        return self.t.get((), Fraction(0))

    def is_zero(self):
        return not self.top and not self.t

    def atoms(self):
        s = set()
        for m in self.t:
            for i, e in m:
                s.add(i)
        return s

    def atoms_deep(self):
        """atoms including those inside quotients"""
        out, todo = set(), list(self.atoms())
        while todo:
            i = todo.pop()
            if i in out:
                continue
            out.add(i)
            a = atom(i)
            if a[0] == "P":
                todo.extend(j for m, c in a[1] for j, e in m)
        return out

    def vars(self):
        s = set()
        for i in self.atoms():
            s |= atom_vars(i)
        return s

    def __eq__(self, o):
        return isinstance(o, Poly) and not self.top and not o.top and self.t == o.t

    def __hash__(self):
        return hash(frozenset(self.t.items()))

    def __add__(self, o):
        o = lift(o)
        if self.top:
            return self
        if o.top:
            return o
        if not o.t:
            return self
        if not self.t:
            return o
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        if self.top:
            return self
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) + (-self)

    def __mul__(self, o):
        o = lift(o)
        if not self.top and not self.t:
            return self
        if not o.top and not o.t:
            return o
        if self.top:
            return self
        if o.top:
            return o
        if len(self.t) * len(o.t) > 60000:
            return topp("expression too large")
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v == 0:
                    r.pop(m, None)
                else:
                    r[m] = v
        if any(isinstance(e, int) and _atoms[i][0] == "K" for m in r for i, e in m):
            r = fold_k(r)
        p = Poly(r)
        if any(e > 0 and isinstance(e, int) and _atoms[i][0] == "P" for m in r for i, e in m):
            p = expand_p(p)
        return p

    __rmul__ = __mul__

    def power(self, e):
        """self ** e, e int or Fraction."""
        if self.top:
            return self
        if isinstance(e, Fraction) and e.denominator == 1:
            e = int(e)
        if isinstance(e, int) and e >= 0:
            r = ONE
            for _ in range(e):
                r = r * self
            return r
        if not self.t:
            return topp("division by zero")
        # factor content: common monomial and leading coefficient
        monos = list(self.t)
        if len(monos) == 1:
            m = monos[0]
            c = self.t[m]
            cc = frac_pow(c, e)
            if cc is None:
                if c > 0 and isinstance(e, Fraction) and e.denominator == 2:
                    cc, extra = surd(c, e)
                elif c > 0:
                    cc = Fraction(1)
                    extra = ((atom_id(("K", c)), e),)
                else:
                    return Poly({((atom_id(("P", frozenset(self.t.items()))), e),): Fraction(1)})
            else:
                extra = ()
            mm = tuple((i, norm_e(x * e)) for i, x in m)
            out = Poly({(): cc})
            for i, x in list(mm) + list(extra):
                if x == 0:
                    continue
                if _atoms[i][0] == "K" and isinstance(x, int):
                    out = out * Poly.const(Fraction(_atoms[i][1]) ** x)
                    continue
                if _atoms[i][0] in GATES:
                    x = 1
                out = out * Poly({((i, x),): Fraction(1)})
            return out
        common = None
        for m in monos:
            d = dict(m)
            if common is None:
                common = d
            else:
                common = {i: min(common.get(i, 0), d.get(i, 0)) for i in set(common) | set(d)}
        common = {i: x for i, x in (common or {}).items() if x != 0}
        inv = tuple(sorted((i, -x) for i, x in common.items()))
        red = {}
        for m, c in self.t.items():
            red[mono_mul(m, inv)] = c
        lead = red[min(red, key=mono_key)]
        red = {m: c / lead for m, c in red.items()}
        base = Poly({((atom_id(("P", frozenset(red.items()))), e),): Fraction(1)})
        head = Poly({tuple(sorted(common.items())): lead}) if True else None
        return base * head.power(e)

    def subs_atoms(self, fn):
        """fn(atom tuple) -> Poly or None (keep)."""
        if self.top:
            return self
        out = ZERO
        cache = {}
        for m, c in self.t.items():
            term = Poly({(): c})
            rest = []
            for i, e in m:
                if i not in cache:
                    a = _atoms[i]
                    if a[0] == "P":
                        inner = Poly(dict(a[1]))
                        new = inner.subs_atoms(fn)
                        cache[i] = None if (not new.top and new.t == inner.t) else new
                    else:
                        cache[i] = fn(a)
                if cache[i] is None:
                    rest.append((i, e))
                else:
                    term = term * cache[i].power(e)
            term = term * Poly({tuple(rest): Fraction(1)})
            out = out + term
        return out

    def rename(self, old, new):
        if self.top or not self.t or old == new:
            return self
        r = {}
        for m, c in self.t.items():
            mm = tuple(sorted((rename_id(i, old, new), e) for i, e in m))
            r[mm] = r.get(mm, 0) + c
        return Poly(r)

    def __repr__(self):
        if self.top:
            return "TOP(%s)" % self.why
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: mono_key(x[0])):
            out.append(mono_str(m, c))
        return " + ".join(out)


def norm_e(e):
    if isinstance(e, Fraction) and e.denominator == 1:
        return int(e)
    return e


def frac_pow(c, e):
    if isinstance(e, int):
        if c == 0:
            return None
        return Fraction(c) ** e
    if e.denominator == 2 and c > 0:
        from math import isqrt
        n, d = isqrt(c.numerator), isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return Fraction(n, d) ** e.numerator
    return None


def surd(c, e):
    """c ** e for a half-integer e: rational factor and roots of distinct primes"""
    k = e.numerator
    n, out = c.numerator * c.denominator, Fraction(1, c.denominator)
    primes, p = [], 2
    while p * p <= n and p < 100000:
        while n % (p * p) == 0:
            n //= p * p
            out *= p
        if n % p == 0:
            n //= p
            primes.append(p)
        p += 1
    if n > 1:
        primes.append(n)
    # (out * sqrt(prod)) ** k, with k odd
    out = out ** k
    for p in primes:
        out *= Fraction(p) ** ((k - 1) // 2)
    return out, tuple((atom_id(("K", Fraction(p))), Fraction(1, 2)) for p in primes)


def fold_k(r):
    """integer powers of constants are coefficients"""
    out = {}
    for m, c in r.items():
        keep = []
        for i, e in m:
            if _atoms[i][0] == "K" and (isinstance(e, int) or e >= 1 or e < 0):
                w = e.numerator // e.denominator if not isinstance(e, int) else e
                c = c * Fraction(_atoms[i][1]) ** w
                e = norm_e(e - w)
                if e == 0:
                    continue
            keep.append((i, e))
        m = tuple(keep)
        v = out.get(m, 0) + c
        if v == 0:
            out.pop(m, None)
        else:
            out[m] = v
    return out


def mono_key(m):
    return tuple(sorted((repr(_atoms[i]) if _atoms[i][0] != "P" else "P%d" % i, str(e)) for i, e in m))


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for i, e in m2:
        v = d.get(i, 0) + e
        if _atoms[i][0] in GATES and v > 1:
            v = 1
        v = norm_e(v)
        if v == 0:
            d.pop(i, None)
        else:
            d[i] = v
    return tuple(sorted(d.items()))


def expand_p(p):
    out = ZERO
    for m, c in p.t.items():
        hit = [(i, e) for i, e in m if _atoms[i][0] == "P" and isinstance(e, int) and e > 0]
        if not hit:
            out = out + Poly({m: c})
            continue
        rest = tuple(x for x in m if x not in hit)
        term = Poly({rest: c})
        for i, e in hit:
            inner = Poly(dict(_atoms[i][1]))
            for _ in range(e):
                term = term * inner
        out = out + term
    return out


_av_cache = {}


def atom_vars(i):
    r = _av_cache.get(i)
    if r is None:
        a = _atoms[i]
        r = set()
        if a[0] == "P":
            for m, c in a[1]:
                for j, e in m:
                    r |= atom_vars(j)
        else:
            _collect(a, r)
        _av_cache[i] = r
    return r


def _collect(a, r):
    for x in a:
        if is_var(x):
            r.add(x)
        elif isinstance(x, tuple):
            _collect(x, r)


_rn = {}


def rename_id(i, old, new):
    k = (i, old, new)
    r = _rn.get(k)
    if r is None:
        if old not in atom_vars(i):
            r = i
        else:
            a = _atoms[i]
            if a[0] == "P":
                inner = Poly(dict(a[1])).rename(old, new)
                r = atom_id(("P", frozenset(inner.t.items())))
            else:
                r = atom_id(_ren(a, old, new))
        _rn[k] = r
    return r


def _ren(a, old, new):
    out = []
    for x in a:
        if x == old and is_var(x):
            out.append(new)
        elif isinstance(x, tuple) and not is_var(x):
            out.append(_ren(x, old, new))
        else:
            out.append(x)
    return tuple(out)


def mono_str(m, c):
    s = []
    if c != 1 or not m:
        s.append(str(c) if c.denominator < 10 ** 6 else "%.4g" % float(c))
    for i, e in sorted(m, key=lambda x: atom_str(x[0])):
        s.append(atom_str(i) + ("" if e == 1 else "^%s" % e))
    return "*".join(s)


def atom_str(i):
    a = _atoms[i]
    if a[0] == "P":
        return "(" + repr(Poly(dict(a[1]))) + ")"
    if len(a) == 1:
        return str(a[0])
    return "%s[%s]" % (a[0], ",".join("_" if is_var(x) else str(x) for x in a[1:]))


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})


def topp(why="?"):
    return Poly({}, True, why)


def lift(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return Poly.const(int(x))
    if isinstance(x, (int, float, Fraction)):
        return Poly.const(x)
    return topp("non scalar %r" % type(x).__name__)


# ---- identity testing in a prime field --------------------------------------
PRIME = (1 << 61) - 1


class Undecided(Exception):
    pass


class _Eval:
    """Values in GF(PRIME^2), where every element of GF(PRIME) has a square root
    (PRIME = 3 mod 4); pairs (a, b) stand for a + b i."""

    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.root = {}

    def sqrt_root(self, i):
        """r with r^2 the value of atom i, so half-integer exponents are defined"""
        if i not in self.root:
            a = _atoms[i]
            if a[0] == "P" or a[0] == "K":
                if a[0] == "P":
                    v = self.poly(Poly(dict(a[1])))
                else:
                    v = (a[1].numerator * pow(a[1].denominator, -1, PRIME) % PRIME, 0)
                if v[1] != 0:
                    raise Undecided()
                x = v[0]
                r = pow(x, (PRIME + 1) // 4, PRIME)
                if r * r % PRIME == x:
                    r = (r, 0)
                else:
                    r = (0, pow(PRIME - x, (PRIME + 1) // 4, PRIME))
                if a[0] == "P" and self.rng.randrange(2):
                    r = (-r[0] % PRIME, -r[1] % PRIME)
                self.root[i] = r
            else:
                self.root[i] = (self.rng.randrange(2, PRIME - 1), 0)
        return self.root[i]

    def atom_pow(self, i, e):
        a = _atoms[i]
        if isinstance(e, int):
            if a[0] == "P":
                return _pow2(self.poly(Poly(dict(a[1]))), e)
            return _pow2(self.sqrt_root(i), 2 * e)
        if e.denominator == 2:
            return _pow2(self.sqrt_root(i), e.numerator)
        raise Undecided()

    def poly(self, p):
        s, t = 0, 0
        for m, c in p.t.items():
            v = (c.numerator * pow(c.denominator, -1, PRIME) % PRIME, 0)
            for i, e in m:
                v = _mul2(v, self.atom_pow(i, e))
            s, t = (s + v[0]) % PRIME, (t + v[1]) % PRIME
        return (s, t)


def _mul2(x, y):
    return ((x[0] * y[0] - x[1] * y[1]) % PRIME, (x[0] * y[1] + x[1] * y[0]) % PRIME)


def _pow2(x, e):
    if x[1] == 0:
        if x[0] == 0 and e < 0:
            raise Undecided()
        return (pow(x[0], e % (PRIME - 1), PRIME), 0)
    if e < 0:
        n = pow(x[0] * x[0] + x[1] * x[1], -1, PRIME)
        x, e = (x[0] * n % PRIME, -x[1] * n % PRIME), -e
    r = (1, 0)
    while e:
        if e & 1:
            r = _mul2(r, x)
        x, e = _mul2(x, x), e >> 1
    return r


def _gates(p, out):
    for i in p.atoms():
        a = _atoms[i]
        if a[0] == "gate":
            out.add(a)
        elif a[0] == "P":
            _gates(Poly(dict(a[1])), out)
    return out


def is_identically_zero(p):
    """None when undecided.  Indicator atoms are decided case by case: every sign
    (-, 0, +) of each coefficient that guards an indicator."""
    if p.top:
        return None
    if not p.t:
        return True
    gates = _gates(p, set())
    if gates:
        keys = sorted({g[1] for g in gates})
        if len(keys) > 6:
            return None
        import itertools
        for signs in itertools.product((0, 1, 2), repeat=len(keys)):
            s = dict(zip(keys, signs))
            q = p.subs_atoms(lambda a: Poly.const(int(a[2][s[a[1]]])) if a[0] == "gate" else None)
            r = _zero(q)
            if r is not True:
                return r
        return True
    return _zero(p)


def _zero(p):
    if p.top:
        return None
    if not p.t:
        return True
    if not any(_atoms[i][0] == "P" or not isinstance(e, int) for m in p.t for i, e in m):
        return False
    # the sign of a root varies with the seed: what vanishes for some signs only
    # is not decided
    zeros = 0
    seeds = (11, 23, 31, 47, 59, 71)
    try:
        for k, seed in enumerate(seeds):
            if _Eval(seed).poly(p) == (0, 0):
                zeros += 1
            elif zeros == 0 and k == 1 and not _half_p(p):
                return False
            elif zeros:
                return None
    except Undecided:
        return None
    return True if zeros == len(seeds) else False if zeros == 0 else None


def _half_p(p):
    for m in p.t:
        for i, e in m:
            if _atoms[i][0] == "P" and (not isinstance(e, int) or _half_p(Poly(dict(_atoms[i][1])))):
                return True
    return False
