"""Canonical real terms: Laurent polynomials over atoms, with rational
coefficients.  An atom is an input variable or the application of a function
(exp, log, sqrt, reciprocal of a sum, if-then-else, normal cdf, floor, an
uninterpreted function) to such terms.  Every atom has one z3 constant and the
axioms that define it; `axioms_for` collects them (with the pairwise lemmas
that relate applications of the same function) for a query.
"""
from fractions import Fraction
import math

from .z3env import z3

ZERO = Fraction(0)
ONE = Fraction(1)


class Atom:
    __slots__ = (
        "id", "kind", "name", "args", "sign", "isint", "z", "zinv", "extra", "approx",
        "_deps", "order",
    )

    def __init__(self, id, kind, name, args, sign, isint, z, extra=None):
        self.id = id
        self.kind = kind
        self.name = name
        self.args = args
        self.sign = sign  # '+', '0+', '-', '0-' or None
        self.isint = isint
        self.z = z
        self.zinv = None
        self.extra = extra
        self.approx = None  # float, if the atom is a known constant
        self._deps = None
        self.order = 0

    def __repr__(self):
        return self.name


class AtomTable:
    """Interned atoms: the same definition gives the same atom on every path."""

    def __init__(self):
        self.atoms = []
        self.by_key = {}
        self.num = {}  # atom id -> value at one fixed point (None: unknown)
        self.buckets = {}

    def get(self, key, kind, name, args=(), sign=None, isint=False, extra=None):
        a = self.by_key.get(key)
        if a is None:
            fp = None
            if kind in _MERGED and self is T:
                fp = self.fingerprint(args)
                if fp is not None:
                    a = self.same(kind, name, args, fp)
                    if a is not None:
                        self.by_key[key] = a
                        return a
            i = len(self.atoms)
            nm = name if kind == "var" else f"{kind}!{i}"
            z = z3.Int(nm) if isint else z3.Real(nm)
            a = Atom(i, kind, nm, tuple(args), sign, isint, z, extra)
            self.atoms.append(a)
            self.by_key[key] = a
            if fp is not None:
                self.buckets.setdefault((kind, name if kind == "uf" else "", round(fp[0], 6)), []).append((fp, a))
        return a

    # An application of a function to a term equal to (but written
    # differently from) one seen before is the same atom.  Candidates are
    # found by evaluation at one point; equality is then decided exactly.
    def fingerprint(self, args):
        try:
            return tuple(evaluate(q, _POINT, self.num) for q in args)
        except (KeyError, ValueError, ArithmeticError, TypeError):
            return None

    def same(self, kind, name, args, fp):
        for r in (round(fp[0], 6), round(fp[0] + 5e-7, 6), round(fp[0] - 5e-7, 6)):
            for f, a in self.buckets.get((kind, name if kind == "uf" else "", r), ()):
                if len(f) != len(fp) or any(abs(x - y) > 1e-9 * max(1.0, abs(x)) for x, y in zip(f, fp)):
                    continue
                try:
                    if all(clear(sub(x, y)).is_zero() for x, y in zip(args, a.args)):
                        return a
                except TooBig:
                    pass
        return None


_MERGED = ("exp", "log", "sqrt", "inv", "uf")


class _Point:
    """One fixed generic value for every variable."""

    def __contains__(self, i):
        return T.atoms[i].kind == "var"

    def __getitem__(self, i):
        import zlib

        a = T.atoms[i]
        h = zlib.crc32(a.name.encode()) / 2**32
        v = 0.31 + 1.37 * h
        if a.isint:
            v = float(1 + int(7 * h))
        return -v if a.sign in ("-", "0-") else v


_POINT = _Point()


T = AtomTable()


def reset():
    global T
    T = AtomTable()
    _reduce_cache.clear()
    _sos_cache.clear()
    COS3_HINTS.clear()
    _zcache.clear()
    _together_cache.clear()


class Poly:
    __slots__ = ("t", "_h", "_z", "_key")

    def __init__(self, t):
        self.t = t  # dict: monomial tuple ((id, exp), ...) -> Fraction
        self._h = None
        self._z = None
        self._key = None

    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.t.items()))
        return self._key

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), ZERO)

    def is_zero(self):
        return not self.t

    def atoms(self):
        return {i for m in self.t for i, _ in m}

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in self.key():
            s = "*".join(
                T.atoms[i].name + (f"^{e}" if e != 1 else "") for i, e in m
            )
            out.append(f"{c}*{s}" if s else str(c))
        return " + ".join(out[:12]) + (" ..." if len(out) > 12 else "")


def const(c):
    if not isinstance(c, Fraction):
        c = frac(c)
    return Poly({(): c} if c else {})


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    x = float(x)
    if x == math.floor(x) and abs(x) < 1e18:
        return Fraction(int(x))
    return Fraction(repr(x))


def atom_poly(a):
    return Poly({((a.id, 1),): ONE})


def var(name, sign=None, isint=False):
    return atom_poly(T.get(("var", name, isint), "var", name, (), sign, isint))


def add(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    t = dict(a.t)
    for m, c in b.t.items():
        n = t.get(m, ZERO) + c
        if n:
            t[m] = n
        else:
            t.pop(m, None)
    return Poly(t)


def scale(a, c):
    if c == 0:
        return Poly({})
    if c == 1:
        return a
    return Poly({m: k * c for m, k in a.t.items()})


def neg(a):
    return scale(a, -ONE)


def sub(a, b):
    return add(a, neg(b))


class TooBig(Exception):
    pass


MAX_TERMS = 60000


def mul(a, b):
    if not a.t or not b.t:
        return Poly({})
    if a.is_const():
        return scale(b, a.const())
    if b.is_const():
        return scale(a, b.const())
    if len(a.t) * len(b.t) > 4_000_000:
        raise TooBig("product of %d by %d terms" % (len(a.t), len(b.t)))
    t = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m, extra = _mono_mul(m1, m2)
            c = c1 * c2
            if extra is None:
                n = t.get(m, ZERO) + c
                if n:
                    t[m] = n
                else:
                    t.pop(m, None)
            else:
                q = mul(Poly({m: c}), extra) if m != () else scale(extra, c)
                for mm, cc in q.t.items():
                    n = t.get(mm, ZERO) + cc
                    if n:
                        t[mm] = n
                    else:
                        t.pop(mm, None)
    if len(t) > MAX_TERMS:
        raise TooBig("%d terms" % len(t))
    return Poly(t)


def _mono_mul(m1, m2):
    """Product of two monomials: (monomial, extra Poly factor or None)."""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    for i, e in m2:
        n = d.get(i, 0) + e
        if n:
            d[i] = n
        else:
            del d[i]
    atoms = T.atoms
    extra = None
    exps = []
    for i in list(d):
        k = atoms[i].kind
        if k == "exp":
            exps.append(i)
        elif k == "sqrt":
            e = d[i]
            if e != 1:
                q = atoms[i].args[0]
                r = e % 2
                f = power(q, (e - r) // 2)
                if r:
                    d[i] = 1
                else:
                    del d[i]
                extra = f if extra is None else mul(extra, f)
        elif k == "inv":
            e = d[i]
            if e < 0:
                f = power(atoms[i].args[0], -e)
                del d[i]
                extra = f if extra is None else mul(extra, f)
    if len(exps) > 1 or (exps and d[exps[0]] != 1):
        arg = Poly({})
        for i in exps:
            arg = add(arg, scale(atoms[i].args[0], Fraction(d.pop(i))))
        f = exp(arg)
        if len(f.t) == 1:
            ((fm, fc),) = f.t.items()
            if fc == 1 and len(fm) == 1 and atoms[fm[0][0]].kind == "exp":
                d[fm[0][0]] = fm[0][1]
            elif not (fc == 1 and fm == ()):
                extra = f if extra is None else mul(extra, f)
        else:
            extra = f if extra is None else mul(extra, f)
    return tuple(sorted(d.items())), extra


def power(a, n):
    if n == 0:
        return const(1)
    if n < 0:
        return power(inv(a), -n)
    r = None
    b = a
    while n:
        if n & 1:
            r = b if r is None else mul(r, b)
        n >>= 1
        if n:
            b = mul(b, b)
    return r


def content(p):
    """Factor p = c * mono * q with q primitive-ish (leading coefficient 1).
    mono only contains atoms that divide every term (invertible ones)."""
    items = p.key()
    common = None
    for m, _ in items:
        d = dict(m)
        if common is None:
            common = dict(d)
        else:
            for i in list(common):
                e = d.get(i)
                if e is None:
                    del common[i]
                else:
                    c0 = common[i]
                    if (c0 > 0) != (e > 0):
                        del common[i]
                    else:
                        common[i] = min(c0, e) if c0 > 0 else max(c0, e)
        if not common:
            break
    # negative exponents that some terms lack: pull them out too
    mins = {}
    for m, _ in items:
        for i, e in m:
            if e < 0:
                mins[i] = min(mins.get(i, 0), e)
    common = dict(common or {})
    for i, e in mins.items():
        common[i] = e
    common = {
        i: e for i, e in common.items() if T.atoms[i].kind not in ("exp", "sqrt", "inv")
    }
    # exp factors (one per monomial): divide by the first term's
    mono = tuple(sorted(common.items()))
    if mono:
        invm = Poly({tuple((i, -e) for i, e in mono): ONE})
        q = mul(p, invm)
    else:
        q = p
    return mono, q


def exp_pivot(p):
    """p = exp(e) * q with q's pivot term free of exp atoms: (e, q), or None.
    The pivot is the term whose exponent is largest in a translation
    invariant order, so that sums differing by an exp factor agree."""
    atoms = T.atoms
    best = None
    any_ = False
    for m in p.t:
        e = None
        for i, k in m:
            if atoms[i].kind == "exp":
                q = scale(atoms[i].args[0], Fraction(k))
                e = q if e is None else add(e, q)
        if e is None:
            e = Poly({})
        else:
            any_ = True
        if best is None:
            best = e
        else:
            d = sub(e, best)
            if d.t and d.key()[0][1] > 0:
                best = e
    if not any_ or not best.t:
        return None
    return best, mul(p, exp(neg(best)))


def inv(a):
    """1/a, a != 0 assumed."""
    if a.is_const():
        return const(ONE / a.const())
    if len(a.t) == 1:
        ((m, c),) = a.t.items()
        r = const(ONE / c)
        for i, e in m:
            k = T.atoms[i].kind
            if k == "exp":
                r = mul(r, exp(scale(T.atoms[i].args[0], Fraction(-e))))
            elif k == "sqrt":  # 1/s = s / q
                q = T.atoms[i].args[0]
                r = mul(r, mul(Poly({((i, 1),): ONE}), inv(q)))
            elif k == "inv":
                r = mul(r, power(T.atoms[i].args[0], e))
            else:
                r = mul(r, Poly({((i, -e),): ONE}))
        return r
    if has_inv(a):
        n, den = together(a)
        r = inv(n)
        for q, e in den:
            r = mul(r, power(q, e))
        return r
    pv = exp_pivot(a)
    if pv is not None:
        return mul(exp(neg(pv[0])), inv(pv[1]))
    mono, q = content(a)
    lead = q.key()[0][1]
    q = scale(q, ONE / lead)
    if len(q.t) == 1:
        r = inv(q)
    else:
        s = sign(q)
        atom = T.get(("inv", q), "inv", "inv", (q,), s if s in ("+", "-") else None)
        r = atom_poly(atom)
    r = scale(r, ONE / lead)
    if mono:
        r = mul(r, Poly({tuple((i, -e) for i, e in mono): ONE}))
    return r


def has_inv(p):
    atoms = T.atoms
    for m in p.t:
        for i, _ in m:
            if atoms[i].kind == "inv":
                return True
    return False


_together_cache = {}


def exact_div(n, q):
    """n / q if q divides n as polynomials (with possibly negative powers),
    else None."""
    if len(q.t) < 2 or len(n.t) > 150 or len(q.t) > 12:
        return None
    # lexicographic order on exponents, atoms by id
    ids = sorted({i for m in q.t for i, _ in m} | {i for m in n.t for i, _ in m})
    if any(T.atoms[i].kind in ("exp", "sqrt") for m in q.t for i, _ in m):
        return None
    pos = {i: k for k, i in enumerate(ids)}
    qids = {i for m in q.t for i, _ in m}
    order = [i for i in ids if i in qids] + [i for i in ids if i not in qids]
    pos = {i: k for k, i in enumerate(order)}

    def key(m):
        v = [0] * len(order)
        for i, e in m:
            v[pos[i]] = e
        return tuple(v)

    lq = max(q.t, key=key)
    cq = q.t[lq]
    # a cheap necessary test: the trailing term must divide as well
    rem = dict(n.t)
    out = {}
    minq = min(q.t, key=key)
    low = key(min(n.t, key=key))
    lowq = key(minq)
    for _ in range(400):
        if not rem:
            return Poly(out)
        lm = max(rem, key=key)
        d = dict(lm)
        for i, e in lq:
            d[i] = d.get(i, 0) - e
            if d[i] == 0:
                del d[i]
        m = tuple(sorted(d.items()))
        # quotient terms below the lowest possible one mean no exact quotient
        km = key(m)
        if tuple(a + b for a, b in zip(km, lowq)) < low:
            return None
        if any(e < 0 and T.atoms[i].kind in ("exp", "sqrt", "inv") for i, e in m):
            return None
        c = rem[lm] / cq
        out[m] = c
        t = mul(Poly({m: c}), q)
        for mm, cc in t.t.items():
            v = rem.get(mm, 0) - cc
            if v == 0:
                rem.pop(mm, None)
            else:
                rem[mm] = v
        if len(rem) > 300:
            return None
    return None


def together(p):
    """p = N / prod(q_i ** e_i): (N, [(q_i, e_i)]), N free of reciprocals of
    sums."""
    r = _together_cache.get(p)
    if r is not None:
        return r
    n = p
    den = []
    for _ in range(60):
        worst = {}
        for m in n.t:
            for i, e in m:
                if T.atoms[i].kind == "inv":
                    worst[i] = max(worst.get(i, 0), e)
        if not worst:
            break
        i = max(worst)
        k = worst[i]
        q = T.atoms[i].args[0]
        pw = [const(1)]
        for _k in range(k):
            pw.append(mul(pw[-1], q))
        out = Poly({})
        for m, c in n.t.items():
            e = 0
            rest = []
            for j, f in m:
                if j == i:
                    e = f
                else:
                    rest.append((j, f))
            out = add(out, mul(Poly({tuple(rest): c}), pw[k - e]))
        n = out
        while k > 0:
            r = exact_div(n, q)
            if r is None:
                break
            n = r
            k -= 1
        if k:
            den.append((q, k))
    _together_cache[p] = (n, den)
    return n, den


def _neg_sign(s):
    return {"+": "-", "-": "+", "0+": "0-", "0-": "0+", None: None, "0": "0"}[s]


def mono_sign(m):
    s = "+"
    for i, e in m:
        a = T.atoms[i].sign
        if e % 2 == 0:
            a = "+" if a in ("+", "-") else "0+"
        if a is None:
            return None
        neg_ = (s in ("-", "0-")) != (a in ("-", "0-"))
        weak = s.startswith("0") or a.startswith("0")
        s = ("0" if weak else "") + ("-" if neg_ else "+")
    return s


def sign(p):
    """Syntactic sign: '+', '-', '0+', '0-', '0' or None (unknown)."""
    if not p.t:
        return "0"
    pos = neg_ = strict = 0
    for m, c in p.t.items():
        s = mono_sign(m)
        if s is None:
            pos = neg_ = -1
            break
        if c < 0:
            s = _neg_sign(s)
        if s in ("+", "0+"):
            pos += 1
        else:
            neg_ += 1
        if not s.startswith("0"):
            strict += 1
    if pos >= 0 and not (pos and neg_):
        s = "+" if pos else "-"
        return s if strict else "0" + s
    v = approx(p)
    if v is not None and abs(v) > 1e-9:
        return "+" if v > 0 else "-"
    if has_inv(p):
        n, den = together(p)
        s = sign(n)
        if s is not None:
            for q, e in den:
                sq = sign(q)
                if sq in ("+", "-"):
                    if sq == "-" and e % 2:
                        s = _neg_sign(s)
                elif e % 2:
                    s = None
                    break
            if s is not None:
                return s
    d = reduce_sign(p)
    if d is not None:
        return sign(d)
    # range of bounded atoms: 1 - phi, 1 - inv(1+pos)
    r = _interval(p)
    if r is not None:
        lo, hi = r
        if lo > 0:
            return "+"
        if hi < 0:
            return "-"
        if lo == 0:
            return "0+"
        if hi == 0:
            return "0-"
    if p not in _sos_cache:
        r = _sos(p)
        if r is None:
            r = _neg_sign(_sos(neg(p)))
        _sos_cache[p] = r
    return _sos_cache[p]


_sos_cache = {}


def _sos(p):
    """'0+' / '+' if p is a sum of squares of linear forms in monomials."""
    if not 3 <= len(p.t) <= 60:
        return None
    basis = []
    for m, c in p.t.items():
        if all(e % 2 == 0 for _, e in m) and c > 0:
            basis.append(tuple((i, e // 2) for i, e in m))
    basis.sort(key=lambda m: (m == (), m))
    n = len(basis)
    if n < 2 or n > 9:
        return None
    G = [[ZERO] * n for _ in range(n)]
    left = dict(p.t)
    pairs = {}
    for i in range(n):
        for j in range(i, n):
            d = dict(basis[i])
            for k, e in basis[j]:
                d[k] = d.get(k, 0) + e
            m = tuple(sorted((k, e) for k, e in d.items() if e))
            pairs.setdefault(m, []).append((i, j))
    for m, c in left.items():
        w = pairs.get(m)
        if w is None:
            return None
        sq = [q for q in w if q[0] == q[1]]
        i, j = sq[0] if sq else w[0]
        if i == j:
            G[i][i] += c
        else:
            G[i][j] += c / 2
            G[j][i] += c / 2
    strict = False
    for k in range(n):
        if G[k][k] < 0 or (G[k][k] == 0 and any(G[k][j] for j in range(k, n))):
            return None
        if G[k][k] == 0:
            continue
        strict = k == n - 1 and basis[k] == ()
        for i in range(k + 1, n):
            f = G[i][k] / G[k][k]
            if f:
                for j in range(k, n):
                    G[i][j] -= f * G[k][j]
    return "+" if strict else "0+"


def _lcm_den(cs):
    n = 1
    for c in cs:
        n = n * c.denominator // math.gcd(n, c.denominator)
    return n


def reduce_sign(p):
    """A simpler polynomial of the same sign as p, using monotonicity of the
    functions involved, or None."""
    if not p.t or len(p.t) > 24:
        return None
    r = _reduce_cache.get(p)
    if r is None:
        r = _reduce_cache[p] = (_reduce_sign(p),)
    return r[0]


_reduce_cache = {}


def _reduce_sign(p):
    atoms = T.atoms
    items = list(p.t.items())
    kinds = set()
    for m, c in items:
        if len(m) == 1 and m[0][1] == 1:
            kinds.add(atoms[m[0][0]].kind)
        else:
            kinds.add("?")
    try:
        if kinds == {"log"}:
            # sum n_i log a_i  ~  prod a_i^n_i(+) - prod a_i^n_i(-)
            k = _lcm_den([c for _, c in items])
            ns = [(atoms[m[0][0]].args[0], int(c * k)) for m, c in items]
            if sum(abs(n) for _, n in ns) > 16:
                return None
            x, y = const(1), const(1)
            for q, n in ns:
                if n > 0:
                    x = mul(x, power(q, n))
                else:
                    y = mul(y, power(q, -n))
            return sub(x, y)
        if len(items) == 1 and kinds == {"phiinv"}:
            (m, c), = items
            return scale(sub(atoms[m[0][0]].args[0], const(Fraction(1, 2))), ONE if c > 0 else -ONE)
        if len(items) == 2:
            (m1, c1), (m2, c2) = items
            if kinds == {"phiinv"} and abs(c1) == abs(c2):
                a, b = atoms[m1[0][0]].args[0], atoms[m2[0][0]].args[0]
                d = sub(a, b) if (c1 > 0) != (c2 > 0) else sub(add(a, b), const(1))
                return d if c1 > 0 else neg(d)
            if (c1 > 0) != (c2 > 0) and mono_sign(m1) in ("+", "0+") and mono_sign(m2) in ("+", "0+"):
                if c1 < 0:
                    m1, c1, m2, c2 = m2, c2, m1, c1
                # positive c1 m1 - c2 m2
                ks = {atoms[i].kind for i, _ in m1} | {atoms[i].kind for i, _ in m2}
                if mono_sign(m1) == "+" and mono_sign(m2) == "+":
                    if kinds <= {"phi"} or (m1 == () or m2 == ()) and "phi" in kinds:
                        if abs(c1) == abs(c2) and kinds == {"phi"}:
                            return sub(atoms[m1[0][0]].args[0], atoms[m2[0][0]].args[0])
                    if "exp" in ks:
                        x = log(Poly({m1: c1}))
                        y = log(Poly({m2: -c2}))
                        d = sub(x, y)
                        if not any(
                            atoms[i].kind == "log" and atoms[i].approx is None for m in d.t for i, _ in m
                        ):
                            return d
                if "sqrt" in ks:
                    x, y = Poly({m1: c1}), Poly({m2: c2})
                    return sub(mul(x, x), mul(y, y))
        # A + B with B the part carrying an odd power of a square root
        roots = {i for m, _ in items for i, e in m if atoms[i].kind == "sqrt" and e % 2}
        if len(roots) == 1:
            (r,) = roots
            A = Poly({m: c for m, c in items if r not in dict(m)})
            B = Poly({m: c for m, c in items if r in dict(m)})
            if A.t and B.t:
                sa, sb = sign(A), sign(B)
                if sa in ("+", "0+") and sb in ("-", "0-"):
                    return sub(mul(A, A), mul(B, B))
                if sa in ("-", "0-") and sb in ("+", "0+"):
                    return sub(mul(B, B), mul(A, A))
                if sa and sb and sa[-1] == sb[-1]:
                    return None
    except (TooBig, ZeroDivisionError):
        return None
    return None


COS3_HINTS = []


def cos_third_arccos(a):
    """cos(arccos(a)/3) when a harness supplied d with 4 d^3 - 3 d = a and
    d > sqrt(3)/2: 4 c^3 - 3 c is increasing there, so the cosine is d."""
    for d in COS3_HINTS:
        e = sub(sub(scale(power(d, 3), Fraction(4)), scale(d, Fraction(3))), a)
        if clear(e).is_zero() and sign(d) == "+" and sign(sub(mul(d, d), const(Fraction(3, 4)))) in ("+", "0+"):
            return d
    return None


def _interval(p):
    """Crude open-interval bound for linear terms over phi atoms."""
    if len(p.t) > 4:
        return None
    lo = hi = ZERO
    strict = False
    for m, c in p.t.items():
        if m == ():
            lo += c
            hi += c
        elif len(m) == 1 and m[0][1] == 1 and T.atoms[m[0][0]].kind == "phi":
            strict = True
            lo += min(c, ZERO)
            hi += max(c, ZERO)
        elif (
            len(m) == 1
            and m[0][1] == 1
            and T.atoms[m[0][0]].kind == "inv"
            and _inv_below_one(T.atoms[m[0][0]].args[0])
        ):
            k = ONE / T.atoms[m[0][0]].args[0].const()
            strict = True
            lo += min(c * k, ZERO)
            hi += max(c * k, ZERO)
        else:
            return None
    if strict:  # open interval: a zero end point is not attained
        if lo == 0:
            lo = Fraction(1, 10**30)
        if hi == 0:
            hi = -Fraction(1, 10**30)
    return lo, hi


def _inv_below_one(q):
    c = q.const()
    return c > 0 and sign(sub(q, const(c))) == "+"


def approx(p):
    """Numeric value if p is a constant expression, else None."""
    if p.is_const():
        try:
            return float(p.const())
        except OverflowError:
            return None
    v = 0.0
    for m, c in p.t.items():
        try:
            x = float(c)
        except OverflowError:
            return None
        for i, e in m:
            a = T.atoms[i].approx
            if a is None:
                return None
            try:
                x *= a**e
            except OverflowError:
                return None
        v += x
    return v


def _set_approx(atom, f, *ps):
    if atom.approx is None:
        vs = [approx(p) for p in ps]
        if all(v is not None for v in vs):
            try:
                atom.approx = f(*vs)
            except (ValueError, OverflowError):
                pass


def pi():
    a = T.get(("pi",), "const", "PI", (), "+")
    a.approx = math.pi
    return atom_poly(a)


def named_const(name, value):
    a = T.get(("named", name), "const", name, (), "+" if value > 0 else "-")
    a.approx = value
    return atom_poly(a)


# --------------------------------------------------------------- functions


def exp(p):
    if p.is_zero():
        return const(1)
    fac = None
    rest = {}
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and T.atoms[m[0][0]].kind == "log":
            c2 = 2 * c
            if c2.denominator == 1 and abs(c2) <= 40:
                q = T.atoms[m[0][0]].args[0]
                n = int(c2)
                f = power(q, n // 2) if n % 2 == 0 else mul(
                    power(q, (n - 1) // 2), sqrt(q)
                )
                fac = f if fac is None else mul(fac, f)
                continue
        if not m and c.denominator > 10**12:
            # a floating-point constant: without its rounding error
            c = Fraction(round(c * 10**12), 10**12)
            if not c:
                continue
        rest[m] = c
    r = Poly(rest)
    if not r.t:
        return fac if fac is not None else const(1)
    a = T.get(("exp", r), "exp", "exp", (r,), "+")
    _set_approx(a, math.exp, r)
    e = atom_poly(a)
    return e if fac is None else mul(fac, e)


def _log_const(c):
    """log of a positive rational as a combination of logs of primes."""
    out = Poly({})
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        if n == 1:
            continue
        for pr, k in _factor(n).items():
            a = T.get(("log", const(pr)), "log", "log", (const(pr),), "+")
            a.approx = math.log(pr) if pr < 10**300 else None
            if a.approx is None:
                a.approx = math.log(float(pr)) if pr < 1.7e308 else pr.bit_length() * math.log(2)
            out = add(out, scale(atom_poly(a), Fraction(s * k)))
    return out


def _factor(n):
    f = {}
    d = 2
    while d * d <= n and d < 2000:
        while n % d == 0:
            f[d] = f.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        f[n] = f.get(n, 0) + 1
    return f


def log(p):
    """log p, p > 0 assumed."""
    if p.is_const():
        return _log_const(p.const())
    if has_inv(p):
        n, den = together(p)
        if all(sign(q) == "+" for q, e in den):
            r = log(n)
            for q, e in den:
                r = sub(r, scale(log(q), Fraction(e)))
            return r
    pv = exp_pivot(p)
    if pv is not None:
        return add(pv[0], log(pv[1]))
    mono, q = content(p)
    ok = all(T.atoms[i].sign == "+" for i, _ in mono)
    if mono and not ok:
        keep = tuple((i, e) for i, e in mono if T.atoms[i].sign == "+")
        if keep:
            q = mul(p, Poly({tuple((i, -e) for i, e in keep): ONE}))
        else:
            q = p
        mono = keep
    out = Poly({})
    for i, e in mono:
        out = add(out, scale(_log_atom(i), Fraction(e)))
    lead = q.key()[0][1]
    # a positive scalar can be pulled out
    if lead > 0 and lead != 1 and len(q.t) > 0:
        out = add(out, _log_const(lead))
        q = scale(q, ONE / lead)
    if len(q.t) == 1:
        ((m, c),) = q.t.items()
        if c > 0 and all(T.atoms[i].sign == "+" for i, _ in m):
            out = add(out, _log_const(c))
            for i, e in m:
                out = add(out, scale(_log_atom(i), Fraction(e)))
            return out
        if not m:
            return add(out, _log_const(c))
    a = T.get(("log", q), "log", "log", (q,), None)
    _set_approx(a, math.log, q)
    return add(out, atom_poly(a))


def _log_atom(i):
    a = T.atoms[i]
    if a.kind == "exp":
        return a.args[0]
    if a.kind == "sqrt":
        return scale(log(a.args[0]), Fraction(1, 2))
    if a.kind == "inv":
        return neg(log(a.args[0]))
    p = atom_poly(a)
    b = T.get(("log", p), "log", "log", (p,), None)
    if a.approx:
        b.approx = math.log(a.approx)
    return atom_poly(b)


def _isqrt(n):
    r = math.isqrt(n)
    return r if r * r == n else None


def sqrt(p):
    """sqrt p, p >= 0 assumed."""
    if p.is_zero():
        return p
    if p.is_const():
        c = p.const()
        a, b = _isqrt(c.numerator), _isqrt(c.denominator)
        if a is not None and b is not None:
            return const(Fraction(a, b))
        # sqrt(n/d) = sqrt(n*d)/d with square part removed
        n = c.numerator * c.denominator
        out = Fraction(1, c.denominator)
        r = 1
        for pr, k in _factor(n).items():
            out *= pr ** (k // 2)
            if k % 2:
                r *= pr
        at = T.get(("sqrt", const(r)), "sqrt", "sqrt", (const(r),), "+")
        at.approx = math.sqrt(r)
        return scale(atom_poly(at), out)
    if has_inv(p):
        n, den = together(p)
        if all(sign(q) == "+" for q, e in den):
            r = sqrt(n)
            for q, e in den:
                for _ in range(e):
                    r = mul(r, inv(sqrt(q)))
            return r
    pv = exp_pivot(p)
    if pv is not None:
        return mul(exp(scale(pv[0], Fraction(1, 2))), sqrt(pv[1]))
    mono, q = content(p)
    front = const(1)
    back = {}
    for i, e in mono:
        a = T.atoms[i]
        if a.sign in ("+",) or (a.sign == "0+" and e > 0):
            h, r = divmod(e, 2)
            if h:
                front = mul(front, Poly({((i, h),): ONE}))
            if r:
                back[i] = r
        elif a.sign == "-" and e % 2 == 0:
            h = e // 2
            front = mul(front, Poly({((i, h),): ONE if h % 2 == 0 else -ONE}))
        elif e % 2 == 0 and e // 2 % 2 == 0:
            front = mul(front, Poly({((i, e // 2),): ONE}))
        else:
            back[i] = e
    if back:
        q = mul(q, Poly({tuple(sorted(back.items())): ONE}))
    if len(q.t) == 1:
        ((m, c),) = q.t.items()
        if c > 0 and c != 1:
            front = mul(front, sqrt(const(c)))
            q = Poly({m: ONE})
        d = {}
        for i, e in m:
            a = T.atoms[i]
            if a.kind == "exp":
                front = mul(front, exp(scale(a.args[0], Fraction(e, 2))))
            elif a.sign == "+" and e % 2 == 0:
                front = mul(front, Poly({((i, e // 2),): ONE}))
            elif a.sign == "+" and a.kind == "inv":
                front = mul(front, inv(sqrt(power(a.args[0], e))))
            elif a.sign == "+" and e > 1 or (a.sign == "+" and e < 0):
                h, r = divmod(e, 2)
                front = mul(front, Poly({((i, h),): ONE}))
                if r:
                    d[i] = r
            else:
                d[i] = e
        q = Poly({tuple(sorted(d.items())): ONE if c > 0 else c})
        if q == const(1):
            return front
    else:
        lead = q.key()[0][1]
        if lead > 0 and lead != 1:
            front = mul(front, sqrt(const(lead)))
            q = scale(q, ONE / lead)
    s = sign(q)
    a = T.get(("sqrt", q), "sqrt", "sqrt", (q,), "+" if s == "+" else "0+")
    _set_approx(a, math.sqrt, q)
    return mul(front, atom_poly(a))


def phi(p):
    """Standard normal cdf."""
    if p.is_zero():
        return const(Fraction(1, 2))
    if len(p.t) == 1:
        ((m, c),) = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = T.atoms[m[0][0]]
            if a.kind == "phiinv":
                return a.args[0]
    if p.key()[0][1] < 0:  # canonical sign
        return sub(const(1), phi(neg(p)))
    a = T.get(("phi", p), "phi", "phi", (p,), "+")
    _set_approx(a, lambda v: 0.5 * math.erfc(-v / math.sqrt(2)), p)
    return atom_poly(a)


def phiinv(p):
    """Inverse normal cdf, 0 < p < 1 assumed."""
    if p == const(Fraction(1, 2)):
        return const(0)
    for q, s in ((p, 1), (sub(const(1), p), -1)):
        if len(q.t) == 1:
            ((m, c),) = q.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and T.atoms[m[0][0]].kind == "phi":
                return scale(T.atoms[m[0][0]].args[0], Fraction(s))
    # canonical: p or 1-p
    q = sub(const(1), p)
    if min(p.key(), q.key()) != p.key():
        return neg(phiinv(q))
    a = T.get(("phiinv", p), "phiinv", "phiinv", (p,), None)
    return atom_poly(a)


def ite(zc, deps, a, b, isint=False):
    """If(zc, a, b); zc a z3 Bool, deps the atoms it mentions."""
    if a == b:
        return a
    sa, sb = sign(a), sign(b)
    s = None
    if sa == sb:
        s = sa
    elif sa in ("+", "0+", "0") and sb in ("+", "0+", "0"):
        s = "0+"
    elif sa in ("-", "0-", "0") and sb in ("-", "0-", "0"):
        s = "0-"
    if s == "0":
        s = None
    at = T.get(("ite", zc.get_id(), a, b), "ite", "ite", (a, b), s, isint, extra=(zc, frozenset(deps)))
    return atom_poly(at)


def floor(p):
    if p.is_const():
        return const(p.const().numerator // p.const().denominator)
    at = T.get(("floor", p), "floor", "floor", (p,), None, True)
    return atom_poly(at)


def ufun(name, args, sign_=None, extra=None, isint=False):
    at = T.get(("uf", name, tuple(args)), "uf", name, tuple(args), sign_, isint, extra=(name, extra))
    return atom_poly(at)


def trig(name, p, f=None):
    at = T.get((name, p), name, name, (p,), None)
    if f is not None:
        _set_approx(at, f, p)
    return atom_poly(at)


EXACT_NEXT = [False]


def nextafter(p, up):
    if EXACT_NEXT[0]:
        return p
    at = T.get(("next", p, up), "next", "next", (p,), None, extra=up)
    if approx(p) is not None:
        at.approx = approx(p)
    return atom_poly(at)


# --------------------------------------------------------------- z3 side

_zcache = {}


def _zmono_factor(i, e):
    a = T.atoms[i]
    z = z3.ToReal(a.z) if a.isint else a.z
    if e > 0:
        return [z] * e
    if a.zinv is None:
        a.zinv = z3.Real(f"rcp!{a.name}")
    return [a.zinv] * (-e)


def to_z3(p):
    """z3 Real term for p."""
    if p._z is not None and p._z[0] is T:
        return p._z[1]
    terms = []
    for m, c in p.key():
        fs = []
        for i, e in m:
            fs += _zmono_factor(i, e)
        if not fs:
            terms.append(z3.RealVal(str(c)))
        else:
            if c != 1:
                fs = [z3.RealVal(str(c))] + fs
            terms.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
    if not terms:
        r = z3.RealVal(0)
    elif len(terms) == 1:
        r = terms[0]
    else:
        r = z3.Sum(*terms)
    p._z = (T, r)
    return r


def to_z3_int(p):
    terms = []
    for m, c in p.key():
        assert c.denominator == 1
        t = z3.IntVal(int(c))
        fs = []
        for i, e in m:
            assert e > 0 and T.atoms[i].isint
            fs += [T.atoms[i].z] * e
        terms.append(z3.Product(*([t] + fs)) if fs else t)
    if not terms:
        return z3.IntVal(0)
    return z3.Sum(*terms) if len(terms) > 1 else terms[0]


def is_int_poly(p):
    return all(
        c.denominator == 1 and all(e > 0 and T.atoms[i].isint for i, e in m)
        for m, c in p.t.items()
    )


def closure(ids):
    """All atoms reachable from ids through definitions."""
    seen = set()
    stack = list(ids)
    while stack:
        i = stack.pop()
        if i in seen:
            continue
        seen.add(i)
        a = T.atoms[i]
        if a._deps is None:
            d = set()
            for q in a.args:
                d |= q.atoms()
            if a.kind == "ite":
                d |= a.extra[1]
            a._deps = d
        stack.extend(a._deps - seen)
    return seen


def axioms_for(ids, pairwise=True):
    """z3 axioms defining every atom reachable from ids."""
    ids = closure(ids)
    out = []
    groups = {}
    for i in sorted(ids):
        a = T.atoms[i]
        z = a.z
        if a.zinv is not None:
            zr = z3.ToReal(z) if a.isint else z
            out.append(zr * a.zinv == 1)
        if a.sign == "+":
            out.append(z > 0)
        elif a.sign == "0+":
            out.append(z >= 0)
        elif a.sign == "-":
            out.append(z < 0)
        elif a.sign == "0-":
            out.append(z <= 0)
        k = a.kind
        if a.approx is not None and k != "var":
            w = max(abs(a.approx) * 1e-12, 1e-300)
            out.append(z > z3.RealVal(frac_str(a.approx - w)))
            out.append(z < z3.RealVal(frac_str(a.approx + w)))
        if k == "exp":
            groups.setdefault("exp", []).append((a.args[0], z, to_z3(a.args[0])))
        elif k == "log":
            groups.setdefault("exp", []).append((atom_poly(a), to_z3(a.args[0]), z))
            # second slot is the value, third the argument
        elif k == "sqrt":
            q = to_z3(a.args[0])
            out.append(z * z == q)
            out.append(z >= 0)
        elif k == "inv":
            out.append(z * to_z3(a.args[0]) == 1)
        elif k == "ite":
            c, _ = a.extra
            if a.isint:
                out.append(z == z3.If(c, to_z3_int(a.args[0]), to_z3_int(a.args[1])))
            else:
                out.append(z3.If(c, z == to_z3(a.args[0]), z == to_z3(a.args[1])))
            o = getattr(a, "order", 0)
            for q in a.args if o else ():
                # the larger (smaller) of the two; implied, but spares the
                # solver the comparison itself
                out.append(z >= to_z3(q) if o > 0 else z <= to_z3(q))
        elif k == "phi":
            out += [z > 0, z < 1]
            groups.setdefault("phi", []).append((a.args[0], z, to_z3(a.args[0])))
        elif k == "phiinv":
            v = to_z3(a.args[0])
            groups.setdefault("phi", []).append((atom_poly(a), v, z))
        elif k == "floor":
            q = to_z3(a.args[0])
            out += [z3.ToReal(z) <= q, q < z3.ToReal(z) + 1]
        elif k == "next":
            q = to_z3(a.args[0])
            tiny = z3.RealVal("1/1000000000000000")
            ab = z3.If(q >= 0, q, -q)
            if a.extra:
                out += [z > q, z <= q + tiny * ab + z3.RealVal("1e-300")]
            else:
                out += [z < q, z >= q - tiny * ab - z3.RealVal("1e-300")]
        elif k == "uf":
            groups.setdefault(("uf", a.extra[0], len(a.args)), []).append(a)
            if a.extra[1] is not None:
                out += a.extra[1](a)
        elif k in ("sin", "cos"):
            out += [z >= -1, z <= 1]
            groups.setdefault(k, []).append(a)
        elif k == "arccos":
            out += [z >= 0, z <= z3.RealVal("3.1415926535897936")]
        elif k == "tanh":
            out += [z > -1, z < 1]
            groups.setdefault("inc:" + k, []).append((a.args[0], z, to_z3(a.args[0])))
        elif k in ("arctan",):
            groups.setdefault("inc:" + k, []).append((a.args[0], z, to_z3(a.args[0])))
    for g, lst in groups.items():
        if g == "exp":
            for p, v, x in lst:
                out += [v > 0, v >= 1 + x]
                out.append(z3.Implies(x == 0, v == 1))
                out.append(z3.Implies(x > 0, v > 1))
                out.append(z3.Implies(x < 0, v < 1))
                out.append(z3.Implies(v > 1, x > 0))
                out.append(z3.Implies(v < 1, x < 0))
                # log v <= v - 1 applied to 1/v:  x >= 1 - 1/v
                out.append(x * v >= v - 1)
            if pairwise:
                _monotone(lst, out)
                n = len(lst)
                for i in range(n):
                    for j in range(i, n):
                        s = add(lst[i][0], lst[j][0])
                        if s.is_zero():
                            out.append(lst[i][1] * lst[j][1] == 1)
                        else:
                            for k in range(n):
                                if lst[k][0] == s:
                                    out.append(lst[i][1] * lst[j][1] == lst[k][1])
        elif g == "phi":
            half = z3.RealVal("1/2")
            for p, v, x in lst:
                out += [v > 0, v < 1, (x > 0) == (v > half), (x < 0) == (v < half)]
            if pairwise:
                _monotone(lst, out)
                n = len(lst)
                for i in range(n):
                    for j in range(i):
                        # symmetry about 0
                        xi, xj = lst[i][2], lst[j][2]
                        out.append(
                            (xi + xj > 0) == (lst[i][1] + lst[j][1] > 1)
                        )
                        out.append(
                            (xi + xj == 0) == (lst[i][1] + lst[j][1] == 1)
                        )
        elif isinstance(g, tuple) and g[0] == "uf" and pairwise:
            for i in range(len(lst)):
                for j in range(i):
                    eqs = [
                        to_z3(p) == to_z3(q)
                        for p, q in zip(lst[i].args, lst[j].args)
                        if p != q
                    ]
                    out.append(z3.Implies(z3.And(*eqs), lst[i].z == lst[j].z))
        elif isinstance(g, str) and g.startswith("inc:"):
            _monotone(lst, out)
            for p, v, x in lst:
                out += [(x > 0) == (v > 0), (x < 0) == (v < 0)]
        elif g == "cos":
            # cos(arccos a) = a;  triple angle for cos(arccos(a)/3)
            for a in lst:
                p = a.args[0]
                for i in p.atoms():
                    b = T.atoms[i]
                    if b.kind == "arccos":
                        base = atom_poly(b)
                        if p == base:
                            out.append(a.z == to_z3(b.args[0]))
                        elif p == scale(base, Fraction(1, 3)):
                            av = to_z3(b.args[0])
                            out.append(4 * a.z * a.z * a.z - 3 * a.z == av)
                            out.append(a.z >= z3.RealVal("1/2"))
                            out.append(
                                z3.Implies(av >= 0, 4 * a.z * a.z >= 3)
                            )
    return out


def _monotone(lst, out):
    n = len(lst)
    for i in range(n):
        for j in range(i):
            (p1, v1, x1), (p2, v2, x2) = lst[i], lst[j]
            d = sub(p1, p2)
            if d.is_const():
                c = d.const()
                if c > 0:
                    out.append(v1 > v2)
                elif c < 0:
                    out.append(v1 < v2)
                else:
                    out.append(v1 == v2)
                continue
            out.append((x1 < x2) == (v1 < v2))
            out.append((x1 == x2) == (v1 == v2))


def frac_str(x):
    f = Fraction(x)
    return f"{f.numerator}/{f.denominator}"


# --------------------------------------------------------- differentiation


def diff(p, aid, cache=None):
    """d p / d atom(aid)."""
    if cache is None:
        cache = {}
    out = Poly({})
    for m, c in p.t.items():
        for k, (i, e) in enumerate(m):
            di = diff_atom(i, aid, cache)
            if not di.t:
                continue
            rest = Poly({m[:k] + m[k + 1 :]: c * e})
            if e != 1:
                rest = mul(rest, _pow_atom(i, e - 1))
            out = add(out, mul(rest, di))
    return out


def _pow_atom(i, e):
    return power(Poly({((i, 1),): ONE}), e) if e > 0 else Poly({((i, e),): ONE})


class NotDifferentiable(Exception):
    pass


def diff_atom(i, aid, cache):
    if i == aid:
        return const(1)
    r = cache.get(i)
    if r is not None:
        return r
    if aid not in closure([i]):
        cache[i] = const(0)
        return cache[i]
    a = T.atoms[i]
    k = a.kind
    me = atom_poly(a)
    if k in ("var", "const", "floor"):
        r = const(0)
    elif k == "exp":
        r = mul(me, diff(a.args[0], aid, cache))
    elif k == "log":
        r = mul(inv(a.args[0]), diff(a.args[0], aid, cache))
    elif k == "sqrt":
        r = mul(scale(inv(me), Fraction(1, 2)), diff(a.args[0], aid, cache))
    elif k == "inv":
        r = neg(mul(mul(me, me), diff(a.args[0], aid, cache)))
    elif k == "ite":
        c, deps = a.extra
        da = diff(a.args[0], aid, cache)
        db = diff(a.args[1], aid, cache)
        r = ite(c, deps, da, db)
    elif k == "phi":
        x = a.args[0]
        pdf = mul(
            exp(scale(mul(x, x), Fraction(-1, 2))), inv(sqrt(scale(pi(), Fraction(2))))
        )
        r = mul(pdf, diff(x, aid, cache))
    elif k == "phiinv":
        # d z/d p = 1/pdf(z)
        r = mul(
            mul(exp(scale(mul(me, me), Fraction(1, 2))), sqrt(scale(pi(), Fraction(2)))),
            diff(a.args[0], aid, cache),
        )
    elif k == "uf":
        r = Poly({})
        for n, q in enumerate(a.args):
            dq = diff(q, aid, cache)
            if dq.t:
                r = add(r, mul(ufun(f"{a.extra[0]}'{n}", a.args), dq))
    elif k == "cos":
        r = neg(mul(trig("sin", a.args[0]), diff(a.args[0], aid, cache)))
    elif k == "sin":
        r = mul(trig("cos", a.args[0]), diff(a.args[0], aid, cache))
    elif k == "tanh":
        r = mul(sub(const(1), mul(me, me)), diff(a.args[0], aid, cache))
    elif k == "next":
        r = diff(a.args[0], aid, cache)
    else:
        raise NotDifferentiable(k)
    cache[i] = r
    return r


def clear(p, limit=40):
    """Multiply p by its denominators (reciprocal atoms, negative powers)
    until none is left.  Zero iff p is zero (denominators are nonzero)."""
    for _ in range(limit):
        # negative exponents
        mins = {}
        for m in p.t:
            for i, e in m:
                if e < 0:
                    mins[i] = min(mins.get(i, 0), e)
        if mins:
            p = mul(p, Poly({tuple(sorted((i, -e) for i, e in mins.items())): ONE}))
        # reciprocal atoms, innermost definitions last
        worst = {}
        for m in p.t:
            for i, e in m:
                if T.atoms[i].kind == "inv":
                    worst[i] = max(worst.get(i, 0), e)
        if not worst and not mins:
            return p
        if worst:
            i = max(worst)
            n = worst[i]
            q = T.atoms[i].args[0]
            pw = [const(1)]
            for _k in range(n):
                pw.append(mul(pw[-1], q))
            out = Poly({})
            for m, c in p.t.items():
                e = dict(m).get(i, 0)
                rest = tuple((j, f) for j, f in m if j != i)
                out = add(out, mul(Poly({rest: c}), pw[n - e]))
            p = out
    return p


def clear_pair(a, b, limit=40):
    """a and b multiplied by the same nonzero factors until neither contains
    a reciprocal."""
    ps = [a, b]
    for _ in range(limit):
        mins = {}
        worst = {}
        for p in ps:
            for m in p.t:
                for i, e in m:
                    if e < 0:
                        mins[i] = min(mins.get(i, 0), e)
                    elif T.atoms[i].kind == "inv":
                        worst[i] = max(worst.get(i, 0), e)
        if not worst and not mins:
            return ps
        if mins:
            f = Poly({tuple(sorted((i, -e) for i, e in mins.items())): ONE})
            ps = [mul(p, f) for p in ps]
            continue
        i = max(worst)
        n = worst[i]
        q = T.atoms[i].args[0]
        pw = [const(1)]
        for _k in range(n):
            pw.append(mul(pw[-1], q))
        new = []
        for p in ps:
            out = Poly({})
            for m, c in p.t.items():
                e = dict(m).get(i, 0)
                rest = tuple((j, f) for j, f in m if j != i)
                out = add(out, mul(Poly({rest: c}), pw[n - e]))
            new.append(out)
        ps = new
    return ps


def near_equal(a, b, rel=1e-10):
    """a and b equal up to the rounding of concrete constants: grouped by
    their non-constant monomial, the coefficients agree to relative rel."""
    try:
        a, b = clear_pair(a, b)
    except TooBig:
        pass
    g = {}
    for p, s in ((a, 1), (b, -1)):
        for m, c in p.t.items():
            v, rest = float(c), []
            for i, e in m:
                x = T.atoms[i].approx
                if x is None:
                    rest.append((i, e))
                    continue
                try:
                    v *= x**e
                except (OverflowError, ZeroDivisionError):
                    return False
            t = g.setdefault(tuple(rest), [0.0, 0.0])
            t[0] += s * v
            t[1] = max(t[1], abs(v))
    return all(abs(t[0]) <= rel * t[1] for t in g.values())


def evaluate(p, env, cache):
    """Float value of p; env maps variable atom id -> float."""
    v = 0.0
    for m, c in p.t.items():
        x = float(c)
        for i, e in m:
            x *= eval_atom(i, env, cache) ** e
        v += x
    return v


def eval_atom(i, env, cache):
    if i in cache:
        return cache[i]
    a = T.atoms[i]
    if i in env:
        r = env[i]
    elif a.approx is not None:
        r = a.approx
    else:
        g = [evaluate(q, env, cache) for q in a.args]
        k = a.kind
        if k == "exp":
            r = math.exp(g[0])
        elif k == "log":
            r = math.log(g[0])
        elif k == "sqrt":
            r = math.sqrt(max(g[0], 0.0))
        elif k == "inv":
            r = 1.0 / g[0]
        elif k == "phi":
            r = 0.5 * math.erfc(-g[0] / math.sqrt(2))
        elif k == "floor":
            r = math.floor(g[0])
        elif k == "next":
            r = g[0]
        elif k in ("sin", "cos", "tanh"):
            r = getattr(math, k)(g[0])
        elif k == "arccos":
            r = math.acos(max(-1.0, min(1.0, g[0])))
        else:
            raise KeyError(k)
    cache[i] = r
    return r
