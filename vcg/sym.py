"""Hash-consed symbolic terms with canonical polynomials, translated to z3 on demand.

Sorts: 'R' real, 'I' mathematical integer, 'B' bool, 'F' IEEE binary32, 'D' IEEE binary64.
Real/integer arithmetic is kept as canonical polynomials over atoms, so algebraically equal
polynomial terms are the same object."""
from fractions import Fraction
import math
import z3

_tab = {}
_cnt = [0]


class E:
    __slots__ = ("op", "args", "sort", "id", "z", "deps")

    def __repr__(self):
        return show(self)

    # python operators are deliberately not overloaded for == (identity is structural equality)


def mk(op, args, sort):
    k = (op, args, sort)
    e = _tab.get(k)
    if e is None:
        e = E()
        e.op, e.args, e.sort = op, args, sort
        _cnt[0] += 1
        e.id = _cnt[0]
        e.z = None
        e.deps = None
        _tab[k] = e
    return e


def max_id():
    return _cnt[0]


def show(e, d=0):
    if not isinstance(e, E):
        return str(e)
    if d > 12:
        return "..."
    if e.op == "poly":
        out = []
        for mon, c in e.args[:24]:
            out.append("*".join(([str(c)] if c != 1 or not mon else []) + [("%s" % show(a, d + 1)) + ("^%d" % p if p > 1 else "") for a, p in mon]))
        if len(e.args) > 24:
            out.append("... %d terms" % len(e.args))
        return "(" + " + ".join(out) + ")" if out else "0"
    if e.op == "var":
        return e.args[0]
    if e.op in ("inf", "bool", "fpc"):
        return str(e.args[0])
    return "%s(%s)" % (e.op, ", ".join(show(a, d + 1) for a in e.args))


TRUE = mk("bool", (True,), "B")
FALSE = mk("bool", (False,), "B")


def B(v):
    return TRUE if v else FALSE


def var(name, sort):
    return mk("var", (name,), sort)


_fresh = [0]


def fresh(name, sort):
    _fresh[0] += 1
    return var("%s!%d" % (name, _fresh[0]), sort)


def reset_fresh():
    _fresh[0] = 0


# ---------------------------------------------------------------- polynomials
def const(v, sort):
    if sort == "I":
        v = int(v)
        return mk("poly", (((), v),) if v else (), "I")
    if sort == "R":
        if isinstance(v, float):
            if math.isinf(v):
                return mk("inf", (1 if v > 0 else -1,), "R")
            if math.isnan(v):
                return mk("nan", (), "R")
        v = Fraction(v)
        return mk("poly", (((), v),) if v else (), "R")
    raise ValueError(sort)


def I(v):
    return const(v, "I")


def R(v):
    return const(v, "R")


def is_const(e):
    return e.op == "poly" and (not e.args or (len(e.args) == 1 and not e.args[0][0]))


def cval(e):
    return e.args[0][1] if e.args else 0


def terms(e):
    """dict monomial -> coef for a R/I term"""
    if e.op == "poly":
        return dict(e.args)
    return {((e, 1),): 1}


def from_terms(d, sort):
    items = [(m, c) for m, c in d.items() if c != 0]
    if len(items) == 1 and items[0][1] == 1 and len(items[0][0]) == 1 and items[0][0][0][1] == 1:
        return items[0][0][0][0]
    items.sort(key=lambda t: tuple((a.id, p) for a, p in t[0]))
    return mk("poly", tuple(items), sort)


LIMIT = 6000
defs = {}  # name var -> poly, for products that would blow up


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = {}
    for a, p in m1:
        d[a] = d.get(a, 0) + p
    for a, p in m2:
        d[a] = d.get(a, 0) + p
    return mono_norm(d)


def mono_norm(d):
    return tuple(sorted(((a, p) for a, p in d.items() if p), key=lambda t: t[0].id))


class Unsupported(Exception):
    pass


def hasinf(e):
    if e.op in ("inf", "nan"):
        return True
    if e.op == "ite":
        return hasinf(e.args[1]) or hasinf(e.args[2])
    return False


def add(a, b):
    if a.sort != b.sort:
        raise Unsupported("sort mismatch in add %s %s" % (a.sort, b.sort))
    if hasinf(a) or hasinf(b):
        if a.op == "ite":
            return ite(a.args[0], add(a.args[1], b), add(a.args[2], b))
        if b.op == "ite":
            return ite(b.args[0], add(a, b.args[1]), add(a, b.args[2]))
        if a.op == "nan" or b.op == "nan":
            return R(math.nan)
        if a.op == "inf":
            if b.op == "inf" and b.args[0] != a.args[0]:
                return R(math.nan)
            return a
        return b
    d = dict(terms(a))
    for m, c in terms(b).items():
        v = d.get(m, 0) + c
        if v == 0:
            d.pop(m, None)
        else:
            d[m] = v
    return from_terms(d, a.sort)


def scale(a, k):
    if a.op == "inf":
        if k == 0:
            return R(math.nan)
        return a if k > 0 else mk("inf", (-a.args[0],), "R")
    if a.op == "nan":
        return a
    if hasinf(a):
        return ite(a.args[0], scale(a.args[1], k), scale(a.args[2], k))
    if k == 0:
        return const(0, a.sort)
    return from_terms({m: c * k for m, c in terms(a).items()}, a.sort)


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if a.sort != b.sort:
        raise Unsupported("sort mismatch in mul")
    if hasinf(a) or hasinf(b):
        if a.op == "ite":
            return ite(a.args[0], mul(a.args[1], b), mul(a.args[2], b))
        if b.op == "ite":
            return ite(b.args[0], mul(a, b.args[1]), mul(a, b.args[2]))
        x, y = (a, b) if a.op in ("inf", "nan") else (b, a)
        if x.op == "nan" or y.op == "nan":
            return R(math.nan)
        if y.op == "inf":
            return mk("inf", (x.args[0] * y.args[0],), "R")
        if is_const(y):
            return scale(x, cval(y))
        return ite(lt(R(0), y), x, ite(lt(y, R(0)), neg(x), R(math.nan)))
    if is_const(a):
        return scale(b, cval(a))
    if is_const(b):
        return scale(a, cval(b))
    ta, tb = terms(a), terms(b)
    if len(ta) * len(tb) > LIMIT:
        # keep the larger factor as an opaque atom with a definition
        if a.sort != "R":
            raise Unsupported("polynomial blow-up")
        if len(ta) >= len(tb):
            return mul(define(a), b)
        return mul(a, define(b))
    d = {}
    for m1, c1 in ta.items():
        for m2, c2 in tb.items():
            m = mono_mul(m1, m2)
            v = d.get(m, 0) + c1 * c2
            if v == 0:
                d.pop(m, None)
            else:
                d[m] = v
    d = reduce_terms(d)
    return from_terms(d, a.sort)


def define(p):
    """opaque name for a large polynomial (to_z3 still sees its definition)"""
    ts = terms(p)
    m = min(ts, key=lambda m: tuple((a.id, k) for a, k in m))
    k = ts[m]
    if k != 1:
        return scale(mk("def", (scale(p, Fraction(1) / k),), "R"), k)
    return mk("def", (p,), "R")


def reduce_terms(d):
    """apply local rewriting: sin(t)^2 -> 1-cos(t)^2 ; sqrt(p)^2 -> p (p>=0 assumed by definedness) ;
    inv(x)*x -> 1 for atomic x with inv (x != 0 assumed by definedness of the division)."""
    work = list(d.items())
    if not any(p > 1 and a.op in ("sin",) for m, _ in work for a, p in m) and \
       not any(a.op == "inv" for m, _ in work for a, p in m):
        return d
    out = {}
    while work:
        m, c = work.pop()
        hit = None
        for a, p in m:
            if a.op == "sin" and p >= 2:
                hit = (a, p)
                break
            if a.op == "inv":
                x = a.args[0]
                for b, q in m:
                    if b is x:
                        hit = (a, p, b, q)
                        break
                if hit:
                    break
        if hit is None:
            v = out.get(m, 0) + c
            if v == 0:
                out.pop(m, None)
            else:
                out[m] = v
            continue
        md = dict(m)
        if len(hit) == 2:
            a, p = hit
            md[a] = p - 2
            if md[a] == 0:
                del md[a]
            base = mono_norm(md)
            work.append((base, c))
            co = mk("cos", a.args, "R")
            work.append((mono_mul(base, ((co, 2),)), -c))
        else:
            a, p, b, q = hit
            k = min(p, q)
            md[a] = p - k
            md[b] = q - k
            work.append((mono_norm(md), c))
    return out


def inv(b):
    if is_const(b):
        v = cval(b)
        if v == 0:
            return fresh("div0", "R")
        return R(Fraction(1) / v)
    if b.op == "inf":
        return R(0)
    if b.op == "inv":
        return b.args[0]
    if hasinf(b):
        return ite(b.args[0], inv(b.args[1]), inv(b.args[2]))
    if b.op == "poly":
        # pull out content of a single monomial:  inv(c*m) = 1/c * inv(m)
        if len(b.args) == 1:
            m, c = b.args[0]
            r = R(Fraction(1) / c)
            for a, p in m:
                ia = inv(a)
                for _ in range(p):
                    r = mul(r, ia)
            return r
        lead = b.args[0][1]
        if lead != 1:
            return scale(inv(scale(b, Fraction(1) / lead)), Fraction(1) / lead)
    return mk("inv", (b,), "R")


def div(a, b):
    if is_const(a) and cval(a) == 0 and not is_const(b):
        return a
    if b.op == "inf" and not hasinf(a):
        return R(0)
    return mul(a, inv(b))


def sqrt(a):
    if is_const(a):
        v = cval(a)
        if v >= 0:
            n, dd = math.isqrt(v.numerator if isinstance(v, Fraction) else v), math.isqrt(v.denominator if isinstance(v, Fraction) else 1)
            if n * n == Fraction(v).numerator and dd * dd == Fraction(v).denominator:
                return R(Fraction(n, dd))
    if a.op == "inf":
        return a
    return mk("sqrt", (a,), "R")


def trig(a):
    """(sin, cos) with angle addition expanded over the terms of the angle"""
    if is_const(a) and cval(a) == 0:
        return R(0), R(1)
    ts = sorted(terms(a).items(), key=lambda t: tuple((x.id, p) for x, p in t[0]))
    s, c = R(0), R(1)
    if len(ts) > 4:
        # single variables are split off, the rest of the angle stays one atom
        rest = [t for t in ts if not (len(t[0]) == 1 and t[0][0][1] == 1 and t[0][0][0].op == "var")]
        if len(rest) < 2 or len(ts) - len(rest) > 6:
            rest = ts if len(rest) < 2 else rest
        ts = [t for t in ts if t not in rest]
        k = rest[0][1]
        p = from_terms({m: v / abs(k) * (1 if k > 0 else -1) for m, v in rest}, "R")
        p = scale(p, abs(k))
        s, c = mk("sin", (p,), "R"), mk("cos", (p,), "R")
        if k < 0:
            s = neg(s)
    for m, k in ts:
        # split an integral multiple into repeated addition
        n = 1
        kk = k
        sg = 1
        if kk < 0:
            sg, kk = -1, -kk
        if kk.denominator == 1 if isinstance(kk, Fraction) else True:
            n, kk = int(kk), Fraction(1)
        if n > 4 or not m:
            n, kk = 1, abs(k)
        at = from_terms({m: Fraction(kk)}, "R")
        s1, c1 = mk("sin", (at,), "R"), mk("cos", (at,), "R")
        if sg < 0:
            s1 = neg(s1)
        for _ in range(n):
            s, c = add(mul(s, c1), mul(c, s1)), sub(mul(c, c1), mul(s, s1))
    return s, c


# ---------------------------------------------------------------- booleans
def not_(a):
    if a.op == "bool":
        return B(not a.args[0])
    if a.op == "not":
        return a.args[0]
    if a.op == "lt":  # lt(p): p<0   ->  p>=0 == le(-p)
        return _cmp("le", neg(a.args[0]))
    if a.op == "le":
        return _cmp("lt", neg(a.args[0]))
    return mk("not", (a,), "B")


def and_(*xs):
    out = []
    seen = set()
    for x in xs:
        ys = x.args if x.op == "and" else (x,)
        for y in ys:
            if y is TRUE or y in seen:
                continue
            if y is FALSE or not_(y) in seen:
                return FALSE
            seen.add(y)
            out.append(y)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(sorted(out, key=lambda e: e.id)), "B")


def or_(*xs):
    out = []
    seen = set()
    for x in xs:
        ys = x.args if x.op == "or" else (x,)
        for y in ys:
            if y is FALSE or y in seen:
                continue
            if y is TRUE or not_(y) in seen:
                return TRUE
            seen.add(y)
            out.append(y)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", tuple(sorted(out, key=lambda e: e.id)), "B")


def xor(a, b):
    if a.op == "bool":
        return not_(b) if a.args[0] else b
    if b.op == "bool":
        return not_(a) if b.args[0] else a
    if a is b:
        return FALSE
    if a is not_(b):
        return TRUE
    x, y = sorted((a, b), key=lambda e: e.id)
    return mk("xor", (x, y), "B")


def implies(a, b):
    return or_(not_(a), b)


def _prim(p):
    """scale by a positive rational so that the leading coefficient is +-1"""
    if p.op != "poly" or not p.args:
        return p
    k = abs(p.args[-1][1])
    if p.sort == "I":
        g = 0
        for _, c in p.args:
            g = math.gcd(g, c)
        return p if g == 1 else from_terms({m: c // g for m, c in p.args}, "I")
    return p if k == 1 else scale(p, Fraction(1) / k)


def ite01(p):
    """p = k*ite(c, const, const) + const  ->  (c, value if c, value if not c)"""
    at = None
    k = c0 = 0
    for m, c in terms(p).items():
        if not m:
            c0 = c
        elif at is None and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "ite" and is_const(m[0][0].args[1]) and is_const(m[0][0].args[2]):
            at, k = m[0][0], c
        else:
            return None
    if at is None:
        return None
    return at.args[0], k * cval(at.args[1]) + c0, k * cval(at.args[2]) + c0


def _cmp(op, p):
    if not hasinf(p):
        t = ite01(p)
        if t:
            return ite(t[0], B(t[1] < 0 if op == "lt" else t[1] <= 0), B(t[2] < 0 if op == "lt" else t[2] <= 0))
    if is_const(p):
        v = cval(p)
        return B(v < 0 if op == "lt" else v <= 0)
    if hasinf(p):
        if p.op == "ite":
            return or_(and_(p.args[0], _cmp(op, p.args[1])), and_(not_(p.args[0]), _cmp(op, p.args[2])))
        if p.op == "nan":
            return FALSE
        return B(p.args[0] < 0)
    return mk(op, (_prim(p),), "B")


def lt(a, b):
    if a.op == "inf" and b.op == "inf":
        return B(a.args[0] < b.args[0])
    if hasinf(a) and a.op == "ite":
        return or_(and_(a.args[0], lt(a.args[1], b)), and_(not_(a.args[0]), lt(a.args[2], b)))
    if hasinf(b) and b.op == "ite":
        return or_(and_(b.args[0], lt(a, b.args[1])), and_(not_(b.args[0]), lt(a, b.args[2])))
    return _cmp("lt", sub(a, b))


def le(a, b):
    if a.op == "inf" and b.op == "inf":
        return B(a.args[0] <= b.args[0])
    if hasinf(a) and a.op == "ite":
        return or_(and_(a.args[0], le(a.args[1], b)), and_(not_(a.args[0]), le(a.args[2], b)))
    if hasinf(b) and b.op == "ite":
        return or_(and_(b.args[0], le(a, b.args[1])), and_(not_(b.args[0]), le(a, b.args[2])))
    return _cmp("le", sub(a, b))


def eq(a, b):
    if a.sort == "B":
        return not_(xor(a, b))
    if a.sort in ("F", "D"):
        return mk("fp.eq", (a, b), "B")
    if a.op == "inf" and b.op == "inf":
        return B(a.args[0] == b.args[0])
    if hasinf(a) and a.op == "ite":
        return or_(and_(a.args[0], eq(a.args[1], b)), and_(not_(a.args[0]), eq(a.args[2], b)))
    if hasinf(b):
        if b.op == "ite":
            return eq(b, a)
        return FALSE
    if hasinf(a):
        return FALSE
    p = sub(a, b)
    if is_const(p):
        return B(cval(p) == 0)
    t = ite01(p)
    if t:
        return ite(t[0], B(t[1] == 0), B(t[2] == 0))
    p = _prim(p)
    if p.op == "poly" and p.args[-1][1] < 0:
        p = neg(p)
    return mk("eq", (p,), "B")


def ite(c, a, b):
    if c.op == "bool":
        return a if c.args[0] else b
    if a is b:
        return a
    if a.sort == "B":
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == "not":
        return ite(c.args[0], b, a)
    # canonical polarity of comparisons: prefer lt
    if c.op == "le":
        return ite(not_(c), b, a)
    return mk("ite", (c, a, b), a.sort)


def uf(name, sort, *args):
    return mk("uf:" + name, tuple(args), sort)


def fmod_int(a, k):
    """a mod k (euclidean), k positive python int"""
    if is_const(a):
        return I(cval(a) % k)
    d = {m: c for m, c in terms(a).items() if c % k}
    if not d:
        return I(0)
    if len(d) == 1 and () in d:
        return I(d[()] % k)
    return mk("imod", (a, k), "I")


def fdiv_int(a, k):
    if is_const(a):
        return I(cval(a) // k)
    ts = terms(a)
    if all(c % k == 0 for c in ts.values()):
        return from_terms({m: c // k for m, c in ts.items()}, "I")
    return mk("idiv", (a, k), "I")


_ws = {}


def walk_set(e):
    s = _ws.get(e)
    if s is None:
        s = frozenset(walk([e]))
        _ws[e] = s
    return s


# ---------------------------------------------------------------- cyclic indices and finite sums
BV = var("_j", "I")  # bound variable of sums


def cyc(t, n):
    """t modulo n for -n <= t < 2n"""
    if is_const(t) and is_const(n) and cval(n) > 0:
        return I(cval(t) % cval(n))
    if is_const(t) and 0 <= cval(t) and is_const(n) is False and cval(t) == 0:
        return t
    d = sub(t, n)
    if is_const(d) and -1 >= cval(d) >= -1:
        return t          # n-1
    if d.op == "poly" and is_const(d) and cval(d) == 0:
        return I(0)
    if is_const(t) and cval(t) == -1:
        return add(n, t)
    if is_const(d) and cval(d) >= 0 and cval(d) == 0:
        return I(0)
    return mk("cyc", (t, n), "I")


def index_form(e, n):
    """index expression in BV, read cyclically modulo n -> (sign, offset) or None; plain tells whether no wrap is applied"""
    if e.op == "cyc":
        if e.args[1] is not n:
            return None
        e = e.args[0]
    elif e.op == "ite":
        c, a, b = e.args
        if BV not in walk_set(a):
            a, b = b, a
        if BV not in walk_set(a):
            return None
        d = add(sub(b, a), n)
        d2 = sub(sub(b, a), n)
        ok = (is_const(d) and cval(d) == 0) or (is_const(d2) and cval(d2) == 0)
        if not ok and c.op == "eq":
            p = c.args[0]
            for dd in (d, d2):
                if dd is p or dd is neg(p):
                    ok = True
        if not ok:
            return None
        e = a
    ts = terms(e)
    co = ts.get(((BV, 1),))
    if co not in (1, -1):
        return None
    rest = from_terms({m: c for m, c in ts.items() if m != ((BV, 1),)}, "I")
    # reduce modulo n: remove integer multiples of n
    for k in (0, 1, -1):
        r = add(rest, scale(n, k))
        if is_const(r):
            return co, cval(r)
    return None


def in_cycle(e, n, c):
    """a plain (unwrapped) index stays within 0..n-1 for j = 0..n-1+c (c <= 0)"""
    for j in (I(0), add(n, I(c - 1))):
        v = subst(e, {BV: j})
        if is_const(v):
            if not 0 <= cval(v) <= -c:
                return False
        else:
            k = sub(v, n)
            if not (is_const(k) and -(1 - c) <= cval(k) <= -1):
                return False
    return True


def csum_mono(n, mono, c=0):
    """canonical cyclic sum of a monomial over j = 0..n-1, or None (c: the terms j >= n+c are removed again by the caller)"""
    fs = []
    for a, p in mono:
        if a.op.startswith("uf:") and len(a.args) == 1 and a.args[0].op == "poly" and not in_cycle(a.args[0], n, c):
            return None
        if not (a.op.startswith("uf:") and len(a.args) == 1):
            return None
        ix = index_form(a.args[0], n)
        if ix is None:
            return None
        fs.append((a.op, a.sort, ix[0], ix[1], p))
    sg = {f[2] for f in fs}
    if len(sg) != 1:
        return None
    if sg == {-1}:
        fs = [(o, s, 1, d, p) for o, s, _, d, p in fs]   # j -> -j reflects the cycle
    lo = min(f[3] for f in fs)
    key = tuple(sorted((o, d - lo, p, s) for o, s, _, d, p in fs))
    m = {}
    for o, d, p, s in key:
        a = mk(o, (cyc(add(BV, I(d)), n) if d else BV,), s)
        m[a] = m.get(a, 0) + p
    body = from_terms({mono_norm(m): 1}, "R")
    return mk("csum", (n, body), "R")


def psum(K, t, g):
    """sum_{j=0}^{t-1} g[K:=j]"""
    g = subst(g, {K: BV})
    return psum_(t, g)


def at_cyc(g, n, idx):
    """g at BV=idx, with indices read modulo n"""
    return subst(g, {BV: idx})


def psum_(t, g):
    if is_const(t):
        n = cval(t)
        if n <= 0:
            return const(0, g.sort)
        if n <= 40:
            r = const(0, g.sort)
            for i in range(n):
                r = add(r, subst(g, {BV: I(i)}))
            return r
    if BV not in walk_set(g):
        return mul(to_real_poly(t), g) if g.sort == "R" else mul(t, g)
    # normalise the upper limit to have no constant part
    c = terms(t).get((), 0)
    r = const(0, g.sort)
    base = sub(t, I(c))
    if c > 0:
        for i in range(c):
            r = add(r, subst(g, {BV: add(base, I(i))}))
    for m, k in terms(g).items():
        dep = mono_norm({a: p for a, p in m if BV in walk_set(a)})
        fr = mono_norm({a: p for a, p in m if BV not in walk_set(a)})
        co = from_terms({fr: k}, g.sort)
        if not dep:
            at = to_real_poly(base) if g.sort == "R" else base
            if c < 0:
                at = add(at, const(c, g.sort))
            r = add(r, mul(co, at))
            continue
        cs = csum_mono(base, dep, c) if g.sort == "R" and c <= 0 and c >= -3 else None
        if cs is not None:
            x = cs
            dm = from_terms({dep: 1}, "R")
            for i in range(-c):
                # remove the last terms, read cyclically
                x = sub(x, cyclic_at(dm, base, sub(base, I(i + 1))))
        else:
            dm = from_terms({dep: 1}, g.sort)
            x = mk("psum", (base, dm), g.sort)
            if c < 0:
                for i in range(-c):
                    x = sub(x, subst(dm, {BV: sub(base, I(i + 1))}))
        r = add(r, mul(co, x))
    return r


def cyclic_at(mono, n, idx):
    """monomial at BV=idx with plain indices wrapped modulo n"""
    mp = {}
    for a in walk_set(mono):
        if a.op.startswith("uf:") and len(a.args) == 1 and BV in walk_set(a):
            f = index_form(a.args[0], n)
            i2 = add(scale(idx, f[0]), I(f[1]))
            # bring into range: idx = n + c
            d = sub(i2, n)
            if is_const(d):
                i2 = I(cval(d)) if cval(d) >= 0 else i2
            elif is_const(add(i2, n)) and False:
                pass
            if is_const(i2) and cval(i2) < 0:
                i2 = add(n, i2)
            elif f[0] == -1:
                # -(n - i) + d = d + i - n  ->  add n
                e = add(i2, n)
                if is_const(e):
                    i2 = e if cval(e) >= 0 else i2
            mp[a] = mk(a.op, (i2,), a.sort)
    return subst(mono, mp)


def to_real_poly(v):
    r = R(0)
    for m, c in terms(v).items():
        t = R(c)
        for a, p in m:
            for _ in range(p):
                t = mul(t, mk("toreal", (a,), "R"))
        r = add(r, t)
    return r


# ---------------------------------------------------------------- traversal
def children(e):
    if e.op == "poly":
        for m, _ in e.args:
            for a, _p in m:
                yield a
        return
    for a in e.args:
        if isinstance(a, E):
            yield a


def walk(roots):
    seen = set()
    st = list(roots)
    while st:
        e = st.pop()
        if e in seen:
            continue
        seen.add(e)
        yield e
        st.extend(children(e))


def subst(e, mp, memo=None):
    """replace atoms/terms by mp (dict E->E)"""
    if memo is None:
        memo = {}
    r = memo.get(e)
    if r is not None:
        return r
    if e in mp:
        r = mp[e]
    elif e.op in ("psum", "csum") and BV in mp:
        mp2 = {k: v for k, v in mp.items() if k is not BV}
        t = subst(e.args[0], mp, memo)
        g = subst(e.args[1], mp2) if mp2 else e.args[1]
        r = rebuild(e, (t, g))
    elif e.op == "poly":
        r = const(0, e.sort)
        for m, c in e.args:
            t = const(c, e.sort)
            for a, p in m:
                x = subst(a, mp, memo)
                for _ in range(p):
                    t = mul(t, x)
            r = add(r, t)
    elif not any(isinstance(a, E) for a in e.args):
        r = e
    else:
        na = tuple(subst(a, mp, memo) if isinstance(a, E) else a for a in e.args)
        if all(x is y for x, y in zip(na, e.args)):
            r = e
        else:
            r = rebuild(e, na)
    memo[e] = r
    return r


def rebuild(e, na):
    op = e.op
    if op == "not":
        return not_(na[0])
    if op == "and":
        return and_(*na)
    if op == "or":
        return or_(*na)
    if op == "xor":
        return xor(*na)
    if op in ("lt", "le"):
        return _cmp(op, na[0])
    if op == "eq":
        return eq(na[0], const(0, na[0].sort))
    if op == "ite":
        return ite(*na)
    if op == "def":
        return na[0] if len(terms(na[0])) < 80 else define(na[0])
    if op == "inv":
        return inv(na[0])
    if op == "sqrt":
        return sqrt(na[0])
    if op == "sin":
        return trig(na[0])[0]
    if op == "cos":
        return trig(na[0])[1]
    if op == "cyc":
        return cyc(*na)
    if op == "psum":
        return psum_(na[0], na[1])
    if op == "csum":
        r = R(0)
        if is_const(na[0]) and 0 <= cval(na[0]) <= 40:
            for i in range(cval(na[0])):
                r = add(r, subst(na[1], {BV: I(i)}))
            return r
        if not any(x.op == "cyc" for x in walk_set(na[1])):
            return psum_(na[0], na[1])
        for m, c in terms(na[1]).items():
            x = csum_mono(na[0], m)
            r = add(r, scale(x if x is not None else mk("csum", (na[0], from_terms({m: 1}, "R")), "R"), c))
        return r
    if op == "toreal":
        return to_real_poly(na[0])
    if op == "imod":
        return fmod_int(na[0], na[1])
    if op == "idiv":
        return fdiv_int(na[0], na[1])
    return mk(op, na, e.sort)


# ---------------------------------------------------------------- floating point terms
def fpc(v, sort):
    import struct
    if sort == "F":
        v = struct.unpack("f", struct.pack("f", v))[0] if not (math.isinf(v) or math.isnan(v)) else v
    k = struct.pack("d", v)
    return mk("fpc", (v if v == v else "nan", k), sort)


# ---------------------------------------------------------------- z3
F32 = z3.Float32()
F64 = z3.Float64()
RNE = z3.RNE()


def zsort(s):
    return {"R": z3.RealSort(), "I": z3.IntSort(), "B": z3.BoolSort(), "F": F32, "D": F64}[s]


_ufs = {}


def to_z3(e):
    if e.z is not None:
        return e.z
    # iterative post-order to avoid deep recursion
    st = [(e, False)]
    while st:
        x, done = st.pop()
        if x.z is not None:
            continue
        if not done:
            st.append((x, True))
            for c in children(x):
                if c.z is None:
                    st.append((c, False))
        else:
            x.z = _conv(x)
    return e.z


def _num(c, sort):
    if sort == "I":
        return z3.IntVal(int(c))
    c = Fraction(c)
    return z3.RealVal("%d/%d" % (c.numerator, c.denominator)) if c.denominator != 1 else z3.RealVal(c.numerator)


def _conv(e):
    op, a = e.op, e.args
    if op == "poly":
        ts = []
        for m, c in a:
            f = []
            if c != 1 or not m:
                f.append(_num(c, e.sort))
            for x, p in m:
                for _ in range(p):
                    f.append(x.z)
            t = f[0]
            for y in f[1:]:
                t = t * y
            ts.append(t)
        if not ts:
            return _num(0, e.sort)
        return z3.Sum(*ts) if len(ts) > 1 else ts[0]
    if op == "var":
        return z3.Const(a[0], zsort(e.sort))
    if op == "bool":
        return z3.BoolVal(a[0])
    if op == "not":
        return z3.Not(a[0].z)
    if op == "and":
        return z3.And(*[x.z for x in a])
    if op == "or":
        return z3.Or(*[x.z for x in a])
    if op == "xor":
        return z3.Xor(a[0].z, a[1].z)
    if op in ("lt", "le", "eq"):
        z0 = _num(0, a[0].sort)
        return a[0].z < z0 if op == "lt" else a[0].z <= z0 if op == "le" else a[0].z == z0
    if op == "ite":
        return z3.If(a[0].z, a[1].z, a[2].z)
    if op == "def":
        return a[0].z
    if op == "inv":
        return z3.Real("inv!%d" % e.id)
    if op == "sqrt":
        return z3.Real("sqrt!%d" % e.id)
    if op in ("sin", "cos"):
        return z3.Real("%s!%d" % (op, a[0].id))
    if op == "imod":
        return a[0].z % z3.IntVal(a[1])
    if op == "idiv":
        return a[0].z / z3.IntVal(a[1])
    if op == "toreal":
        return z3.ToReal(a[0].z)
    if op == "round":
        return z3.Real("round!%d" % e.id)
    if op == "cyc":
        t, n = a[0].z, a[1].z
        return z3.If(t < 0, t + n, z3.If(t >= n, t - n, t))
    if op in ("psum", "csum"):
        return z3.Const("%s!%d" % (op, e.id), zsort(e.sort))
    if op.startswith("uf:"):
        key = (op, tuple(x.sort for x in a), e.sort)
        f = _ufs.get(key)
        if f is None:
            f = z3.Function(op[3:] + "".join(key[1]), *([zsort(x.sort) for x in a] + [zsort(e.sort)])) if a else None
            _ufs[key] = f
        return f(*[x.z for x in a]) if a else z3.Const(op[3:], zsort(e.sort))
    if op == "fpc":
        v = float("nan") if a[0] == "nan" else a[0]
        s = zsort(e.sort)
        if v != v:
            return z3.fpNaN(s)
        if math.isinf(v):
            return z3.fpInfinity(s, v < 0)
        if v == 0 and math.copysign(1, v) < 0:
            return z3.fpMinusZero(s)
        return z3.FPVal(v, s)
    if op.startswith("fp."):
        o = op[3:]
        z = [x.z for x in a]
        if o == "add": return z3.fpAdd(RNE, *z)
        if o == "sub": return z3.fpSub(RNE, *z)
        if o == "mul": return z3.fpMul(RNE, *z)
        if o == "div": return z3.fpDiv(RNE, *z)
        if o == "neg": return z3.fpNeg(*z)
        if o == "abs": return z3.fpAbs(*z)
        if o == "sqrt": return z3.fpSqrt(RNE, *z)
        if o == "lt": return z3.fpLT(*z)
        if o == "le": return z3.fpLEQ(*z)
        if o == "eq": return z3.fpEQ(*z)
        if o == "isnan": return z3.fpIsNaN(*z)
        if o == "isinf": return z3.fpIsInf(*z)
        if o == "cvt": return z3.fpFPToFP(RNE, z[0], zsort(e.sort))
        if o == "cvti": return z3.fpRealToFP(RNE, z3.ToReal(z[0]), zsort(e.sort))
        if o == "toreal": return z3.fpToReal(z[0])
    raise Unsupported("to_z3 " + op)


def axioms(roots):
    """definitional facts of the auxiliary atoms occurring in roots (closure)"""
    out = []
    seen = set()
    work = list(roots)
    while work:
        for e in walk(work):
            pass
        nxt = []
        for e in walk(work):
            if e in seen:
                continue
            seen.add(e)
            if e.op == "inv":
                b = e.args[0]
                bz = to_z3(b)
                out.append(z3.Implies(bz != 0, to_z3(e) * bz == 1))
            elif e.op == "sqrt":
                s, a = to_z3(e), to_z3(e.args[0])
                out.append(z3.Implies(a >= 0, z3.And(s >= 0, s * s == a)))
            elif e.op in ("sin", "cos"):
                s = to_z3(mk("sin", e.args, "R"))
                c = to_z3(mk("cos", e.args, "R"))
                out.append(s * s + c * c == 1)
            elif e.sort == "F" and e.op.startswith("uf:arr"):
                z = to_z3(e)
                out.append(z3.Not(z3.Or(z3.fpIsNaN(z), z3.fpIsInf(z))))
            elif e.op == "round":
                r, a = to_z3(e), to_z3(e.args[0])
                out.append(z3.And(r - a <= z3.RealVal("1/2"), a - r <= z3.RealVal("1/2"), z3.ToReal(z3.ToInt(r)) == r))
        work = nxt
    return out
