"""Refutation of non-linear real constraints by linear arithmetic over products of hypotheses (as nlinarith does):
denominators with a known sign are cleared, pairwise products of the hypotheses and their products with squares are
added, monomials become variables of a linear problem; linear unsatisfiability refutes the constraints."""
import time
from fractions import Fraction
import z3
from sym import *
import sym


class Big(Exception):
    pass


def degree(p):
    return max([sum(k for _, k in m) for m in terms(p)] or [0])


def psd(p):
    """is the polynomial p (degree <= 2) a sum of squares plus a non-negative constant?  exact LDL"""
    ts = terms(p)
    atoms = sorted({a for m in ts for a, _ in m}, key=lambda a: a.id)
    if any(sum(k for _, k in m) > 2 for m in ts) or len(atoms) > 12:
        return False
    ix = {a: i + 1 for i, a in enumerate(atoms)}
    n = len(atoms) + 1
    M = [[Fraction(0)] * n for _ in range(n)]
    for m, c in ts.items():
        l = [ix[a] for a, k in m for _ in range(k)]
        while len(l) < 2:
            l.append(0)
        M[l[0]][l[1]] += Fraction(c) / 2
        M[l[1]][l[0]] += Fraction(c) / 2
    for i in range(n - 1, -1, -1):
        d = M[i][i]
        if d < 0:
            return False
        if d == 0:
            if any(M[i][j] for j in range(i)):
                return False
            continue
        for a in range(i):
            if M[i][a]:
                f = M[i][a] / d
                for b in range(i):
                    M[a][b] -= f * M[i][b]
    return True


def literals(cons):
    """-> (list of (poly, strict) meaning poly >= 0 / > 0, equalities, disequalities, disjunctions)"""
    ge, eqs, nes, ors = [], [], [], []
    work = list(cons)
    while work:
        c = work.pop()
        if c.op == "and":
            work += c.args
        elif c.op == "or":
            ors.append(c)
        elif c.op in ("le", "lt", "eq") and c.args[0].sort == "R":
            p = c.args[0]
            if c.op == "eq":
                eqs.append(p)
            else:
                ge.append((neg(p), c.op == "lt"))
        elif c.op == "not" and c.args[0].op == "eq" and c.args[0].args[0].sort == "R":
            nes.append(c.args[0].args[0])
        elif c.op == "not" and c.args[0].op in ("le", "lt") and c.args[0].args[0].sort == "R":
            ge.append((c.args[0].args[0], c.args[0].op == "le"))
        elif c.op == "not" and c.args[0].op == "and":
            ors.append(or_(*[not_(x) for x in c.args[0].args]))
        elif c.op == "not" and c.args[0].op == "or":
            work += [not_(x) for x in c.args[0].args]
        elif c is FALSE:
            return None
    return ge, eqs, nes, ors


def eliminate(eqs):
    """sequential elimination of variables occurring linearly with a constant coefficient"""
    mp, rest = {}, []
    for p in eqs:
        p = subst(p, mp)
        if is_const(p):
            rest.append(p)
            continue
        done = False
        for m, k in sorted(terms(p).items(), key=lambda t: -max([a.id for a, _ in t[0]] or [0])):
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "var":
                v = m[0][0]
                others = {mm: c for mm, c in terms(p).items() if mm != m}
                if any(v in walk_set(a) for mm in others for a, _ in mm):
                    continue
                e = from_terms({mm: -c / k for mm, c in others.items()}, "R")
                mp = {x: subst(y, {v: e}) for x, y in mp.items()}
                mp[v] = e
                rest = [subst(r, {v: e}) for r in rest]
                done = True
                break
        if not done:
            rest.append(p)
    return mp, rest


def exact_div(p, b):
    """p / b if it is a polynomial, else None"""
    tb = terms(b)
    if len(tb) < 2 or len(terms(p)) > 5000:
        return None
    order = {}
    for q in (p, b):
        for m in terms(q):
            for a, _ in m:
                order[a] = a.id
    ats = sorted(order, key=lambda a: a.id)
    ix = {a: i for i, a in enumerate(ats)}
    n = len(ats)

    def vec(m):
        v = [0] * n
        for a, k in m:
            v[ix[a]] = k
        return tuple(v)
    P = {vec(m): Fraction(c) for m, c in terms(p).items()}
    B = {vec(m): Fraction(c) for m, c in tb.items()}
    lb = max(B)
    cb = B[lb]
    q = {}
    for _ in range(5000):
        if not P:
            return from_terms({mono_norm({ats[i]: k for i, k in enumerate(v) if k}): c for v, c in q.items()}, "R")
        lp = max(P)
        d = tuple(x - y for x, y in zip(lp, lb))
        if min(d) < 0:
            return None
        c = P[lp] / cb
        q[d] = c
        for v, k in B.items():
            w = tuple(x + y for x, y in zip(v, d))
            r = P.get(w, 0) - c * k
            if r:
                P[w] = r
            else:
                P.pop(w, None)
    return None


def clear(p, pos, signed):
    """multiply by (positive) denominators until no inv() is left, then divide by them again where that is exact"""
    used = []
    p = clear_(p, pos, signed, used)
    for b in used:
        for _ in range(4):
            q = exact_div(p, b)
            if q is None:
                break
            p = q
    return p


def clear_(p, pos, signed, used):
    for _ in range(12):
        ats = {}
        for m in terms(p):
            for a, k in m:
                if a.op == "inv":
                    ats[a] = max(ats.get(a, 0), k)
        if not ats:
            return p
        a = max(ats, key=lambda x: x.id)
        d = ats[a]
        if not pos(a) and d % 2 and signed:
            d += 1
        b = a.args[0]
        sg = pos(a)
        if not signed or sg:
            used.append(neg(b) if sg < 0 else b)
        groups = {}
        for m, c in terms(p).items():
            md = dict(m)
            k = md.pop(a, 0)
            groups.setdefault(k, {})[mono_norm(md)] = c
        acc = R(0)
        for k, g in groups.items():
            t = from_terms(g, "R")
            if len(terms(t)) * max(1, len(terms(b))) ** (d - k) > 20000:
                raise Big()
            for _ in range(d - k):
                t = mul(t, b)
            acc = add(acc, t)
        p = neg(acc) if sg < 0 and d % 2 else acc
    raise Big()


def unsat(ctx, cons, limit=20.0, depth=0, t0=None):
    t0 = t0 or time.time()
    try:
        return _unsat(ctx, cons, limit, depth, t0)
    except (Big, sym.Unsupported):
        return False


def _unsat(ctx, cons, limit, depth, t0):
    if time.time() - t0 > limit:
        return False
    L = literals(cons)
    if L is None:
        return True
    ge, eqs, nes, ors = L
    if ors and depth < 6:
        # try without the disjunctions first when they are many
        o = min(ors, key=lambda x: len(x.args))
        rest = [c for c in cons if c is not o and not_(c) is not o]
        if len(rest) == len(list(cons)):
            rest = [c for c in cons if c.op != "or" and not (c.op == "not" and c.args[0].op == "and")] + [x for x in ors if x is not o]
        return all(_unsat(ctx, rest + [x], limit, depth + 1, t0) for x in o.args)
    mp, eqr = eliminate(eqs)
    S = (lambda p: subst(p, mp)) if mp else (lambda p: p)
    ge = [(S(p), s) for p, s in ge]
    nes = [S(p) for p in nes]
    known = {}
    gekeys = {p: s for p, s in ge}

    def pos(a):
        """denominator of inv atom a known to be positive (it is nonzero by definedness)"""
        r = known.get(a)
        if r is None:
            b = a.args[0]
            r = 1 if b.op == "sqrt" or psd(b) or b in gekeys else -1 if psd(neg(b)) or neg(b) in gekeys else 0
            known[a] = r
        return r
    hy = []
    for p, s in ge:
        hy.append((clear(p, pos, True), s))
    zeros = [clear(p, pos, False) for p in eqr]
    zeros = [z for z in zeros if not (is_const(z) and cval(z) == 0)]
    # definedness: denominators are nonzero, psd ones positive
    alls = set()
    for p, _ in ge:
        alls |= {x for x in walk([p]) if x.op == "inv"}
    for a in alls:
        if pos(a):
            try:
                q = clear(scale(a.args[0], pos(a)), pos, True)
                hy.append((q, True))
            except Big:
                pass
    for p in nes:
        if psd(p):
            hy.append((p, True))
        elif psd(neg(p)):
            hy.append((neg(p), True))
    sq = set()
    for p, _ in hy:
        for m in terms(p):
            for a, k in m:
                sq.add(a)
                if a.op == "sqrt":
                    hy.append((a, False))
    hy = list(dict.fromkeys(hy))
    for p, s in hy:
        if is_const(p) and (cval(p) < 0 or (s and cval(p) == 0)):
            return True
    hy = [(p, s) for p, s in hy if not is_const(p)]
    if len(hy) > 24:
        hy = hy[-24:]
    for stage in (0, 1, 2):
        if time.time() - t0 > limit:
            return False
        facts = list(hy)
        room = 60000
        if stage >= 1:
            for i in range(len(hy)):
                for j in range(i + 1, len(hy)):
                    n = len(terms(hy[i][0])) * len(terms(hy[j][0]))
                    if n > 6000 or n > room:
                        continue
                    room -= n
                    if time.time() - t0 > limit:
                        return False
                    facts.append((mul(hy[i][0], hy[j][0]), hy[i][1] and hy[j][1]))
        if stage >= 2:
            ats = sorted((a for a in sq if a.op == "var"), key=lambda a: a.id)[:10]
            sqs = [mul(a, a) for a in ats] + [mul(sub(a, b), sub(a, b)) for i, a in enumerate(ats) for b in ats[i + 1:]]
            facts += [(q, False) for q in sqs]
            for p, s in hy:
                if len(terms(p)) < 60 and degree(p) <= 3:
                    facts += [(mul(p, q), False) for q in sqs]
        zs = list(zeros)
        room = 60000
        if stage >= 1:
            for z in zeros:
                for p, _ in hy[:8]:
                    n = len(terms(z)) * len(terms(p))
                    if n < 3000 and n < room:
                        room -= n
                        zs.append(mul(z, p))
        if linear_unsat(ctx, facts, zs, limit - (time.time() - t0)):
            return True
    return False


def linear_unsat(ctx, facts, zeros, limit):
    if limit <= 0:
        return False
    vs = {}

    def lin(p):
        parts = []
        for m, c in terms(p).items():
            if not m:
                parts.append(z3.RealVal(str(c)))
                continue
            v = vs.get(m)
            if v is None:
                v = z3.Real("m%d" % len(vs))
                vs[m] = v
            parts.append(v * z3.RealVal(str(c)))
        return z3.Sum(parts) if parts else z3.RealVal(0)
    s = z3.SolverFor("QF_LRA")
    s.set("timeout", int(limit * 1000) + 1)
    n = 0
    for p, st in facts:
        n += len(terms(p))
        if n > 60000:
            break
        e = lin(p)
        s.add(e > 0 if st else e >= 0)
        for m in terms(p):
            if len(m) and all(k % 2 == 0 for _, k in m) and m in vs:
                s.add(vs[m] >= 0)
    for z in zeros:
        s.add(lin(z) == 0)
    t = time.time()
    ctx.solver_calls += 1
    r = s.check()
    ctx.solver_time += time.time() - t
    if r == z3.unsat:
        ctx.backends["nlin"] = ctx.backends.get("nlin", 0) + 1
        return True
    return False
