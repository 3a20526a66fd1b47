"""Ideal membership: goal polynomial in the ideal generated by the equalities of the path condition plus the
defining equations of auxiliary atoms (sympy Groebner basis, exact rationals)."""
import time
from sym import *


def member(ctx, goal, pc, limit=20):
    try:
        import sympy
    except ImportError:
        return False
    eqs = [c.args[0] for c in pc if c.op == "eq" and c.args[0].sort == "R"]
    syms = {}

    def S(a):
        s = syms.get(a)
        if s is None:
            s = sympy.Symbol("x%d" % a.id)
            syms[a] = s
        return s

    def conv(p):
        r = 0
        for m, c in terms(p).items():
            t = sympy.Rational(c.numerator, c.denominator) if hasattr(c, "numerator") else sympy.Integer(c)
            for a, k in m:
                t *= S(a) ** k
            r += t
        return r
    polys = []
    work = [goal] + eqs
    seen = set()
    for e in walk(work):
        if e in seen:
            continue
        seen.add(e)
        if e.op == "inv":
            polys.append(conv(e.args[0]) * S(e) - 1)
        elif e.op == "sqrt":
            polys.append(S(e) ** 2 - conv(e.args[0]))
        elif e.op == "sin":
            polys.append(S(e) ** 2 + S(mk("cos", e.args, "R")) ** 2 - 1)
    polys += [conv(e) for e in eqs]
    if not polys or len(polys) > 12:
        return False
    g = conv(goal)
    t = time.time()
    try:
        import multiprocessing as mp

        def job(q):
            gens = sorted(syms.values(), key=lambda s: -int(s.name[1:]))
            try:
                G = sympy.groebner(polys, *gens, order="grevlex", domain=sympy.QQ)
                q.put(bool(G.contains(g)))
            except Exception:
                q.put(False)
        q = mp.Queue()
        p = mp.Process(target=job, args=(q,))
        p.start()
        try:
            r = q.get(timeout=limit)
        except Exception:
            r = False
        p.terminate()
        p.join()
        return bool(r)
    finally:
        ctx.solver_time += time.time() - t
