"""Discharge one obligation: pc |- goal."""
import time
import z3
from sym import *
import sym


def linear_subst(pc):
    """equalities of the form var = term from the path condition"""
    mp = {}
    for c in pc:
        if c.op == "eq":
            p = c.args[0]
            for m, k in terms(p).items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "var" and abs(k) == 1:
                    v = m[0][0]
                    if any(v in walk_set(a) for mm, kk in terms(p).items() if mm != m for a, _ in mm):
                        continue
                    rest = from_terms({mm: -kk / k if p.sort == "R" else -kk // k for mm, kk in terms(p).items() if mm != m}, p.sort)
                    if v not in mp:
                        mp[v] = rest
                    break
    return mp


def num_den(e, memo):
    """rational function -> (num, den-atoms multiset) ; den as poly product; only top-level inv atoms are cleared"""
    return None


def poly_zero(p, pc, depth=0):
    """is polynomial p identically zero after clearing inv() and reducing sqrt()^2?"""
    for it in range(40):
        if is_const(p):
            return cval(p) == 0
        ts = terms(p)
        atoms = {}
        for m in ts:
            for a, k in m:
                if a.op in ("inv", "sqrt"):
                    atoms[a] = max(atoms.get(a, 0), k)
        if not atoms:
            return False
        # choose the newest atom (outermost definition)
        a = max(atoms, key=lambda x: x.id)
        d = atoms[a]
        if a.op == "inv":
            b = a.args[0]
            acc = const(0, "R")
            if len(ts) > 4000:
                return False
            pw = [R(1)]
            for _ in range(d):
                pw.append(mulraw(pw[-1], b))
            # group by power
            groups = {}
            for m, c in ts.items():
                md = dict(m)
                k = md.pop(a, 0)
                groups.setdefault(k, {})[mono_norm(md)] = c
            for k, g in groups.items():
                acc = add(acc, mulraw(from_terms(g, "R"), pw[d - k]))
            p = acc
        else:
            b = a.args[0]
            if d < 2:
                # linear in sqrt: p = A + B*s ; zero iff A and B zero (sufficient)
                g0, g1 = {}, {}
                for m, c in ts.items():
                    md = dict(m)
                    k = md.pop(a, 0)
                    (g1 if k else g0)[mono_norm(md)] = c
                return poly_zero(from_terms(g0, "R"), pc, depth + 1) and poly_zero(from_terms(g1, "R"), pc, depth + 1)
            groups = {}
            for m, c in ts.items():
                md = dict(m)
                k = md.pop(a, 0)
                g = groups.setdefault(k, {})
                g[mono_norm(md)] = c
            acc = const(0, "R")
            for k, g in groups.items():
                t = from_terms(g, "R")
                for _ in range(k // 2):
                    t = mulraw(t, b)
                if k % 2:
                    t = mulraw(t, a)
                acc = add(acc, t)
            p = acc
    return False


def mulraw(a, b):
    """product without inv cancellation surprises (cancellation is fine too)"""
    return mul(a, b)


def find_ites(e, limit=12):
    out = []
    for x in walk([e]):
        if x.op == "ite" and x.args[0].op != "bool":
            out.append(x)
            if len(out) >= limit:
                break
    return out


def assume_in(e, cond, val):
    return subst(e, {cond: B(val), not_(cond): B(not val)})


_gcache = {}


def instances(st, goal, extra=()):
    """instantiate the quantified loop invariants at the index terms in sight"""
    if not st.quants:
        return []
    out = []
    seen = set()
    roots = list(st.pc) + [goal]
    for rnd in range(2):
        ground = {}
        for x in walk(roots):
            if x.op.startswith("uf:arr") and len(x.args) == 1 and BV not in walk_set(x):
                ground.setdefault(x.op.split(".")[0], []).append(x.args[0])
        new = []
        for (K, j, p) in st.quants:
            idx = list(extra)
            pats = [x for x in walk([p]) if x.op.startswith("uf:arr") and len(x.args) == 1 and j in walk_set(x.args[0])]
            for x in pats:
                d = sub(x.args[0], j)
                if j in walk_set(d):
                    # a*j + rest with a = -1, or a cyclic index: solve for j when possible
                    d2 = add(x.args[0], j)
                    if j not in walk_set(d2):
                        idx += [sub(d2, t) for t in ground.get(x.op.split(".")[0], [])]
                    elif x.args[0].op == "cyc":
                        idx += ground.get(x.op.split(".")[0], [])
                    continue
                idx += [sub(t, d) for t in ground.get(x.op.split(".")[0], [])]
            if not pats:
                idx += [t for ts in ground.values() for t in ts]
            idx = list(dict.fromkeys(idx))[:24]
            for t in idx:
                k = (p, t, K)
                if k in seen:
                    continue
                seen.add(k)
                g = implies(and_(le(I(0), t), lt(t, K)), subst(p, {j: t}))
                if g is not TRUE:
                    new.append(g)
        if not new:
            break
        out += new
        roots = roots + new
    return out


def prove(ctx, st, goal, depth=0, extra=()):
    try:
        pc = st.pc
        if st.quants:
            r, m, s = _prove(ctx, pc, goal, ctx.opts.get("split_depth", 5)) if goal is not FALSE else ("unknown", None, "")
            if r == "proved":
                return r, m, s
            pc = list(pc) + instances(st, goal, extra)
        return _prove(ctx, pc, goal, 0)
    except sym.Unsupported as ex:
        ctx.notes.add(str(ex))
        return "unknown", None, "unsupported"


def eqs_of(pc):
    return [c.args[0] for c in pc if c.op == "eq" and c.args[0].sort == "R"]


def _prove(ctx, pc, goal, depth):
    if goal is TRUE:
        return "proved", None, "syntactic"
    pcs = set(pc)
    if goal in pcs or FALSE in pcs:
        return "proved", None, "syntactic"
    if goal.op == "and":
        tot = None
        for g in goal.args:
            r, m, s = _prove(ctx, pc, g, depth)
            if r != "proved":
                return r, m, s
            tot = s
        return "proved", None, tot
    if goal.op == "eq" and goal.args[0].sort == "R":
        mp = linear_subst(pc)
        p = goal.args[0]
        for _ in range(4):
            q = subst(p, mp) if mp else p
            if q is p:
                break
            p = q
        try:
            if poly_zero(p, pc):
                return "proved", None, "polynomial"
        except sym.Unsupported:
            pass
    rel = ctx.relevant(pc, [goal]) if goal is not FALSE else list(pc)
    to = ctx.opts["timeout"]
    neg_ = not_(goal)
    hard = is_hard(rel + [neg_])
    if hard:
        r, m = ctx.check_sat(rel + [neg_], min(to, 600), model=True)
        if r == "unknown":
            import nlin
            if nlin.unsat(ctx, rel + [neg_], ctx.opts.get("nlin", 20.0)):
                return "proved", None, "nlin"
    if not hard or r == "unknown":
        r, m = ctx.check_sat(rel + [neg_], to if depth == 0 else to // 2, model=True)
    if r == "unsat":
        return "proved", None, "z3"
    if r == "sat":
        # re-check with the full path condition so that the model is a genuine path
        if len(rel) != len(pc):
            r2, m2 = ctx.check_sat(list(pc) + [neg_], to, model=True)
            if r2 == "unsat":
                return "proved", None, "z3"
            if r2 == "sat":
                return "failed", m2, "z3"
        return "failed", m, "z3"
    # unknown: split on ite conditions / disjunctions
    if depth < ctx.opts.get("split_depth", 5):
        c = None
        its = find_ites(goal) or [x for p in rel for x in find_ites(p, 2)]
        if its:
            c = min(its, key=lambda x: x.id).args[0]
        else:
            for p in rel:
                if p.op == "or":
                    c = p.args[0]
                    break
        if c is not None:
            ok = True
            for val in (True, False):
                cc = c if val else not_(c)
                pc2 = [assume_in(p, c, val) for p in rel] + [cc]
                if FALSE in pc2 or ctx.check_sat(ctx.relevant(pc2, [cc]), 500) == "unsat":
                    continue
                r, m, s = _prove(ctx, [x for p in pc2 for x in (p.args if p.op == "and" else (p,)) if x is not TRUE], assume_in(goal, c, val), depth + 1)
                if r == "failed":
                    return r, m, s
                if r != "proved":
                    ok = False
                    break
            if ok:
                return "proved", None, "split"
    # other back end
    r = cvc5_try(ctx, rel + [neg_], to)
    if r == "unsat":
        return "proved", None, "cvc5"
    # polynomial ideal membership for equalities
    if goal.op == "eq" and goal.args[0].sort == "R" and ctx.opts.get("groebner", True):
        import groeb
        if groeb.member(ctx, goal.args[0], rel):
            return "proved", None, "groebner"
    return "unknown", None, "z3+cvc5"


def is_hard(cons):
    from exe import is_nonlinear
    return all(x.sort in ("R", "B") or x.op in ("bool",) for x in walk(cons) if isinstance(x, E) and x.op != "bool") and any(is_nonlinear(c) for c in cons)


def cvc5_try(ctx, cons, timeout):
    if not ctx.opts.get("cvc5", True):
        return "unknown"
    import subprocess, tempfile, os
    s = z3.Solver()
    for c in cons:
        s.add(to_z3(c))
    for a in axioms(cons):
        s.add(a)
    txt = "(set-logic ALL)\n" + s.to_smt2().replace("(set-info :status unknown)", "")
    ctx.solver_calls += 1
    t = time.time()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as fh:
        fh.write(txt)
        nm = fh.name
    try:
        r = subprocess.run(["cvc5", "--tlimit=%d" % timeout, "--nl-cov", nm], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout / 1000 + 10)
        out = r.stdout.decode().strip().split("\n")[0] if r.stdout else "unknown"
    except Exception:
        out = "unknown"
    finally:
        os.unlink(nm)
        ctx.solver_time += time.time() - t
    return out if out in ("sat", "unsat") else "unknown"
