"""Loop cutting: a loop with a symbolic trip count is replaced at its header by an inductive invariant.

The loop's variables (header phis and memory cells the body changes) are given closed forms in the iteration counter K
(constants, affine recurrences, one-iteration delays, prefix sums, last-selected values with a ghost index, element-wise
array maps) and candidate inequalities are filtered to an inductive subset (Houdini).  Whatever was guessed, the
result is re-checked: initial values at K=0, and preservation from K to K+1 on every path through the body."""
import time
from sym import *
import sym
from exe import *
import exe


class LV:
    __slots__ = ("key", "init", "obj", "H", "closed", "scratch", "srt", "size", "stride", "rem")


def key_value(st, f, key):
    if key[0] == "phi":
        return f.env.get(key[1])
    o = st.mem.get(key[1])
    c = o.cells.get(key[2]) if o is not None else None
    return c[1] if c is not None else None


def set_value(ctx, st, f, lv, v):
    key = lv.key
    if key[0] == "phi":
        f.env[key[1]] = v
    else:
        o = ctx.wobj(st, key[1])
        if v is None:
            o.cells.pop(key[2], None)
        else:
            o.cells[key[2]] = (lv.size, v)


def scalar(v):
    """(E, obj) of a value"""
    if isinstance(v, E):
        return v, None
    if isinstance(v, Ptr):
        return v.offE(), v.obj
    return None, None


def float_ty(size):
    import llvmir
    t = llvmir.Ty()
    t.kind, t.bits, t.size, t.store, t.align = ("float" if size == 4 else "double"), 8 * size, size, size, size
    return t


class Cut:
    def __init__(s, ctx, st, f, header, body, work, stop):
        s.ctx, s.st, s.header, s.body, s.work, s.stop = ctx, st, header, body, work, stop
        s.fid = f.id
        s.depth = len(st.frames)
        s.fnname = ctx.short(f.fn.name)
        src = f.blk
        s.K = fresh("k", "I")
        s.vars = {}
        s.arrs = {}      # obj -> (c, {field: value(K)}) map closed forms
        s.lits = []
        s.ghosts = []    # facts on ghost indices
        s.cands = []     # candidate invariants (E over K, H..)
        s.qcands = []    # quantified candidates: predicate over J (0<=J<K)
        s.J = fresh("j", "I")
        for ph in header.phis:
            for (v, b) in ph.x:
                if b is src:
                    s.addvar(("phi", ph.id), ctx.val(st, f, v), 0)
                    break

    def addvar(s, key, init, size):
        lv = LV()
        lv.key, lv.init, lv.size = key, init, size
        lv.closed, lv.scratch, lv.obj = None, False, None
        lv.stride, lv.rem = 1, I(0)
        e, obj = scalar(init)
        if obj is not None:
            o = s.st.mem.get(obj)
            sd = stride_of(o) if o is not None else None
            if sd:
                r = fmod_int(e, sd)
                if is_const(r):
                    lv.stride, lv.rem = sd, r
        if e is None:
            if isinstance(init, Fn):
                raise Undecided("loop modifies a function pointer")
            lv.scratch = True
            lv.H = None
            lv.srt = None
        else:
            lv.obj = obj
            lv.srt = e.sort
            lv.H = fresh("h", e.sort)
        s.vars[key] = lv

    def val_of(s, lv):
        if lv.scratch:
            return UNDEF if lv.key[0] == "phi" else None
        e = lv.closed if lv.closed is not None else lv.H
        if lv.obj is not None:
            return Ptr(lv.obj, add(scale(e, lv.stride), lv.rem))
        return e

    def sc(s, lv, v):
        """scalar of a value of variable lv (pointers: element index)"""
        e, obj = scalar(v)
        if obj is not None and lv.stride != 1 and obj == lv.obj:
            d = sub(e, lv.rem)
            q = fdiv_int(d, lv.stride)
            if scale(q, lv.stride) is not d and not is_const(fmod_int(d, lv.stride)):
                raise Undecided("loop pointer stride")
            e = q
        return e, obj

    # ---- build the state at the header for an arbitrary iteration
    def state(s, with_cands=True):
        ctx = s.ctx
        t = s.st.fork()
        f = t.frames[-1]
        f.prev, f.blk, f.pc = f.blk, s.header, len(s.header.phis)
        f.visits[s.header.idx] = 0
        f.visits[(s.header.idx, "forks")] = 0
        for lv in s.vars.values():
            set_value(ctx, t, f, lv, s.val_of(lv))
        for oid, (c, vals) in s.arrs.items():
            o = ctx.wobj(t, oid)
            o.arr = s.map_arr(o, s.st.mem[oid], c, vals, s.K)
        ctx.assume(t, le(I(0), s.K))
        for g in s.ghosts:
            ctx.assume(t, g)
        if with_cands:
            for c in s.cands:
                ctx.assume(t, c)
            for p in s.qcands:
                t.quants.append((s.K, s.J, p))
        return t

    def map_arr(s, o, o0, c, vals, K):
        old = o0.arr
        K_ = s.K

        def base(f, j):
            ob = old.read(f, j) if old is not None and f in old.fields else None
            if f not in vals:
                return ob
            g = subst(vals[f], {K_: sub(j, c)})
            cond = and_(le(c, j), lt(sub(j, c), K))
            if ob is None:
                return g
            return ite(cond, g, ob)
        src = o.arr if o.arr is not None else old
        fields = dict(old.fields) if old is not None else {}
        for ff, v in vals.items():
            fields[ff] = s.fsz[(o.name, ff)]
        a = SymArr(base, o.size, s.strides[id_of(vals)], fields)
        return a

    def run_body(s, t, silent):
        ctx = s.ctx
        s.mark = max_id()
        depth, fid, header, body = s.depth, s.fid, s.header, s.body

        def stop(st, fr, target):
            if len(st.frames) < depth:
                return "left"
            if fr is not None and len(st.frames) == depth and fr.id == fid:
                if target is header:
                    return "back"
                if target.idx not in body:
                    st.frames[-1].tag = ("goto", target)
                    return "exit"
            return None
        npc = len(t.pc)
        ctx.silent += silent
        try:
            outs = ctx.explore(t, stop)
        finally:
            ctx.silent -= silent
        return outs

    def back_phis(s, st):
        """values of the header phis for the back edge taken in st"""
        f = st.frames[-1]
        src = f.blk
        out = {}
        for ph in s.header.phis:
            for (v, b) in ph.x:
                if b is src:
                    out[("phi", ph.id)] = s.ctx.val(st, f, v)
                    break
            else:
                raise Undecided("phi at back edge")
        return out

    def outcome(s, st):
        vals = s.back_phis(st)
        for key, lv in s.vars.items():
            if key[0] == "cell":
                vals[key] = key_value(st, None, key)
        return vals

    # ---- which memory does the body change?
    def find_changes(s, base, outs):
        new = False
        for kind, t in outs:
            if kind == "left":
                continue
            for oid, o in t.mem.items():
                if oid not in s.st.mem:
                    continue
                b = base.mem[oid]
                if o is b:
                    continue
                if o.alive != b.alive:
                    fr_ok = False
                    if not fr_ok:
                        raise Undecided("loop ends the lifetime of an outer object")
                if o.arr is not None or b.arr is not None:
                    if o.arr is not b.arr and (b.arr is None or o.arr.writes != b.arr.writes):
                        if kind == "back" and s.array_map(t, oid, b, o):
                            new = True
                    continue
                for off in set(o.cells) | set(b.cells):
                    x, y = o.cells.get(off), b.cells.get(off)
                    if x is y or x == y:
                        continue
                    key = ("cell", oid, off)
                    if key in s.vars:
                        lv = s.vars[key]
                        if x is not None and lv.size != x[0] and not lv.scratch:
                            lv.scratch = True
                            new = True
                        continue
                    ini = s.st.mem[oid].cells.get(off)
                    same_size = ini is not None and (x is None or x[0] == ini[0])
                    v0 = ini[1] if same_size and x is not None else UNDEF
                    if v0 is UNDEF and x is not None and isinstance(x[1], E) and x[1].sort in ("R", "F", "D") and s.written(oid, off, x[0]):
                        v0 = s.ctx.gather(s.st, oid, off, x[0], float_ty(x[0]))
                        if isinstance(v0, Pun):
                            v0 = s.ctx.coerce(s.st, v0, float_ty(x[0]))
                    s.addvar(key, v0, x[0] if x else ini[0] if ini else 0)
                    new = True
        return new

    def written(s, oid, off, size):
        """all the bytes were written before the loop (as parts of other cells)"""
        cells = s.st.mem[oid].cells
        return all(any(o <= b < o + n and v is not UNDEF for o, (n, v) in cells.items()) for b in range(off, off + size))

    def array_map(s, t, oid, b, o):
        """element-wise writes at index K + c"""
        nb = len(b.arr.writes) if b.arr is not None else 0
        ws = o.arr.writes[nb:]
        if b.arr is not None and o.arr.writes[:nb] != b.arr.writes:
            raise Undecided("array writes in loop")
        vals = {}
        c = None
        for (ff, idx, v) in ws:
            d = sub(idx, s.K)
            if s.K in walk_set(d) or not s.closed_expr(d):
                return False  # indices not solved yet
            if c is None:
                c = d
            if c is not d:
                raise Undecided("array writes at several indices in one iteration")
            vals[ff] = v
        if any(not s.closed_expr(v) for v in vals.values()):
            return False
        old = s.arrs.get(oid)
        if old is not None:
            if old[0] is c and set(old[1]) == set(vals) and all(old[1][k] is vals[k] for k in vals):
                return False
            raise Undecided("array map not stable")
        s.arrs[oid] = (c, vals)
        s.strides = getattr(s, "strides", {})
        s.strides[id_of(vals)] = o.arr.stride
        s.fsz = getattr(s, "fsz", {})
        for ff in vals:
            s.fsz[(o.name, ff)] = o.arr.fields[ff]
        return True

    def closed_expr(s, e):
        ws = walk_set(e)
        for lv in s.vars.values():
            if lv.H is not None and lv.H in ws:
                return False
        # inputs drawn inside the body differ from iteration to iteration
        return not any(x.op == "var" and x.id > s.mark for x in ws)

    # ---- recurrences
    def solve_round(s, outs):
        ctx = s.ctx
        backs = [t for k, t in outs if k == "back"]
        if not backs:
            return False
        res = [s.outcome(t) for t in backs]
        prog = False
        for key, lv in s.vars.items():
            if lv.closed is not None or lv.scratch:
                continue
            vs = []
            bad = False
            for r in res:
                v = r.get(key)
                e, obj = s.sc(lv, v)
                if e is None or obj != lv.obj or e.sort != lv.srt:
                    bad = True
                    break
                vs.append(e)
            if bad:
                if lv.obj is not None and any(scalar(r.get(key))[1] not in (None, lv.obj) for r in res):
                    raise Undecided("loop moves a pointer between objects")
                if lv.obj is not None and any(not isinstance(r.get(key), Ptr) for r in res):
                    raise Undecided("loop pointer becomes %r" % (res[0].get(key),))
                if any(r.get(key) is None or r.get(key) is UNDEF for r in res) and lv.key[0] == "cell":
                    lv.scratch = True
                    prog = True
                    continue
                if any(isinstance(r.get(key), (Pun,)) for r in res):
                    raise Undecided("bit-mixed loop variable")
                continue
            if all(v is vs[0] for v in vs):
                v = vs[0]
                ini = s.sc(lv, lv.init)[0]
                if v is lv.H:
                    lv.closed = ini
                    prog = True
                    continue
                if lv.srt in ("I", "R"):
                    d = sub(v, lv.H)
                    if lv.H not in walk_set(d) and s.closed_expr(d):
                        lv.closed = add(ini, prefix_sum(s.K, d))
                        prog = True
                        continue
                if s.closed_expr(v) and lv.H not in walk_set(v):
                    # value of the previous iteration
                    prev = subst(v, {s.K: sub(s.K, I(1))})
                    if subst(v, {s.K: I(-1)}) is ini:
                        lv.closed = prev
                    else:
                        lv.closed = delay(ctx, s.st, s.K, prev, ini)
                    prog = True
                    continue
            elif lv.srt in ("I", "R") and all(lv.H not in walk_set(sub(v, lv.H)) for v in vs):
                # different increments on different paths: decided by the path condition; sums of case-split terms
                ds = [sub(v, lv.H) for v in vs]
                conds = [and_(*[p for p in t.pc[s.npc:]]) for t in backs]
                if all(s.closed_expr(d) for d in ds):
                    # one of them may hold on all the paths
                    g = None
                    for d in sorted(set(ds), key=lambda d: -sum(s.K in walk_set(a) for a in walk_set(d))):
                        if all(d2 is d or s.same(t2, d2, d) for d2, t2 in zip(ds, backs)):
                            g = d
                            break
                    if g is not None:
                        lv.closed = add(s.sc(lv, lv.init)[0], prefix_sum(s.K, g))
                        prog = True
                        continue
                if all(s.closed_expr(d) for d in ds) and all(s.closed_expr(c) for c in conds):
                    g = ds[-1]
                    for d, c in list(zip(ds, conds))[-2::-1]:
                        g = ite(c, d, g)
                    lv.closed = add(s.sc(lv, lv.init)[0], prefix_sum(s.K, g))
                    prog = True
        return prog

    def leaves(s, e, H, conds=()):
        if e.op == "ite" and H in walk_set(e):
            return s.leaves(e.args[1], H, conds + (e.args[0],)) + s.leaves(e.args[2], H, conds + (not_(e.args[0]),))
        return [(conds, e)]

    def select_round(s, outs):
        """variables that either keep their value or take a value g(K)"""
        backs = [t for k, t in outs if k == "back"]
        res = [s.outcome(t) for t in backs]
        groups = {}
        for key, lv in s.vars.items():
            if lv.closed is not None or lv.scratch:
                continue
            sig = []
            g = None
            ok = True
            for t, r in zip(backs, res):
                e, obj = s.sc(lv, r.get(key))
                if e is None or obj != lv.obj:
                    ok = False
                    break
                if lv.srt == "B" and e is not lv.H and e.op != "bool":
                    # boolean: H or c / H and c
                    if e.op == "or" and lv.H in e.args:
                        c = or_(*[x for x in e.args if x is not lv.H])
                        ls = [((c,), TRUE), ((not_(c),), lv.H)]
                    elif e.op == "and" and lv.H in e.args:
                        c = and_(*[x for x in e.args if x is not lv.H])
                        ls = [((not_(c),), FALSE), ((c,), lv.H)]
                    else:
                        ls = [((), e)]
                else:
                    ls = s.leaves(e, lv.H)
                for conds, leaf in ls:
                    if leaf is lv.H:
                        sig.append(("keep", conds))
                    elif lv.H in walk_set(leaf) or (g is not None and g is not leaf):
                        ok = False
                        break
                    else:
                        g = leaf
                        sig.append(("sel", conds))
                if not ok:
                    break
            if ok and g is not None:
                groups.setdefault(tuple(sig), []).append((lv, g))
        done = False
        # only closed g's (within the group the H of the group itself must not occur)
        for sig, mem in groups.items():
            if not all(s.closed_expr(g) for _, g in mem):
                continue
            gi = fresh("sel", "I")
            none = lt(gi, I(0))
            s.ghosts.append(or_(eq(gi, I(-1)), and_(le(I(0), gi), lt(gi, s.K))))
            sb = {}
            lits = set()
            newpc = [(t, t.pc[s.npc:]) for t in backs]
            it = iter(sig)
            Hs = [lv.H for lv, _ in mem]
            # literals of keep / select decisions
            pos = 0
            for (t, pcs), r in zip(newpc, res):
                e, _ = s.sc(mem[0][0], r.get(mem[0][0].key))
                ls = s.leaves(e, mem[0][0].H) if mem[0][0].srt != "B" else [None] * sum(1 for _ in [0])
                n = len(ls) if ls != [None] else 1
                if mem[0][0].srt == "B" and e is not mem[0][0].H and e.op in ("or", "and") and mem[0][0].H in e.args:
                    n = 2
                for q in range(n):
                    kind, conds = sig[pos]
                    pos += 1
                    for c in list(conds) + list(pcs):
                        if kind == "keep":
                            lits.add(c)
                        else:
                            lits.add(not_(c))
            for lv, g in mem:
                ini = s.sc(lv, lv.init)[0]
                gs = subst(g, {s.K: gi})
                lv.closed = ite(none, ini, gs)
                sb[lv.H] = lv.closed
            for c in lits:
                ws = walk_set(c)
                if s.K not in ws or not (any(h in ws for h in Hs) or any(x.sort not in ("I", "B") for x in ws)):
                    continue
                for w in weaker(c):
                    p = subst(subst(w, {s.K: s.J}), sb)
                    s.qcands.append(p)
                    s.qcands.append(or_(not_(none), p))
            s.sel.append((gi, [(lv, g) for lv, g in mem], sig))
            done = True
        return done

    # ---- main
    def infer(s):
        ctx = s.ctx
        s.sel = []
        for rnd in range(14):
            t = s.state(False)
            s.npc = len(t.pc)
            base = t.fork()
            outs = s.run_body(t, 1)
            s.outs = outs
            for k, o in outs:
                if k in ("back", "exit"):
                    s.lits += o.pc[s.npc:]
            if s.find_changes(base, outs):
                continue
            if s.solve_round(outs):
                continue
            if s.select_round(outs):
                continue
            break
        # candidate inequalities
        cands = set()
        for l in s.lits:
            for x in (l.args if l.op in ("and", "or") else (l,)):
                y = x.args[0] if x.op == "not" else x
                if y.op in ("eq", "lt", "le") and y.args[0].sort == "I":
                    p = s.close(y.args[0])
                    if s.K in walk_set(p) or any(lv.H in walk_set(p) for lv in s.vars.values() if lv.H is not None and lv.closed is None):
                        cands |= {le(p, I(0)), le(I(0), p), le(p, I(1)), le(I(-1), p)}
        for lv in s.vars.values():
            if lv.closed is None and not lv.scratch and lv.srt in ("I", "R"):
                ini = s.sc(lv, lv.init)[0]
                cands |= {le(ini, lv.H), le(lv.H, ini)}
                if lv.srt == "R":
                    cands |= {le(R(0), lv.H), lt(R(0), lv.H)}
            if lv.closed is None and not lv.scratch and lv.srt == "B":
                cands |= {lv.H, not_(lv.H)}
        # order between integer variables without a closed form and the other integers of the loop
        open_ = [lv for lv in s.vars.values() if lv.closed is None and not lv.scratch and lv.srt == "I"]
        if 0 < len(open_) <= 6:
            others = {I(0)}
            for lv in s.vars.values():
                if not lv.scratch and lv.srt == "I" and len(others) < 12:
                    others |= {s.close(lv.H), s.sc(lv, lv.init)[0]}
            for x in sorted({a for l in s.lits for a in walk_set(l) if a.op == "var" and a.sort == "I" and a.id < s.K.id}, key=lambda e: e.id)[:4]:
                others.add(x)
            for lv in open_:
                for x in others:
                    if x is not lv.H:
                        cands |= {le(lv.H, x), le(add(lv.H, I(1)), x), le(x, lv.H)}
        for gi, mem, _ in s.sel:
            for lv, g in mem:
                ini = s.sc(lv, lv.init)[0]
                if lv.srt in ("R", "I"):
                    cands |= {le(ini, s.close(lv.closed)), le(s.close(lv.closed), ini)}
                elif lv.srt == "F":
                    cands |= {mk("fp.le", (ini, s.close(lv.closed)), "B"), mk("fp.le", (s.close(lv.closed), ini), "B")}
        s.cands = [c for c in sorted(cands, key=lambda e: e.id) if s.initially(c)]
        s.qcands = [q for q in sorted({s.close(q) for q in s.qcands}, key=lambda e: e.id) if q is not TRUE and s.closed_expr(q)][:60]
        # Houdini
        import os
        if os.environ.get("VCDBG"):
            print("   PRE-CANDS", s.cands, "\n   PRE-Q", [show(q)[:200] for q in s.qcands])
        for rnd in range(10):
            t = s.state(True)
            s.npc = len(t.pc)
            outs = s.run_body(t, 1)
            backs = [o for k, o in outs if k == "back"]
            badc, badq = set(), set()
            for o in backs:
                m = s.next_map(o)
                for c in s.cands:
                    if c in badc:
                        continue
                    if not s.holds(o, subst(c, m)):
                        badc.add(c)
                for q in s.qcands:
                    if q in badq:
                        continue
                    g = subst(q, m)
                    pre = [le(I(0), s.J), lt(s.J, add(s.K, I(1)))]
                    if not s.holds(o, g, pre, q):
                        badq.add(q)
            if not badc and not badq:
                break
            s.cands = [c for c in s.cands if c not in badc]
            s.qcands = [q for q in s.qcands if q not in badq]
        else:
            s.cands, s.qcands = [], []

    def close(s, e):
        mp = {lv.H: lv.closed for lv in s.vars.values() if lv.H is not None and lv.closed is not None}
        for _ in range(4):
            e2 = subst(e, mp)
            if e2 is e:
                break
            e = e2
        return e

    def init_map(s):
        m = {s.K: I(0)}
        for lv in s.vars.values():
            if lv.closed is None and not lv.scratch:
                m[lv.H] = s.sc(lv, lv.init)[0]
        for gi, _, _ in s.sel:
            m[gi] = I(-1)
        return m

    def initially(s, c):
        return s.ctx.entails(s.st, subst(c, s.init_map()), 3000)

    def next_map(s, o):
        """substitution taking invariant symbols to their values at the end of the iteration in outcome o"""
        m = {s.K: add(s.K, I(1))}
        vals = s.outcome(o)
        for lv in s.vars.values():
            if lv.closed is None and not lv.scratch:
                m[lv.H] = s.sc(lv, vals[lv.key])[0]
        for gi, mem, sig in s.sel:
            m[gi] = s.next_sel(o, vals, gi, mem)
        return m

    def next_sel(s, o, vals, gi, mem):
        lv, g = mem[0]
        e, _ = s.sc(lv, vals[lv.key])
        cur = lv.closed
        if e is cur:
            return gi
        if e is g:
            return s.K

        def rec(x):
            if x is cur:
                return gi
            if x is g:
                return s.K
            if x.op == "ite":
                a, b = rec(x.args[1]), rec(x.args[2])
                if a is not None and b is not None:
                    return ite(x.args[0], a, b)
            return None
        r = rec(e)
        if r is None and e.sort == "B":
            # closed = ite(none, ini, gs) expanded to booleans: recover the condition
            if g is TRUE:
                c = or_(*[x for x in (e.args if e.op == "or" else (e,)) if x is not cur])
                return ite(c, s.K, gi)
            if g is FALSE:
                c = and_(*[x for x in (e.args if e.op == "and" else (e,)) if x is not cur])
                return ite(c, gi, s.K)
        if r is None:
            # decide by entailment
            if s.ctx.entails(o, eq(e, g)) and not s.ctx.entails(o, eq(e, cur)):
                return s.K
            if s.ctx.entails(o, eq(e, cur)):
                return gi
            raise Undecided("selection not recognised")
        return r

    def holds(s, o, goal, pre=(), q=None):
        ctx = s.ctx
        if goal is TRUE:
            return True
        t = o.fork()
        for p in pre:
            if not ctx.feasible(t, p):
                return True
            ctx.assume(t, p)
        if goal in t.pcset:
            return True
        import prover
        sv = ctx.opts["timeout"]
        ctx.opts["timeout"] = min(sv, 4000)
        try:
            r, _, _ = prover.prove(ctx, t, goal, extra=[s.J])
        finally:
            ctx.opts["timeout"] = sv
        return r == "proved"

    def verify(s):
        """final pass with obligations recorded; closed forms re-checked at every back edge"""
        ctx = s.ctx
        t = s.state(True)
        s.npc = len(t.pc)
        # initial: closed forms at K = 0
        m0 = s.init_map()
        for lv in s.vars.values():
            if lv.closed is not None:
                ini = s.sc(lv, lv.init)[0]
                c0 = subst(lv.closed, m0)
                if c0 is not ini and not s.same(s.st, c0, ini):
                    raise Undecided("closed form does not hold initially: %s %s vs %s" % (lv.key, show(c0)[:200], show(ini)[:200]))
        base = t.fork()
        outs = s.run_body(t, 0)
        if s.find_changes(base, outs):
            raise Undecided("loop changes more memory than inferred")
        inv = ctx.oblig.setdefault("loop-invariant", dict(count=0, discharged=0, failed=[], unknown=[], time=0.0)) if not ctx.silent else None
        for k, o in outs:
            if k != "back":
                continue
            m = s.next_map(o)
            vals = s.outcome(o)
            for lv in s.vars.values():
                if lv.scratch or lv.closed is None:
                    continue
                e, obj = s.sc(lv, vals[lv.key])
                if e is None or obj != lv.obj:
                    raise Undecided("loop variable changes kind")
                want = subst(lv.closed, m)
                if inv is not None:
                    inv["count"] += 1
                if want is not e and not s.same(o, want, e):
                    raise Undecided("closed form is not inductive: %s vs %s" % (show(want)[:200], show(e)[:200]))
                if inv is not None:
                    inv["discharged"] += 1
            for oid, (c, vs) in s.arrs.items():
                ws = o.mem[oid].arr.writes
                got = {}
                for (ff, idx, v) in ws:
                    if idx is not add(s.K, c):
                        raise Undecided("array map index")
                    got[ff] = v
                if set(got) != set(vs) or any(got[x] is not vs[x] and not s.same(o, got[x], vs[x]) for x in vs):
                    raise Undecided("array map is not inductive")
            if inv is not None:
                inv["count"] += len(s.cands) + len(s.qcands)
                inv["discharged"] += len(s.cands) + len(s.qcands)
        return outs

    def same(s, st, a, b):
        import prover
        sv = s.ctx.opts["timeout"]
        s.ctx.opts["timeout"] = min(sv, 5000)
        try:
            r, _, _ = prover.prove(s.ctx, st, eq(a, b), extra=[s.J])
        finally:
            s.ctx.opts["timeout"] = sv
        return r == "proved"

    def finish(s, outs):
        ctx = s.ctx
        peeled = False
        for k, o in outs:
            if k == "exit":
                e = s.exit_count(o)
                if e is None and o.frames[-1].blk is s.header and len(s.body) > 1 and len(o.frames) == s.depth:
                    # exit decided at the header: either on first arrival or right after a full iteration
                    if not peeled:
                        peeled = True
                        s.exits_at_header(outs)
                    continue
                if e is not None:
                    subst_state(ctx, o, {s.K: e})
                if FALSE in o.pcset:
                    continue
                o.ghost["abstract"] = True
                s.work.append(o)
            elif k == "left":
                if not o.frames:
                    ctx.obligation(o, "no-unexpected-exception", FALSE, "exception escapes: %s" % (o.exc,))
                    continue
                o.frames[-1].tag = ("throw", o.exc)
                s.work.append(o)
            elif k in ("return", "throw"):
                raise Undecided("control left the loop by %s" % k)

    def exits_at_header(s, outs):
        ctx = s.ctx

        def stop(st, fr, target):
            if len(st.frames) < s.depth:
                return "left"
            if fr is not None and len(st.frames) == s.depth and fr.id == s.fid:
                if target.idx not in s.body:
                    st.frames[-1].tag = ("goto", target)
                    return "exit"
                return "drop"
            return None
        starts = [(s.st, False)] + [(o, True) for k, o in outs if k == "back"]
        for o, abstract in starts:
            t = o.fork()
            f = t.frames[-1]
            ctx.enter(t, f, s.header)
            for k, r in ctx.explore(t, stop):
                if k == "exit":
                    if FALSE in r.pcset:
                        continue
                    if abstract:
                        r.ghost["abstract"] = True
                    s.work.append(r)
                elif k != "drop":
                    raise Undecided("control left the loop header by %s" % k)

    def exit_count(s, o):
        """an expression equal to K on this exit"""
        for c in o.pc:
            if c.op == "eq" and c.args[0].sort == "I":
                e = solve_for(c.args[0], s.K)
                if e is not None:
                    return e
        cands = []
        for c in o.pc[s.npc:] + s.cands:
            y = c.args[0] if c.op == "not" else c
            if y.op in ("lt", "le") and y.args[0].sort == "I":
                p = y.args[0]
                for d in (0, 1, -1):
                    e = solve_for(add(p, I(d)), s.K)
                    if e is not None and e not in cands:
                        cands.append(e)
        for e in cands:
            if s.ctx.entails(o, eq(e, s.K)):
                return e
        return None


def id_of(d):
    return tuple(sorted((k, v.id) for k, v in d.items()))


def stride_of(o):
    if o.arr is not None:
        return o.arr.stride
    if isinstance(o.size, E) and not o.cells:
        import math
        g = 0
        for m, c in terms(o.size).items():
            g = math.gcd(g, c)
        return g if g > 1 else None
    return None


def f_key(o):
    return o.name


def solve_for(p, K):
    """K from p == 0, if K occurs linearly with coefficient +-1 and nowhere else"""
    if K not in walk_set(p):
        return None
    co = None
    rest = {}
    for m, c in terms(p).items():
        if len(m) == 1 and m[0][0] is K and m[0][1] == 1:
            co = c
        else:
            if any(K in walk_set(a) for a, _ in m):
                return None
            rest[m] = c
    if co is None:
        return None
    if any(c % co for c in rest.values()):
        return None
    return from_terms({m: -c // co for m, c in rest.items()}, "I")


def weaker(c):
    out = [c]
    if c.op == "lt":
        out.append(sym._cmp("le", c.args[0]))
    if c.op == "fp.lt":
        out.append(mk("fp.le", c.args, "B"))
    if c.op == "not" and c.args[0].op == "fp.le":
        a, b = c.args[0].args
        out.append(mk("not", (mk("fp.lt", (a, b), "B"),), "B"))
    if c.op == "and":
        out += list(c.args)
    return out


def prefix_sum(K, g):
    """sum_{j<K} g(j)"""
    if g.sort == "I" and K not in walk_set(g):
        return mul(K, g)
    return psum(K, K, g)


def delay(ctx, st, K, prev, ini):
    """value: ini when K==0 else prev(K-1).  Recognise a cyclic index."""
    d = sub(ini, subst(prev, {K: I(0)})) if prev.sort == "I" else None
    if d is not None and K in walk_set(prev):
        # prev = a*K + b ; ini = prev(0) + a*n  ->  a * cyc(K + b/a, n)
        co = terms(prev).get(((K, 1),))
        if co and all(len(m) == 0 or m == ((K, 1),) or not any(K in walk_set(a) for a, _ in m) for m in terms(prev)):
            rest = sub(prev, scale(K, co))
            if all(c % co == 0 for c in terms(rest).values()) and all(c % co == 0 for c in terms(d).values()):
                off = from_terms({m: c // co for m, c in terms(rest).items()}, "I")
                n = from_terms({m: c // co for m, c in terms(d).items()}, "I")
                if ctx.entails(st, le(I(1), n)):
                    return scale(cyc(add(K, off), n), co)
    return ite(eq(K, I(0)), ini, prev)


def subst_val(v, mp, memo):
    if isinstance(v, E):
        return subst(v, mp, memo)
    if isinstance(v, Ptr):
        if isinstance(v.off, E):
            return Ptr(v.obj, subst(v.off, mp, memo))
        return v
    if isinstance(v, Pun):
        return Pun(v.size, [(o, s, subst_val(x, mp, memo)) for o, s, x in v.parts])
    if isinstance(v, tuple):
        return tuple(subst_val(x, mp, memo) for x in v)
    return v


def subst_state(ctx, st, mp):
    memo = {}
    for f in st.frames:
        f.env = {k: subst_val(v, mp, memo) for k, v in f.env.items()}
    for oid in list(st.mem):
        o = st.mem[oid]
        if o.arr is not None and callable(o.arr.name):
            o = ctx.wobj(st, oid)
            nm = o.arr.name
            o.arr = o.arr.copy()
            o.arr.name = (lambda nm: (lambda f, j: subst(nm(f, j), mp)))(nm)
        if not o.cells and (o.arr is None or not o.arr.writes):
            continue
        o = ctx.wobj(st, oid)
        o.cells = {k: (s, subst_val(v, mp, memo)) for k, (s, v) in o.cells.items()}
        if o.arr is not None and o.arr.writes:
            o.arr = o.arr.copy()
            o.arr.writes = tuple((f, subst(i, mp, memo), subst_val(v, mp, memo)) for f, i, v in o.arr.writes)
    pc = [subst(p, mp, memo) for p in st.pc]
    st.pc, st.pcset = [], set()
    for p in pc:
        ctx.assume(st, p)
    st.quants = [(subst(k, mp, memo), j, subst(p, mp, memo)) for k, j, p in st.quants]
    for g, v in list(st.ghost.items()):
        st.ghost[g] = subst_val(v, mp, memo)


def cut(ctx, st, f, header, body, work, stop):
    c = Cut(ctx, st, f, header, body, work, stop)
    c.infer()
    import os
    if os.environ.get("VCDBG"):
        for lv in c.vars.values():
            print("   LV", lv.key, "init", show(lv.init)[:80], "closed", show(lv.closed)[:150] if lv.closed is not None else None, "scratch" if lv.scratch else "", lv.H)
        print("   K", c.K, "CANDS", c.cands, "\n   Q", [show(q)[:200] for q in c.qcands], "\n   GH", c.ghosts, "ARR", c.arrs)
    outs = c.verify()
    c.finish(outs)
    raise PathEnd()
