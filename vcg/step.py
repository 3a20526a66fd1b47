"""Instruction semantics and path exploration."""
import math, time, re, sys
from sym import *
import sym
from exe import *
from exe import Ctx
from llvmir import Const, Arg, Instr, Block

CATCH_ALL = object()


def loops_of(F):
    """natural loops: header block idx -> set of block idxs"""
    if F.loops is not None:
        return F.loops
    succ = {}
    for b in F.blocks:
        t = b.instrs[-1]
        if t.op == "br":
            s = t.x
        elif t.op == "switch":
            s = [t.x[0]] + [c for _, c in t.x[1]]
        elif t.op == "invoke":
            s = [t.x[1], t.x[2]]
        else:
            s = []
        succ[b.idx] = [x.idx for x in s]
    n = len(F.blocks)
    # dominators (iterative)
    pred = {i: [] for i in range(n)}
    order = []
    seen = set()

    st = [(0, iter(succ[0]))]
    seen.add(0)
    while st:
        u, it = st[-1]
        for v in it:
            pred[v].append(u)
            if v not in seen:
                seen.add(v)
                st.append((v, iter(succ[v])))
                break
        else:
            order.append(u)
            st.pop()
    order.reverse()
    dom = {i: None for i in range(n)}
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for u in order:
            if u == 0:
                continue
            ps = [dom[p] for p in pred[u] if dom[p] is not None]
            if not ps:
                continue
            d = set.intersection(*ps) | {u}
            if d != dom[u]:
                dom[u] = d
                ch = True
    loops = {}
    for u in order:
        for v in succ[u]:
            if dom[u] and v in dom[u]:
                body = loops.setdefault(v, {v})
                stk = [u]
                while stk:
                    x = stk.pop()
                    if x not in body:
                        body.add(x)
                        stk.extend(pred[x])
    F.loops = loops
    return loops


FORKS = None # debugging: branches taken both ways, by function


class Vcg(Ctx):
    # ------------------------------------------------------------ entry
    def new_state(self):
        st = State()
        st.frames, st.mem, st.owned, st.pc, st.pcset, st.nd = [], {}, set(), [], set(), []
        st.ghost, st.exc, st.steps, st.trail, st.covers, st.quants = {}, None, 0, [], set(), []
        st.globals, st.nobj = {}, 0
        return st

    _fid = 0

    def push(self, st, fn, args, call=None, onret=None):
        if len(st.frames) > 200:
            raise Undecided("recursion too deep: " + self.dem.get(fn.name, fn.name))
        Vcg._fid += 1
        f = Frame()
        f.fn, f.blk, f.pc, f.prev, f.call, f.tag, f.onret = fn, fn.blocks[0], 0, None, call, None, onret
        f.env, f.allocas, f.visits, f.id = {}, [], {}, Vcg._fid
        for i, a in enumerate(args):
            f.env[-1 - i] = a
        st.frames.append(f)
        self.fns.add(fn.name)

    def run(self, fname):
        fn = self.m.func(fname)
        if fn is None:
            raise Undecided("no such function " + fname)
        st = self.new_state()
        self.push(st, fn, [])
        outs = self.explore(st, None)
        for kind, s in outs:
            if kind == "throw":
                self.throws += 1
                self.obligation(s, "no-unexpected-exception", FALSE, "exception escapes: %s" % (s.exc,))
            elif kind == "return":
                self.cover_hits |= s.covers
        return outs

    # ------------------------------------------------------------ exploration
    def explore(self, st0, stop):
        """run until every path returns from the bottom frame of st0 / throws out of it / satisfies stop(state, frame, target)"""
        depth0 = len(st0.frames) if stop is None else None
        work = [st0]
        outs = []
        while work:
            st = work.pop()
            if self.deadline and time.time() > self.deadline:
                raise Undecided("time budget used up")
            try:
                r = self.run_path(st, work, stop)
            except PathEnd:
                if FORKS is not None:
                    print('path ends', [self.dem.get(x.fn.name, x.fn.name)[:90] for x in st.frames[-4:]])
                self.paths += 1
                continue
            if r is not None:
                outs.append(r)
                self.paths += 1
                if self.paths > self.opts["max_paths"]:
                    raise Undecided("too many paths")
        return outs

    def run_path(self, st, work, stop):
        while True:
            f = st.frames[-1]
            ins = f.blk.instrs[f.pc]
            st.steps += 1
            if st.steps > self.opts["max_steps"]:
                raise Undecided("step limit")
            try:
                r = self.step(st, f, ins, work, stop)
            except ForkOn as fo:
                alts = [c for c in fo.conds if self.feasible(st, c)]
                if not alts:
                    raise PathEnd()
                if FORKS is not None and len(alts) > 1:
                    k = "ForkOn " + self.dem.get(f.fn.name, f.fn.name)[:150]
                    FORKS[k] = FORKS.get(k, 0) + len(alts) - 1
                for c in alts[1:]:
                    t = st.fork()
                    self.assume(t, c)
                    work.append(t)
                if len(alts) > 1:
                    st.owned = set()
                self.assume(st, alts[0])
                continue
            if r is not None:
                return r

    def goto(self, st, f, target, work, stop):
        """transfer control within frame f to block target"""
        if stop is not None:
            r = stop(st, f, target)
            if r is not None:
                return (r, st)
        src = f.blk
        # loop cutting
        lp = loops_of(f.fn).get(target.idx)
        if lp is not None:
            key = (f.fn.name, target.idx)
            if key in self.cuts and src.idx not in lp:
                import loops
                return loops.cut(self, st, f, target, lp, work, stop)
            if src.idx in lp:
                f.visits[target.idx] = f.visits.get(target.idx, 0) + 1
                if self.opts.get("cut_forks") and key not in self.cuts:
                    # forks in callees count too
                    nt = len(st.trail)
                    if nt > f.visits.get((target.idx, "trail"), nt):
                        k = (target.idx, "forks")
                        f.visits[k] = f.visits.get(k, 0) + 1
                        if f.visits[k] > self.opts["fork_limit"]:
                            raise NeedCut(*key)
                    f.visits[(target.idx, "trail")] = nt
                if f.visits[target.idx] > 150 and f.visits.get((target.idx, "forks"), 0) and key not in self.cuts:
                    raise NeedCut(*key)
                if f.visits[target.idx] > 5000:
                    raise Undecided("loop bound %s %d" % (self.short(f.fn.name), target.idx))
            else:
                f.visits[target.idx] = 0
                f.visits[(target.idx, "forks")] = 0
        self.enter(st, f, target)
        return None

    def enter(self, st, f, target):
        src = f.blk
        if target.phis:
            vals = []
            for ph in target.phis:
                for (v, b) in ph.x:
                    if b is src:
                        vals.append((ph.id, self.val(st, f, v)))
                        break
                else:
                    raise Undecided("phi")
            for i, v in vals:
                f.env[i] = v
        f.prev, f.blk = src, target
        f.pc = len(target.phis)

    def branch(self, st, f, cond, tb, fb, work, stop):
        if cond is TRUE:
            return self.goto(st, f, tb, work, stop)
        if cond is FALSE:
            return self.goto(st, f, fb, work, stop)
        if not isinstance(cond, E):
            raise Undecided("branch on %r" % (cond,))
        ft = self.feasible(st, cond)
        ff = self.feasible(st, not_(cond))
        if FORKS is not None and ft and ff:
            k = self.dem.get(f.fn.name, f.fn.name)[:150]
            FORKS[k] = FORKS.get(k, 0) + 1
        if not ft and not ff:
            raise PathEnd()
        if ft and ff:
            # loop-exit fork accounting
            for h, body in loops_of(f.fn).items():
                if f.blk.idx in body and (self.opts.get("cut_forks") or (tb.idx in body) != (fb.idx in body)):
                    key = (f.fn.name, h)
                    k = (h, "forks")
                    f.visits[k] = f.visits.get(k, 0) + 1
                    if f.visits[k] > self.opts["fork_limit"] and key not in self.cuts:
                        raise NeedCut(*key)
            t = st.fork()
            self.assume(t, not_(cond))
            t.trail.append((f.fn.name, f.blk.idx, False))
            self.assume(st, cond)
            st.trail.append((f.fn.name, f.blk.idx, True))
            # schedule false branch
            tf = t.frames[-1]
            r = self.goto_later(t, tf, fb, work, stop)
            return self.goto(st, f, tb, work, stop)
        if ft:
            return self.goto(st, f, tb, work, stop)
        return self.goto(st, f, fb, work, stop)

    def goto_later(self, t, tf, fb, work, stop):
        # represent the pending jump by a marker consumed by step()
        tf.tag = ("goto", fb)
        work.append(t)

    # ------------------------------------------------------------ exceptions
    def do_throw(self, st, what, work, stop):
        """unwind to the nearest invoke"""
        st.exc = what
        while True:
            if not st.frames:
                return ("throw", st)
            f = st.frames[-1]
            ins = f.blk.instrs[f.pc]
            if ins.op == "invoke":
                # landing pad
                lp = ins.x[2]
                pad = None
                for I_ in lp.instrs:
                    if I_.op == "landingpad":
                        pad = I_
                        break
                clauses, cleanup = pad.x
                sel = None
                for c in clauses:
                    if c.kind == "null":
                        sel = ("all", 1)
                        break
                    nm = c.v if c.kind in ("global",) else None
                    if nm is not None and self.catches(nm, what):
                        sel = (nm, self.typeid(nm))
                        break
                if sel is None and not cleanup:
                    self.popframe(st)
                    if stop is not None:
                        r = stop(st, None, None)
                        if r:
                            return (r, st)
                    continue
                f.env[pad.id] = (NULL, I(sel[1] if sel else 0))
                r = self.goto(st, f, lp, work, stop)
                if r is not None:
                    return r
                # skip landingpad itself
                f.pc = f.blk.instrs.index(pad) + 1
                return None
            self.popframe(st)
            if stop is not None:
                r = stop(st, None, None)
                if r:
                    return (r, st)

    def typeid(self, nm):
        if not hasattr(self, "_tids"):
            self._tids = {}
        return self._tids.setdefault(nm, len(self._tids) + 2)

    BASES = {"_ZTIN4simu9ExceptionE": ["_ZTISt9exception"], "_ZTISt9bad_alloc": ["_ZTISt9exception"], "_ZTISt12length_error": ["_ZTISt9exception", "_ZTISt11logic_error"], "_ZTI10vc_discard": []}

    def catches(self, nm, what):
        return nm == what or nm in self.BASES.get(what, [])

    def popframe(self, st):
        f = st.frames.pop()
        for a in f.allocas:
            o = self.wobj(st, a)
            o.alive = False
        return f

    # ------------------------------------------------------------ the instruction
    def step(self, st, f, ins, work, stop):
        if f.tag is not None:
            kind, tgt = f.tag
            f.tag = None
            if kind == "throw":
                return self.do_throw(st, tgt, work, stop)
            return self.goto(st, f, tgt, work, stop)
        op = ins.op
        m = getattr(self, "i_" + op, None)
        if m is not None:
            f.env[ins.id] = m(st, f, ins)
            f.pc += 1
            return None
        V = self.val
        if op == "br":
            if not ins.ops:
                return self.goto(st, f, ins.x[0], work, stop)
            return self.branch(st, f, self.tobool(V(st, f, ins.ops[0])), ins.x[0], ins.x[1], work, stop)
        if op == "ret":
            v = V(st, f, ins.ops[0]) if ins.ops else None
            self.popframe(st)
            if not st.frames:
                return ("return", st)
            g = st.frames[-1]
            if stop is not None:
                r = stop(st, None, None)
                if r is not None:
                    st.ghost["retval"] = v
                    return (r, st)
            if f.onret is not None:
                f.onret(self, st, v)
            call = g.blk.instrs[g.pc]
            g.env[call.id] = v
            return self.after_call(st, g, call, work, stop)
        if op in ("call", "invoke"):
            return self.do_call(st, f, ins, work, stop)
        if op == "switch":
            v = V(st, f, ins.ops[0])
            dflt, cases = ins.x
            v = self.toint(v)
            if ins.ops[0].ty.kind == "int" and ins.ops[0].ty.bits == 1:
                cases = [(c & 1, b) for c, b in cases]
            if is_const(v):
                for c, b in cases:
                    if c == cval(v):
                        return self.goto(st, f, b, work, stop)
                return self.goto(st, f, dflt, work, stop)
            alts = []
            for c, b in cases:
                cond = eq(v, I(c))
                if self.feasible(st, cond):
                    alts.append((cond, b))
            dc = and_(*[not_(eq(v, I(c))) for c, _ in cases])
            if self.feasible(st, dc):
                alts.append((dc, dflt))
            if not alts:
                raise PathEnd()
            for cond, b in alts[1:]:
                t = st.fork()
                self.assume(t, cond)
                self.goto_later(t, t.frames[-1], b, work, stop)
            st.owned = set()
            self.assume(st, alts[0][0])
            return self.goto(st, f, alts[0][1], work, stop)
        if op == "unreachable":
            self.obligation(st, "memory-safety", FALSE, "code that is declared unreachable is reached in " + self.dem.get(f.fn.name, f.fn.name)[:200])
            raise PathEnd()
        if op == "resume":
            self.popframe_keep = None
            # continue unwinding from the caller
            what = st.exc
            self.popframe(st)
            if stop is not None:
                r = stop(st, None, None)
                if r:
                    return (r, st)
            if not st.frames:
                return ("throw", st)
            return self.do_throw(st, what, work, stop)
        raise Undecided("instruction " + op)

    def after_call(self, st, g, call, work, stop):
        if call.op == "invoke":
            return self.goto(st, g, call.x[1], work, stop)
        g.pc += 1
        return None

    def tobool(self, v):
        if v is UNDEF:
            return fresh("undef", "B")
        if isinstance(v, E) and v.sort == "I":
            return not_(eq(v, I(0)))
        return v

    def toint(self, v):
        if v is UNDEF:
            return fresh("undef", "I")
        if isinstance(v, E) and v.sort == "B":
            return ite(v, I(1), I(0))
        if isinstance(v, (Ptr, Fn)):
            return self.ptr2int(v)
        if isinstance(v, Pun):
            return self.pun2int(v)
        return v

    # ---- memory
    def i_alloca(self, st, f, ins):
        n = self.val(st, f, ins.ops[0]) if ins.ops else I(1)
        if not is_const(n):
            raise Undecided("variable alloca")
        i = self.newobj(st, ins.x.size * cval(n), "local %s" % self.short(f.fn.name), "stack")
        f.allocas.append(i)
        return Ptr(i, 0)

    def short(self, n):
        return self.dem.get(n, n)[:80]

    def i_load(self, st, f, ins):
        p = self.val(st, f, ins.ops[0])
        if p is UNDEF:
            raise Undecided("load via undefined pointer in " + self.short(f.fn.name))
        if isinstance(p, E):
            p = self.int2ptr(p)
        return self.load(st, f, ins.ty, p)

    def i_store(self, st, f, ins):
        v = self.val(st, f, ins.ops[0])
        p = self.val(st, f, ins.ops[1])
        if p is UNDEF:
            raise Undecided("store via undefined pointer")
        if isinstance(p, E):
            p = self.int2ptr(p)
        self.store(st, f, ins.ops[0].ty, v, p)
        return None

    def i_gep(self, st, f, ins):
        vs = [self.val(st, f, o) for o in ins.ops]
        vs = [vs[0]] + [self.toint(x) for x in vs[1:]]
        return self.gep(st, ins.x, vs)

    # ---- integer
    def ib(self, st, f, ins):
        a = self.val(st, f, ins.ops[0])
        b = self.val(st, f, ins.ops[1])
        return a, b

    def wrap(self, v, ty):
        if is_const(v) and ty.kind == "int" and ty.bits <= 64:
            x = cval(v) & ((1 << ty.bits) - 1)
            if x >= 1 << (ty.bits - 1):
                x -= 1 << ty.bits
            return I(x)
        return v

    def i_add(self, st, f, ins):
        a, b = self.ib(st, f, ins)
        if ins.ty.kind == "vector":
            return tuple(self.wrap(add(x, y), ins.ty.elems[0]) for x, y in zip(a, b))
        if ins.ty.bits == 1:
            return xor(self.tobool(a), self.tobool(b))
        return self.wrap(add(self.toint(a), self.toint(b)), ins.ty)

    def i_sub(self, st, f, ins):
        a, b = self.ib(st, f, ins)
        if ins.ty.kind == "vector":
            return tuple(self.wrap(sub(x, y), ins.ty.elems[0]) for x, y in zip(a, b))
        if ins.ty.bits == 1:
            return xor(self.tobool(a), self.tobool(b))
        return self.wrap(sub(self.toint(a), self.toint(b)), ins.ty)

    def i_mul(self, st, f, ins):
        a, b = self.ib(st, f, ins)
        if ins.ty.bits == 1:
            return and_(self.tobool(a), self.tobool(b))
        return self.wrap(mul(self.toint(a), self.toint(b)), ins.ty)

    def i_sdiv(self, st, f, ins):
        a, b = map(self.toint, self.ib(st, f, ins))
        if is_const(a) and is_const(b) and cval(b):
            q = abs(cval(a)) // abs(cval(b))
            return I(q if (cval(a) >= 0) == (cval(b) >= 0) else -q)
        if is_const(b) and cval(b) > 0:
            k = cval(b)
            if is_const(fmod_int(a, k)) or self.entails(st, le(I(0), a)):
                return fdiv_int(a, k)
            return ite(le(I(0), a), fdiv_int(a, k), neg(fdiv_int(neg(a), k)))
        raise Undecided("sdiv")

    def i_udiv(self, st, f, ins):
        a, b = map(self.toint, self.ib(st, f, ins))
        if is_const(a) and is_const(b) and cval(b):
            w = 1 << ins.ty.bits
            return self.wrap(I((cval(a) % w) // (cval(b) % w)), ins.ty)
        if is_const(b) and cval(b) > 0:
            return fdiv_int(a, cval(b))
        raise Undecided("udiv")

    def i_srem(self, st, f, ins):
        a, b = map(self.toint, self.ib(st, f, ins))
        if is_const(a) and is_const(b) and cval(b):
            return I(int(math.copysign(abs(cval(a)) % abs(cval(b)), cval(a))))
        if is_const(b) and cval(b) > 0 and self.entails(st, le(I(0), a)):
            return fmod_int(a, cval(b))
        raise Undecided("srem")

    def i_urem(self, st, f, ins):
        a, b = map(self.toint, self.ib(st, f, ins))
        if is_const(b) and cval(b) > 0:
            if is_const(a):
                return I((cval(a) % (1 << ins.ty.bits)) % cval(b))
            return fmod_int(a, cval(b))
        raise Undecided("urem")

    def i_shl(self, st, f, ins):
        a, b = self.ib(st, f, ins)
        b = self.toint(b)
        if isinstance(a, Pun) and is_const(b) and cval(b) % 8 == 0:
            k = cval(b) // 8
            return Pun(a.size, [(0, k, I(0))] + [(o + k, s, x) for o, s, x in a.parts if o + k < a.size])
        a = self.toint(a) if not isinstance(a, Pun) else a
        if is_const(b):
            return self.wrap(scale(a, 1 << cval(b)), ins.ty)
        raise Undecided("shl")

    def i_lshr(self, st, f, ins):
        a, b = self.ib(st, f, ins)
        b = self.toint(b)
        if not is_const(b):
            raise Undecided("lshr")
        k = cval(b)
        if isinstance(a, Pun):
            if k % 8 == 0:
                k //= 8
                return Pun(a.size, [(o - k, s, x) for o, s, x in a.parts if o >= k] + [(a.size - k, k, I(0))])
            a = self.pun2int(a)
        a = self.toint(a)
        if is_const(a):
            return self.wrap(I((cval(a) & ((1 << ins.ty.bits) - 1)) >> k), ins.ty)
        return fdiv_int(self.unsigned(st, a, ins.ty.bits), 1 << k)

    def i_ashr(self, st, f, ins):
        a, b = map(self.toint, self.ib(st, f, ins))
        if not is_const(b):
            raise Undecided("ashr")
        return fdiv_int(a, 1 << cval(b))

    def i_and(self, st, f, ins):
        a, b = self.ib(st, f, ins)
        if ins.ty.kind == "vector":
            return tuple(and_(self.tobool(x), self.tobool(y)) for x, y in zip(a, b))
        if ins.ty.bits == 1:
            return and_(self.tobool(a), self.tobool(b))
        if isinstance(a, Pun) or isinstance(b, Pun):
            p, c = (a, b) if isinstance(a, Pun) else (b, a)
            c = self.toint(c)
            if is_const(c):
                mk_ = cval(c) & ((1 << ins.ty.bits) - 1)
                parts = []
                for o, s, x in p.parts:
                    w = (mk_ >> (8 * o)) & ((1 << (8 * s)) - 1)
                    if w == 0:
                        parts.append((o, s, I(0)))
                    elif w == (1 << (8 * s)) - 1:
                        parts.append((o, s, x))
                    else:
                        raise Undecided("and of bits")
                return Pun(p.size, parts)
        a, b = self.toint(a), self.toint(b)
        if is_const(a) and is_const(b):
            return self.wrap(I(cval(a) & cval(b)), ins.ty)
        if is_const(a):
            a, b = b, a
        if is_const(b):
            c = cval(b)
            if c >= 0 and (c & (c + 1)) == 0:
                return self.modpow(st, a, c + 1)
            if c < 0 and (-c & (-c - 1)) == 0:
                return sub(a, self.modpow(st, a, -c))
            if a.op == "ite" and is_const(a.args[1]) and is_const(a.args[2]):
                return ite(a.args[0], I(cval(a.args[1]) & c), I(cval(a.args[2]) & c))
        if bool01(a) and bool01(b):
            return ite(and_(self.tobool(a), self.tobool(b)), I(1), I(0))
        raise Undecided("and")

    def modpow(self, st, a, k):
        # addresses of heap/stack objects are 16-byte aligned
        if k <= 16:
            d = {m: c for m, c in terms(a).items() if not (len(m) == 1 and m[0][0].op == "var" and m[0][0].args[0].startswith("addr("))}
            a = from_terms(d, "I")
        return fmod_int(a, k)

    def i_or(self, st, f, ins):
        a, b = self.ib(st, f, ins)
        if ins.ty.kind == "vector":
            return tuple(or_(self.tobool(x), self.tobool(y)) for x, y in zip(a, b))
        if ins.ty.bits == 1:
            return or_(self.tobool(a), self.tobool(b))
        if isinstance(a, Pun) or isinstance(b, Pun):
            def parts(v):
                return v.parts if isinstance(v, Pun) else [(0, ins.ty.store, self.toint(v))]
            pa, pb = parts(a), parts(b)
            res = {}
            ok = True

            def iszero(x):
                return isinstance(x, E) and x.op == "poly" and not x.args
            for (o, s, x) in pa + pb:
                if not iszero(x):
                    if o in res:
                        ok = False
                    res[o] = (s, x)
            if ok:
                out = [(o, s, x) for o, (s, x) in sorted(res.items())]
                # fill gaps with zero
                pos = 0
                full = []
                for o, s, x in out:
                    if o > pos:
                        full.append((pos, o - pos, I(0)))
                    full.append((o, s, x))
                    pos = o + s
                if pos < ins.ty.store:
                    full.append((pos, ins.ty.store - pos, I(0)))
                return Pun(ins.ty.store, full)
            raise Undecided("or of bits")
        a, b = self.toint(a), self.toint(b)
        if is_const(a) and is_const(b):
            return self.wrap(I(cval(a) | cval(b)), ins.ty)
        if bool01(a) and bool01(b):
            return ite(or_(self.tobool(a), self.tobool(b)), I(1), I(0))
        if is_const(a):
            a, b = b, a
        if is_const(b) and cval(b) == 0:
            return a
        if is_const(b) and cval(b) > 0:
            c = cval(b)
            k = 1 << c.bit_length()
            if is_const(self.modpow(st, a, k)) and cval(self.modpow(st, a, k)) == 0:
                return add(a, b)
        # disjoint or of (x << k) | (y < 2^k)
        raise Undecided("or")

    def i_xor(self, st, f, ins):
        a, b = self.ib(st, f, ins)
        if ins.ty.kind == "vector":
            return tuple(xor(self.tobool(x), self.tobool(y)) for x, y in zip(a, b))
        if ins.ty.bits == 1:
            return xor(self.tobool(a), self.tobool(b))
        a, b = self.toint(a), self.toint(b)
        if is_const(a) and is_const(b):
            return self.wrap(I(cval(a) ^ cval(b)), ins.ty)
        if is_const(b) and cval(b) == -1:
            return sub(I(-1), a)
        if bool01(a) and bool01(b):
            return ite(xor(self.tobool(a), self.tobool(b)), I(1), I(0))
        raise Undecided("xor in %s" % getattr(f.fn,"name",f.fn))

    def unsigned(self, st, a, bits):
        if is_const(a):
            return I(cval(a) & ((1 << bits) - 1))
        g = le(I(0), a)
        if g in st.pcset or self.entails(st, g):
            return a
        return ite(g, a, add(a, I(1 << bits)))

    def i_icmp(self, st, f, ins):
        a, b = self.ib(st, f, ins)
        return self.icmp(st, ins.x, a, b, ins.ops[0].ty)

    def icmp(self, st, pred, a, b, ty):
        if isinstance(a, tuple):
            return tuple(self.icmp(st, pred, x, y, ty.elems[0]) for x, y in zip(a, b))
        if a is UNDEF or b is UNDEF:
            return fresh("undef", "B")
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            r = self.ptrcmp(st, pred, a, b)
            if r is not None:
                return r
            self.apart(st, a, b)
            a, b = self.ptr2int(a), self.ptr2int(b)
        if ty.kind == "int" and ty.bits == 1:
            a, b = self.tobool(a), self.tobool(b)
            if pred == "eq":
                return not_(xor(a, b))
            if pred == "ne":
                return xor(a, b)
            raise Undecided("i1 compare")
        if isinstance(a, Pun) or isinstance(b, Pun):
            if isinstance(a, Pun) and isinstance(b, Pun) and pred in ("eq", "ne"):
                if [(o, s) for o, s, _ in a.parts] == [(o, s) for o, s, _ in b.parts]:
                    raise Undecided("bit compare")
            a, b = self.toint(a), self.toint(b)
        a, b = self.toint(a), self.toint(b)
        if pred == "eq":
            return eqi(a, b)
        if pred == "ne":
            return not_(eqi(a, b))
        if pred[0] == "u":
            bits = ty.bits if ty.kind == "int" else 64
            a, b = self.unsigned(st, a, bits), self.unsigned(st, b, bits)
        p = pred[1:]
        return lt(a, b) if p == "lt" else le(a, b) if p == "le" else lt(b, a) if p == "gt" else le(b, a)

    def ptrcmp(self, st, pred, a, b):
        if isinstance(a, Fn) or isinstance(b, Fn):
            same = a == b
            return B(same) if pred == "eq" else B(not same)
        if isinstance(a, E):
            a = self.int2ptr(a)
        if isinstance(b, E):
            b = self.int2ptr(b)
        a, b = self.resolve_null(st, a, b), self.resolve_null(st, b, a)
        if a.obj == b.obj:
            x, y = a.offE(), b.offE()
            if pred == "eq":
                return eq(x, y)
            if pred == "ne":
                return not_(eq(x, y))
            p = pred[1:]
            return lt(x, y) if p == "lt" else le(x, y) if p == "le" else lt(y, x) if p == "gt" else le(y, x)
        if pred == "eq":
            return FALSE
        if pred == "ne":
            return TRUE
        if a.obj == 0 or b.obj == 0:
            return B({"ult": a.obj == 0, "ule": a.obj == 0, "ugt": b.obj == 0, "uge": b.obj == 0}[pred])
        return None

    def apart(self, st, a, b):
        """two live objects occupy disjoint address ranges"""
        if not isinstance(a, Ptr) or not isinstance(b, Ptr) or 0 in (a.obj, b.obj) or a.obj == b.obj:
            return
        x, y = st.mem[a.obj], st.mem[b.obj]
        if not x.alive or not y.alive:
            return
        ax, ay = self.ptr2int(Ptr(a.obj, 0)), self.ptr2int(Ptr(b.obj, 0))
        sx, sy = (o.size if isinstance(o.size, E) else I(o.size) for o in (x, y))
        self.assume(st, le(I(0), ax))
        self.assume(st, le(I(0), ay))
        self.assume(st, or_(le(add(ax, sx), ay), le(add(ay, sy), ax)))

    def resolve_null(self, st, p, other):
        return p

    def i_zext(self, st, f, ins):
        v = self.val(st, f, ins.ops[0])
        if isinstance(v, tuple):
            return tuple(ite(self.tobool(x), I(1), I(0)) for x in v)
        t = ins.ops[0].ty
        if t.bits == 1:
            v = self.tobool(v)
            return ite(v, I(1), I(0))
        if isinstance(v, Pun):
            return Pun(ins.ty.store, list(v.parts) + [(v.size, ins.ty.store - v.size, I(0))])
        v = self.toint(v)
        return self.unsigned(st, v, t.bits)

    def i_sext(self, st, f, ins):
        v = self.val(st, f, ins.ops[0])
        t = ins.ops[0].ty
        if isinstance(v, tuple):
            return tuple(ite(self.tobool(x), I(-1), I(0)) for x in v)
        if t.bits == 1:
            return ite(self.tobool(v), I(-1), I(0))
        return self.toint(v)

    def i_trunc(self, st, f, ins):
        v = self.val(st, f, ins.ops[0])
        if isinstance(v, tuple):
            return tuple(not_(eqi(fmod_int(x, 2), I(0))) for x in v)
        if ins.ty.bits == 1:
            v = self.toint(v)
            if bool01(v):
                return self.tobool01(v)
            return eq(fmod_int(v, 2), I(1))
        if isinstance(v, Pun):
            r = self.slice(v, 0, ins.ty.store)
            return r if isinstance(r, (E, Pun)) and not (isinstance(r, E) and r.sort in ("R", "F", "D")) else Pun(ins.ty.store, [(0, ins.ty.store, r)])
        v = self.toint(v)
        return self.wrap(v, ins.ty)

    def tobool01(self, v):
        if v.op == "ite":
            return ite(v.args[0], B(cval(v.args[1]) & 1), B(cval(v.args[2]) & 1))
        if is_const(v):
            return B(cval(v) & 1)
        return eq(v, I(1))

    # ---- floats
    def fbin(self, op, a, b):
        if isinstance(a, tuple):
            return tuple(self.fbin(op, x, y) for x, y in zip(a, b))
        if a is UNDEF:
            a = fresh("undef", self.floatsort)
        if b is UNDEF:
            b = fresh("undef", self.floatsort)
        if a.sort in ("F", "D"):
            if a.op == "fpc" and b.op == "fpc" and a.sort == "F" and op != "div":
                import struct
                x, y = float(a.args[0]), float(b.args[0])
                try:
                    r = x + y if op == "add" else x - y if op == "sub" else x * y
                    return fpc(r, a.sort)
                except (OverflowError, struct.error):
                    pass
            return mk("fp." + op, (a, b), a.sort)
        if op == "add":
            return add(a, b)
        if op == "sub":
            return sub(a, b)
        if op == "mul":
            return mul(a, b)
        return div(a, b)

    def i_fadd(self, st, f, ins):
        return self.fbin("add", *self.ib(st, f, ins))

    def i_fsub(self, st, f, ins):
        return self.fbin("sub", *self.ib(st, f, ins))

    def i_fmul(self, st, f, ins):
        return self.fbin("mul", *self.ib(st, f, ins))

    def i_fdiv(self, st, f, ins):
        a, b = self.ib(st, f, ins)
        xs = list(zip(a, b)) if isinstance(a, tuple) else [(a, b)]
        out = []
        for x, y in xs:
            if isinstance(y, E) and y.sort == "R" and not is_const(y) and not hasinf(y):
                z = eq(y, R(0))
                if z is not FALSE and not_(z) not in st.pcset:
                    if z in st.pcset:
                        out.append(fresh("div0", "R"))
                        continue
                    if self.nonzero_syntactic(st, y):
                        pass
                    elif self.feasible(st, z):
                        raise ForkOn([not_(z), z])
                    else:
                        self.assume(st, not_(z))
            out.append(self.fbin("div", x, y))
        return tuple(out) if isinstance(a, tuple) else out[0]

    def nonzero_syntactic(self, st, y):
        ts = terms(y)
        if len(ts) == 1:
            (m, c), = ts.items()
            return all(a.op == "inv" or not_(eq(a, R(0))) in st.pcset for a, p in m)
        return False

    def i_frem(self, st, f, ins):
        raise Undecided("frem")

    def i_fneg(self, st, f, ins):
        a = self.val(st, f, ins.ops[0])
        return self.fneg(a)

    def fneg(self, a):
        if isinstance(a, tuple):
            return tuple(self.fneg(x) for x in a)
        if a is UNDEF:
            a = fresh("undef", self.floatsort)
        if a.sort in ("F", "D"):
            if a.op == "fpc":
                return fpc(-float(a.args[0]), a.sort)
            return mk("fp.neg", (a,), a.sort)
        return neg(a)

    def i_fcmp(self, st, f, ins):
        a, b = self.ib(st, f, ins)
        return self.fcmp(ins.x, a, b)

    def fcmp(self, pred, a, b):
        if isinstance(a, tuple):
            return tuple(self.fcmp(pred, x, y) for x, y in zip(a, b))
        if a is UNDEF:
            a = fresh("undef", self.floatsort)
        if b is UNDEF:
            b = fresh("undef", self.floatsort)
        if pred == "false":
            return FALSE
        if pred == "true":
            return TRUE
        if a.sort in ("F", "D"):
            nan = or_(fpnan(a), fpnan(b))
            if pred == "ord":
                return not_(nan)
            if pred == "uno":
                return nan
            p = pred[1:]
            if p == "ne":
                r = and_(not_(fpcmp("eq", a, b)), not_(nan))
            else:
                r = {"eq": lambda: fpcmp("eq", a, b), "lt": lambda: fpcmp("lt", a, b), "le": lambda: fpcmp("le", a, b),
                     "gt": lambda: fpcmp("lt", b, a), "ge": lambda: fpcmp("le", b, a)}[p]()
            return or_(r, nan) if pred[0] == "u" else r
        if pred == "ord":
            return TRUE
        if pred == "uno":
            return FALSE
        p = pred[1:]
        return {"eq": lambda: eq(a, b), "ne": lambda: not_(eq(a, b)), "lt": lambda: lt(a, b), "le": lambda: le(a, b),
                "gt": lambda: lt(b, a), "ge": lambda: le(b, a)}[p]()

    def i_fpext(self, st, f, ins):
        v = self.val(st, f, ins.ops[0])
        return self.fcvt(v, ins.ty)

    i_fptrunc = i_fpext

    def fcvt(self, v, ty):
        if isinstance(v, tuple):
            return tuple(self.fcvt(x, ty.elems[0]) for x in v)
        if v is UNDEF:
            return self.freshval("undef", ty)
        if v.sort == "R":
            return v
        s = "F" if ty.kind == "float" else "D"
        if v.op == "fpc":
            return fpc(float(v.args[0]), s)
        return mk("fp.cvt", (v,), s)

    def i_sitofp(self, st, f, ins):
        v = self.toint(self.val(st, f, ins.ops[0]))
        if self.mode == "real":
            if is_const(v):
                return R(cval(v))
            return self.toreal(v)
        if is_const(v):
            return fpc(float(cval(v)), "F" if ins.ty.kind == "float" else "D")
        return mk("fp.cvti", (v,), "F" if ins.ty.kind == "float" else "D")

    def toreal(self, v):
        if is_const(v):
            return R(cval(v))
        if v.op == "ite":
            return ite(v.args[0], self.toreal(v.args[1]), self.toreal(v.args[2]))
        # linear distribution keeps polynomials canonical
        r = R(0)
        for m, c in terms(v).items():
            t = R(c)
            for a, p in m:
                for _ in range(p):
                    t = mul(t, mk("toreal", (a,), "R"))
            r = add(r, t)
        return r

    def i_uitofp(self, st, f, ins):
        v = self.toint(self.val(st, f, ins.ops[0]))
        v = self.unsigned(st, v, ins.ops[0].ty.bits)
        if self.mode == "real":
            return R(cval(v)) if is_const(v) else self.toreal(v)
        if is_const(v):
            return fpc(float(cval(v)), "F" if ins.ty.kind == "float" else "D")
        return mk("fp.cvti", (v,), "F" if ins.ty.kind == "float" else "D")

    def i_fptosi(self, st, f, ins):
        v = self.val(st, f, ins.ops[0])
        if isinstance(v, E) and v.sort == "R" and is_const(v):
            return I(int(cval(v)))
        raise Undecided("fptosi")

    i_fptoui = i_fptosi

    def i_bitcast(self, st, f, ins):
        v = self.val(st, f, ins.ops[0])
        return self.bitcast(st, v, ins.ops[0].ty, ins.ty)

    def bitcast(self, st, v, src, dst):
        if src.kind == dst.kind and src.kind == "ptr":
            return v
        # via bytes
        def flatten(v, ty, off, out):
            if ty.kind in ("vector", "array"):
                for j in range(ty.n):
                    flatten(v[j], ty.elems[0], off + j * ty.elems[0].store, out)
            elif isinstance(v, Pun):
                out.extend((off + o, s, x) for o, s, x in v.parts)
            else:
                out.append((off, ty.store, v))
        parts = []
        flatten(v, src, 0, parts)

        def pick(ty, off):
            if ty.kind in ("vector", "array"):
                return tuple(pick(ty.elems[0], off + j * ty.elems[0].store) for j in range(ty.n))
            r = self.slice(Pun(src.store, parts), off, ty.store)
            return self.coerce(st, r, ty)
        return pick(dst, 0)

    def i_freeze(self, st, f, ins):
        v = self.val(st, f, ins.ops[0])
        if v is UNDEF:
            return self.freshval("undef", ins.ty)
        return v

    def i_ptrtoint(self, st, f, ins):
        v = self.val(st, f, ins.ops[0])
        if v is UNDEF:
            return fresh("undef", "I")
        return self.ptr2int(v)

    def i_inttoptr(self, st, f, ins):
        return self.int2ptr(self.val(st, f, ins.ops[0]))

    def i_addrspacecast(self, st, f, ins):
        return self.val(st, f, ins.ops[0])

    def i_phi(self, st, f, ins):
        return f.env[ins.id]

    def i_select(self, st, f, ins):
        c = self.val(st, f, ins.ops[0])
        a = self.val(st, f, ins.ops[1])
        b = self.val(st, f, ins.ops[2])
        if isinstance(c, tuple):
            return tuple(self.sel(st, self.tobool(x), y, z, ins.ty.elems[0]) for x, y, z in zip(c, a, b))
        return self.sel(st, self.tobool(c), a, b, ins.ty)

    def sel(self, st, c, a, b, ty):
        if c is TRUE or c in st.pcset:
            return a
        if c is FALSE or not_(c) in st.pcset:
            return b
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if isinstance(a, tuple):
            return tuple(self.sel(st, c, x, y, None) for x, y in zip(a, b))
        if isinstance(a, (Ptr, Fn, Pun)) or isinstance(b, (Ptr, Fn, Pun)):
            if a == b:
                return a
            raise ForkOn([c, not_(c)])
        if a is b:
            return a
        if isinstance(a, E) and a.sort == "B":
            return ite(c, a, self.tobool(b))
        if a.sort in ("R", "F", "D") and (self.opts["fork_select"] or hasinf(a) or hasinf(b)):
            raise ForkOn([c, not_(c)])
        return ite(c, a, b)

    def i_extractelement(self, st, f, ins):
        v = self.val(st, f, ins.ops[0])
        i = self.toint(self.val(st, f, ins.ops[1]))
        if v is UNDEF:
            return UNDEF
        return v[cval(i)]

    def i_insertelement(self, st, f, ins):
        v = self.val(st, f, ins.ops[0])
        x = self.val(st, f, ins.ops[1])
        i = cval(self.toint(self.val(st, f, ins.ops[2])))
        l = list(v) if isinstance(v, tuple) else [UNDEF] * ins.ty.n
        l[i] = x
        return tuple(l)

    def i_shufflevector(self, st, f, ins):
        a = self.val(st, f, ins.ops[0])
        b = self.val(st, f, ins.ops[1])
        n = ins.ops[0].ty.n
        l = (list(a) if isinstance(a, tuple) else [UNDEF] * n) + (list(b) if isinstance(b, tuple) else [UNDEF] * n)
        return tuple(l[m] if m >= 0 and m < len(l) else UNDEF for m in ins.x)

    def i_extractvalue(self, st, f, ins):
        v = self.val(st, f, ins.ops[0])
        for j in ins.x:
            if v is UNDEF:
                return UNDEF
            v = v[j]
        return v

    def i_insertvalue(self, st, f, ins):
        v = self.val(st, f, ins.ops[0])
        x = self.val(st, f, ins.ops[1])

        def put(v, ty, idx):
            if not idx:
                return x
            l = list(v) if isinstance(v, tuple) else list(self.undef(ty))
            l[idx[0]] = put(l[idx[0]], ty.elems[idx[0]] if ty.kind == "struct" else ty.elems[0], idx[1:])
            return tuple(l)
        return put(v, ins.ty, ins.x)

    def i_landingpad(self, st, f, ins):
        return f.env.get(ins.id, (NULL, I(0)))

    def i_fence(self, st, f, ins):
        return None

    def i_atomicrmw(self, st, f, ins):
        p = self.val(st, f, ins.ops[0])
        v = self.val(st, f, ins.ops[1])
        old = self.load(st, f, ins.ops[1].ty, p)
        # LLVM-C: 0 xchg,1 add,2 sub
        new = v if ins.x == 0 else add(old, v) if ins.x == 1 else sub(old, v) if ins.x == 2 else None
        if new is None:
            raise Undecided("atomicrmw")
        self.store(st, f, ins.ops[1].ty, new, p)
        return old

    # ------------------------------------------------------------ calls
    def do_call(self, st, f, ins, work, stop):
        callee = self.val(st, f, ins.x[0])
        if isinstance(callee, Ptr):
            raise Undecided("call through data pointer")
        if not isinstance(callee, Fn):
            raise Undecided("indirect call to %r" % (callee,))
        name = callee.name
        args = [None if isinstance(o, Const) and o.kind == "other" else self.val(st, f, o) for o in ins.ops]
        h = self.find_handler(name)
        if h is not None and getattr(h, "recursive", False) and not any(g.fn.name == name for g in st.frames):
            h = None      # the outermost call runs the real body, the calls it makes to itself use the contract
        if h is not None:
            r = h(self, st, f, ins, args)
            if isinstance(r, tuple) and len(r) == 2 and r[0] == "THROW":
                return self.do_throw(st, r[1], work, stop)
            if isinstance(r, tuple) and len(r) == 3 and r[0] == "CALL":
                self.push(st, r[1], r[2], ins)
                return None
            if isinstance(r, tuple) and len(r) == 2 and r[0] == "FORKS":
                # list of (state, value) continuing after the call
                lst = r[1]
                if not lst:
                    raise PathEnd()
                for (s2, v2) in lst[1:]:
                    g = s2.frames[-1]
                    g.env[ins.id] = v2
                    if ins.op == "invoke":
                        self.goto_later(s2, g, ins.x[1], work, stop)
                    else:
                        g.pc += 1
                        work.append(s2)
                s2, v2 = lst[0]
                if s2 is not st:
                    g = s2.frames[-1]
                    g.env[ins.id] = v2
                    if ins.op == "invoke":
                        self.goto_later(s2, g, ins.x[1], work, stop)
                    else:
                        g.pc += 1
                        work.append(s2)
                    raise PathEnd()
                r = v2
            f.env[ins.id] = r
            return self.after_call(st, f, ins, work, stop)
        if name.startswith("llvm."):
            f.env[ins.id] = self.llvm_intrinsic(st, f, ins, name, args)
            return self.after_call(st, f, ins, work, stop)
        fn = self.m.func(name)
        if fn is None:
            raise Undecided("call to external function " + self.dem.get(name, name))
        self.push(st, fn, args, ins)
        return None

    def find_handler(self, name):
        h = self._repl_cache.get(name, 0)
        if h == 0:
            import externs
            h = externs.lookup(self, name)
            if h is None:
                d = self.dem.get(name, name)
                for rx, tgt, *rec in self.replace:
                    if re.search(rx, d) or rx == name:
                        if callable(tgt):
                            h = tgt
                        else:
                            h = self.stub_handler(tgt, rx)
                            h.recursive = bool(rec and rec[0])
                        break
            self._repl_cache[name] = h
        return h

    def stub_handler(self, stub, rx):
        fn = self.m.func(stub)
        if fn is None:
            raise Undecided("missing contract stub " + stub)

        def h(ctx, st, f, ins, args):
            ctx.notes.add("callee %s replaced by contract %s" % (rx, stub))
            return ("CALL", fn, args)
        return h

    def llvm_intrinsic(self, st, f, ins, name, args):
        b = name.split(".")[1]
        if b in ("lifetime", "dbg", "donothing", "assume", "prefetch", "stackrestore", "experimental", "va_end", "invariant"):
            return None
        if b == "stacksave":
            return NULL
        if b == "memcpy" or b == "memmove":
            self.memcpy(st, f, args[0], args[1], args[2])
            return None
        if b == "memset":
            self.memset(st, f, args[0], args[1], args[2])
            return None
        if b == "fabs":
            return vmap(self.fabs, args[0])
        if b == "sqrt":
            return vmap(lambda x: sqrt(x) if x.sort == "R" else mk("fp.sqrt", (x,), x.sort), args[0])
        if b in ("fmuladd", "fma"):
            return self.fbin("add", self.fbin("mul", args[0], args[1]), args[2])
        if b in ("sin", "cos"):
            s, c = trig(args[0])
            return s if b == "sin" else c
        if b in ("minnum", "maxnum", "minimum", "maximum"):
            lo = b.startswith("min")
            def mm(x, y):
                c = self.fcmp("olt", x, y)
                return ite(c, x, y) if lo else ite(c, y, x)
            return vmap(mm, args[0], args[1])
        if b in ("smax", "smin", "umax", "umin"):
            x, y = self.toint(args[0]), self.toint(args[1])
            if b[0] == "u":
                x, y = self.unsigned(st, x, ins.ty.bits), self.unsigned(st, y, ins.ty.bits)
            c = lt(x, y)
            return ite(c, x, y) if b.endswith("min") else ite(c, y, x)
        if b == "abs":
            x = self.toint(args[0])
            return ite(lt(x, I(0)), neg(x), x)
        if b == "objectsize":
            return I(-1)
        if b == "expect":
            return args[0]
        if b == "is":
            return FALSE
        if b == "eh":
            # typeid.for
            o = ins.ops[0]
            nm = o.v if isinstance(o, Const) and o.kind == "global" else "?"
            return I(self.typeid(nm))
        if b == "copysign":
            raise Undecided("copysign")
        if b in ("umul", "uadd", "usub", "smul", "sadd"):
            a, c = self.toint(args[0]), self.toint(args[1])
            bits = ins.ty.elems[0].bits
            if b[0] == "u":
                a, c = self.unsigned(st, a, bits), self.unsigned(st, c, bits)
            r = mul(a, c) if "mul" in b else add(a, c) if "add" in b else sub(a, c)
            if b[0] == "u":
                ov = or_(lt(r, I(0)), le(I(1 << bits), r))
            else:
                ov = or_(lt(r, I(-(1 << (bits - 1)))), le(I(1 << (bits - 1)), r))
            return (self.wrap(r, ins.ty.elems[0]), ov)
        if b == "round":
            return vmap(lambda x: mk("round", (x,), "R"), args[0])
        if b == "threadlocal":
            return args[0]
        if b == "ctpop" or b == "ctlz" or b == "cttz":
            x = self.toint(args[0])
            if is_const(x):
                v = cval(x) & ((1 << ins.ty.bits) - 1)
                if b == "ctpop":
                    return I(bin(v).count("1"))
                if b == "ctlz":
                    return I(ins.ty.bits - v.bit_length())
                return I((v & -v).bit_length() - 1 if v else ins.ty.bits)
        if b == "vector":
            # reductions
            kind = name.split(".")[3] if name.split(".")[2] == "reduce" else None
            vec = args[-1]
            if kind == "and":
                return and_(*[self.tobool(x) for x in vec])
            if kind == "or":
                return or_(*[self.tobool(x) for x in vec])
            if kind == "fadd":
                r = args[0]
                for x in vec:
                    r = self.fbin("add", r, x)
                return r
        if b == "trap":
            self.obligation(st, "memory-safety", FALSE, "trap")
            raise PathEnd()
        raise Undecided("intrinsic " + name)

    def fabs(self, x):
        if x.sort in ("F", "D"):
            return mk("fp.abs", (x,), x.sort)
        if is_const(x):
            return R(abs(cval(x)))
        if x.op in ("sqrt",):
            return x
        if x.op == "inf":
            return R(math.inf)
        y = neg(x)
        if y.id < x.id:
            x, y = y, x   # |x| and |-x| are the same term
        return ite(lt(x, R(0)), y, x)


def vmap(fn, *xs):
    if isinstance(xs[0], tuple):
        return tuple(fn(*t) for t in zip(*xs))
    return fn(*xs)


def fpnan(x):
    if x.op == "fpc":
        return B(x.args[0] == "nan")
    return mk("fp.isnan", (x,), "B")


def fpcmp(op, a, b):
    if a.op == "fpc" and b.op == "fpc":
        x, y = float(a.args[0]), float(b.args[0])
        return B(x == y if op == "eq" else x < y if op == "lt" else x <= y)
    return mk("fp." + op, (a, b), "B")


def bool01(v):
    if v.op == "ite":
        return bool01(v.args[1]) and bool01(v.args[2])
    return is_const(v) and cval(v) in (0, 1)


def eqi(a, b):
    """integer equality, pushed through constant ite"""
    if a.op == "ite" and is_const(b) and is_const(a.args[1]) and is_const(a.args[2]):
        return ite(a.args[0], B(cval(a.args[1]) == cval(b)), B(cval(a.args[2]) == cval(b)))
    if b.op == "ite" and is_const(a):
        return eqi(b, a)
    return eq(a, b)
