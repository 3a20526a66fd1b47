"""Path-based verification-condition generator over LLVM IR.

Executes a contract function symbolically over the IR of the real code: every branch on symbolic data forks,
every loop whose trip count is not a constant is cut at its header by an inferred inductive invariant
(loops.py), callees are executed in place or replaced by their contract.  Every vc_assert, memory access and
loop-invariant step yields a proof obligation."""
import time, re, math
import z3
from fractions import Fraction
from sym import *
import sym
import llvmir
from llvmir import Const, Arg, Instr, Block


class Undecided(Exception):
    """the verifier's reach ends here (not a verdict on the code)"""


class NeedCut(Exception):
    def __init__(s, fn, idx):
        s.fn, s.idx = fn, idx


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(s, obj, off=0):
        if isinstance(off, E) and is_const(off):
            off = cval(off)
        s.obj, s.off = obj, off

    def __eq__(s, o):
        return isinstance(o, Ptr) and s.obj == o.obj and s.off == o.off if not isinstance(s.off, E) and not (isinstance(o, Ptr) and isinstance(o.off, E)) else isinstance(o, Ptr) and s.obj == o.obj and s.off is o.off

    def __hash__(s):
        return hash((s.obj, s.off if not isinstance(s.off, E) else s.off.id))

    def __repr__(s):
        return "&%s+%s" % (s.obj, s.off)

    def offE(s):
        return s.off if isinstance(s.off, E) else I(s.off)


NULL = Ptr(0, 0)


class Fn:
    __slots__ = ("name",)

    def __init__(s, n):
        s.name = n

    def __repr__(s):
        return "fn:" + s.name

    def __eq__(s, o):
        return isinstance(o, Fn) and o.name == s.name

    def __hash__(s):
        return hash(s.name)


class Pun:
    """raw bits made of typed cells: [(byteoff,size,value)]"""
    __slots__ = ("size", "parts")

    def __init__(s, size, parts):
        s.size, s.parts = size, parts


class Undef:
    def __repr__(s):
        return "undef"


UNDEF = Undef()


class Obj:
    __slots__ = ("size", "cells", "arr", "name", "alive", "kind", "ro", "hook")

    def __init__(s, size, name, kind):
        s.size, s.name, s.kind = size, name, kind
        s.cells = {}
        s.arr = None
        s.alive = True
        s.ro = False
        s.hook = None

    def copy(s):
        o = Obj(s.size, s.name, s.kind)
        o.cells = dict(s.cells)
        o.arr = s.arr.copy() if s.arr is not None and hasattr(s.arr, "copy") else s.arr
        o.alive, o.ro, o.hook = s.alive, s.ro, s.hook
        return o


class SymArr:
    """array of n elements; element layout fields: {byteoff: (size, sort)}; element value of field f at index i is the
    uninterpreted application name.f(i), overridden by `writes` (symbolic-index writes, newest last)."""
    __slots__ = ("name", "n", "stride", "fields", "writes")

    def __init__(s, name, n, stride, fields):
        s.name, s.n, s.stride, s.fields = name, n, stride, fields
        s.writes = ()

    def copy(s):
        a = SymArr(s.name, s.n, s.stride, s.fields)
        a.writes = s.writes
        return a

    def base(s, f, idx):
        if callable(s.name):
            return s.name(f, idx)
        return uf("%s.%d" % (s.name, f), s.fields[f][1], idx)

    def read(s, f, idx):
        v = s.base(f, idx)
        for (wf, widx, wv) in s.writes:
            if wf == f:
                v = ite(eq(widx, idx), wv, v)
        return v


class Frame:
    __slots__ = ("fn", "blk", "pc", "env", "prev", "call", "allocas", "tag", "visits", "id", "onret")

    def copy(s):
        f = Frame()
        f.fn, f.blk, f.pc, f.prev, f.call, f.tag, f.id, f.onret = s.fn, s.blk, s.pc, s.prev, s.call, s.tag, s.id, s.onret
        f.env = dict(s.env)
        f.allocas = list(s.allocas)
        f.visits = dict(s.visits)
        return f


class State:
    __slots__ = ("frames", "mem", "owned", "pc", "pcset", "nd", "ghost", "exc", "steps", "trail", "covers", "quants", "globals", "nobj")

    def fork(s):
        t = State()
        t.frames = [f.copy() for f in s.frames]
        t.mem = dict(s.mem)
        s.owned = set()
        t.owned = set()
        t.pc = list(s.pc)
        t.pcset = set(s.pcset)
        t.nd = list(s.nd)
        t.ghost = dict(s.ghost)
        t.exc = s.exc
        t.steps = s.steps
        t.trail = list(s.trail)
        t.covers = set(s.covers)
        t.quants = list(s.quants)
        t.globals = dict(s.globals)
        t.nobj = s.nobj
        return t


class Obligation:
    __slots__ = ("name", "status", "model", "nd", "info", "solver", "time", "mode")


class Ctx:
    def __init__(self, module, mode="real", opts=None, deadline=None):
        self.m = module
        self.mode = mode
        self.opts = dict(fork_select=False, fork_limit=4, timeout=20000, feas_timeout=400, max_paths=4000, max_steps=2000000)
        self.opts.update(opts or {})
        self.cuts = set()
        self.oblig = {}       # name -> dict(count, discharged, failed:[...], unknown:[...])
        self.replace = []     # (regex, stubname | python handler)
        self.assumed = set()
        self.solver_time = 0.0
        self.solver_calls = 0
        self.backends = {}
        self.paths = 0
        self.feas_cache = {}
        self.fns = set()
        self.deadline = deadline
        self.quiet = False
        self.dem = {}
        self.cover_hits = set()
        self.cover_all = set()
        self.native_range = {}
        self.silent = 0        # >0: obligations are evaluated but not recorded (invariant inference)
        self.silent_fail = None
        self.notes = set()
        self.models = []
        self.throws = 0
        self.floatsort = "R" if mode == "real" else "F"
        self.hooks = {}
        names = list(module.fnptr)
        import build
        for n, d in zip(names, build.demangle(names)):
            self.dem[n] = d
        self._repl_cache = {}
        self.t0 = time.time()

    # ------------------------------------------------------------- solving
    def relevant(self, pc, goals):
        """slice the path condition to the facts sharing symbols (transitively) with the goals"""
        def syms(e):
            r = e.deps
            if r is None:
                r = frozenset(x for x in walk([e]) if x.op in ("var",) or x.op.startswith("uf:"))
                e.deps = r
            return r
        need = set()
        for g in goals:
            need |= syms(g)
        rest = [(p, syms(p)) for p in pc]
        out = []
        ch = True
        while ch:
            ch = False
            nr = []
            for p, s in rest:
                if not s or s & need:
                    out.append(p)
                    if s - need:
                        need |= s
                        ch = True
                else:
                    nr.append((p, s))
            rest = nr
        return out

    def check_sat(self, cons, timeout, model=False):
        """cons: list of E. returns 'sat','unsat','unknown'"""
        if self.deadline and time.time() > self.deadline:
            raise Undecided("time budget used up")
        t = time.time()
        self.solver_calls += 1
        fp = any(c_has_fp(c) for c in cons)
        ax = axioms(cons)
        s = None
        res = "unknown"
        try:
            nonlin = (not fp) and any(is_nonlinear(c) for c in cons)
            order = ["default"]
            if nonlin:
                order = ["nlsat", "default"]
            if fp:
                order = ["fp"]
            for k, o in enumerate(order):
                if o == "nlsat" and any(x.op.startswith("uf:") for x in walk(cons)):
                    continue
                if o == "nlsat":
                    s = z3.Tactic("qfnra-nlsat").solver() if not any(x.op in ("imod", "idiv", "toreal", "round") or x.sort == "I" for x in walk(cons)) else None
                    if s is None:
                        continue
                elif o == "fp":
                    s = z3.SolverFor("QF_FP") if not any(x.sort in ("R", "I") for x in walk(cons)) else z3.Solver()
                else:
                    s = z3.Solver()
                s.set("timeout", int(timeout if k == len(order) - 1 else timeout * 0.6))
                for c in cons:
                    s.add(to_z3(c))
                for a in ax:
                    s.add(a)
                r = s.check()
                if r == z3.sat:
                    res = "sat"
                    break
                if r == z3.unsat:
                    res = "unsat"
                    break
            self.backends[o] = self.backends.get(o, 0) + 1
        except z3.Z3Exception as ex:
            self.notes.add("z3: %s" % ex)
            res = "unknown"
        self.solver_time += time.time() - t
        if model:
            return res, (s.model() if res == "sat" else None)
        return res

    def feasible(self, st, cond):
        if cond is TRUE:
            return True
        if cond is FALSE or not_(cond) in st.pcset:
            return False
        if cond in st.pcset:
            return True
        rel = self.relevant(st.pc, [cond])
        key = (frozenset(rel), cond)
        r = self.feas_cache.get(key)
        if r is None:
            r = self.check_sat(rel + [cond], self.opts["feas_timeout"]) != "unsat"
            self.feas_cache[key] = r
        return r

    def entails(self, st, goal, timeout=None):
        """quick entailment used for simplification (sound: True only if proved)"""
        if goal is TRUE or goal in st.pcset:
            return True
        if goal is FALSE:
            return False
        if timeout is None:
            return not self.feasible(st, not_(goal))
        rel = self.relevant(st.pc, [goal])
        return self.check_sat(rel + [not_(goal)], timeout) == "unsat"

    def assume(self, st, c):
        if c is TRUE:
            return
        for x in (c.args if c.op == "and" else (c,)):
            if x not in st.pcset:
                st.pcset.add(x)
                st.pc.append(x)
                if x is FALSE:
                    pass

    def prove(self, st, goal):
        """-> (status, model, solver) status in proved/failed/unknown"""
        import prover
        return prover.prove(self, st, goal)

    def obligation(self, st, name, goal, info=None):
        if self.silent:
            self.assume(st, goal)
            if goal is FALSE:
                raise PathEnd()
            return
        o = self.oblig.setdefault(name, dict(count=0, discharged=0, failed=[], unknown=[], time=0.0))
        o["count"] += 1
        t = time.time()
        if goal is TRUE or goal in st.pcset:
            r, mod, sol = "proved", None, "syntactic"
        elif len(o["failed"]) >= 3 or len(o["unknown"]) >= 6:
            r, mod, sol = "unknown", None, "not attempted (already failing)"
        else:
            r, mod, sol = self.prove(st, goal)
        o["time"] += time.time() - t
        if r == "proved":
            o["discharged"] += 1
            self.backends[sol] = self.backends.get(sol, 0) + (1 if sol in ("syntactic", "polynomial", "cvc5", "split", "groebner") else 0)
        else:
            inp = None
            alts = []
            if mod is not None:
                inp = self.model_inputs(st, mod)
                if r == "failed" and self.mode == "real":
                    alts = self.robust(st, goal)
            rec = dict(abstract=bool(st.ghost.get("abstract")), goal=show(goal)[:2000], pc=[show(p)[:300] for p in st.pc[-40:]], inputs=inp, alts=alts, solver=sol, info=info)
            (o["failed"] if r == "failed" else o["unknown"]).append(rec)
        self.assume(st, goal)

    def robust(self, st, goal):
        """further counterexamples, violated by a margin and in the native input ranges: likelier to fail natively too"""
        lits = [goal]
        while any(g.op == "and" for g in lits):
            lits = [x for g in lits for x in (g.args if g.op == "and" else (g,))]
        out = []
        rng = []
        for e, (lo, hi) in self.native_range.items():
            rng += [le(lo, e), le(e, hi)]
        seen = set(x for c in list(st.pc) + lits for x in walk([c]))
        rng = [c for c in rng if any(x in seen for x in walk([c]) if x.op == "var")]

        def strong(c, m):
            if c.op == "lt":
                return le(add(c.args[0], R(m)), R(0))
            if c.op == "not" and c.args[0].op == "eq" and c.args[0].args[0].sort == "R":
                p = c.args[0].args[0]
                return or_(le(R(m), p), le(p, R(-m)))
            return c
        t0 = time.time()
        for m in (Fraction(1, 2), Fraction(1, 32), Fraction(1, 2048)):
            for pcm in (m / 8, 0):
                for g in lits:
                    if time.time() - t0 > 12:
                        return out
                    try:
                        if g.op == "le" and g.args[0].sort == "R":
                            n = le(R(m), g.args[0])
                        elif g.op == "lt" and g.args[0].sort == "R":
                            n = le(R(m), g.args[0])
                        elif g.op == "eq" and g.args[0].sort == "R":
                            p = g.args[0]
                            n = or_(le(R(m), p), le(p, R(-m)))
                        else:
                            n = not_(g)
                        pc = [strong(c, pcm) if pcm else c for c in st.pc]
                        for extra in ((rng,) if rng else ([],)):
                            r, mod = self.check_sat(pc + [n] + extra, 2500, model=True)
                            if r == "sat":
                                i = self.model_inputs(st, mod)
                                if i not in out:
                                    out.append(i)
                    except (Undecided, sym.Unsupported, z3.Z3Exception):
                        return out
                    if len(out) >= 4:
                        return out
        return out

    def model_inputs(self, st, mod):
        out = []
        for kind, e in st.nd:
            try:
                if kind == "arr":
                    nm, n, per, srt = e
                    nv = zval(mod.eval(to_z3(n), model_completion=True))
                    if nv is None or nv > 300:
                        out.append([kind, None])
                        continue
                    out.append([kind, [zval(mod.eval(to_z3(uf("%s.%d" % (nm, 4 * j), srt, I(i))), model_completion=True)) for i in range(nv) for j in range(per)]])
                elif isinstance(e, E):
                    v = mod.eval(to_z3(e), model_completion=True)
                    out.append([kind, zval(v)])
                else:
                    out.append([kind, e])
            except Exception as ex:
                out.append([kind, None])
        return out

    # ------------------------------------------------------------- values
    def zero(self, ty):
        k = ty.kind
        if k == "int":
            return FALSE if ty.bits == 1 else I(0)
        if k in ("float", "double"):
            return self.fconst(0.0, ty)
        if k == "ptr":
            return NULL
        if k == "struct":
            return tuple(self.zero(t) for t in ty.elems)
        if k in ("array", "vector"):
            return tuple(self.zero(ty.elems[0]) for _ in range(ty.n))
        raise Undecided("zero of " + repr(ty))

    def fconst(self, v, ty):
        if self.mode == "real":
            if not math.isinf(v) and not math.isnan(v) and ty.kind == "double":
                # decimal-looking constants are exact rationals of the double
                return R(Fraction(v))
            return R(v)
        return fpc(v, "F" if ty.kind == "float" else "D")

    def constv(self, st, c):
        k = c.kind
        if k == "int":
            return (TRUE if c.v & 1 else FALSE) if c.ty.bits == 1 else I(c.v)
        if k == "fp":
            return self.fconst(c.v, c.ty)
        if k == "null":
            return NULL
        if k == "undef":
            return self.undef(c.ty)
        if k == "zero":
            return self.zero(c.ty)
        if k == "agg":
            return tuple(self.constv(st, x) for x in c.v)
        if k == "func":
            return Fn(self.m.aliases.get(c.v, c.v))
        if k == "global":
            if c.v in self.m.aliases and self.m.aliases[c.v] in self.m.fnptr:
                return Fn(self.m.aliases[c.v])
            return Ptr(self.globobj(st, c.v), 0)
        if k == "expr":
            op, ops, extra = c.v
            vs = [self.constv(st, o) for o in ops]
            if op == "gep":
                return self.gep(st, extra, vs)
            if op == "ptrtoint":
                return self.ptr2int(vs[0])
            if op == "inttoptr":
                return self.int2ptr(vs[0])
            if op == "bitcast":
                return vs[0]
            if op in ("add", "sub"):
                return add(vs[0], vs[1]) if op == "add" else sub(vs[0], vs[1])
        raise Undecided("constant " + repr(c))

    def undef(self, ty):
        if ty.kind in ("struct", "array", "vector"):
            n = ty.n
            return tuple(self.undef(ty.elems[i] if ty.kind == "struct" else ty.elems[0]) for i in range(n))
        return UNDEF

    def concretize_undef(self, ty):
        return self.freshval("undef", ty)

    def freshval(self, name, ty):
        if ty.kind == "int":
            return fresh(name, "B" if ty.bits == 1 else "I")
        if ty.kind == "float":
            return fresh(name, self.floatsort)
        if ty.kind == "double":
            return fresh(name, "R" if self.mode == "real" else "D")
        if ty.kind in ("struct",):
            return tuple(self.freshval(name, t) for t in ty.elems)
        if ty.kind in ("array", "vector"):
            return tuple(self.freshval(name, ty.elems[0]) for _ in range(ty.n))
        if ty.kind == "ptr":
            return UNDEF
        raise Undecided("fresh " + repr(ty))

    def val(self, st, f, o):
        if isinstance(o, Instr):
            return f.env[o.id]
        if isinstance(o, Arg):
            return f.env[-1 - o.idx]
        if isinstance(o, Const):
            return self.constv(st, o)
        raise Undecided("operand")

    # ------------------------------------------------------------- memory
    def newobj(self, st, size, name, kind):
        st.nobj += 1
        i = st.nobj
        o = Obj(size, name, kind)
        st.mem[i] = o
        st.owned.add(i)
        return i

    def globobj(self, st, name):
        name = self.m.aliases.get(name, name)
        i = st.globals.get(name)
        if i is not None:
            return i
        ty, init = self.m.global_init(name)
        i = self.newobj(st, ty.size if ty else 8, "@" + name, "global")
        st.globals[name] = i
        if init is not None and ty.kind != "other":
            self.init_cells(st, st.mem[i], 0, ty, init)
        return i

    def init_cells(self, st, o, off, ty, c):
        if ty.kind == "struct":
            for j, t in enumerate(ty.elems):
                self.init_cells(st, o, off + ty.offs[j], t, c.v[j] if c.kind == "agg" else Const("zero" if c.kind in ("zero", "null") else "undef", t))
        elif ty.kind in ("array", "vector"):
            t = ty.elems[0]
            if c.kind in ("zero", "undef") and ty.n > 4096:
                return
            for j in range(ty.n):
                self.init_cells(st, o, off + j * t.size, t, c.v[j] if c.kind == "agg" else Const(c.kind, t))
        elif ty.kind == "other":
            pass
        else:
            if c.kind == "undef":
                return
            try:
                o.cells[off] = (ty.store, self.constv(st, c))
            except Undecided:
                pass

    def wobj(self, st, i):
        o = st.mem[i]
        if i not in st.owned:
            o = o.copy()
            st.mem[i] = o
            st.owned.add(i)
        return o

    def ptr2int(self, p):
        if isinstance(p, E):
            return p
        if isinstance(p, Fn):
            return var("fnaddr(%s)" % p.name, "I")
        if p.obj == 0:
            return p.offE()
        return add(var("addr(%d)" % p.obj, "I"), p.offE())

    def int2ptr(self, e):
        if isinstance(e, (Ptr, Fn)):
            return e
        if is_const(e):
            return Ptr(0, cval(e))
        for m, c in terms(e).items():
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "var" and m[0][0].args[0].startswith("addr("):
                i = int(m[0][0].args[0][5:-1])
                return Ptr(i, sub(e, m[0][0]))
        raise Undecided("int to pointer")

    def bounds(self, st, p, size, what, f):
        if not isinstance(p, Ptr):
            raise Undecided("access through non-pointer %r (%s)" % (p, what))
        if p.obj == 0:
            self.obligation(st, "memory-safety", FALSE, "null/invalid pointer %s in %s" % (what, self.dem.get(f.fn.name, f.fn.name)))
            return False
        o = st.mem[p.obj]
        if not o.alive:
            self.obligation(st, "memory-safety", FALSE, "use after free %s of %s in %s" % (what, o.name, self.dem.get(f.fn.name, f.fn.name)))
            return False
        if not isinstance(p.off, E) and not isinstance(o.size, E):
            if p.off < 0 or p.off + size > o.size:
                if o.kind == "global" and o.size <= 8:
                    return True
                self.obligation(st, "memory-safety", FALSE, "out of bounds %s of %s at %s size %s in %s" % (what, o.name, p.off, o.size, self.dem.get(f.fn.name, f.fn.name)))
                return False
            return True
        so = o.size if isinstance(o.size, E) else I(o.size)
        g = and_(le(I(0), p.offE()), le(add(p.offE(), I(size)), so))
        if g is TRUE or g in st.pcset:
            return True
        if self.entails(st, g):
            if not self.silent:
                ob = self.oblig.setdefault("memory-safety", dict(count=0, discharged=0, failed=[], unknown=[], time=0.0))
                ob["count"] += 1
                ob["discharged"] += 1
            return True
        self.obligation(st, "memory-safety", g, "bounds of %s on %s in %s" % (what, o.name, self.dem.get(f.fn.name, f.fn.name)))
        return True

    def load(self, st, f, ty, p):
        k = ty.kind
        if k in ("struct",):
            return tuple(self.load(st, f, t, Ptr(p.obj, addoff(p.off, ty.offs[j]))) for j, t in enumerate(ty.elems))
        if k in ("array", "vector"):
            t = ty.elems[0]
            return tuple(self.load(st, f, t, Ptr(p.obj, addoff(p.off, j * t.size))) for j in range(ty.n))
        size = ty.store
        if not self.bounds(st, p, size, "load", f):
            raise PathEnd()
        o = st.mem[p.obj]
        if o.hook is not None:
            o.hook(self, st, p.obj, p.off, size)
            o = st.mem[p.obj]
        if o.arr is not None:
            v = self.arr_load(st, o, p, size)
            return self.coerce(st, v, ty)
        if isinstance(p.off, E):
            return self.sym_load(st, f, o, p, ty)
        c = o.cells.get(p.off)
        if c is not None and c[0] == size:
            v = c[1]
            if v is UNDEF:
                v = self.freshval("uninit", ty)
                if v is not UNDEF:
                    self.wobj(st, p.obj).cells[p.off] = (size, v)
            return self.coerce(st, v, ty)
        v = self.gather(st, p.obj, p.off, size, ty)
        return self.coerce(st, v, ty)

    def sym_load(self, st, f, o, p, ty):
        """load at a symbolic offset of a concretely laid out object: case split over its cells"""
        size = ty.store
        cands = [off for off, (s, v) in sorted(o.cells.items()) if s == size]
        for off in cands:
            if self.entails(st, eq(p.off, I(off))):
                return self.coerce(st, o.cells[off][1], ty)
        if any(n != size for n, _ in o.cells.values()) and isinstance(o.size, int) and o.size <= 64:
            al = math.gcd(size, 8)
            cands = [off for off in range(0, o.size - size + 1, al) if any(b <= off < b + n for b, (n, _) in o.cells.items())]
            for off in cands:
                if self.entails(st, eq(p.off, I(off))):
                    c = o.cells.get(off)
                    return self.coerce(st, c[1] if c is not None and c[0] == size else self.gather(st, p.obj, off, size, ty), ty)
        opts = [off for off in cands if self.feasible(st, eq(p.off, I(off)))]
        if not opts or len(opts) > 16:
            raise Undecided("load at symbolic offset of %s" % o.name)
        raise ForkOn([eq(p.off, I(off)) for off in opts])

    def arr_load(self, st, o, p, size):
        a = o.arr
        off = p.offE()
        r = fmod_int(off, a.stride)
        if not is_const(r):
            # try to decide remainder from known field offsets
            raise Undecided("array offset not aligned: %s" % show(off))
        r = cval(r)
        idx = fdiv_int(sub(off, I(r)), a.stride)
        idx = self.norm_index(st, idx)
        if r in a.fields and a.fields[r][0] == size:
            return a.read(r, idx)
        parts = []
        b = r
        while b < r + size:
            if b not in a.fields:
                raise Undecided("array field at %d" % b)
            parts.append((b - r, a.fields[b][0], a.read(b, idx)))
            b += a.fields[b][0]
        return Pun(size, parts)

    def norm_index(self, st, idx):
        return idx

    def gather(self, st, oid, off, size, ty):
        o = st.mem[oid]
        parts = []
        b = off
        while b < off + size:
            c = o.cells.get(b)
            if c is None:
                # inside a larger cell?
                big = None
                for o2, (s2, v2) in o.cells.items():
                    if o2 < b < o2 + s2:
                        big = (o2, s2, v2)
                        break
                if big:
                    o2, s2, v2 = big
                    parts.append((b - off, min(o2 + s2, off + size) - b, self.slice(v2, b - o2, min(o2 + s2, off + size) - b)))
                    b = min(o2 + s2, off + size)
                    continue
                if o.kind == "zeroed" :
                    if not parts:
                        v = self.zero(ty)
                        return v
                # uninitialised
                nb = min([x for x in o.cells if x > b] + [off + size])
                if b == off and nb >= off + size:
                    if ty.kind == "ptr":
                        return UNDEF
                    v = self.freshval("uninit", ty)
                    self.wobj(st, oid).cells[off] = (size, v)
                    return v
                parts.append((b - off, nb - b, UNDEF))
                b = nb
            else:
                s2, v2 = c
                if b + s2 > off + size:
                    parts.append((b - off, off + size - b, self.slice(v2, 0, off + size - b)))
                    b = off + size
                else:
                    parts.append((b - off, s2, v2))
                    b += s2
        if all(v is UNDEF for _, _, v in parts):
            return UNDEF if ty.kind == "ptr" else self.freshval("uninit", ty)
        return Pun(size, parts)

    def slice(self, v, start, size):
        if isinstance(v, Pun):
            parts = []
            for (o, s, x) in v.parts:
                if o >= start and o + s <= start + size:
                    parts.append((o - start, s, x))
                elif o < start + size and o + s > start:
                    lo, hi = max(o, start), min(o + s, start + size)
                    parts.append((lo - start, hi - lo, self.slice(x, lo - o, hi - lo)))
            if len(parts) == 1 and parts[0][0] == 0 and parts[0][1] == size:
                return parts[0][2]
            return Pun(size, parts)
        if isinstance(v, E) and v.sort == "I":
            if is_const(v):
                x = (cval(v) >> (8 * start)) & ((1 << (8 * size)) - 1)
                if x >= 1 << (8 * size - 1):
                    x -= 1 << (8 * size)
                return I(x)
            if v.op == "ite":
                return ite(v.args[0], self.slice(v.args[1], start, size), self.slice(v.args[2], start, size))
        if v is UNDEF:
            return UNDEF
        if isinstance(v, E) and v.op == "poly" and not v.args:
            return I(0)
        raise Undecided("slice of cell %r" % (v,))

    def coerce(self, st, v, ty):
        k = ty.kind
        if v is UNDEF:
            return UNDEF if k == "ptr" else self.freshval("uninit", ty)
        if k == "ptr":
            if isinstance(v, E):
                if v.sort == "I":
                    return self.int2ptr(v)
            if isinstance(v, Pun):
                if all(x is UNDEF for _, _, x in v.parts):
                    return UNDEF
                v = self.pun2int(v)
                return self.int2ptr(v)
            return v
        if k == "int":
            if isinstance(v, (Ptr, Fn)):
                return self.ptr2int(v)
            if isinstance(v, Pun):
                iv = self.pun2int(v, False)
                return v if iv is None else iv
            if ty.bits == 1 and v.sort == "I":
                return eq(fmod_int(v, 2), I(1))
            if ty.bits > 1 and v.sort == "B":
                return ite(v, I(1), I(0))
            if v.sort in ("R", "F", "D"):
                if v.op == "poly" and not v.args:
                    return I(0)
                if v.op == "fpc" and v.args[0] == 0 and math.copysign(1, v.args[0]) > 0:
                    return I(0)
                return Pun(ty.store, [(0, ty.store, v)])
            return v
        if k in ("float", "double"):
            if isinstance(v, Pun):
                if len(v.parts) == 1:
                    return self.coerce(st, v.parts[0][2], ty)
                if all(x is UNDEF for _, _, x in v.parts):
                    return self.freshval("uninit", ty)
                iv = self.pun2int(v, False)
                if k == "double":
                    return v if iv is None or not is_const(iv) else self.coerce(st, iv, ty)
                if iv is None:
                    raise Undecided("pun to float")
                v = iv
            if isinstance(v, E) and v.sort == "I":
                if is_const(v):
                    import struct
                    if k == "float":
                        return self.fconst(struct.unpack("f", struct.pack("I", cval(v) & 0xffffffff))[0], ty)
                    return self.fconst(struct.unpack("d", struct.pack("Q", cval(v) & (2**64 - 1)))[0], ty)
                raise Undecided("int bits as float")
            return v
        return v

    def pun2int(self, v, must=True):
        """combine integer cells of a Pun if all integral"""
        acc = 0
        for (o, s, x) in v.parts:
            if isinstance(x, E) and x.sort == "B":
                x = ite(x, I(1), I(0))
            if isinstance(x, E) and x.op == "poly" and not x.args:
                x = I(0)
            if isinstance(x, E) and x.sort == "I" and is_const(x):
                acc |= (cval(x) & ((1 << (8 * s)) - 1)) << (8 * o)
            elif isinstance(x, E) and x.sort == "I" and o == 0 and all(isinstance(y, E) and y.op == "poly" and not y.args for (o2, _, y) in v.parts if o2 > 0):
                return x
            else:
                if must:
                    raise Undecided("bits of %r" % (x,))
                return None
        if acc >= 1 << (8 * v.size - 1):
            acc -= 1 << (8 * v.size)
        return I(acc)

    def store(self, st, f, ty, v, p):
        k = ty.kind
        if k == "struct":
            for j, t in enumerate(ty.elems):
                self.store(st, f, t, v[j], Ptr(p.obj, addoff(p.off, ty.offs[j])))
            return
        if k in ("array", "vector"):
            t = ty.elems[0]
            if isinstance(v, tuple):
                for j in range(ty.n):
                    self.store(st, f, t, v[j], Ptr(p.obj, addoff(p.off, j * t.size)))
                return
        size = ty.store
        if not self.bounds(st, p, size, "store", f):
            raise PathEnd()
        self.store_raw(st, p, size, v, f)

    def store_raw(self, st, p, size, v, f=None):
        o = self.wobj(st, p.obj)
        if o.hook is not None:
            o.hook(self, st, p.obj, p.off, size)
            o = self.wobj(st, p.obj)
        if isinstance(v, E) and v.sort == "B":
            v = ite(v, I(1), I(0))
        if isinstance(v, Pun) and len(v.parts) == 1 and v.parts[0][1] == size:
            v = v.parts[0][2]
        if o.arr is None and isinstance(o.size, E) and not o.cells and o.kind == "heap":
            import loops
            sd = loops.stride_of(o)
            if sd:
                o.arr = SymArr("mem%d_" % p.obj, o.size, sd, {})
        if o.arr is not None:
            self.arr_store(st, o, p, size, v)
            return
        if isinstance(p.off, E):
            cands = [off for off, (s, _) in sorted(o.cells.items()) if s == size]
            for off in cands:
                if self.entails(st, eq(p.off, I(off))):
                    p = Ptr(p.obj, off)
                    break
            else:
                opts = [off for off in cands if self.feasible(st, eq(p.off, I(off)))]
                if not opts or len(opts) > 16:
                    raise Undecided("store at symbolic offset of %s" % o.name)
                raise ForkOn([eq(p.off, I(off)) for off in opts])
        if isinstance(v, Pun):
            self.clear(o, p.off, size)
            for (b, s, x) in v.parts:
                o.cells[p.off + b] = (s, x)
            return
        c = o.cells.get(p.off)
        if c is None or c[0] != size:
            self.clear(o, p.off, size)
        o.cells[p.off] = (size, v)

    def arr_store(self, st, o, p, size, v):
        a = o.arr
        off = p.offE()
        r = fmod_int(off, a.stride)
        if not is_const(r):
            raise Undecided("array store offset")
        r = cval(r)
        idx = fdiv_int(sub(off, I(r)), a.stride)
        parts = v.parts if isinstance(v, Pun) else [(0, size, v)]
        for (b, s, x) in parts:
            if r + b not in a.fields and str(a.name).startswith("mem") or (callable(a.name) and r + b not in a.fields):
                a.fields = dict(a.fields)
                a.fields[r + b] = (s, x.sort if isinstance(x, E) else "R")
            if r + b not in a.fields or a.fields[r + b][0] != s:
                raise Undecided("array store layout")
            if x is UNDEF:
                x = fresh("uninit", a.fields[r + b][1])
            if isinstance(x, E) and x.sort != a.fields[r + b][1]:
                if x.op == "poly" and is_const(x):
                    x = const(cval(x), a.fields[r + b][1])
                else:
                    raise Undecided("array store sort")
            a.writes = a.writes + ((r + b, idx, x),)

    def clear(self, o, off, size):
        hit = [(b, s, v) for b, (s, v) in o.cells.items() if b < off + size and b + s > off]
        for b, s, v in hit:
            del o.cells[b]
            if b < off:
                try:
                    o.cells[b] = (off - b, self.slice(v, 0, off - b))
                except Undecided:
                    pass
            if b + s > off + size:
                try:
                    o.cells[off + size] = (b + s - off - size, self.slice(v, off + size - b, b + s - off - size))
                except Undecided:
                    pass

    def memcpy(self, st, f, d, s, n):
        if isinstance(n, E):
            if not is_const(n):
                h = self.hooks.get("memcpy_sym")
                if h and h(self, st, f, d, s, n):
                    return
                raise Undecided("memcpy of symbolic length")
            n = cval(n)
        if n == 0:
            return
        if not self.bounds(st, s, n, "memcpy-load", f) or not self.bounds(st, d, n, "memcpy-store", f):
            raise PathEnd()
        so = st.mem[s.obj]
        if so.hook is not None:
            so.hook(self, st, s.obj, s.off, n)
            so = st.mem[s.obj]
        if so.arr is not None:
            a = so.arr
            parts = []
            b = 0
            while b < n:
                off = addoff(s.off, b)
                r = cval(fmod_int(off if isinstance(off, E) else I(off), a.stride)) if is_const(fmod_int(off if isinstance(off, E) else I(off), a.stride)) else None
                if r is None or r not in a.fields:
                    raise Undecided("memcpy array")
                sz = a.fields[r][0]
                parts.append((b, sz, self.arr_load(st, so, Ptr(s.obj, off), sz)))
                b += sz
        elif isinstance(s.off, E):
            cands = sorted(so.cells)
            opts = [off for off in cands if self.feasible(st, eq(s.off, I(off)))]
            if len(opts) == 1 and self.entails(st, eq(s.off, I(opts[0]))):
                return self.memcpy(st, f, d, Ptr(s.obj, opts[0]), n)
            if 1 <= len(opts) <= 16:
                raise ForkOn([eq(s.off, I(o)) for o in opts])
            raise Undecided("memcpy symbolic source")
        else:
            parts = []
            for b, (sz, v) in sorted(so.cells.items()):
                if b >= s.off and b + sz <= s.off + n:
                    parts.append((b - s.off, sz, v))
                elif b < s.off + n and b + sz > s.off:
                    lo, hi = max(b, s.off), min(b + sz, s.off + n)
                    parts.append((lo - s.off, hi - lo, self.slice(v, lo - b, hi - lo)))
        do = self.wobj(st, d.obj)
        if do.hook is not None:
            do.hook(self, st, d.obj, d.off, n)
            do = self.wobj(st, d.obj)
        if do.arr is not None:
            for (b, sz, v) in parts:
                self.arr_store(st, do, Ptr(d.obj, addoff(d.off, b)), sz, v)
            return
        if isinstance(d.off, E):
            opts = [off for off in sorted(do.cells) if self.feasible(st, eq(d.off, I(off)))]
            if len(opts) == 1 and self.entails(st, eq(d.off, I(opts[0]))):
                return self.memcpy(st, f, Ptr(d.obj, opts[0]), s, n)
            if 1 <= len(opts) <= 16:
                raise ForkOn([eq(d.off, I(o)) for o in opts])
            raise Undecided("memcpy symbolic destination")
        self.clear(do, d.off, n)
        for (b, sz, v) in parts:
            do.cells[d.off + b] = (sz, v)

    def memset(self, st, f, d, byte, n):
        if isinstance(n, E):
            if not is_const(n):
                raise Undecided("memset symbolic")
            n = cval(n)
        if n == 0:
            return
        if not self.bounds(st, d, n, "memset", f):
            raise PathEnd()
        o = self.wobj(st, d.obj)
        if o.hook is not None:
            o.hook(self, st, d.obj, d.off, n)
            o = self.wobj(st, d.obj)
        bv = cval(byte) & 0xff if is_const(byte) else None
        if bv is None or isinstance(d.off, E):
            raise Undecided("memset")
        if o.arr is not None:
            raise Undecided("memset array")
        self.clear(o, d.off, n)
        b = d.off
        end = d.off + n
        while b < end:
            s = 8 if b % 8 == 0 and b + 8 <= end else 4 if b % 4 == 0 and b + 4 <= end else 1
            # use 4-byte granularity so that float fields can be overwritten individually
            s = min(s, 4) if bv == 0 else s
            val = int.from_bytes(bytes([bv]) * s, "little", signed=True)
            o.cells[b] = (s, I(val))
            b += s

    def gep(self, st, ty, vs):
        p = vs[0]
        if not isinstance(p, Ptr):
            if isinstance(p, E):
                p = self.int2ptr(p)
            elif p is UNDEF:
                return UNDEF
            else:
                raise Undecided("gep base %r" % (p,))
        off = p.off
        cur = None
        for j, ix in enumerate(vs[1:]):
            if j == 0:
                off = addoff(off, mulk(ix, ty.size))
                cur = ty
                continue
            if cur.kind == "struct":
                c = cval(ix)
                off = addoff(off, cur.offs[c])
                cur = cur.elems[c]
            else:
                off = addoff(off, mulk(ix, cur.elems[0].size))
                cur = cur.elems[0]
        return Ptr(p.obj, off)


def mulk(ix, k):
    if isinstance(ix, E):
        if is_const(ix):
            return cval(ix) * k
        return scale(ix, k)
    return ix * k


def addoff(a, b):
    if isinstance(a, E) or isinstance(b, E):
        r = add(a if isinstance(a, E) else I(a), b if isinstance(b, E) else I(b))
        return cval(r) if is_const(r) else r
    return a + b


class PathEnd(Exception):
    pass


class ForkOn(Exception):
    """re-execute the current instruction once per alternative (mutually exclusive, exhaustive conditions)"""

    def __init__(s, conds):
        s.conds = conds


_fpc = {}


def c_has_fp(e):
    r = _fpc.get(e)
    if r is None:
        r = any(x.sort in ("F", "D") for x in walk([e]))
        _fpc[e] = r
    return r


_nl = {}


def is_nonlinear(e):
    r = _nl.get(e)
    if r is None:
        r = False
        for x in walk([e]):
            if x.op == "poly":
                for m, _ in x.args:
                    if sum(p for _, p in m) > 1:
                        r = True
            if x.op in ("sqrt", "inv", "sin", "cos"):
                r = True
        _nl[e] = r
    return r


def zval(v):
    if z3.is_true(v) or z3.is_false(v):
        return bool(z3.is_true(v))
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    if z3.is_fp(v):
        if z3.is_fp_value(v):
            if v.isNaN():
                return float("nan")
            if v.isInf():
                return -math.inf if v.isNegative() else math.inf
            import struct
            bv = z3.simplify(z3.fpToIEEEBV(v)).as_long()
            if v.sort() == z3.Float32():
                return struct.unpack("f", struct.pack("I", bv))[0]
            return struct.unpack("d", struct.pack("Q", bv))[0]
    return None
