"""Models (assumed contracts) of functions outside the repository: the vc_* API, the C++ runtime, libm, libstdc++.
Each handler is h(ctx, st, frame, ins, args) -> value | ("THROW", typeinfo) | ("CALL", fn, args) | ("FORKS", [...])."""
import re, math
from sym import *
import sym
from exe import *

TABLE = {}
RX = []


def ext(*names):
    def d(fn):
        for n in names:
            TABLE[n] = fn
        return fn
    return d


def rx(pat):
    def d(fn):
        RX.append((re.compile(pat), fn))
        return fn
    return d


def lookup(ctx, name):
    h = TABLE.get(name)
    if h is not None:
        return h
    d = ctx.dem.get(name, name)
    for p, fn in RX:
        if p.search(d):
            return fn
    return None


def cstr(ctx, st, p):
    o = st.mem.get(p.obj)
    s = b""
    off = p.off
    while o is not None and off in o.cells:
        v = cval(o.cells[off][1])
        if v == 0:
            break
        s += bytes([v & 255])
        off += 1
    return s.decode(errors="replace")


# ---------------------------------------------------------------- vc API
def newfloat(ctx, st, kind):
    e = fresh("v", ctx.floatsort)
    st.nd.append((kind, e))
    if ctx.mode != "real":
        ctx.assume(st, not_(mk("fp.isnan", (e,), "B")))
        ctx.assume(st, not_(mk("fp.isinf", (e,), "B")))
    return e


@ext("vc_any", "vc_real")
def _any(ctx, st, f, ins, a):
    return newfloat(ctx, st, "r")


@ext("vc_num")
def _num(ctx, st, f, ins, a):
    e = newfloat(ctx, st, "m")
    ctx.native_range[e] = (a[0], a[1])  # used only to look for counterexamples that the native run accepts
    return e


@ext("vc_range")
def _range(ctx, st, f, ins, a):
    e = newfloat(ctx, st, "g")
    ctx.assume(st, ctx.fcmp("oge", e, a[0]))
    ctx.assume(st, ctx.fcmp("ole", e, a[1]))
    return e


@ext("vc_int")
def _int(ctx, st, f, ins, a):
    e = fresh("i", "I")
    st.nd.append(("i", e))
    ctx.assume(st, le(a[0], e))
    ctx.assume(st, le(e, a[1]))
    return e


@ext("vc_size")
def _size(ctx, st, f, ins, a):
    e = fresh("n", "I")
    st.nd.append(("n", e))
    ctx.assume(st, le(a[0], e))
    ctx.assume(st, le(I(0), e))
    return e


@ext("vc_bool")
def _bool(ctx, st, f, ins, a):
    e = fresh("b", "B")
    st.nd.append(("b", e))
    return e


@ext("vc_floats")
def _floats(ctx, st, f, ins, a):
    n, per = a[0], cval(a[1])
    i = ctx.newobj(st, scale(n, 4 * per), "input array", "heap")
    o = st.mem[i]
    o.arr = SymArr("arr%d" % i, n, 4 * per, {4 * j: (4, ctx.floatsort) for j in range(per)})
    st.nd.append(("arr", (o.arr.name, n, per, ctx.floatsort)))
    return Ptr(i, 0)


@ext("vc_assume")
def _assume(ctx, st, f, ins, a):
    c = ctx.tobool(a[0])
    if not ctx.feasible(st, c):
        raise PathEnd()
    ctx.assume(st, c)
    return None


@ext("vc_assert_at")
def _assert(ctx, st, f, ins, a):
    ctx.obligation(st, cstr(ctx, st, a[1]), ctx.tobool(a[0]), f.fn.name)
    return None


@ext("vc_eq_at")
def _eq(ctx, st, f, ins, a):
    x, y = a[0], a[1]
    ctx.obligation(st, cstr(ctx, st, a[3]), ctx.fcmp("oeq", x, y), f.fn.name)
    return None


@ext("vc_le_at")
def _le(ctx, st, f, ins, a):
    ctx.obligation(st, cstr(ctx, st, a[3]), ctx.fcmp("ole", a[0], a[1]), f.fn.name)
    return None


@ext("vc_cover_at")
def _cover(ctx, st, f, ins, a):
    n = cstr(ctx, st, a[0])
    st.covers.add(n)
    ctx.cover_all.add(n)
    return None


@ext("vc_proof")
def _proof(ctx, st, f, ins, a):
    return TRUE


# ---------------------------------------------------------------- memory management
@ext("_Znwm", "_Znam", "malloc", "_ZnwmSt11align_val_t", "_ZnwmRKSt9nothrow_t")
def _new(ctx, st, f, ins, a):
    n = ctx.toint(a[0])
    return Ptr(ctx.newobj(st, cval(n) if is_const(n) else n, "heap block", "heap"), 0)


@ext("_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "free", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t")
def _del(ctx, st, f, ins, a):
    p = a[0]
    if p is UNDEF:
        ctx.obligation(st, "memory-safety", FALSE, "delete of an uninitialised pointer")
        raise PathEnd()
    p = ctx.int2ptr(p) if isinstance(p, E) else p
    if p.obj == 0:
        return None
    o = ctx.wobj(st, p.obj)
    if not o.alive or o.kind != "heap" or (isinstance(p.off, int) and p.off != 0):
        ctx.obligation(st, "memory-safety", FALSE, "invalid or double delete of %s" % o.name)
        raise PathEnd()
    o.alive = False
    return None


@ext("memcpy", "memmove")
def _memcpy(ctx, st, f, ins, a):
    ctx.memcpy(st, f, a[0], a[1], ctx.toint(a[2]))
    return a[0]


@ext("memset")
def _memset(ctx, st, f, ins, a):
    ctx.memset(st, f, a[0], ctx.toint(a[1]), ctx.toint(a[2]))
    return a[0]


@ext("memcmp", "bcmp")
def _memcmp(ctx, st, f, ins, a):
    """comparison of arrays of pointers: only whether they are equal is known, not the order"""
    n = ctx.toint(a[2])
    if not is_const(n) or cval(n) % 8:
        raise Undecided("memcmp of unknown or odd size")
    for p in a[:2]:
        if cval(n) and not ctx.bounds(st, p, cval(n), "memcmp", f):
            raise PathEnd()
    same = TRUE
    for k in range(0, cval(n), 8):
        x, y = fld(ctx, st, a[0], k), fld(ctx, st, a[1], k)
        if not isinstance(x, Ptr) or not isinstance(y, Ptr):
            raise Undecided("memcmp of something else than pointers")
        same = and_(same, ctx.ptrcmp(st, "eq", x, y))
    v = fresh("memcmp", "I")
    ctx.assume(st, not_(eq(v, I(0))))
    return ite(same, I(0), v)


# ---------------------------------------------------------------- libm
def fmap(fn):
    def h(ctx, st, f, ins, a):
        if ctx.mode != "real":
            raise Undecided("libm in fp mode")
        return fn(ctx, st, *a)
    return h


@ext("sqrtf", "sqrt")
def _sqrt(ctx, st, f, ins, a):
    x = a[0]
    if x.sort != "R":
        return mk("fp.sqrt", (x,), x.sort)
    c = lt(x, R(0))
    # a negative argument yields NaN natively: an obligation of its own
    if ctx.feasible(st, c):
        ctx.obligation(st, "sqrt-of-non-negative", not_(c), "sqrt of a negative value")
    return sqrt(x)


TABLE["sinf"] = TABLE["sin"] = fmap(lambda ctx, st, x: trig(x)[0])
TABLE["cosf"] = TABLE["cos"] = fmap(lambda ctx, st, x: trig(x)[1])
TABLE["fabsf"] = TABLE["fabs"] = lambda ctx, st, f, ins, a: ctx.fabs(a[0])


@ext("roundf", "round")
def _round(ctx, st, f, ins, a):
    return mk("round", (a[0],), "R")


@ext("sincosf")
def _sincosf(ctx, st, f, ins, a):
    s, c = trig(a[0])
    ctx.store_raw(st, a[1], 4, s, f)
    ctx.store_raw(st, a[2], 4, c, f)
    return None


# ---------------------------------------------------------------- exceptions
def throw_type(f):
    """typeinfo of the __cxa_throw reached from the current block"""
    seen = set()
    work = [f.blk]
    while work:
        b = work.pop(0)
        if b.idx in seen:
            continue
        seen.add(b.idx)
        for i in b.instrs:
            if i.op in ("call", "invoke"):
                c = i.x[0]
                if isinstance(c, Const) and c.kind == "func" and c.v == "__cxa_throw":
                    t = i.ops[1]
                    return t.v if t.kind == "global" else "?"
        t = b.instrs[-1]
        if t.op == "br":
            work += t.x
        elif t.op == "invoke":
            work.append(t.x[1])
    return "?"


from llvmir import Const


@ext("__cxa_allocate_exception")
def _alloc_exc(ctx, st, f, ins, a):
    return ("THROW", throw_type(f))


@rx(r"^std::__throw_")
def _std_throw(ctx, st, f, ins, a):
    n = ctx.dem[ins.x[0].v]
    if "bad_function_call" in n:
        return ("THROW", "_ZTISt17bad_function_call")
    return ("THROW", "_ZTISt12length_error" if "length" in n else "_ZTISt9bad_alloc" if "bad" in n else "_ZTISt12out_of_range")


@ext("__cxa_begin_catch")
def _begin_catch(ctx, st, f, ins, a):
    st.ghost["caught"] = st.ghost.get("caught", ()) + (st.exc,)
    return NULL


@ext("__cxa_end_catch")
def _end_catch(ctx, st, f, ins, a):
    st.ghost["caught"] = st.ghost.get("caught", ())[:-1]
    return None


@ext("__cxa_rethrow")
def _rethrow(ctx, st, f, ins, a):
    c = st.ghost.get("caught", ())
    return ("THROW", c[-1] if c else "?")


@ext("__cxa_free_exception", "__cxa_atexit", "__cxa_guard_release", "__cxa_guard_abort", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev")
def _nop(ctx, st, f, ins, a):
    return I(0) if ins.ty.kind == "int" else NULL if ins.ty.kind == "ptr" else None


@ext("_ZSt9terminatev", "__clang_call_terminate", "abort", "__cxa_pure_virtual")
def _terminate(ctx, st, f, ins, a):
    ctx.obligation(st, "no-termination", FALSE, "std::terminate/abort reached")
    raise PathEnd()


# ---------------------------------------------------------------- libstdc++ (assumed contracts)
def fld(ctx, st, p, off):
    return ctx.coerce(st, ctx.gather(st, p.obj, addoff(p.off, off), 8, PT) if addoff(p.off, off) not in st.mem[p.obj].cells else st.mem[p.obj].cells[addoff(p.off, off)][1], PT)


class _PT:
    kind = "ptr"
    store = 8
    size = 8


PT = _PT()


def setp(ctx, st, p, off, v):
    ctx.store_raw(st, Ptr(p.obj, addoff(p.off, off)), 8, v)


def list_check(ctx, st, f, *ps):
    for p in ps:
        if not ctx.bounds(st, p, 16, "list node access", f):
            raise PathEnd()


@ext("_ZNSt8__detail15_List_node_base7_M_hookEPS0_")
def _hook(ctx, st, f, ins, a):
    this, pos = a
    list_check(ctx, st, f, this, pos)
    prev = fld(ctx, st, pos, 8)
    list_check(ctx, st, f, prev)
    setp(ctx, st, this, 0, pos)
    setp(ctx, st, this, 8, prev)
    setp(ctx, st, prev, 0, this)
    setp(ctx, st, pos, 8, this)
    return None


@ext("_ZNSt8__detail15_List_node_base9_M_unhookEv")
def _unhook(ctx, st, f, ins, a):
    this = a[0]
    list_check(ctx, st, f, this)
    n, p = fld(ctx, st, this, 0), fld(ctx, st, this, 8)
    list_check(ctx, st, f, n, p)
    setp(ctx, st, p, 0, n)
    setp(ctx, st, n, 8, p)
    return None


@ext("_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_")
def _transfer(ctx, st, f, ins, a):
    this, first, last = a
    if this == last:
        return None
    lp = fld(ctx, st, last, 8)
    fp = fld(ctx, st, first, 8)
    tp = fld(ctx, st, this, 8)
    setp(ctx, st, lp, 0, this)
    setp(ctx, st, fp, 0, last)
    setp(ctx, st, tp, 0, first)
    setp(ctx, st, this, 8, lp)
    setp(ctx, st, last, 8, fp)
    setp(ctx, st, first, 8, tp)
    return None


@rx(r"^(__gthread_active_p|std::__is_single_threaded|__gnu_cxx::__is_single_threaded)")
def _single(ctx, st, f, ins, a):
    return TRUE if ins.ty.bits == 1 else I(1)


@rx(r"^std::chrono::_V2::steady_clock::now\(\)")
def _now(ctx, st, f, ins, a):
    """a monotonic clock"""
    e = fresh("now", "I")
    prev = st.ghost.get("now")
    ctx.assume(st, le(prev if prev is not None else I(0), e))
    st.ghost["now"] = e
    return e
