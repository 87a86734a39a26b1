"""Built-in functions: the harness API (vp_*), LLVM intrinsics, and the C/C++ runtime."""

import math
import re

import z3

from val import *
import sym


class Ret:
    def __init__(self, v):
        self.v = v


class Throw:
    def __init__(self, tinfo, obj=NULL):
        self.tinfo = tinfo
        self.obj = obj


NORET = object()
TABLE = {}
PREFIX = []


def reg(*names):
    def d(fn):
        for n in names:
            TABLE[n] = fn
        return fn
    return d


def pre(*rx):
    def d(fn):
        for r in rx:
            PREFIX.append((re.compile(r), fn))
        return fn
    return d


_cache = {}


def lookup(name):
    h = TABLE.get(name)
    if h is not None:
        return h
    if name in _cache:
        return _cache[name]
    h = None
    for rx, fn in PREFIX:
        if rx.match(name):
            h = fn
            break
    _cache[name] = h
    return h


def cstr(e, st, p, limit=4096):
    """concrete NUL terminated string at p, or None"""
    if not isinstance(p, Ptr) or p.r == 0 or isinstance(p.r, tuple) or not isc(p.o):
        return None
    c = e.content(st, p.r)
    if not isinstance(c, sym.Cells):
        return None
    out = bytearray()
    i = p.o
    size = e.regions[p.r].size
    while len(out) < limit:
        if isc(size) and i >= size:
            return None
        cell = c.d.get(i)
        if cell is None:
            if c.default != 'zero':
                found = None
                for back in range(1, 16):
                    q = c.d.get(i - back)
                    if q is not None:
                        if q[0] > back and isc(q[1]):
                            found = (q[1] >> (8 * back)) & 255
                        break
                if found is None:
                    return None
                b = found
            else:
                b = None
                for back in range(1, 16):
                    q = c.d.get(i - back)
                    if q is not None:
                        if q[0] > back:
                            if not isc(q[1]):
                                return None
                            b = (q[1] >> (8 * back)) & 255
                        break
                if b is None:
                    b = 0
        else:
            if not isc(cell[1]):
                return None
            b = cell[1] & 255
        if b == 0:
            return bytes(out)
        out.append(b)
        i += 1
    return None


def name_of(e, st, p, default):
    s = cstr(e, st, p)
    return s.decode('latin1') if s is not None else default


# ------------------------------------------------------------------ harness API
def _nondet(w, kind):
    def h(e, st, f, ins, name, args):
        nm = name_of(e, st, args[0], 'x') if args else 'x'
        v = e.fresh(w, nm)
        st.log.append((kind, nm, v, None))
        return Ret(v)
    return h


for _n, _w in (('u8', 8), ('u16', 16), ('u32', 32), ('u64', 64), ('i8', 8), ('i16', 16), ('i32', 32), ('i64', 64),
               ('f64', 64)):
    TABLE['vp_' + _n] = _nondet(_w, _n)


@reg('vp_bool')
def vp_bool(e, st, f, ins, name, args):
    nm = name_of(e, st, args[0], 'b')
    v = e.fresh(1, nm)
    st.log.append(('bool', nm, v, None))
    return Ret(v)


@reg('vp_range')
def vp_range(e, st, f, ins, name, args):
    nm = name_of(e, st, args[0], 'r')
    lo, hi = args[1], args[2]
    v = e.fresh(64, nm)
    st.log.append(('range', nm, v, None))
    e.assume(st, z3.ULE(bv(lo, 64), v))
    e.assume(st, z3.ULE(v, bv(hi, 64)))
    return Ret(v)


@reg('vp_srange')
def vp_srange(e, st, f, ins, name, args):
    nm = name_of(e, st, args[0], 'r')
    lo, hi = args[1], args[2]
    v = e.fresh(64, nm)
    st.log.append(('srange', nm, v, None))
    e.assume(st, bv(lo, 64) <= v)
    e.assume(st, v <= bv(hi, 64))
    return Ret(v)


@reg('vp_ghost_u64')
def vp_ghost(e, st, f, ins, name, args):
    """havoc value inside a contract stub: not part of the replayed input"""
    return Ret(e.fresh(64, 'ghost'))


@reg('vp_ghost_bool')
def vp_ghostb(e, st, f, ins, name, args):
    return Ret(e.fresh(1, 'ghost'))


@reg('vp_buf')
def vp_buf(e, st, f, ins, name, args):
    """buffer of args[1] bytes with arbitrary contents"""
    nm = name_of(e, st, args[0], 'buf')
    n = args[1]
    a = z3.Const('%s!%d' % (nm, next(e.fresh_n)), sym.ARR)
    n2 = simp(n) if not isc(n) else n
    r = e.new_region(st, nm, n2, 'heap', sym.Arr(a))
    st.log.append(('buf', nm, (a, n2), None))
    return Ret(Ptr(r.id, 0))


@reg('vp_words', 'vp_records')
def vp_words(e, st, f, ins, name, args):
    """args[1] 8-byte words (or records of args[2] bytes) with arbitrary contents"""
    nm = name_of(e, st, args[0], 'words')
    w = args[2] if name == 'vp_records' else 8
    a = z3.Const('%s!%d' % (nm, next(e.fresh_n)), sym.sort_of(w))
    n = simp(args[1]) if not isc(args[1]) else args[1]
    n2 = norm(bv(n, 64) * w) if not isc(n) else n * w
    r = e.new_region(st, nm, n2, 'heap', sym.Arr(a, w))
    r.count = n
    st.log.append(('words', nm, (a, n, w), None))
    return Ret(Ptr(r.id, 0))


@reg('vp_bytes')
def vp_bytes(e, st, f, ins, name, args):
    """small buffer of concrete size, each byte its own symbol"""
    nm = name_of(e, st, args[0], 'bytes')
    n = simp(args[1])
    if not isc(n):
        raise Unsupported('vp_bytes needs a constant size')
    cells = {}
    vs = []
    for i in range(n):
        v = e.fresh(8, nm)
        vs.append(v)
        cells[i] = (1, v)
    r = e.new_region(st, nm, n, 'heap', sym.Cells(cells, 'undef'))
    st.log.append(('bytes', nm, vs, None))
    return Ret(Ptr(r.id, 0))


@reg('vp_alloc')
def vp_alloc(e, st, f, ins, name, args):
    """uninitialised byte buffer (symbolic offsets expected)"""
    nm = name_of(e, st, args[0], 'mem')
    n = args[1]
    n2 = simp(n) if not isc(n) else n
    a = z3.Const('%s!%d' % (nm, next(e.fresh_n)), sym.ARR)
    r = e.new_region(st, nm, n2, 'heap', sym.Arr(a))
    return Ret(Ptr(r.id, 0))


@reg('vp_obj')
def vp_obj(e, st, f, ins, name, args):
    """zeroed object memory of constant size (may hold pointers)"""
    nm = name_of(e, st, args[0], 'obj')
    n = simp(args[1])
    if not isc(n):
        raise Unsupported('vp_obj needs a constant size')
    r = e.new_region(st, nm, n, 'heap', sym.Cells({}, 'zero'))
    return Ret(Ptr(r.id, 0))


@reg('vp_free')
def vp_free(e, st, f, ins, name, args):
    return None


@reg('vp_symbolic')
def vp_symbolic(e, st, f, ins, name, args):
    return Ret(1)


@reg('vp_assume')
def vp_assume(e, st, f, ins, name, args):
    e.assume(st, bool_of(args[0]))
    return None


@reg('vp_assert')
def vp_assert(e, st, f, ins, name, args):
    e.check(st, bool_of(args[0]), 'ensures', name_of(e, st, args[1], 'assert'))
    return None


@reg('vp_requires')
def vp_requires(e, st, f, ins, name, args):
    e.check(st, bool_of(args[0]), 'requires', name_of(e, st, args[1], 'requires'))
    return None


@reg('vp_cover')
def vp_cover(e, st, f, ins, name, args):
    if e.dry:
        return None
    nm = name_of(e, st, args[0], 'cover')
    if not e.covers.get(nm):
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(*st.pc)
        s.add(*e.facts(st.pc))
        e.covers[nm] = s.check() == z3.sat
    return None


@reg('vp_same_object')
def vp_same(e, st, f, ins, name, args):
    a, b = args
    return Ret(1 if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r else 0)


@reg('vp_offset')
def vp_offset(e, st, f, ins, name, args):
    """byte offset of a pointer inside its object"""
    p = args[0]
    if not isinstance(p, Ptr):
        raise Unsupported('vp_offset of %r' % p)
    return Ret(p.o)


@reg('vp_size')
def vp_size(e, st, f, ins, name, args):
    p = args[0]
    if not isinstance(p, Ptr) or p.r == 0 or isinstance(p.r, tuple):
        return Ret(0)
    return Ret(e.regions[p.r].size)


@reg('vp_havoc')
def vp_havoc(e, st, f, ins, name, args):
    """bytes [p,p+n) become arbitrary (stub frames); n constant"""
    p, n = args
    n = simp(n)
    if isc(n):
        p = e.deref(st, p, n, True)
        for k in range(n):
            e.store_raw(st, p.r, add(p.o, k, 64), 1, e.fresh(8, 'havoc'))
        return None
    p = e.range_ok(st, p, n, True)
    if p is None:
        return None
    da = e.to_arr(st, p.r).a
    fr = z3.Const('havoc!%d' % next(e.fresh_n), sym.ARR)
    if e.wlog is not None:
        e.wlog.append((p.r, None, None))
    i = z3.BitVec('cpy!i', 64)
    st.mem[p.r] = sym.Arr(z3.Lambda([i], z3.If(z3.ULT(i - bv(p.o, 64), bv(n, 64)), z3.Select(fr, i), z3.Select(da, i))))
    st.own.add(p.r)
    return None


@reg('vp_split')
def vp_split(e, st, f, ins, name, args):
    """case split on a small value: returns it as a constant on each branch"""
    v, lo, hi = args
    if isc(v):
        return Ret(v)
    v = simp(v)
    if isc(v):
        return Ret(v)
    done = f.regs.get('$split:' + (ins.dst or ''))
    if done is not None:
        f.regs.pop('$split:' + ins.dst)
        return Ret(done)
    out = []
    for k in range(lo, hi + 1):
        c = v == z3.BitVecVal(k, 64)
        if e.feasible(st, c):
            s = st.fork()
            s.model = None
            s.pc.append(c)
            s.frames[-1].regs['$split:' + ins.dst] = k
            s.tag = st.tag + (k,)
            sh = e.spec.get('shard')
            if sh and len(s.tag) == sh[2] and sum(s.tag) % sh[1] != sh[0]:
                continue
            out.append(s)
    oth = z3.Or(z3.ULT(v, z3.BitVecVal(lo, 64)), z3.UGT(v, z3.BitVecVal(hi, 64)))
    if e.feasible(st, oth):
        raise Unsupported('vp_split range too small')
    raise sym.Fork(out)


@reg('vp_unreachable')
def vp_unreach(e, st, f, ins, name, args):
    raise sym.Dead()


# ------------------------------------------------------------------ LLVM
@pre(r'llvm\.memcpy\.', r'llvm\.memmove\.')
def i_memcpy(e, st, f, ins, name, args):
    e.memcpy(st, args[0], args[1], args[2])
    return None


@pre(r'llvm\.memset\.')
def i_memset(e, st, f, ins, name, args):
    e.memset(st, args[0], args[1], args[2])
    return None


@reg('memcpy', 'memmove')
def i_memcpy2(e, st, f, ins, name, args):
    e.memcpy(st, args[0], args[1], args[2])
    return Ret(args[0])


@reg('memset')
def i_memset2(e, st, f, ins, name, args):
    e.memset(st, args[0], extract(args[1], 7, 0, 32), args[2])
    return Ret(args[0])


@pre(r'llvm\.bswap\.i')
def i_bswap(e, st, f, ins, name, args):
    w = int(name.rsplit('i', 1)[1])
    n = w // 8
    return Ret(concat([(extract(args[0], 8 * k + 7, 8 * k, w), 8) for k in range(n)]))


@pre(r'llvm\.ctlz\.i', r'llvm\.cttz\.i')
def i_clz(e, st, f, ins, name, args):
    w = int(name.rsplit('i', 1)[1])
    lead = 'ctlz' in name
    v = args[0]
    if isc(v):
        if v == 0:
            return Ret(w)
        return Ret(w - v.bit_length() if lead else (v & -v).bit_length() - 1)
    zp = bool_of(args[1])
    r = z3.BitVecVal(w, w)
    rng = range(w) if lead else range(w - 1, -1, -1)
    for i in rng:
        r = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(w - 1 - i if lead else i, w), r)
    if zp is True:
        e.check(st, v != 0, 'safety', 'count zeros of zero')
    return Ret(r)


@pre(r'llvm\.ctpop\.i')
def i_pop(e, st, f, ins, name, args):
    w = int(name.rsplit('i', 1)[1])
    v = args[0]
    if isc(v):
        return Ret(bin(v).count('1'))
    r = z3.BitVecVal(0, w)
    for i in range(w):
        r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, v))
    return Ret(r)


@pre(r'llvm\.(u|s)(max|min)\.i')
def i_minmax(e, st, f, ins, name, args):
    m = re.match(r'llvm\.(u|s)(max|min)\.i(\d+)', name)
    w = int(m.group(3))
    a, b = args
    c = e.icmp(st, m.group(1) + ('gt' if m.group(2) == 'max' else 'lt'), ('i', w), a, b)
    if type(c) is bool:
        return Ret(a if c else b)
    return Ret(norm_ite(c, a, b, w))


@pre(r'llvm\.abs\.i')
def i_abs(e, st, f, ins, name, args):
    w = int(name.rsplit('i', 1)[1])
    a = args[0]
    if isc(a):
        return Ret(abs(sgn(a, w)) & M(w))
    return Ret(z3.If(a < 0, -a, a))


@pre(r'llvm\.fabs\.f', )
def i_fabs(e, st, f, ins, name, args):
    w = 64 if name.endswith('64') else 32
    a = args[0]
    return Ret(a & M(w - 1) if isc(a) else a & z3.BitVecVal(M(w - 1), w))


@reg('fabs')
def i_fabs2(e, st, f, ins, name, args):
    a = args[0]
    return Ret(a & M(63) if isc(a) else a & z3.BitVecVal(M(63), 64))


def uf1(nm, rw=64, pyf=None, exact=None):
    def h(e, st, f, ins, name, args):
        a = args[0]
        if isc(a) and pyf is not None:
            x = f2py(a, 64)
            if x == x and abs(x) != float('inf'):
                try:
                    r = pyf(x)
                    return Ret(py2f(r, 64) if rw == 'f' else int(r) & M(64))
                except (ValueError, OverflowError):
                    pass
        a = bv(a, 64)
        if e.fpmode == 'exact' and exact is not None:
            return Ret(exact(a))
        return Ret(e.uf(nm, a.sort(), z3.BitVecSort(64))(a))
    return h


def c_round(x):
    return math.floor(x + 0.5) if x >= 0 else math.ceil(x - 0.5)


def _fpround(rm):
    return lambda a: z3.fpToIEEEBV(z3.fpRoundToIntegral(rm, z3.fpBVToFP(a, z3.Float64())))


for _nm, _py, _rm in (('floor', math.floor, z3.RTN()), ('ceil', math.ceil, z3.RTP()), ('trunc', math.trunc, z3.RTZ()),
                      ('round', c_round, z3.RNA())):
    h_ = uf1(_nm, 'f', (lambda g: lambda x: float(g(x)))(_py), _fpround(_rm))
    TABLE[_nm] = h_
    TABLE['llvm.%s.f64' % _nm] = h_

@reg('nan')
def libm_nan(e, st, f, ins, name, args):
    return Ret(0x7ff8000000000000)


TABLE['sqrt'] = TABLE['llvm.sqrt.f64'] = uf1('sqrt', 'f', math.sqrt)
TABLE['llround'] = TABLE['lround'] = TABLE['llvm.llround.i64.f64'] = TABLE['llvm.lround.i64.f64'] = uf1('llround', 64, c_round)


@pre(r'llvm\.is\.fpclass\.f64')
def i_fpclass(e, st, f, ins, name, args):
    a = bv(args[0], 64)
    mask = args[1]
    t = []
    m = a & z3.BitVecVal(M(63), 64)
    inf = z3.BitVecVal(0x7ff << 52, 64)
    neg = z3.Extract(63, 63, a) == 1
    q = z3.Extract(51, 51, a) == 1
    nan = z3.UGT(m, inf)
    if mask & 1:
        t.append(z3.And(nan, z3.Not(q)))
    if mask & 2:
        t.append(z3.And(nan, q))
    if mask & 4:
        t.append(z3.And(m == inf, neg))
    if mask & 512:
        t.append(z3.And(m == inf, z3.Not(neg)))
    if mask & ~(1 | 2 | 4 | 512):
        sub = z3.And(m != 0, z3.ULT(m, z3.BitVecVal(1 << 52, 64)))
        nor = z3.And(z3.UGE(m, z3.BitVecVal(1 << 52, 64)), z3.ULT(m, inf))
        for bit, c in ((8, z3.And(nor, neg)), (16, z3.And(sub, neg)), (32, z3.And(m == 0, neg)),
                       (64, z3.And(m == 0, z3.Not(neg))), (128, z3.And(sub, z3.Not(neg))),
                       (256, z3.And(nor, z3.Not(neg)))):
            if mask & bit:
                t.append(c)
    return Ret(simp(z3.Or(*t)))


@reg('pow', 'llvm.pow.f64')
def i_pow(e, st, f, ins, name, args):
    a, b = args
    if isc(a) and isc(b):
        return Ret(py2f(math.pow(f2py(a, 64), f2py(b, 64)), 64))
    a, b = bv(a, 64), bv(b, 64)
    return Ret(e.uf('pow', a.sort(), a.sort(), a.sort())(a, b))


@pre(r'llvm\.fmuladd\.f64', )
def i_fmuladd(e, st, f, ins, name, args):
    return Ret(e.fbin('fadd', e.fbin('fmul', args[0], args[1], 64, st), args[2], 64, st))


@reg('modf')
def i_modf(e, st, f, ins, name, args):
    a, p = args
    if isc(a):
        fr, it = math.modf(f2py(a, 64))
        e.store(st, p, py2f(it, 64), ('f', 64))
        return Ret(py2f(fr, 64))
    a = bv(a, 64)
    if e.fpmode == 'whole':
        i = e.whole(a)
        if i is not None and e.small(st, i, 53):
            e.store(st, p, a, ('f', 64))
            return Ret(z3.If(i < 0, z3.BitVecVal(1 << 63, 64), z3.BitVecVal(0, 64)))
    e.store(st, p, e.uf('modf_i', a.sort(), a.sort())(a), ('f', 64))
    return Ret(e.uf('modf_f', a.sort(), a.sort())(a))


@reg('labs', 'llabs')
def i_labs(e, st, f, ins, name, args):
    a = args[0]
    if isc(a):
        return Ret(abs(sgn(a, 64)) & M(64))
    return Ret(z3.If(a < 0, -a, a))


@reg('abs')
def i_abs32(e, st, f, ins, name, args):
    a = args[0]
    if isc(a):
        return Ret(abs(sgn(a, 32)) & M(32))
    return Ret(z3.If(a < 0, -a, a))


@pre(r'llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i')
def i_ovf(e, st, f, ins, name, args):
    m = re.match(r'llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)', name)
    w = int(m.group(3))
    sg = m.group(1) == 's'
    a, b = args
    op = m.group(2)
    r = e.binop(st, op, ('i', w), a, b)
    if isc(a) and isc(b):
        x, y = (sgn(a, w), sgn(b, w)) if sg else (a, b)
        z = x + y if op == 'add' else x - y if op == 'sub' else x * y
        o = not (-(1 << (w - 1)) <= z < (1 << (w - 1))) if sg else not (0 <= z <= M(w))
        return Ret(Agg([r, int(o)]))
    x, y = bv(a, w), bv(b, w)
    if op == 'add':
        ok = z3.And(z3.BVAddNoOverflow(x, y, sg), z3.BVAddNoUnderflow(x, y) if sg else True)
    elif op == 'sub':
        ok = z3.And(z3.BVSubNoUnderflow(x, y, sg), z3.BVSubNoOverflow(x, y) if sg else True)
    else:
        ok = z3.And(z3.BVMulNoOverflow(x, y, sg), z3.BVMulNoUnderflow(x, y) if sg else True)
    return Ret(Agg([r, simp(z3.Not(ok))]))


@pre(r'llvm\.expect\.')
def i_expect(e, st, f, ins, name, args):
    return Ret(args[0])


@pre(r'llvm\.objectsize\.')
def i_objsize(e, st, f, ins, name, args):
    return Ret(M(64))


@pre(r'llvm\.trap', r'^abort$', r'^_ZSt9terminatev$', r'^__assert_fail$', r'^exit$', r'^_exit$')
def i_trap(e, st, f, ins, name, args):
    e.check(st, False, 'safety', 'call of ' + name)
    raise sym.Dead()


@reg('llvm.eh.typeid.for', 'llvm.eh.typeid.for.p0')
def i_typeid(e, st, f, ins, name, args):
    p = args[0]
    if p.r == 0:
        return Ret(e.typeid(None))
    return Ret(e.typeid(e.regions[p.r].name))


@pre(r'llvm\.va_(start|end|copy)', r'llvm\.prefetch', r'llvm\.donothing', r'llvm\.invariant')
def i_nop(e, st, f, ins, name, args):
    return None


@pre(r'llvm\.threadlocal\.address')
def i_tls(e, st, f, ins, name, args):
    return Ret(args[0])


# ------------------------------------------------------------------ heap
@reg('malloc', '_Znwm', '_Znam')
def i_malloc(e, st, f, ins, name, args):
    n = args[0]
    if not isc(n):
        n = simp(n)
    r = e.new_region(st, 'heap', n, 'heap')
    return Ret(Ptr(r.id, 0))


@reg('aligned_alloc', 'memalign')
def i_aalloc(e, st, f, ins, name, args):
    n = args[1]
    if not isc(n):
        n = simp(n)
    r = e.new_region(st, 'heap', n, 'heap')
    return Ret(Ptr(r.id, 0))


@reg('calloc')
def i_calloc(e, st, f, ins, name, args):
    n = simp(mul(args[0], args[1], 64))
    if isc(n):
        r = e.new_region(st, 'heap', n, 'heap', sym.Cells({}, 'zero'))
    else:
        r = e.new_region(st, 'heap', n, 'heap', sym.Arr(z3.K(sym.A64, z3.BitVecVal(0, 8))))
    return Ret(Ptr(r.id, 0))


@reg('free', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm')
def i_free(e, st, f, ins, name, args):
    p = args[0]
    if isinstance(p, PIte):
        cs = [(c, q) for c, q in e.ptr_cases(st, p) if e.feasible(st, c)]
        if len(cs) > 1:
            out = []
            for c, q in cs:
                s = st.fork()
                s.model = None
                s.pc.append(zb(c))
                out.append(s)
            raise sym.Fork(out)
        p = cs[0][1]
    if not isinstance(p, Ptr):
        p = e.int_to_ptr(st, p)
    if p.r == 0:
        if isc(p.o) and p.o == 0:
            return None
        e.check(st, False, 'safety', 'free of a wild pointer')
        return None
    if isinstance(p.r, tuple) or e.regions[p.r].kind != 'heap':
        e.check(st, False, 'safety', 'free of a non-heap object')
        return None
    if e.content(st, p.r) is None:
        e.check(st, False, 'safety', 'double free')
        return None
    o = p.o if isc(p.o) else simp(p.o)
    e.check(st, eq(o, 0, 64), 'safety', 'free of an interior pointer')
    st.mem.pop(p.r, None)
    st.own.discard(p.r)
    return None


@reg('__cxa_allocate_exception')
def i_cxa_alloc(e, st, f, ins, name, args):
    r = e.new_region(st, 'exception', 64, 'heap', sym.Cells({}, 'zero'))
    return Ret(Ptr(r.id, 0))


@reg('__cxa_free_exception')
def i_cxa_free(e, st, f, ins, name, args):
    return None


@reg('__cxa_throw')
def i_throw(e, st, f, ins, name, args):
    t = args[1]
    return Throw(e.regions[t.r].name, args[0])


@reg('__cxa_begin_catch')
def i_begin(e, st, f, ins, name, args):
    st.caught.append(st.exc)
    st.exc = None
    return Ret(args[0])


@reg('__cxa_end_catch')
def i_end(e, st, f, ins, name, args):
    if st.caught:
        st.caught.pop()
    return None


@reg('__cxa_rethrow')
def i_rethrow(e, st, f, ins, name, args):
    x = st.caught[-1]
    return Throw(x[0], x[1])


@reg('__cxa_get_exception_ptr')
def i_excptr(e, st, f, ins, name, args):
    return Ret(args[0])


@reg('__clang_call_terminate')
def i_cct(e, st, f, ins, name, args):
    e.check(st, False, 'safety', 'std::terminate')
    raise sym.Dead()


@pre(r'_ZNSt12out_of_rangeC[12]', r'_ZNSt16invalid_argumentC[12]', r'_ZNSt13runtime_errorC[12]', r'_ZNSt11logic_errorC[12]',
     r'_ZNSt11range_errorC[12]', r'_ZNSt12out_of_rangeD[012]Ev', r'_ZNSt16invalid_argumentD[012]Ev', r'_ZNSt13runtime_errorD[012]Ev',
     r'_ZNSt8ios_base4InitC1', r'__cxa_atexit', r'_ZNSt9exceptionD[012]Ev', r'_ZNSt11range_errorD[012]Ev')
def i_excctor(e, st, f, ins, name, args):
    if name == '__cxa_atexit':
        return Ret(0)
    return None


for _n, _t in (('_ZSt20__throw_length_errorPKc', '_ZTISt12length_error'), ('_ZSt19__throw_logic_errorPKc', '_ZTISt11logic_error'),
               ('_ZSt20__throw_out_of_rangePKc', '_ZTISt12out_of_range'), ('_ZSt24__throw_out_of_range_fmtPKcz', '_ZTISt12out_of_range'),
               ('_ZSt17__throw_bad_allocv', '_ZTISt9bad_alloc'), ('_ZSt28__throw_bad_array_new_lengthv', '_ZTISt9bad_alloc'),
               ('_ZSt24__throw_invalid_argumentPKc', '_ZTISt16invalid_argument'),
               ('_ZSt25__throw_bad_function_callv', '_ZTISt17bad_function_call'),
               ('_ZSt20__throw_system_errori', '_ZTISt12system_error')):
    TABLE[_n] = (lambda t: lambda e, st, f, ins, name, args: Throw(t))(_t)


# one thread only: locks always succeed
@pre(r'^pthread_mutex_', r'^pthread_rwlock_', r'^pthread_spin_', r'^pthread_cond_')
def i_lock(e, st, f, ins, name, args):
    e.opaque_used[name] = e.opaque_used.get(name, 0) + 1
    return Ret(0)


@reg('__cxa_guard_acquire')
def i_guard(e, st, f, ins, name, args):
    v = e.load(st, args[0], ('i', 8))
    c = eq(v, 0, 8)
    if type(c) is bool:
        return Ret(1 if c else 0)
    return Ret(bv(c, 32))


@reg('__cxa_guard_release')
def i_guard2(e, st, f, ins, name, args):
    e.store(st, args[0], 1, ('i', 8))
    return None


# strings: concrete ones are evaluated, others go to the C model linked with the harness
def _model(e, st, ins, name, args):
    m = 'vpm_' + name.lstrip('_')
    if m in e.mod.functions:
        e.stubs_used[name] = m
        e.push(st, m, args, ins)
        return 'called'
    raise Unsupported('no model of %s' % name)


@reg('strlen')
def i_strlen(e, st, f, ins, name, args):
    s = cstr(e, st, args[0])
    if s is not None:
        return Ret(len(s))
    return Called(_model(e, st, ins, name, args))


class Called:
    def __init__(self, x):
        pass


for _n in ('strcmp', 'strncmp', 'memcmp', 'bcmp', 'strchr', 'strrchr', 'memchr', 'rawmemchr', '__rawmemchr', 'strcpy', 'strncpy', 'strcat',
           'strstr', 'strspn', 'strcspn', 'strnlen', 'atoi', 'atol', 'atoll', 'strtoull', 'strtoul', 'strtol', 'isdigit', 'isspace', 'isalpha',
           'tolower', 'toupper', 'strdup', 'strtok', 'strtok_r', 'stpcpy', 'strcasecmp', 'strncasecmp', 'snprintf', 'sprintf', 'strtod', '__isoc99_sscanf',
           'wmemcpy', 'isalnum', 'isxdigit', 'ispunct'):
    def _h(e, st, f, ins, name, args):
        if name in ('strcmp', 'strncmp', 'memcmp', 'bcmp'):
            if name in ('strcmp',):
                a, b = cstr(e, st, args[0]), cstr(e, st, args[1])
                if a is not None and b is not None:
                    return Ret(((a > b) - (a < b)) & M(32))
        return Called(_model(e, st, ins, name, args))
    TABLE[_n] = _h
