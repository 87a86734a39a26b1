"""Values of the verifier: Python ints when known, z3 terms otherwise.

Integers and floating point bit patterns are bit vectors, i1 is a Bool, pointers
are (region, offset) pairs."""

import struct
import z3

TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


class Unsupported(Exception):
    """The verifier cannot decide: an error of the check, never a violation."""


class Ptr:
    __slots__ = ('r', 'o')

    def __init__(self, r, o):
        self.r = r      # region id; 0: plain address; ('f', name): function
        self.o = o      # int or BV64

    def __repr__(self):
        return 'Ptr(%r,%s)' % (self.r, self.o)


class PIte:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b


class Agg:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


NULL = Ptr(0, 0)


def M(w):
    return (1 << w) - 1


def isc(v):
    return type(v) is int


def bv(v, w):
    if type(v) is int:
        return z3.BitVecVal(v, w)
    if type(v) is bool:
        return z3.BitVecVal(int(v), w)
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def norm(t):
    """z3 numeral -> int"""
    if z3.is_bv_value(t):
        return t.as_long()
    return t


def simp(t):
    if type(t) is int or type(t) is bool:
        return t
    t = z3.simplify(t)
    if z3.is_bv_value(t):
        return t.as_long()
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return t


def bool_of(v):
    """i1 value -> python bool or z3 Bool"""
    if type(v) is int:
        return bool(v & 1)
    if type(v) is bool:
        return v
    if z3.is_bool(v):
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return v
    return v == z3.BitVecVal(1, v.size())


def zb(v):
    return z3.BoolVal(v) if type(v) is bool else v


def not_(c):
    if type(c) is bool:
        return not c
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


def and_(*cs):
    out = []
    for c in cs:
        if type(c) is bool:
            if not c:
                return False
            continue
        out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def or_(*cs):
    out = []
    for c in cs:
        if type(c) is bool:
            if c:
                return True
            continue
        out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


K_ITE = z3.Z3_OP_ITE
K_CONCAT = z3.Z3_OP_CONCAT
K_EXTRACT = z3.Z3_OP_EXTRACT
K_ADD = z3.Z3_OP_BADD
K_ZEXT = z3.Z3_OP_ZERO_EXT


def kind(t):
    return t.decl().kind()


def as_bool_ite(t):
    """If(b,1,0)-like term -> (b, x, y) with constant x,y"""
    if z3.is_app(t) and kind(t) == K_ITE:
        x, y = t.arg(1), t.arg(2)
        if z3.is_bv_value(x) and z3.is_bv_value(y):
            return t.arg(0), x.as_long(), y.as_long()
    return None


def extract(v, hi, lo, w):
    """bits hi..lo of the w-bit value v"""
    n = hi - lo + 1
    if type(v) is int:
        return (v >> lo) & M(n)
    if type(v) is bool or z3.is_bool(v):
        v = bv(v, w)
        if lo == 0 and hi == 0:
            return v
    if n == w:
        return v
    k = kind(v)
    if k == K_EXTRACT:
        l2 = v.params()[1]
        return extract(v.arg(0), hi + l2, lo + l2, v.arg(0).size())
    if k == K_CONCAT:
        pos = w
        parts = []
        for i in range(v.num_args()):
            a = v.arg(i)
            s = a.size()
            top = pos - 1
            bot = pos - s
            pos = bot
            if bot > hi or top < lo:
                continue
            h = min(hi, top)
            l = max(lo, bot)
            parts.append((extract(norm(a), h - bot, l - bot, s), h - l + 1))
        return concat(parts)
    if k == K_ZEXT:
        a = v.arg(0)
        s = a.size()
        if lo >= s:
            return 0
        if hi < s:
            return extract(a, hi, lo, s)
        return zext(extract(a, s - 1, lo, s), s - lo, n)
    b = as_bool_ite(v)
    if b:
        return norm_ite(b[0], (b[1] >> lo) & M(n), (b[2] >> lo) & M(n), n)
    return z3.Extract(hi, lo, v)


def norm_ite(c, x, y, w):
    if type(c) is bool:
        return x if c else y
    if type(x) is int and type(y) is int and x == y:
        return x
    if type(x) is int or type(y) is int or not x.eq(y):
        return z3.If(c, bv(x, w), bv(y, w))
    return x


def concat(parts):
    """parts: [(value,width)] from most significant"""
    out = []
    for v, w in parts:
        if out:
            pv, pw = out[-1]
            if type(pv) is int and type(v) is int:
                out[-1] = ((pv << w) | v, pw + w)
                continue
            if type(pv) is not int and type(v) is not int and kind(pv) == K_EXTRACT and kind(v) == K_EXTRACT \
                    and pv.arg(0).eq(v.arg(0)):
                h1, l1 = pv.params()
                h2, l2 = v.params()
                if l1 == h2 + 1:
                    out[-1] = (extract(pv.arg(0), h1, l2, pv.arg(0).size()), pw + w)
                    continue
        out.append((v, w))
    if len(out) == 1:
        return out[0][0]
    if type(out[0][0]) is int and out[0][0] == 0:
        rest = concat(out[1:])
        return zext(rest, sum(w for _, w in out[1:]), sum(w for _, w in out))
    return z3.Concat(*[bv(v, w) for v, w in out])


def zext(v, w, n):
    if n == w:
        return v
    if type(v) is int:
        return v
    if type(v) is bool:
        return int(v)
    if z3.is_bool(v):
        return bv(v, n)
    b = as_bool_ite(v)
    if b:
        return norm_ite(b[0], b[1], b[2], n)
    if kind(v) == K_ZEXT:
        return z3.ZeroExt(n - v.arg(0).size(), v.arg(0))
    return z3.ZeroExt(n - w, v)


def sext(v, w, n):
    if n == w:
        return v
    if type(v) is int:
        return sgn(v, w) & M(n)
    if type(v) is bool:
        return M(n) if v else 0
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(M(n), n), z3.BitVecVal(0, n))
    b = as_bool_ite(v)
    if b:
        return norm_ite(b[0], sgn(b[1], w) & M(n), sgn(b[2], w) & M(n), n)
    if kind(v) == K_ZEXT:
        return z3.ZeroExt(n - v.arg(0).size(), v.arg(0))
    return z3.SignExt(n - w, v)


def add(a, b, w):
    if type(a) is int:
        a, b = b, a
    if type(a) is int:
        return (a + b) & M(w)
    if type(b) is int:
        if b == 0:
            return a
        if kind(a) == K_ADD and a.num_args() == 2 and z3.is_bv_value(a.arg(1)):
            return add(a.arg(0), (a.arg(1).as_long() + b) & M(w), w)
        return a + z3.BitVecVal(b, w)
    return a + b


def sub(a, b, w):
    if type(b) is int:
        return add(a, (-b) & M(w), w)
    if type(a) is not int and a.eq(b):
        return 0
    return norm_ring(bv(a, w) - b)


def norm_ring(t):
    return t


def mul(a, b, w):
    if type(a) is int:
        a, b = b, a
    if type(a) is int:
        return (a * b) & M(w)
    if type(b) is int:
        if b == 0:
            return 0
        if b == 1:
            return a
        if b & (b - 1) == 0:
            return a << z3.BitVecVal(b.bit_length() - 1, w)
    return bv(a, w) * bv(b, w)


def eq(a, b, w):
    if type(a) is int and type(b) is int:
        return a == b
    if type(a) is int:
        a, b = b, a
    if type(b) is int and not z3.is_bool(a):
        t = as_bool_ite(a)
        if t:
            c, x, y = t
            if x == b and y == b:
                return True
            if x == b:
                return c
            if y == b:
                return not_(c)
            return False
        if kind(a) == K_ZEXT:
            s = a.arg(0).size()
            if b >> s:
                return False
            return eq(a.arg(0), b, s)
    a2, b2 = bv(a, w), bv(b, w)
    if a2.eq(b2):
        return True
    return a2 == b2


# floating point -----------------------------------------------------------

def f2py(b, w):
    if w == 64:
        return struct.unpack('<d', struct.pack('<Q', b))[0]
    return struct.unpack('<f', struct.pack('<I', b))[0]


def py2f(d, w):
    if w == 64:
        return struct.unpack('<Q', struct.pack('<d', d))[0]
    return struct.unpack('<I', struct.pack('<f', d))[0]


def _fparts(w):
    return (11, 52) if w == 64 else (8, 23)


def fp_isnan(a, w):
    e, m = _fparts(w)
    a = bv(a, w)
    return z3.UGT(a & M(w - 1), z3.BitVecVal(M(e) << m, w))


def fp_zero2(a, b, w):
    return ((bv(a, w) | bv(b, w)) & M(w - 1)) == 0


def fp_eq(a, b, w):
    return z3.And(z3.Not(fp_isnan(a, w)), z3.Not(fp_isnan(b, w)), z3.Or(bv(a, w) == bv(b, w), fp_zero2(a, b, w)))


def fp_lt(a, b, w):
    a_, b_ = bv(a, w), bv(b, w)
    sa = z3.Extract(w - 1, w - 1, a_) == 1
    sb = z3.Extract(w - 1, w - 1, b_) == 1
    return z3.And(z3.Not(fp_isnan(a, w)), z3.Not(fp_isnan(b, w)), z3.Not(fp_zero2(a, b, w)),
                  z3.If(sa, z3.If(sb, z3.UGT(a_, b_), TRUE), z3.If(sb, FALSE, z3.ULT(a_, b_))))


def fp_uno(a, b, w):
    return z3.Or(fp_isnan(a, w), fp_isnan(b, w))


def fcmp(pred, a, b, w):
    if isc(a) and isc(b):
        x, y = f2py(a, w), f2py(b, w)
        un = (x != x) or (y != y)
        r = {'eq': x == y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y, 'ne': (x != y)}
        if pred == 'true':
            return True
        if pred == 'false':
            return False
        if pred == 'ord':
            return not un
        if pred == 'uno':
            return un
        if pred[0] == 'o':
            return (not un) and r[pred[1:]]
        return un or r[pred[1:]]
    if pred == 'true':
        return True
    if pred == 'false':
        return False
    if pred == 'ord':
        return z3.Not(fp_uno(a, b, w))
    if pred == 'uno':
        return fp_uno(a, b, w)
    o = pred[1:]
    if o == 'eq':
        c = fp_eq(a, b, w)
    elif o == 'lt':
        c = fp_lt(a, b, w)
    elif o == 'gt':
        c = fp_lt(b, a, w)
    elif o == 'le':
        c = z3.Or(fp_lt(a, b, w), fp_eq(a, b, w))
    elif o == 'ge':
        c = z3.Or(fp_lt(b, a, w), fp_eq(a, b, w))
    elif o == 'ne':
        c = z3.And(z3.Not(fp_uno(a, b, w)), z3.Not(fp_eq(a, b, w)))
    if pred[0] == 'u':
        return z3.Or(fp_uno(a, b, w), c)
    return c
