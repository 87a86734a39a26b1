"""Verification condition generator over LLVM IR.

A harness function (C++ compiled together with the real sources) is executed
symbolically; every memory access, division, shift, contract assertion, loop
invariant and unwinding bound becomes an obligation sent to an SMT solver.
States that reach the same program point are merged, so the number of
obligations does not depend on the number of paths.  Loops are either unrolled
completely (the unwinding assertion is itself an obligation) or cut at an
invariant."""

import heapq
from math import gcd
import itertools
import re
import time

import z3

from ll import IRError, VOID
from val import *

A64 = z3.BitVecSort(64)
B8 = z3.BitVecSort(8)
ARR = z3.ArraySort(A64, B8)
WARR = z3.ArraySort(z3.BitVecSort(61), A64)
simpv = z3.simplify


def norm_bool(c):
    c = z3.simplify(c)
    return True if z3.is_true(c) else False if z3.is_false(c) else c


def sort_of(w):
    return ARR if w == 1 else WARR if w == 8 else z3.ArraySort(A64, z3.BitVecSort(8 * w))



class Region:
    __slots__ = ('id', 'name', 'size', 'kind', 'const', 'base', 'count')

    def __init__(self, id, name, size, kind, const=False):
        self.id = id
        self.name = name
        self.size = size
        self.kind = kind
        self.const = const
        self.base = None
        self.count = None       # number of records, if made of records


class Cells:
    """byte-addressed memory with known offsets: off -> (nbytes, value)"""
    __slots__ = ('d', 'default')

    def __init__(self, d, default):
        self.d = d
        self.default = default  # 'undef' or 'zero'

    def copy(self):
        return Cells(dict(self.d), self.default)


class Arr:
    """contents as an SMT array: of bytes (w 1), or of 8-byte words (w 8; accesses must have a known offset mod 8)"""
    __slots__ = ('a', 'w')

    def __init__(self, a, w=1):
        self.a = a
        self.w = w


class Frame:
    __slots__ = ('fn', 'block', 'ip', 'regs', 'allocas', 'ret_to', 'iters', 'cut', 'names', 'uid')

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.block = self.block
        f.ip = self.ip
        f.regs = dict(self.regs)
        f.allocas = list(self.allocas)
        f.ret_to = self.ret_to
        f.iters = dict(self.iters)
        f.cut = dict(self.cut)
        f.names = dict(self.names)
        f.uid = self.uid
        return f


class State:
    __slots__ = ('frames', 'mem', 'own', 'pc', 'exc', 'log', 'model', 'ret', 'caught', 'freed', 'tag')

    def fork(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        self.own = set()
        s.own = set()
        s.pc = list(self.pc)
        s.exc = self.exc
        s.log = list(self.log)
        s.model = self.model
        s.ret = self.ret
        s.caught = list(self.caught)
        s.freed = self.freed
        s.tag = self.tag
        return s


class Obligation:
    __slots__ = ('key', 'kind', 'fn', 'loc', 'msg', 'n', 'solved', 'time', 'status', 'backend')

    def __init__(self, key, kind, fn, loc, msg):
        self.key = key
        self.kind = kind
        self.fn = fn
        self.loc = loc
        self.msg = msg
        self.n = 0          # instances
        self.solved = 0     # instances that needed the solver
        self.time = 0.0
        self.status = 'discharged'
        self.backend = {}


class Failure:
    def __init__(self, ob, model, log, trace, state, cond):
        self.ob = ob
        self.model = model
        self.log = log
        self.trace = trace
        self.values = None
        self.cond = cond


class Dead(Exception):
    """path ends"""


class Fork(Exception):
    """continue with these states, each re-executing the current instruction"""

    def __init__(self, states):
        self.states = states


# exception types: derived -> bases
STD_EXC = {
    '_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt16invalid_argument': '_ZTISt11logic_error',
    '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt12domain_error': '_ZTISt11logic_error',
    '_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt13runtime_error': '_ZTISt9exception',
    '_ZTISt11range_error': '_ZTISt13runtime_error', '_ZTISt14overflow_error': '_ZTISt13runtime_error',
    '_ZTISt15underflow_error': '_ZTISt13runtime_error', '_ZTISt9bad_alloc': '_ZTISt9exception',
    '_ZTISt17bad_function_call': '_ZTISt9exception', '_ZTISt12system_error': '_ZTISt13runtime_error',
}


def exc_matches(thrown, clause):
    t = thrown
    while t is not None:
        if t == clause:
            return True
        t = STD_EXC.get(t)
    return False


class CFG:
    """Block order with nested loops; gives each program point a sort key."""

    def __init__(self, fn):
        self.succ = {}
        for b in fn.order:
            t = fn.blocks[b][-1]
            if t.op == 'br':
                s = list(t.x)
            elif t.op == 'switch':
                s = [t.x[0]] + [c[1] for c in t.x[1]]
            elif t.op == 'invoke':
                s = list(t.x[1])
            else:
                s = []
            self.succ[b] = list(dict.fromkeys(s))
        self.path = {}
        self.loops = {}     # header -> set of blocks
        entry = fn.order[0]
        reach = set()
        st = [entry]
        while st:
            b = st.pop()
            if b in reach:
                continue
            reach.add(b)
            st.extend(self.succ[b])
        self._order(reach, entry, (), set())
        self.headers = [b for b in fn.order if b in self.loops]

    def _order(self, nodes, entry, prefix, cut):
        # Tarjan, iterative
        idx = {}
        low = {}
        onst = set()
        stack = []
        sccs = []
        cnt = itertools.count()

        def succs(b):
            return [s for s in self.succ[b] if s in nodes and (b, s) not in cut]

        for root in [entry] + [n for n in nodes if n != entry]:
            if root in idx:
                continue
            work = [(root, iter(succs(root)))]
            idx[root] = low[root] = next(cnt)
            stack.append(root)
            onst.add(root)
            while work:
                b, it = work[-1]
                adv = False
                for s in it:
                    if s not in idx:
                        idx[s] = low[s] = next(cnt)
                        stack.append(s)
                        onst.add(s)
                        work.append((s, iter(succs(s))))
                        adv = True
                        break
                    elif s in onst:
                        low[b] = min(low[b], idx[s])
                if adv:
                    continue
                work.pop()
                if work:
                    pb = work[-1][0]
                    low[pb] = min(low[pb], low[b])
                if low[b] == idx[b]:
                    comp = []
                    while True:
                        x = stack.pop()
                        onst.discard(x)
                        comp.append(x)
                        if x == b:
                            break
                    sccs.append(comp)
        sccs.reverse()
        for i, comp in enumerate(sccs):
            if len(comp) == 1 and comp[0] not in succs(comp[0]):
                self.path[comp[0]] = prefix + ((i, None),)
                continue
            cs = set(comp)
            heads = [b for b in comp if b == entry or any(b in succs(x) for x in nodes - cs)]
            heads.sort(key=lambda b: idx[b])
            h = heads[0] if heads else comp[0]
            self.loops[h] = cs
            cut2 = set(cut)
            for b in comp:
                if h in self.succ[b]:
                    cut2.add((b, h))
            self._order(cs, h, prefix + ((i, h),), cut2)

    def key(self, f):
        out = []
        for i, h in self.path[f.block]:
            out.append(i)
            if h is not None:
                out.append(f.iters.get(h, 0))
        out.append(f.ip)
        return out


class Engine:
    def __init__(self, mod, spec=None):
        self.mod = mod
        self.spec = spec or {}
        self.regions = {}
        self.nreg = itertools.count(1)
        self.globs = {}
        self.ginit = {}
        self.cfgs = {}
        self.fresh_n = itertools.count()
        self.uid = itertools.count(1)
        self.obls = {}
        self.failures = []
        self.covers = {}
        self.dry = 0
        self.wlog = None
        self.assumptions = {}
        self.opaque_used = {}
        self.functions_used = {}
        self.stubs_used = {}
        self.typeids = {}
        self.deadline = None
        self.solver_time = 0.0
        self.solver_calls = 0
        self.feas_calls = 0
        self.replace = [(re.compile(k), v) for k, v in self.spec.get('replace', {}).items()]
        self.opaque = [re.compile(k) for k in self.spec.get('opaque', [])]
        self.nomerge = [re.compile(k) for k in self.spec.get('nomerge', [])]
        self.nomerge_cache = {}
        self.replace_cache = {}
        self.merge_on = self.spec.get('merge', True)
        self.unroll = self.spec.get('unroll', 400)
        self.fpmode = self.spec.get('fp', 'uf')
        self.maxfail = self.spec.get('maxfail', 3)
        self.ob_timeout = self.spec.get('ob_timeout', 120)
        self.loop_specs = self.spec.get('loops', [])
        self.loopspec_cache = {}
        self.loops_cut = {}
        self.loops_unrolled = {}
        self.orphans = {}
        self.ufs = {}
        self.feas_cache = {}
        self.inc = None
        self.inc_stack = []
        self.inc_nb = 0
        self.base_addr_constraints = []
        self.axioms = []
        self.addr_cache = {}
        self.lib = {}
        self.steps = 0
        self.hooks = {}
        self.wit_axioms = []
        self.trace = self.spec.get('trace', False)
        self.eqonly = False
        self.bound = self.spec.get('bound')
        self.bounded = set()

    # ------------------------------------------------------------------ misc
    def fresh(self, w, name='t'):
        n = '%s!%d' % (name, next(self.fresh_n))
        if w == 1:
            return z3.Bool(n)
        return z3.BitVec(n, w)

    def uf(self, name, *sorts):
        k = (name,) + tuple(str(s) for s in sorts)
        f = self.ufs.get(k)
        if f is None:
            f = z3.Function(name, *sorts)
            self.ufs[k] = f
        return f

    def new_region(self, st, name, size, kind, content=None, const=False):
        r = Region(next(self.nreg), name, size, kind, const)
        self.regions[r.id] = r
        if content is None:
            if isc(size):
                content = Cells({}, 'undef')
            else:
                content = Arr(z3.Const('%s!mem%d' % (name, r.id), ARR))
        st.mem[r.id] = content
        st.own.add(r.id)
        return r

    def where(self, st):
        f = st.frames[-1]
        try:
            ins = f.fn.blocks[f.block][min(f.ip, len(f.fn.blocks[f.block]) - 1)]
            l = self.mod.loc(ins.dbg)
        except Exception:
            l = None
        return f.fn.name, l

    # --------------------------------------------------------------- solving
    def feasible(self, st, cond):
        """may pc /\\ cond hold?  (unknown counts as yes)"""
        if type(cond) is bool:
            return cond
        if st.model is not None:
            try:
                v = st.model.eval(cond, model_completion=True)
                if z3.is_true(v):
                    return True
            except z3.Z3Exception:
                pass
        key = (tuple(c.get_id() for c in st.pc), cond.get_id())
        r = self.feas_cache.get(key)
        if r is not None:
            if r[0] and r[1] is not None:
                self._lastmodel = r[1]
            return r[0]
        t = time.time()
        self.feas_calls += 1
        s = self.inc_sync(st, cond)
        s.set('timeout', int(self.spec.get('feas_timeout', 4000)))
        s.push()
        s.add(cond)
        q = s.check()
        if q == z3.sat:
            mdl = s.model()
        s.pop()
        self.solver_time += time.time() - t
        if q == z3.unsat:
            r = False
            self.feas_cache[key] = (False, None, cond, list(st.pc))
        else:
            r = True
            m = mdl if q == z3.sat else None
            self.feas_cache[key] = (True, m, cond, list(st.pc))
            self._lastmodel = m
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        return r

    def facts(self, pc, cond=None):
        """what is known besides pc: lemmas, and the layout of objects if addresses are mentioned"""
        for c in pc if cond is None else itertools.chain(pc, (cond,)):
            if self.has_addr(c):
                return self.base_addr_constraints + self.axioms
        return self.axioms

    def has_addr(self, c):
        if type(c) is bool:
            return False
        r = self.addr_cache.get(c.get_id())
        if r is not None:
            return r[0]
        found = False
        seen = set()
        todo = [c]
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            r = self.addr_cache.get(i)
            if r is not None:
                if r[0]:
                    found = True
                    break
                continue
            if z3.is_quantifier(x):
                todo.append(x.body())
                continue
            if z3.is_var(x):
                continue
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith('addr!'):
                    found = True
                    break
            else:
                todo.extend(x.children())
        self.addr_cache[c.get_id()] = (found, c)
        return found

    def inc_sync(self, st, cond=None):
        """incremental solver holding exactly pc and the address facts of st"""
        want = self.facts(st.pc, cond) + st.pc
        nb = len(self.base_addr_constraints), len(self.axioms)
        if self.inc is None or self.inc_nb != nb:
            self.inc = z3.Solver()
            self.inc_stack = []
            self.inc_nb = nb
        k = 0
        stk = self.inc_stack
        while k < len(stk) and k < len(want) and stk[k] is want[k]:
            k += 1
        if len(stk) > k:
            self.inc.pop(len(stk) - k)
            del stk[k:]
        for c in want[k:]:
            self.inc.push()
            self.inc.add(c)
            stk.append(c)
        return self.inc

    def assume(self, st, cond):
        if type(cond) is bool:
            if not cond:
                raise Dead()
            return
        if z3.is_and(cond):
            for c in cond.children():
                self.assume(st, c)
            return
        if st.model is not None:
            v = st.model.eval(cond, model_completion=True)
            if not z3.is_true(v):
                st.model = None
        self._lastmodel = None
        if not self.feasible(st, cond):
            raise Dead()
        if st.model is None:
            st.model = self._lastmodel
        st.pc.append(cond)

    def ob(self, st, kind, msg):
        fn, loc = self.where(st)
        key = '%s|%s|%s|%s' % (kind, fn, loc[1] if loc else '?', msg)
        o = self.obls.get(key)
        if o is None:
            o = Obligation(key, kind, fn, loc, msg)
            self.obls[key] = o
        return o

    def check(self, st, cond, kind, msg=''):
        """obligation: pc -> cond; afterwards cond is assumed"""
        if self.dry:
            if type(cond) is bool:
                if not cond:
                    raise Dead()
                return
            self.assume(st, cond)
            return
        o = self.ob(st, kind, msg)
        o.n += 1
        if type(cond) is bool and cond:
            return
        c = simp(cond)
        if c is True:
            return
        o.solved += 1
        t = time.time()
        q, model, backend = self.prove(st, zb(c))
        dt = time.time() - t
        o.time += dt
        self.solver_time += dt
        o.backend[backend] = o.backend.get(backend, 0) + 1
        if q == 'unsat':
            if type(c) is not bool:
                st.pc.append(c)
                if st.model is not None and not z3.is_true(st.model.eval(c, model_completion=True)):
                    st.model = None
            else:
                raise Dead()    # path is infeasible
            return
        o.status = 'failed'
        if q == 'unknown':
            o.status = 'undecided'
            model = None
        self.failures.append(Failure(o, model, list(st.log), self.trace_of(st), None, c))
        if len(self.failures) >= self.maxfail:
            raise TooMany()
        if type(c) is bool:
            raise Dead()
        st.model = None
        self.assume(st, c)

    def trace_of(self, st):
        out = []
        for f in st.frames:
            ins = f.fn.blocks[f.block][min(f.ip, len(f.fn.blocks[f.block]) - 1)]
            l = self.mod.loc(ins.dbg)
            out.append('%s %s:%s' % (f.fn.name, l[0] if l else '?', l[1] if l else '?'))
        return out

    def prove(self, st, c):
        import smt
        self.solver_calls += 1
        s = self.inc_sync(st, c)
        s.set('timeout', int(self.spec.get('quick_timeout', 250)))
        s.push()
        s.add(z3.Not(c))
        q = s.check()
        m = s.model() if q == z3.sat else None
        s.pop()
        if q == z3.unsat:
            return 'unsat', None, 'z3'
        if q == z3.sat:
            return 'sat', m, 'z3'
        left = self.ob_timeout
        if self.deadline:
            left = max(1, min(left, self.deadline - time.time()))
        return smt.prove(list(st.pc) + self.facts(st.pc, c), c, left, self.spec)

    # ---------------------------------------------------------------- memory
    def content(self, st, rid):
        c = st.mem.get(rid)
        if c is None:
            c = self.ginit.get(rid)
            if c is None:
                return None
            st.mem[rid] = c
        return c

    def own(self, st, rid):
        c = self.content(st, rid)
        if rid not in st.own:
            if isinstance(c, Cells):
                c = c.copy()
                st.mem[rid] = c
            st.own.add(rid)
        return c

    def ptr_cases(self, st, p, cond=True):
        """resolve PIte into [(cond, Ptr)]"""
        if isinstance(p, Ptr):
            return [(cond, p)]
        return self.ptr_cases(st, p.a, and_(cond, p.c)) + self.ptr_cases(st, p.b, and_(cond, not_(p.c)))

    def deref(self, st, p, n, write):
        """checks that [p, p+n) is accessible; returns plain Ptr (forks on PIte)"""
        if not isinstance(p, (Ptr, PIte)):
            p = self.int_to_ptr(st, p)
        if isinstance(p, PIte):
            cs = self.ptr_cases(st, p)
            feas = []
            for c, q in cs:
                if self.feasible(st, c):
                    feas.append((c, q))
            if not feas:
                raise Dead()
            if len(feas) > 1:
                out = []
                for c, q in feas:
                    s = st.fork()
                    s.model = None
                    s.pc.append(zb(c))
                    out.append(s)
                raise Fork(out)
            p = feas[0][1]
        if p.r == 0:
            self.check(st, False if isc(p.o) else (p.o != p.o), 'safety', 'null or wild pointer dereference')
            raise Dead()
        if isinstance(p.r, tuple):
            raise Unsupported('data access to function %r' % (p.r,))
        reg = self.regions[p.r]
        if self.content(st, p.r) is None:
            self.check(st, False, 'safety', 'access to dead object %s' % reg.name)
            raise Dead()
        if write and reg.const:
            self.check(st, False, 'safety', 'write to constant %s' % reg.name)
            raise Dead()
        sz = reg.size
        o = p.o
        if isc(o) and isc(sz):
            if o + n > sz or o < 0:
                self.check(st, False, 'safety', 'out of bounds %s %s' % ('write' if write else 'read', reg.name))
                raise Dead()
            if not self.dry:
                self.ob(st, 'safety', 'out of bounds %s %s' % ('write' if write else 'read', reg.name)).n += 1
        else:
            ob_, sb = bv(o, 64), bv(sz, 64)
            cont = st.mem[p.r]
            if reg.count is not None and isinstance(cont, Arr) and cont.w > 1:
                m, q = self.word_at(st, p.r, o, cont.w)
                if q.size() < 64:
                    q = z3.ZeroExt(64 - q.size(), q)
                last = (m + n - 1) // cont.w
                cb = bv(reg.count, 64)
                c = z3.ULT(q, cb) if last == 0 else z3.And(z3.UGT(cb, z3.BitVecVal(last, 64)), z3.ULT(q, cb - last))
            else:
                c = z3.And(z3.ULE(z3.BitVecVal(n, 64), sb), z3.ULE(ob_, sb - n))
            self.check(st, c, 'safety', 'out of bounds %s %s' % ('write' if write else 'read', reg.name))
            o2 = simp(ob_)
            if isc(o2):
                p = Ptr(p.r, o2)
        return p

    def cells_bytes(self, c, off, n):
        """list of n (value,8) little endian bytes"""
        out = []
        d = c.d
        i = off
        end = off + n
        while i < end:
            cell = d.get(i)
            if cell is not None:
                sz, v = cell
                if isinstance(v, (Ptr, PIte)):
                    v2 = v
                    for k in range(sz):
                        if i + k < end:
                            out.append(('p', v2, k))
                else:
                    for k in range(sz):
                        if i + k < end:
                            out.append(extract(v, 8 * k + 7, 8 * k, 8 * sz))
                i += sz
                continue
            # inside a larger cell?
            found = False
            for back in range(1, 16):
                cell = d.get(i - back)
                if cell is not None:
                    if cell[0] > back:
                        sz, v = cell
                        k = back
                        while k < sz and i < end:
                            if isinstance(v, (Ptr, PIte)):
                                out.append(('p', v, k))
                            else:
                                out.append(extract(v, 8 * k + 7, 8 * k, 8 * sz))
                            k += 1
                            i += 1
                        found = True
                    break
            if found:
                continue
            if c.default == 'zero':
                out.append(0)
            else:
                f = self.fresh(8, 'uninit')
                d[i] = (1, f)
                out.append(f)
            i += 1
        return out

    def cells_clear(self, c, off, n):
        d = c.d
        # cell starting before
        for back in range(1, 16):
            cell = d.get(off - back)
            if cell is not None:
                if cell[0] > back:
                    self.split(c, off - back)
                break
        i = off
        end = off + n
        while i < end:
            cell = d.get(i)
            if cell is None:
                i += 1
                continue
            if i + cell[0] > end:
                self.split(c, i)
                cell = d[i]
            del d[i]
            i += cell[0]

    def split(self, c, at):
        sz, v = c.d.pop(at)
        if isinstance(v, (Ptr, PIte)):
            if sz == 1:
                raise Unsupported('partial pointer')
            # a pointer overwritten in part: its bytes become unknown
            for k in range(sz):
                c.d[at + k] = (1, self.fresh(8, 'ptrbyte'))
            return
        for k in range(sz):
            c.d[at + k] = (1, extract(v, 8 * k + 7, 8 * k, 8 * sz))

    def to_arr(self, st, rid, words=False):
        c = self.content(st, rid)
        if isinstance(c, Arr):
            if c.w != 1 and not words:
                raise Unsupported('byte access to the words of %s' % self.regions[rid].name)
            return c
        reg = self.regions[rid]
        if isc(reg.size) and reg.size > 70000:
            raise Unsupported('symbolic access to large object %s' % reg.name)
        if c.default == 'zero':
            a = z3.K(A64, z3.BitVecVal(0, 8))
        else:
            a = z3.Const('%s!arr%d' % (reg.name, next(self.fresh_n)), ARR)
        for off in sorted(c.d):
            sz, v = c.d[off]
            if isinstance(v, (Ptr, PIte)):
                raise Unsupported('symbolic offset into object holding pointers: %s' % reg.name)
            for k in range(sz):
                a = z3.Store(a, z3.BitVecVal(off + k, 64), bv(extract(v, 8 * k + 7, 8 * k, 8 * sz), 8))
        n = Arr(a)
        st.mem[rid] = n
        st.own.add(rid)
        return n

    def load_bytes(self, st, rid, off, n):
        c = self.content(st, rid)
        if isinstance(c, Cells):
            if isc(off):
                if rid not in st.own:
                    c = self.own(st, rid)
                return self.cells_bytes(c, off, n)
            c = self.to_arr(st, rid, True)
        if c.w > 1:
            w = c.w
            m, q = self.word_at(st, rid, off, w)
            out = []
            for k in range((m + n + w - 1) // w):
                v = norm(self.select(c.a, simpv(q + z3.BitVecVal(k, q.size())), q.size()))
                for b in range(w):
                    if m <= w * k + b < m + n:
                        out.append(extract(v, 8 * b + 7, 8 * b, 8 * w))
            return out
        out = []
        for k in range(n):
            out.append(norm(self.select(c.a, add(off, k, 64))))
        return out

    def word_at(self, st, rid, off, w):
        """(offset in the record of w bytes, index of the record)"""
        off = bv(off, 64)
        if w == 8:
            m = simp(z3.Extract(2, 0, off))
            if not isc(m):
                raise Unsupported('unaligned symbolic access to the words of %s' % self.regions[rid].name)
            return m, simpv(z3.Extract(63, 3, off))
        if w in (2, 4):
            b = w.bit_length() - 1
            m = simp(z3.Extract(b - 1, 0, off))
            if not isc(m):
                raise Unsupported('unaligned symbolic access to the records of %s' % self.regions[rid].name)
            return m, simpv(z3.ZeroExt(b, z3.Extract(63, b, off)))
        # off = w * q + m: taken from the form of the term, provided the product does not wrap
        off = simpv(off)
        c, q = 0, []
        todo = [off]
        while todo:
            x = todo.pop()
            k = kind(x)
            if z3.is_bv_value(x):
                c += x.as_long()
            elif k == z3.Z3_OP_BADD:
                todo.extend(x.children())
            elif k == z3.Z3_OP_BMUL and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() % w == 0:
                y = x.arg(1) if x.num_args() == 2 else z3.simplify(z3.Product(*x.children()[1:]))
                q.append(y if x.arg(0).as_long() == w else y * z3.BitVecVal(x.arg(0).as_long() // w, 64))
            else:
                raise Unsupported('symbolic offset %s into the records of %s' % (str(off)[:80], self.regions[rid].name))
        c &= (1 << 64) - 1
        if c >= 1 << 63:
            c -= 1 << 64
        t = z3.BitVecVal(c // w, 64)
        for y in q:
            t = t + y
            if self.feasible(st, z3.UGE(y, z3.BitVecVal(1 << 56, 64))):
                raise Unsupported('index into the records of %s may wrap' % self.regions[rid].name)
        t = simpv(t)
        if q and self.feasible(st, z3.UGE(t, z3.BitVecVal(1 << 58, 64))):
            raise Unsupported('index into the records of %s may wrap' % self.regions[rid].name)
        return c % w, t

    def linear(self, x):
        """x = c + sum(coef * term) modulo 2^64, from the form of the term"""
        c, ts, todo = 0, [], [simpv(x)]
        while todo:
            y = todo.pop()
            k = kind(y)
            if z3.is_bv_value(y):
                c += y.as_long()
            elif k == z3.Z3_OP_BADD:
                todo.extend(y.children())
            elif k == z3.Z3_OP_BMUL and y.num_args() == 2 and z3.is_bv_value(y.arg(0)):
                ts.append((y.arg(0).as_long(), y.arg(1)))
            else:
                ts.append((1, y))
        return c & ((1 << 64) - 1), ts

    def scaled(self, st, x, g, lin=None):
        """(q, r) with x = g*q + r over the integers, r < g constant; None if not of that form"""
        if isc(x):
            return x // g, x % g
        c, ts = lin or self.linear(x)
        if c >= 1 << 62 or not ts or any(k % g for k, _ in ts) or sum(k for k, _ in ts) >= 1 << 14:
            return None
        q = z3.BitVecVal(c // g, 64)
        for k, t in ts:
            if self.feasible(st, z3.UGE(t, z3.BitVecVal(1 << 48, 64))):
                return None
            q = q + (t if k == g else t * z3.BitVecVal(k // g, 64))
        return simpv(q), c % g

    def select(self, a, i, w=64):
        """a[i] with read-over-write on syntactically decided indices"""
        i = bv(i, w)
        while z3.is_store(a):
            j = a.arg(1)
            if j.eq(i):
                return a.arg(2)
            d = simp(j - i)
            if isc(d):
                if d == 0:
                    return a.arg(2)
                a = a.arg(0)
                continue
            break
        if z3.is_app(a) and kind(a) == z3.Z3_OP_CONST_ARRAY:
            return a.arg(0)
        return z3.Select(a, i)

    def load(self, st, p, ty):
        ty = self.mod.resolve(ty)
        k = ty[0]
        if k in ('struct', 'arr', 'vec'):
            if k == 'struct':
                offs = self.mod.field_offsets(ty)
                return Agg([self.load(st, self.padd(p, o), e) for o, e in zip(offs, ty[1])])
            es = self.mod.size(ty[2])
            return Agg([self.load(st, self.padd(p, i * es), ty[2]) for i in range(ty[1])])
        n = self.mod.size(ty)
        p = self.deref(st, p, n, False)
        w = 64 if k == 'ptr' else ty[1]
        c = self.content(st, p.r)
        if isinstance(c, Cells):
            if isc(p.o):
                cell = c.d.get(p.o)
                if cell is not None and cell[0] == n:
                    v = cell[1]
                    return self.retype(st, v, ty, n)
            else:
                v = self.sym_load(st, p, n, ty)
                if v is not None:
                    return v
        bs = self.load_bytes(st, p.r, p.o, n)
        if any(type(b) is tuple for b in bs):
            if n == 8 and all(type(b) is tuple and b[1] is bs[0][1] and b[2] == i for i, b in enumerate(bs)):
                return self.retype(st, bs[0][1], ty, n)
            # bytes of a pointer seen as data
            bs = [self.ptr_byte(st, b) if type(b) is tuple else b for b in bs]
        v = concat([(b, 8) for b in reversed(bs)])
        if isinstance(c, Cells) and isc(p.o) and all(not isinstance(b, tuple) for b in bs):
            pass
        return self.retype(st, v, ty, n)

    def ptr_byte(self, st, b):
        v = self.ptr_to_int(st, b[1])
        return extract(v, 8 * b[2] + 7, 8 * b[2], 64)

    def retype(self, st, v, ty, n):
        k = ty[0]
        if k == 'ptr':
            if isinstance(v, (Ptr, PIte)):
                return v
            return self.int_to_ptr(st, v)
        if isinstance(v, (Ptr, PIte)):
            v = self.ptr_to_int(st, v)
        w = ty[1]
        if w == 1:
            if type(v) is int:
                return v & 1
            if type(v) is bool or z3.is_bool(v):
                return v
            return self.trunc1(v)
        if w < 8 * n:
            return extract(v, w - 1, 0, 8 * n)
        return v

    def trunc1(self, v):
        if type(v) is int:
            return v & 1
        b = as_bool_ite(v)
        if b and (b[1] & 1) != (b[2] & 1):
            return b[0] if b[1] & 1 else not_(b[0])
        return z3.Extract(0, 0, v) == z3.BitVecVal(1, 1)

    def sym_load(self, st, p, n, ty):
        """symbolic offset into a small object: table lookup"""
        reg = self.regions[p.r]
        if not isc(reg.size):
            return None
        cnt = reg.size // n
        c = self.content(st, p.r)
        hasptr = any(isinstance(v, (Ptr, PIte)) for _, v in c.d.values())
        table = reg.const or (cnt <= 128 and all(type(v) is int for _, v in c.d.values()))
        if cnt > 520 or (not hasptr and not table and cnt > 20):
            if hasptr:
                raise Unsupported('symbolic offset into pointer table %s' % reg.name)
            return None
        off = bv(p.o, 64)
        # offset must be one of the element positions
        rem = 0
        if hasptr or table or cnt <= 20:
            m = z3.URem(off, z3.BitVecVal(n, 64)) if n & (n - 1) else off & z3.BitVecVal(n - 1, 64)
            if self.feasible(st, m != 0):
                if not hasptr:
                    return None
                # table of records: find the residue via the solver
                stride = None
                for s in (8, 16, 24, 32, 40, 48, 56, 64):
                    pass
                raise Unsupported('misaligned symbolic offset into %s' % reg.name)
        feas = []
        for i in range(cnt):
            cond = off == z3.BitVecVal(i * n, 64)
            if hasptr:
                if self.feasible(st, cond):
                    feas.append((cond, i * n))
            else:
                feas.append((cond, i * n))
        if not feas:
            raise Dead()
        if hasptr and len(feas) > 1 and k_is_ptr(ty):
            r = None
            for cond, o in reversed(feas):
                v = self.load(st, Ptr(p.r, o), ty)
                r = v if r is None else self.mergeval(cond, v, r, ty)
            return r
        r = None
        w = 64 if ty[0] == 'ptr' else ty[1]
        for cond, o in reversed(feas):
            v = self.load(st, Ptr(p.r, o), ty)
            if r is None:
                r = v
            else:
                r = self.mergeval(cond, v, r, ty)
        return r

    def mergeval(self, c, x, y, ty=None):
        """If(c, x, y)"""
        if x is y:
            return x
        if self.eqonly:
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.r == y.r:
                x, y, p = x.o, y.o, x
            else:
                p = x
            if type(x) in (int, bool) and type(y) in (int, bool):
                if int(x) == int(y):
                    return p
            elif z3.is_expr(x) and z3.is_expr(y) and x.eq(y):
                return p
            elif isinstance(x, Agg) and isinstance(y, Agg):
                return Agg([self.mergeval(c, a, b) for a, b in zip(x.v, y.v)])
            raise NoMerge()
        if isinstance(x, Ptr) or isinstance(y, Ptr) or isinstance(x, PIte) or isinstance(y, PIte):
            if not isinstance(x, (Ptr, PIte)) or not isinstance(y, (Ptr, PIte)):
                if type(x) is int:
                    x = Ptr(0, x)
                elif type(y) is int:
                    y = Ptr(0, y)
                else:
                    raise NoMerge()
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.r == y.r:
                if isc(x.o) and isc(y.o) and x.o == y.o:
                    return x
                if not isc(x.o) and not isc(y.o) and x.o.eq(y.o):
                    return x
                return Ptr(x.r, z3.If(zb(c), bv(x.o, 64), bv(y.o, 64)))
            return PIte(c, x, y)
        if isinstance(x, Agg):
            return Agg([self.mergeval(c, a, b) for a, b in zip(x.v, y.v)])
        if type(x) is int and type(y) is int:
            if x == y:
                return x
            w = None
            if ty is not None:
                w = ty[1]
            if w is None:
                raise NoMerge()
            if w == 1:
                return zb(c) if x else z3.Not(zb(c))
            return z3.If(zb(c), z3.BitVecVal(x, w), z3.BitVecVal(y, w))
        if type(x) in (int, bool) and type(y) in (int, bool) and bool(x) == bool(y):
            return x
        tx = x if type(x) not in (int, bool) else y
        if type(tx) in (int, bool):
            x, y = bool(x), bool(y)
            return zb(c) if x else z3.Not(zb(c))
        if z3.is_bool(tx):
            x, y = zb(bool(x) if type(x) is int else x), zb(bool(y) if type(y) is int else y)
            if x.eq(y):
                return x
            return z3.If(zb(c), x, y)
        w = tx.size()
        if z3.is_expr(x) and z3.is_expr(y) and x.sort() != y.sort():
            raise NoMerge()
        x, y = bv(x, w), bv(y, w)
        if x.eq(y):
            return x
        return z3.If(zb(c), x, y)

    def store(self, st, p, v, ty):
        ty = self.mod.resolve(ty)
        k = ty[0]
        if k == 'struct':
            offs = self.mod.field_offsets(ty)
            for o, e, x in zip(offs, ty[1], v.v):
                self.store(st, self.padd(p, o), x, e)
            return
        if k in ('arr', 'vec'):
            es = self.mod.size(ty[2])
            for i, x in enumerate(v.v):
                self.store(st, self.padd(p, i * es), x, ty[2])
            return
        n = self.mod.size(ty)
        p = self.deref(st, p, n, True)
        w = 64 if k == 'ptr' else ty[1]
        if not isinstance(v, (Ptr, PIte)) and w < 8 * n:
            v = zext(v, w, 8 * n)
        self.store_raw(st, p.r, p.o, n, v)

    def store_raw(self, st, rid, off, n, v):
        if self.wlog is not None:
            self.wlog.append((rid, off if isc(off) else None, n))
        c = self.content(st, rid)
        if isinstance(c, Cells):
            if isc(off):
                c = self.own(st, rid)
                cell = c.d.get(off)
                if cell is None or cell[0] != n:
                    self.cells_clear(c, off, n)
                c.d[off] = (n, v)
                return
            if self.sym_store(st, rid, off, n, v):
                return
            c = self.to_arr(st, rid, True)
        a = c.a
        if isinstance(v, (Ptr, PIte)):
            if isinstance(v, Ptr) and v.r == 0:
                v = v.o
            else:
                raise Unsupported('pointer stored in byte array %s' % self.regions[rid].name)
        if c.w > 1:
            w = c.w
            m, q = self.word_at(st, rid, off, w)
            if m == 0 and n == w:
                a = z3.Store(a, q, bv(v, 8 * w))
            else:
                new = [extract(v, 8 * k + 7, 8 * k, 8 * n) for k in range(n)]
                for k in range((m + n + w - 1) // w):
                    i = simpv(q + z3.BitVecVal(k, q.size()))
                    old = norm(self.select(a, i, q.size()))
                    bs = [(new[w * k + b - m] if m <= w * k + b < m + n else extract(old, 8 * b + 7, 8 * b, 8 * w), 8)
                          for b in reversed(range(w))]
                    a = z3.Store(a, i, bv(concat(bs), 8 * w))
            st.mem[rid] = Arr(a, w)
            st.own.add(rid)
            return
        for k in range(n):
            a = z3.Store(a, bv(add(off, k, 64), 64), bv(extract(v, 8 * k + 7, 8 * k, 8 * n), 8))
        st.mem[rid] = Arr(a)
        st.own.add(rid)

    def sym_store(self, st, rid, off, n, v):
        """symbolic offset into a small object of same-size cells: conditional update of each"""
        reg = self.regions[rid]
        if not isc(reg.size) or reg.size % n or reg.size // n > 16:
            return False
        o = bv(off, 64)
        if n > 1 and self.feasible(st, (o & z3.BitVecVal(n - 1, 64)) != 0):
            return False
        c = self.own(st, rid)
        for i in range(reg.size // n):
            cell = c.d.get(i * n)
            if cell is not None and cell[0] != n:
                return False
            if cell is None and any((i * n + k) in c.d for k in range(n)):
                return False
        for i in range(reg.size // n):
            cell = c.d.get(i * n)
            if cell is None:
                old = 0 if c.default == 'zero' else (self.fresh(8 * n, 'uninit') if not isinstance(v, (Ptr, PIte)) else NULL)
            else:
                old = cell[1]
            c.d[i * n] = (n, self.mergeval(o == z3.BitVecVal(i * n, 64), v, old, ('i', 8 * n)))
        return True

    def padd(self, p, k):
        if isinstance(p, PIte):
            return PIte(p.c, self.padd(p.a, k), self.padd(p.b, k))
        if not isinstance(p, Ptr):
            raise Unsupported('arithmetic on %r' % (p,))
        if isc(k) and k == 0:
            return p
        if isinstance(p.r, tuple):
            raise Unsupported('function pointer arithmetic')
        o = add(p.o, k, 64)
        return Ptr(p.r, o)

    # pointers as integers
    def base(self, rid):
        reg = self.regions[rid]
        if reg.base is None:
            b = z3.BitVec('addr!%d' % rid, 64)
            reg.base = b
            sz = bv(reg.size, 64)
            self.base_addr_constraints.append(z3.And(
                z3.UGT(b, z3.BitVecVal(4096, 64)), z3.ULT(b, z3.BitVecVal(1 << 46, 64)),
                (b & z3.BitVecVal(15, 64)) == 0,
                z3.Implies(z3.ULT(sz, z3.BitVecVal(1 << 40, 64)), z3.ULE(b, b + sz))))
            for r2 in self.regions.values():
                if r2.id != rid and r2.base is not None:
                    s2 = bv(r2.size, 64)
                    self.base_addr_constraints.append(z3.Or(z3.ULT(b + sz, r2.base), z3.ULT(r2.base + s2, b)))
        return reg.base

    def ptr_to_int(self, st, p):
        if isinstance(p, PIte):
            return z3.If(zb(p.c), bv(self.ptr_to_int(st, p.a), 64), bv(self.ptr_to_int(st, p.b), 64))
        if not isinstance(p, Ptr):
            return p
        if p.r == 0:
            return p.o
        if isinstance(p.r, tuple):
            h = 0x7f0000000000 + (abs(hash(p.r[1])) % (1 << 30)) * 16
            return h
        return add(self.base(p.r), p.o, 64)

    def int_to_ptr(self, st, v):
        if type(v) is int:
            return Ptr(0, v)
        if isinstance(v, (Ptr, PIte)):
            return v
        t = simp(v)
        if type(t) is int:
            return Ptr(0, t)
        # addr!N + off
        for rid_, reg in self.regions.items():
            if reg.base is not None:
                d = simp(t - reg.base)
                if isc(d) or not mentions(d, reg.base):
                    if mentions(t, reg.base):
                        return Ptr(rid_, d)
        if kind(t) == K_ITE:
            return PIte(t.arg(0), self.int_to_ptr(st, t.arg(1)), self.int_to_ptr(st, t.arg(2)))
        return Ptr(0, t)

    # ------------------------------------------------------------- constants
    def glob(self, st, name):
        name = self.mod.aliases.get(name, name)
        if name in self.mod.functions or name in self.mod.declares:
            return Ptr(('f', name), 0)
        rid = self.globs.get(name)
        if rid is None:
            if name not in self.mod.globals:
                raise Unsupported('global ' + name)
            ty, init, const = self.mod.global_info(name)
            try:
                size = self.mod.size(ty)
            except IRError:
                size = 1 << 16
            if name in ('stdout', 'stderr', 'stdin'):
                size = 8
            r = Region(next(self.nreg), name, size, 'global', const)
            self.regions[r.id] = r
            rid = r.id
            self.globs[name] = rid
            c = Cells({}, 'zero' if init is not None else 'undef')
            self.ginit[rid] = c
            if init is not None:
                self.ginit_write(c, 0, ty, init)
        return Ptr(rid, 0)

    def ginit_write(self, c, off, ty, v):
        ty = self.mod.resolve(ty)
        k = v[0]
        if k in ('zero', 'undef'):
            return
        if k == 'null':
            return
        if k == 'str':
            for i, b in enumerate(v[1]):
                if b:
                    c.d[off + i] = (1, b)
            return
        if k == 'agg':
            if ty[0] == 'struct':
                for o, (et, ev) in zip(self.mod.field_offsets(ty), v[1]):
                    self.ginit_write(c, off + o, et, ev)
            else:
                es = self.mod.size(ty[2])
                for i, (et, ev) in enumerate(v[1]):
                    self.ginit_write(c, off + i * es, et, ev)
            return
        n = self.mod.size(ty)
        x = self.const(None, ty, v)
        if not isinstance(x, Ptr) and type(x) is bool:
            x = int(x)
        c.d[off] = (n, x)

    def const(self, st, ty, v):
        k = v[0]
        if k == 'int' or k == 'fp':
            if ty[0] == 'ptr':
                return Ptr(0, v[1])
            return v[1]
        if k == 'null':
            return NULL
        if k == 'glob':
            return self.glob(st, v[1])
        if k == 'undef':
            return self.zero(ty, True)
        if k == 'zero':
            return self.zero(ty, False)
        if k == 'gep':
            p = self.const(st, ('ptr',), v[2])
            return self.gep(st, v[1], p, [(t, self.const(st, t, x)) for t, x in v[3]])
        if k == 'cast':
            x = self.const(st, v[2], v[3])
            return self.cast(st, v[1], v[2], x, v[4])
        if k == 'agg':
            rt = self.mod.resolve(ty)
            return Agg([self.const(st, t, x) for t, x in v[1]])
        if k == 'bin':
            return self.binop(st, v[1], v[2], self.const(st, v[2], v[3]), self.const(st, v[2], v[4]))
        if k == 'meta':
            return None
        raise Unsupported('constant %r' % (v,))

    def zero(self, ty, undef):
        ty = self.mod.resolve(ty)
        k = ty[0]
        if k == 'ptr':
            return NULL
        if k == 'struct':
            return Agg([self.zero(e, undef) for e in ty[1]])
        if k in ('arr', 'vec'):
            return Agg([self.zero(ty[2], undef) for _ in range(ty[1])])
        if undef:
            return self.fresh(ty[1], 'undef')
        return 0

    def val(self, st, ty, o):
        if o[0] == 'reg':
            try:
                return st.frames[-1].regs[o[1]]
            except KeyError:
                raise Unsupported('unset register %s in %s' % (o[1], st.frames[-1].fn.name))
        return self.const(st, ty, o)

    def gep(self, st, sty, p, idx):
        off = 0
        ty = sty
        first = True
        for ity, i in idx:
            w = ity[1]
            if first:
                es = self.mod.size(ty)
                off = add(off, mul(sext(i, w, 64), es, 64), 64)
                first = False
                continue
            t = self.mod.resolve(ty)
            if t[0] == 'struct':
                fo = self.mod.field_offsets(t)
                off = add(off, fo[i], 64)
                ty = t[1][i]
            else:
                es = self.mod.size(t[2])
                off = add(off, mul(sext(i, w, 64), es, 64), 64)
                ty = t[2]
        if not isinstance(p, (Ptr, PIte)):
            p = self.int_to_ptr(st, p)
        return self.padd(p, off)

    # ------------------------------------------------------------ arithmetic
    def binop(self, st, op, ty, a, b):
        ty = self.mod.resolve(ty)
        if ty[0] == 'vec':
            return Agg([self.binop(st, op, ty[2], x, y) for x, y in zip(a.v, b.v)])
        w = ty[1]
        if op[0] == 'f':
            return self.fbin(op, a, b, w, st)
        if isinstance(a, (Ptr, PIte)):
            a = self.ptr_to_int(st, a)
        if isinstance(b, (Ptr, PIte)):
            b = self.ptr_to_int(st, b)
        if w == 1:
            x, y = bool_of(a), bool_of(b)
            if op == 'and':
                return and_(x, y)
            if op == 'or':
                return or_(x, y)
            if op in ('xor', 'add', 'sub'):
                if type(x) is bool and type(y) is bool:
                    return x != y
                if type(y) is bool:
                    return not_(x) if y else x
                if type(x) is bool:
                    return not_(y) if x else y
                return z3.Xor(x, y)
            raise Unsupported('i1 ' + op)
        if type(a) is bool or (not isc(a) and z3.is_bool(a)):
            a = bv(a, w)
        if type(b) is bool or (not isc(b) and z3.is_bool(b)):
            b = bv(b, w)
        if op == 'add':
            return add(a, b, w)
        if op == 'sub':
            r = sub(a, b, w)
            if not isc(r) and self.base_addr_constraints:
                r = simp(r)
            return r
        if op == 'mul':
            return mul(a, b, w)
        if op in ('and', 'or', 'xor'):
            if isc(a) and isc(b):
                return a & b if op == 'and' else a | b if op == 'or' else a ^ b
            if isc(a):
                a, b = b, a
            if isc(b):
                if op == 'and':
                    if b == 0:
                        return 0
                    if b == M(w):
                        return a
                    if b & (b + 1) == 0:    # low mask
                        n = b.bit_length()
                        return zext(extract(a, n - 1, 0, w), n, w)
                elif b == 0:
                    return a
                elif op == 'or' and b == M(w):
                    return b
                t = as_bool_ite(a)
                if t:
                    f = (lambda x: x & b) if op == 'and' else (lambda x: x | b) if op == 'or' else (lambda x: x ^ b)
                    return norm_ite(t[0], f(t[1]), f(t[2]), w)
            x, y = bv(a, w), bv(b, w)
            if op == 'and':
                return x & y
            if op == 'or':
                return x | y
            if x.eq(y):
                return 0
            return x ^ y
        if op in ('shl', 'lshr', 'ashr'):
            if isc(b):
                if b >= w:
                    self.check(st, False, 'safety', 'shift amount')
                    raise Dead()
                if isc(a):
                    if op == 'shl':
                        return (a << b) & M(w)
                    if op == 'lshr':
                        return a >> b
                    return (sgn(a, w) >> b) & M(w)
                if b == 0:
                    return a
                if op == 'lshr':
                    return zext(extract(a, w - 1, b, w), w - b, w)
                if op == 'ashr':
                    return sext(extract(a, w - 1, b, w), w - b, w)
                return concat([(extract(a, w - 1 - b, 0, w), w - b), (0, b)])
            self.check(st, z3.ULT(b, z3.BitVecVal(w, w)), 'safety', 'shift amount')
            x, y = bv(a, w), bv(b, w)
            if op == 'shl':
                return x << y
            if op == 'lshr':
                return z3.LShR(x, y)
            return x >> y
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            if isc(b):
                if b == 0:
                    self.check(st, False, 'safety', 'division by zero')
                    raise Dead()
            else:
                self.check(st, b != z3.BitVecVal(0, w), 'safety', 'division by zero')
            if op[0] == 's' and not (isc(b) and b != M(w)):
                self.check(st, not_(and_(eq(a, 1 << (w - 1), w), eq(b, M(w), w))), 'safety', 'signed division overflow')
            if isc(a) and isc(b):
                if op == 'udiv':
                    return a // b
                if op == 'urem':
                    return a % b
                x, y = sgn(a, w), sgn(b, w)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                return (q if op == 'sdiv' else x - q * y) & M(w)
            if isc(b) and b & (b - 1) == 0:
                n = b.bit_length() - 1
                if n == 0:
                    return a if op.endswith('div') else 0
                if op == 'udiv':
                    return zext(extract(a, w - 1, n, w), w - n, w)
                if op == 'urem':
                    return zext(extract(a, n - 1, 0, w), n, w)
            x, y = bv(a, w), bv(b, w)
            if w == 64 and isc(b) and op[0] == 'u':
                qr = self.scaled(st, x, b)
                if qr is not None:
                    return qr[0] if op == 'udiv' else qr[1]
            if op == 'udiv' and isc(b) and z3.is_app_of(x, z3.Z3_OP_BUDIV) and z3.is_bv_value(x.arg(1)):
                # (p / q) / b = p / (q*b)
                q = x.arg(1).as_long()
                if q and q * b < 1 << w:
                    return z3.UDiv(x.arg(0), z3.BitVecVal(q * b, w))
            if self.spec.get('div', 'bv') == 'witness' and op in ('udiv', 'urem'):
                return self.div_witness(st, op, x, y, w)
            if self.spec.get('div', 'bv') == 'uf' and not isc(b):
                return self.uf('%s%d' % (op, w), x.sort(), x.sort(), x.sort())(x, y)
            return {'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda p, q: p / q, 'srem': z3.SRem}[op](x, y)
        raise Unsupported('binop ' + op)

    def div_witness(self, st, op, x, y, w):
        """x = q*y + r, r < y, no wrap: quotient and remainder as fresh symbols with their defining facts"""
        k = ('div', x.get_id(), y.get_id())
        e = self.hooks.get(k)
        if e is None:
            q = self.fresh(w, 'quot')
            r = self.fresh(w, 'rem')
            e = (q, r, x, y)
            self.hooks[k] = e
            self.axioms.append(z3.Implies(y != 0, z3.And(
                x == q * y + r, z3.ULT(r, y), z3.ULE(q, x), z3.BVMulNoOverflow(q, y, False),
                z3.BVAddNoOverflow(q * y, r, False))))
        return e[0] if op == 'udiv' else e[1]

    def whole(self, a):
        """the integer a double is the conversion of (None: not known to be one)"""
        if isc(a):
            x = f2py(a, 64)
            if x == x and abs(x) <= 2.0 ** 53 and x == int(x) and not (x == 0 and a != 0):
                return z3.BitVecVal(int(x), 64)
            return None
        if z3.is_app(a) and a.decl().name() == 'sitofp_64_64':
            return a.arg(0)
        return None

    def small(self, st, n, bits):
        """is |n| <= 2**bits on this path?"""
        lim = z3.BitVecVal(1 << bits, 64)
        return not self.feasible(st, z3.Not(z3.And(-lim <= n, n <= lim)))

    def fbin(self, op, a, b, w, st=None):
        if w not in (32, 64):
            raise Unsupported('x87 arithmetic')
        if isc(a) and isc(b):
            x, y = f2py(a, w), f2py(b, w)
            try:
                if op == 'fadd':
                    r = x + y
                elif op == 'fsub':
                    r = x - y
                elif op == 'fmul':
                    r = x * y
                elif op == 'fdiv':
                    if y == 0:
                        raise ZeroDivisionError
                    r = x / y
                else:
                    raise ZeroDivisionError
                return py2f(r, w)
            except (ZeroDivisionError, OverflowError):
                pass
        if self.fpmode == 'whole' and w == 64 and op in ('fadd', 'fsub', 'fmul'):
            # sums, differences and products of whole numbers that stay below 2**53 are exact
            i, j = self.whole(a), self.whole(b)
            if i is not None and j is not None:
                if op != 'fmul':
                    if self.small(st, i, 52) and self.small(st, j, 52):
                        return self.uf('sitofp_64_64', i.sort(), i.sort())(z3.simplify(i + j if op == 'fadd' else i - j))
                else:
                    if z3.is_bv_value(i):
                        i, j = j, i
                    c = j.as_signed_long() if z3.is_bv_value(j) else 0
                    if c > 0 and self.small(st, i, 53 - c.bit_length()):
                        return self.uf('sitofp_64_64', i.sort(), i.sort())(i * j)
        x, y = bv(a, w), bv(b, w)
        if self.fpmode == 'exact' or (self.fpmode == 'mixed' and op in ('fadd', 'fsub')):
            s = z3.Float64() if w == 64 else z3.Float32()
            fx, fy = z3.fpBVToFP(x, s), z3.fpBVToFP(y, s)
            rm = z3.RNE()
            r = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](rm, fx, fy)
            return z3.fpToIEEEBV(r)
        f = self.uf('%s%d' % (op, w), x.sort(), x.sort(), x.sort())
        if op in ('fadd', 'fmul') and not x.eq(y):
            k = ('comm', op, min(x.get_id(), y.get_id()), max(x.get_id(), y.get_id()))
            if k not in self.hooks:
                self.hooks[k] = (x, y)
                self.axioms.append(f(x, y) == f(y, x))
        return f(x, y)

    def cast(self, st, op, ft, a, tt):
        ft = self.mod.resolve(ft)
        tt = self.mod.resolve(tt)
        if op == 'ptrtoint':
            v = self.ptr_to_int(st, a)
            return extract(v, tt[1] - 1, 0, 64) if tt[1] < 64 else v
        if op == 'inttoptr':
            if ft[1] < 64:
                a = zext(a, ft[1], 64)
            return self.int_to_ptr(st, a)
        if op == 'bitcast':
            if isinstance(a, Agg) or tt[0] in ('vec', 'arr') or ft[0] in ('vec', 'arr'):
                raise Unsupported('vector bitcast')
            return a
        fw = ft[1]
        tw = tt[1]
        if isinstance(a, (Ptr, PIte)):
            a = self.ptr_to_int(st, a)
        if op == 'trunc':
            if tw == 1:
                return self.trunc1(a)
            return extract(a, tw - 1, 0, fw)
        if op == 'zext':
            return zext(a, fw, tw)
        if op == 'sext':
            return sext(a, fw, tw)
        if op in ('sitofp', 'uitofp'):
            if isc(a):
                x = sgn(a, fw) if op == 'sitofp' else a
                return py2f(float(x), tw)
            a = bv(a, fw)
            if self.fpmode == 'exact':
                s = z3.Float64() if tw == 64 else z3.Float32()
                return z3.fpToIEEEBV((z3.fpSignedToFP if op == 'sitofp' else z3.fpUnsignedToFP)(z3.RNE(), a, s))
            if fw < 64:
                # value preserving: go through 64 bits so that equal integers convert equally
                a = sext(a, fw, 64) if op == 'sitofp' else zext(a, fw, 64)
                op = 'sitofp'
                fw = 64
            return self.uf('%s_%d_%d' % (op, fw, tw), z3.BitVecSort(fw), z3.BitVecSort(tw))(a)
        if op in ('fptosi', 'fptoui'):
            if isc(a):
                x = f2py(a, fw)
                if x == x and abs(x) < 2.0 ** 63:
                    return int(x) & M(tw)
            a = bv(a, fw)
            if self.fpmode == 'whole' and fw == 64 and tw == 64:
                i = self.whole(a)
                if i is not None and self.small(st, i, 53) and (op == 'fptosi' or not self.feasible(st, i < 0)):
                    return i
            if self.fpmode == 'exact':
                s = z3.Float64() if fw == 64 else z3.Float32()
                fx = z3.fpBVToFP(a, s)
                return (z3.fpToSBV if op == 'fptosi' else z3.fpToUBV)(z3.RTZ(), fx, z3.BitVecSort(tw))
            return self.uf('%s_%d_%d' % (op, fw, tw), z3.BitVecSort(fw), z3.BitVecSort(tw))(a)
        if op in ('fpext', 'fptrunc'):
            if isc(a) and fw <= 64 and tw <= 64:
                try:
                    return py2f(f2py(a, fw), tw)
                except OverflowError:
                    pass
            return self.uf('%s_%d_%d' % (op, fw, tw), z3.BitVecSort(fw), z3.BitVecSort(tw))(bv(a, fw))
        raise Unsupported('cast ' + op)

    def scaled_cmp(self, st, pred, a, b):
        """comparison of multiples of the same number: compare the quotients"""
        def mult(x):
            return isc(x) or kind(x) == z3.Z3_OP_BMUL or (kind(x) == z3.Z3_OP_BADD and
                                                          any(kind(y) == z3.Z3_OP_BMUL for y in x.children()))
        if isc(a) and isc(b) or not mult(a) or not mult(b):
            return None
        ls = [(x & M(64), []) if isc(x) else self.linear(x) for x in (a, b)]
        g = 0
        for c, ts in ls:
            for k, _ in ts:
                g = gcd(g, k)
        if g & (g - 1) == 0 or any(c >= 1 << 62 for c, _ in ls):
            return None
        qs = [self.scaled(st, x, g, l if not isc(x) else None) for x, l in zip((a, b), ls)]
        if None in qs:
            return None
        (qa, ra), (qb, rb) = qs
        qa, qb = bv(qa, 64), bv(qb, 64)
        if pred in ('eq', 'ne'):
            r = norm_bool(qa == qb) if ra == rb else False
            return r if pred == 'eq' else not_(r)
        p = pred[1:]
        if p in ('gt', 'le'):
            r = z3.ULE(qb, qa) if rb < ra else z3.ULT(qb, qa)      # b < a
            return norm_bool(r if p == 'gt' else z3.Not(r))
        r = z3.ULE(qa, qb) if ra < rb else z3.ULT(qa, qb)          # a < b
        return norm_bool(r if p == 'lt' else z3.Not(r))

    def icmp(self, st, pred, ty, a, b):
        ty = self.mod.resolve(ty)
        if ty[0] == 'ptr' or isinstance(a, (Ptr, PIte)) or isinstance(b, (Ptr, PIte)):
            return self.pcmp(st, pred, a, b)
        if ty[0] == 'vec':
            raise Unsupported('vector icmp')
        w = ty[1]
        if w == 1:
            x, y = bool_of(a), bool_of(b)
            if pred in ('eq', 'ne'):
                if type(x) is bool and type(y) is bool:
                    r = x == y
                elif type(y) is bool:
                    r = x if y else not_(x)
                elif type(x) is bool:
                    r = y if x else not_(y)
                else:
                    r = x == y
                return r if pred == 'eq' else not_(r)
            raise Unsupported('i1 icmp')
        if w == 64:
            r = self.scaled_cmp(st, pred, a, b)
            if r is not None:
                return r
        if pred == 'eq':
            return eq(a, b, w)
        if pred == 'ne':
            return not_(eq(a, b, w))
        if isc(a) and isc(b):
            if pred[0] == 's':
                a, b = sgn(a, w), sgn(b, w)
            return {'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[pred[1:]]
        a, b = bv(a, w), bv(b, w)
        if pred[0] == 'u':
            # compare zero-extended small values in their own width
            r = {'ugt': z3.UGT, 'uge': z3.UGE, 'ult': z3.ULT, 'ule': z3.ULE}[pred](a, b)
        else:
            r = {'sgt': a > b, 'sge': a >= b, 'slt': a < b, 'sle': a <= b}[pred]
        if z3.is_bv_value(a) or z3.is_bv_value(b) or kind(a) == K_ITE or kind(b) == K_ITE:
            return simp(r)
        return r

    def pcmp(self, st, pred, a, b):
        if isinstance(a, PIte):
            x, y = self.pcmp(st, pred, a.a, b), self.pcmp(st, pred, a.b, b)
            return or_(and_(a.c, x), and_(not_(a.c), y))
        if isinstance(b, PIte):
            x, y = self.pcmp(st, pred, a, b.a), self.pcmp(st, pred, a, b.b)
            return or_(and_(b.c, x), and_(not_(b.c), y))
        if not isinstance(a, Ptr):
            a = self.int_to_ptr(st, a)
        if not isinstance(b, Ptr):
            b = self.int_to_ptr(st, b)
        if a.r == b.r:
            if isinstance(a.r, tuple):
                return {'eq': True, 'ne': False, 'ule': True, 'uge': True}.get(pred, False)
            if pred == 'eq':
                return eq(a.o, b.o, 64)
            if pred == 'ne':
                return not_(eq(a.o, b.o, 64))
            # offsets within one object: compare as signed (one-past and before-begin stay ordered)
            if pred[0] == 'u' and a.r != 0:
                pred = 's' + pred[1:]
            return self.icmp(st, pred, ('i', 64), a.o, b.o)
        if pred in ('eq', 'ne'):
            if a.r == 0 or b.r == 0:
                z = a if a.r == 0 else b
                if isc(z.o) and z.o < 4096:
                    r = False
                else:
                    # unknown address against an object: never equal unless derived from it
                    r = eq(self.ptr_to_int(st, a), self.ptr_to_int(st, b), 64)
            elif isinstance(a.r, tuple) or isinstance(b.r, tuple):
                r = False
            else:
                # distinct objects; a one-past-the-end pointer is assumed to differ from another object's base
                r = False
            return r if pred == 'eq' else not_(r)
        return self.icmp(st, pred, ('i', 64), self.ptr_to_int(st, a), self.ptr_to_int(st, b))

    # --------------------------------------------------------------- control
    def cfg(self, fn):
        c = self.cfgs.get(fn.name)
        if c is None:
            c = CFG(fn)
            self.cfgs[fn.name] = c
        return c

    def key(self, st):
        out = []
        for f in st.frames:
            out.extend(self.cfg(f.fn).key(f))
        return (st.tag, tuple(out))

    def sig(self, st):
        return (tuple((f.fn.name, f.block, f.ip, f.uid if False else 0) for f in st.frames),
                st.exc[0] if st.exc else None, tuple(c[0] for c in st.caught))

    def push(self, st, name, args, ret_to=None):
        fn = self.mod.functions[name].parse()
        if len(st.frames) > 200:
            raise Unsupported('call depth')
        f = Frame.__new__(Frame)
        f.fn = fn
        f.block = fn.order[0]
        f.ip = 0
        f.regs = {}
        f.allocas = []
        f.ret_to = ret_to
        f.iters = {}
        f.cut = {}
        f.names = {}
        f.uid = next(self.uid)
        for (ty, nm, byval), v in zip(fn.params, args):
            if byval is not None:
                n = self.mod.size(byval)
                r = self.new_region(st, nm + '.byval', n, 'stack')
                f.allocas.append(r.id)
                self.memcpy(st, Ptr(r.id, 0), v, n)
                v = Ptr(r.id, 0)
            f.regs[nm] = v
        st.frames.append(f)
        self.functions_used[name] = self.functions_used.get(name, 0) + 1
        return f

    def goto(self, st, target):
        f = st.frames[-1]
        prev = f.block
        blk = f.fn.blocks[target]
        # phis read the old registers
        new = {}
        ip = 0
        while ip < len(blk) and blk[ip].op == 'phi':
            ins = blk[ip]
            new[ins.dst] = self.val(st, ins.ty, ins.x[prev])
            ip += 1
        f.regs.update(new)
        cfg = self.cfg(f.fn)
        for h, body in cfg.loops.items():
            if target == h:
                if prev in body:
                    f.iters[h] = f.iters.get(h, 0) + 1
                    if self.bound and f.iters[h] > self.bound and not self.dry and h not in f.cut:
                        self.bounded.add('%s:%s' % (f.fn.name, h))
                        raise Dead()
                    if f.iters[h] > self.unroll and h not in f.cut:
                        f.block = target
                        f.ip = ip
                        raise Unsupported('unwinding bound %d reached in %s %s' % (self.unroll, f.fn.name, self.where(st)[1]))
                else:
                    f.iters[h] = 0
                    f.cut.pop(h, None)
                break
        f.block = target
        f.ip = ip

    def pop(self, st):
        f = st.frames.pop()
        for a in f.allocas:
            st.mem.pop(a, None)
            st.own.discard(a)
        return f

    def run(self, states, base, stop=None):
        """run until frames drop below `base` (or stop(state) holds); returns the ended states"""
        done = []
        heap = []
        cnt = itertools.count()
        for s in states:
            heapq.heappush(heap, (self.key(s), next(cnt), s))
        while heap:
            k, _, st = heapq.heappop(heap)
            same = [st]
            if self.merge_on:
                self.eqonly = self.no_merge(st)
                while heap and heap[0][0] == k:
                    same.append(heapq.heappop(heap)[2])
                if len(same) > 1:
                    same = self.merge_equal(same) if self.eqonly else self.merge_all(same)
                self.eqonly = False
            while same:
                st = same.pop()
                if self.deadline and time.time() > self.deadline:
                    raise Unsupported('time budget exhausted')
                try:
                    sp = self.cut_point(st)
                    if sp is not None:
                        st = sp
                    out = self.advance(st, base, bool(heap) or bool(same))
                except Dead:
                    continue
                for s in out:
                    if len(s.frames) < base:
                        done.append(s)
                    elif stop is not None and stop(s):
                        done.append(s)
                    else:
                        heapq.heappush(heap, (self.key(s), next(cnt), s))
        return done

    def advance(self, st, base, others):
        """execute until a control transfer that may need merging; returns successor states"""
        while True:
            f = st.frames[-1]
            ins = f.fn.blocks[f.block][f.ip]
            self.steps += 1
            if self.trace:
                print('  ' * len(st.frames), f.fn.name[:40], f.block, ins)
            try:
                r = self.step(st, f, ins)
            except Fork as fk:
                return fk.states
            if r is None:
                continue
            if r == 'jump':
                if len(st.frames) < base:
                    return [st]
                return [st]
            return r

    def branch(self, st, cond, ta, tb):
        c = cond
        if type(c) is bool:
            self.goto(st, ta if c else tb)
            return 'jump'
        c = simp(c)
        if type(c) is bool:
            self.goto(st, ta if c else tb)
            return 'jump'
        if ta == tb:
            self.goto(st, ta)
            return 'jump'
        nc = not_(c)
        mt = None
        if st.model is not None:
            v = st.model.eval(c, model_completion=True)
            mt = True if z3.is_true(v) else False if z3.is_false(v) else None
        self._lastmodel = None
        ft = True if mt is True else self.feasible(st, c)
        m1 = st.model if mt is True else self._lastmodel
        self._lastmodel = None
        ff = True if mt is False else (self.feasible(st, nc))
        m2 = st.model if mt is False else self._lastmodel
        if not ft and not ff:
            raise Dead()
        if not ff:
            st.model = m1 or st.model
            self.goto(st, ta)
            return 'jump'
        if not ft:
            st.model = m2 or st.model
            self.goto(st, tb)
            return 'jump'
        s2 = st.fork()
        st.pc.append(c)
        st.model = m1
        s2.pc.append(nc)
        s2.model = m2
        self.goto(st, ta)
        self.goto(s2, tb)
        return [st, s2]

    def step(self, st, f, ins):
        op = ins.op
        regs = f.regs
        if op == 'load':
            regs[ins.dst] = self.load(st, self.val(st, ('ptr',), ins.ops[0]), ins.ty)
        elif op == 'store':
            self.store(st, self.val(st, ('ptr',), ins.ops[1]), self.val(st, ins.ty, ins.ops[0]), ins.ty)
        elif op == 'gep':
            sty, idx = ins.x
            regs[ins.dst] = self.gep(st, sty, self.val(st, ('ptr',), ins.ops[0]),
                                     [(t, self.val(st, t, o)) for t, o in idx])
        elif op == 'alloca':
            n = self.mod.size(ins.ty)
            if ins.x is not None:
                cnt = self.val(st, ins.x[0], ins.x[1])
                n = mul(zext(cnt, ins.x[0][1], 64), n, 64)
            if isinstance(n, int):
                r = self.new_region(st, ins.dst, n, 'stack')
            else:       # variable length array
                w = self.mod.size(ins.ty)
                r = self.new_region(st, ins.dst, n, 'stack', Arr(z3.Const('%s!%d' % (ins.dst, next(self.fresh_n)), sort_of(w)), w))
                r.count = zext(cnt, ins.x[0][1], 64)
            f.allocas.append(r.id)
            regs[ins.dst] = Ptr(r.id, 0)
            f.names[ins.dst] = (r.id, ins.ty)
        elif op == 'br':
            if len(ins.x) == 1:
                self.goto(st, ins.x[0])
                return 'jump'
            c = bool_of(self.val(st, ('i', 1), ins.ops[0]))
            return self.branch(st, c, ins.x[0], ins.x[1])
        elif op == 'bin':
            regs[ins.dst] = self.binop(st, ins.x, ins.ty, self.val(st, ins.ty, ins.ops[0]),
                                       self.val(st, ins.ty, ins.ops[1]))
        elif op == 'icmp':
            regs[ins.dst] = self.icmp(st, ins.x, ins.ty, self.val(st, ins.ty, ins.ops[0]),
                                      self.val(st, ins.ty, ins.ops[1]))
        elif op == 'fcmp':
            regs[ins.dst] = fcmp(ins.x, self.val(st, ins.ty, ins.ops[0]), self.val(st, ins.ty, ins.ops[1]), ins.ty[1])
        elif op == 'fneg':
            w = ins.ty[1]
            a = self.val(st, ins.ty, ins.ops[0])
            regs[ins.dst] = a ^ (1 << (w - 1)) if isc(a) else a ^ z3.BitVecVal(1 << (w - 1), w)
        elif op == 'cast':
            cop, ft = ins.x
            regs[ins.dst] = self.cast(st, cop, ft, self.val(st, ft, ins.ops[0]), ins.ty)
        elif op in ('call', 'invoke'):
            return self.call(st, f, ins)
        elif op == 'ret':
            v = None
            if ins.ty != VOID:
                v = self.val(st, ins.ty, ins.ops[0])
            return self.do_ret(st, v)
        elif op == 'select':
            c = bool_of(self.val(st, ('i', 1), ins.ops[0]))
            a = self.val(st, ins.ty, ins.ops[1])
            b = self.val(st, ins.ty, ins.ops[2])
            if type(c) is bool:
                regs[ins.dst] = a if c else b
            else:
                regs[ins.dst] = self.mergeval(c, a, b, self.mod.resolve(ins.ty))
        elif op == 'switch':
            return self.do_switch(st, ins)
        elif op == 'extractvalue':
            v = self.val(st, ins.ty, ins.ops[0])
            for i in ins.x:
                v = v.v[i]
            regs[ins.dst] = v
        elif op == 'insertvalue':
            idx, ety = ins.x
            v = self.val(st, ins.ty, ins.ops[0])
            e = self.val(st, ety, ins.ops[1])
            regs[ins.dst] = self.insert(v, idx, e)
        elif op == 'landingpad':
            self.do_landing(st, f, ins)
        elif op == 'resume':
            v = self.val(st, ins.ty, ins.ops[0])
            return self.unwind(st)
        elif op == 'unreachable':
            self.check(st, False, 'safety', 'unreachable code reached')
            raise Dead()
        elif op == 'freeze':
            regs[ins.dst] = self.val(st, ins.ty, ins.ops[0])
        elif op == 'fence':
            pass
        elif op == 'atomicrmw':
            p = self.val(st, ('ptr',), ins.ops[0])
            v = self.val(st, ins.ty, ins.ops[1])
            old = self.load(st, p, ins.ty)
            if ins.x == 'xchg':
                new = v
            elif ins.x in ('add', 'sub', 'and', 'or', 'xor'):
                new = self.binop(st, ins.x, ins.ty, old, v)
            else:
                raise Unsupported('atomicrmw ' + ins.x)
            self.store(st, p, new, ins.ty)
            regs[ins.dst] = old
        elif op == 'cmpxchg':
            p = self.val(st, ('ptr',), ins.ops[0])
            c = self.val(st, ins.ty, ins.ops[1])
            n = self.val(st, ins.ty, ins.ops[2])
            old = self.load(st, p, ins.ty)
            e = self.icmp(st, 'eq', ins.ty, old, c)
            rt = self.mod.resolve(ins.ty)
            if type(e) is bool:
                new = n if e else old
            else:
                new = self.mergeval(e, n, old, rt)
            self.store(st, p, new, ins.ty)
            regs[ins.dst] = Agg([old, e])
        else:
            raise Unsupported('instruction ' + op)
        f.ip += 1
        return None

    def insert(self, agg, idx, e):
        v = list(agg.v)
        if len(idx) == 1:
            v[idx[0]] = e
        else:
            v[idx[0]] = self.insert(v[idx[0]], idx[1:], e)
        return Agg(v)

    def do_switch(self, st, ins):
        v = self.val(st, ins.ty, ins.ops[0])
        d, cases = ins.x
        if isc(v):
            for c, l in cases:
                if c == v:
                    self.goto(st, l)
                    return 'jump'
            self.goto(st, d)
            return 'jump'
        w = ins.ty[1]
        by = {}
        for c, l in cases:
            by.setdefault(l, []).append(c)
        opts = []
        rest = []
        for l, cs in by.items():
            conds = [zb(eq(v, c, w)) for c in cs]
            cond = simp(z3.Or(*conds) if len(conds) > 1 else conds[0])
            rest.append(not_(cond))
            opts.append((cond, l))
        opts.append((simp(zb(and_(*rest))), d))
        out = []
        for cond, l in opts:
            self._lastmodel = None
            if type(cond) is bool:
                if cond:
                    self.goto(st, l)
                    return 'jump'
                continue
            if self.feasible(st, cond):
                s = st.fork()
                s.pc.append(cond)
                s.model = self._lastmodel
                out.append((s, l))
        if not out:
            raise Dead()
        for s, l in out:
            self.goto(s, l)
        return [s for s, _ in out]

    def do_ret(self, st, v):
        f = self.pop(st)
        ins = f.ret_to
        if not st.frames or ins is None:
            st.ret = v
            return [st]
        c = st.frames[-1]
        if ins.dst is not None:
            c.regs[ins.dst] = v
        if ins.op == 'invoke':
            self.goto(st, ins.x[1][0])
        else:
            c.ip += 1
        return [st]

    # ------------------------------------------------------------ exceptions
    def throw(self, st, tinfo, obj):
        st.exc = (tinfo, obj)
        return self.unwind(st)

    def unwind(self, st):
        """st.exc is in flight; the top frame's current instruction raised it"""
        first = True
        while st.frames:
            f = st.frames[-1]
            ins = f.fn.blocks[f.block][f.ip]
            if ins.op == 'invoke' :
                self.goto(st, ins.x[1][1])
                return 'jump'
            ret_to = f.ret_to
            self.pop(st)
            if ret_to is None:
                return [st]
        return [st]

    def do_landing(self, st, f, ins):
        tinfo, obj = st.exc
        sel = 0
        hit = False
        for kind_, c in ins.x:
            if kind_ == 'cleanup':
                continue
            if kind_ == 'catch':
                if c[0] == 'null':
                    sel = self.typeid(None)
                    hit = True
                    break
                nm = c[1]
                if exc_matches(tinfo, nm):
                    sel = self.typeid(nm)
                    hit = True
                    break
            else:
                raise Unsupported('filter clause')
        f.regs[ins.dst] = Agg([obj, sel])

    def typeid(self, nm):
        if nm not in self.typeids:
            self.typeids[nm] = len(self.typeids) + 1
        return self.typeids[nm]

    # ----------------------------------------------------------------- calls
    def resolve_callee(self, st, callee):
        if callee[0] == 'asm':
            return ('asm', callee[1])
        v = self.val(st, ('ptr',), callee)
        if isinstance(v, PIte):
            cs = [(c, p) for c, p in self.ptr_cases(st, v) if self.feasible(st, c)]
            if len(cs) == 1:
                v = cs[0][1]
            else:
                out = []
                for c, p in cs:
                    s = st.fork()
                    s.model = None
                    s.pc.append(zb(c))
                    out.append(s)
                raise Fork(out)
        if isinstance(v, Ptr) and isinstance(v.r, tuple):
            return v.r[1]
        self.check(st, False, 'safety', 'call through a pointer that is no function')
        raise Dead()

    def call(self, st, f, ins):
        callee, labels = ins.x
        name = self.resolve_callee(st, callee)
        if isinstance(name, tuple):
            raise Unsupported('inline asm ' + name[1])
        if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime') or name.startswith('llvm.assume') or \
                name.startswith('llvm.experimental.noalias') or name.startswith('llvm.stack'):
            f.ip += 1
            if ins.dst:
                f.regs[ins.dst] = NULL
            return None
        args = [self.val(st, ty, o) for ty, o, bvl in ins.ops if ty != ('metadata',)]
        target = self.replacement(name)
        if target is not None:
            inside = any(fr.fn.name == target for fr in st.frames)
            if not inside:
                self.stubs_used[name] = target
                self.push(st, target, args, ins)
                return None
        import intrin
        h = intrin.lookup(name)
        if h is not None and not (name in self.mod.functions and not name.startswith(('vp_', 'llvm.'))):
            r = h(self, st, f, ins, name, args)
            if r is None or r is intrin.NORET:
                return self.finish_call(st, f, ins, None)
            if isinstance(r, intrin.Ret):
                return self.finish_call(st, f, ins, r.v)
            if isinstance(r, intrin.Throw):
                return self.throw(st, r.tinfo, r.obj)
            if isinstance(r, intrin.Called):
                return None
            return r        # control result
        if name in self.mod.functions:
            for o in self.opaque:
                if o.search(name):
                    return self.opaque_call(st, f, ins, name)
            self.push(st, name, args, ins)
            return None
        for o in self.opaque:
            if o.search(name):
                return self.opaque_call(st, f, ins, name)
        if 'vpm_' + name.lstrip('_') in self.mod.functions:
            self.stubs_used[name] = 'vpm_' + name.lstrip('_')
            self.push(st, 'vpm_' + name.lstrip('_'), args, ins)
            return None
        raise Unsupported('call to unmodelled function %s at %s' % (name, self.where(st)))

    def opaque_call(self, st, f, ins, name):
        self.opaque_used[name] = self.opaque_used.get(name, 0) + 1
        v = None
        if ins.ty != VOID:
            rt = self.mod.resolve(ins.ty)
            if rt[0] == 'ptr':
                # an opaque object of its own
                r = self.new_region(st, 'opaque:' + name, 4096, 'heap')
                v = Ptr(r.id, 0)
            elif rt[0] in ('i', 'f'):
                v = self.fresh(rt[1], 'ret')
            else:
                v = self.zero(rt, True)
        return self.finish_call(st, f, ins, v)

    def replacement(self, name):
        if name in self.replace_cache:
            return self.replace_cache[name]
        r = None
        for rx, t in self.replace:
            if rx.search(name):
                r = t
                break
        self.replace_cache[name] = r
        return r

    def finish_call(self, st, f, ins, v):
        if ins.dst is not None:
            f.regs[ins.dst] = v
        if ins.op == 'invoke':
            self.goto(st, ins.x[1][0])
            return 'jump'
        f.ip += 1
        return None

    # --------------------------------------------------------------- copying
    def memcpy(self, st, dst, src, n):
        if isc(n) and n == 0:
            return
        if not isinstance(dst, (Ptr, PIte)):
            dst = self.int_to_ptr(st, dst)
        if not isc(n):
            n = simp(n)
        if isc(n):
            if n == 0:
                return
            dst = self.deref(st, dst, n, True)
            src = self.deref(st, src, n, False)
            sc = self.content(st, src.r)
            dc = self.content(st, dst.r)
            if isinstance(sc, Cells) and isc(src.o) and isinstance(dc, Cells) and isc(dst.o):
                # cell-wise, pointers survive
                sc = self.own(st, src.r)
                cells = []
                i = src.o
                end = src.o + n
                # split cells crossing the borders
                for b in (src.o, end):
                    for back in range(1, 16):
                        cell = sc.d.get(b - back)
                        if cell is not None:
                            if cell[0] > back:
                                self.split(sc, b - back)
                            break
                while i < end:
                    cell = sc.d.get(i)
                    if cell is None:
                        if sc.default == 'zero':
                            cells.append((i, 1, 0))
                        i += 1
                    else:
                        cells.append((i, cell[0], cell[1]))
                        i += cell[0]
                dc = self.own(st, dst.r)
                if self.wlog is not None:
                    self.wlog.append((dst.r, dst.o, n))
                self.cells_clear(dc, dst.o, n)
                if dc.default == 'zero' and sc.default != 'zero':
                    # source bytes not written are unknown
                    covered = set()
                    for i, s_, v in cells:
                        covered.update(range(i, i + s_))
                    for i in range(src.o, end):
                        if i not in covered:
                            dc.d[i - src.o + dst.o] = (1, self.fresh(8, 'uninit'))
                for i, s_, v in cells:
                    dc.d[i - src.o + dst.o] = (s_, v)
                return
            if n <= 512:
                bs = self.load_bytes(st, src.r, src.o, n)
                if any(type(b) is tuple for b in bs):
                    raise Unsupported('pointer copied into a byte array')
                if n % 8 == 0:
                    for k in range(0, n, 8):
                        self.store_raw(st, dst.r, add(dst.o, k, 64), 8, concat([(b, 8) for b in reversed(bs[k:k + 8])]))
                    return
                for k, b in enumerate(bs):
                    self.store_raw(st, dst.r, add(dst.o, k, 64), 1, b)
                return
        else:
            # bounds
            dst, src = self.range_ok(st, dst, n, True), self.range_ok(st, src, n, False)
            if dst is None or src is None:
                return
        sa = self.to_arr(st, src.r).a
        da = self.to_arr(st, dst.r).a
        if self.wlog is not None:
            self.wlog.append((dst.r, None, None))
        i = z3.BitVec('cpy!i', 64)
        d, s, nn = bv(dst.o, 64), bv(src.o, 64), bv(n, 64)
        st.mem[dst.r] = Arr(z3.Lambda([i], z3.If(z3.ULT(i - d, nn), z3.Select(sa, i - d + s), z3.Select(da, i))))
        st.own.add(dst.r)

    def range_ok(self, st, p, n, write):
        """[p,p+n) accessible, n symbolic; n==0 allowed with any pointer"""
        if isinstance(p, PIte):
            p = self.deref(st, p, 0, write)
        if p.r == 0 or isinstance(p.r, tuple):
            self.check(st, bv(n, 64) == 0, 'safety', 'null or wild pointer dereference')
            return None
        reg = self.regions[p.r]
        if self.content(st, p.r) is None:
            self.check(st, bv(n, 64) == 0, 'safety', 'access to dead object ' + reg.name)
            return None
        o, s, nn = bv(p.o, 64), bv(reg.size, 64), bv(n, 64)
        self.check(st, z3.Or(nn == 0, z3.And(z3.ULE(nn, s), z3.ULE(o, s - nn))), 'safety',
                   'out of bounds %s %s' % ('write' if write else 'read', reg.name))
        return p

    def memset(self, st, dst, b, n):
        if not isc(n):
            n = simp(n)
        if isc(n):
            if n == 0:
                return
            dst = self.deref(st, dst, n, True)
            c = self.content(st, dst.r)
            if isinstance(c, Cells) and isc(dst.o):
                c = self.own(st, dst.r)
                if self.wlog is not None:
                    self.wlog.append((dst.r, dst.o, n))
                reg = self.regions[dst.r]
                if isc(b) and b == 0 and dst.o == 0 and n == reg.size:
                    c.d.clear()
                    c.default = 'zero'
                    return
                self.cells_clear(c, dst.o, n)
                for k in range(n):
                    c.d[dst.o + k] = (1, b)
                return
            if n <= 64:
                for k in range(n):
                    self.store_raw(st, dst.r, add(dst.o, k, 64), 1, b)
                return
        else:
            dst = self.range_ok(st, dst, n, True)
            if dst is None:
                return
        da = self.to_arr(st, dst.r).a
        if self.wlog is not None:
            self.wlog.append((dst.r, None, None))
        i = z3.BitVec('cpy!i', 64)
        d, nn = bv(dst.o, 64), bv(n, 64)
        st.mem[dst.r] = Arr(z3.Lambda([i], z3.If(z3.ULT(i - d, nn), bv(b, 8), z3.Select(da, i))))
        st.own.add(dst.r)

    # --------------------------------------------------------------- merging
    def no_merge(self, st):
        for f in st.frames:
            n = f.fn.name
            r = self.nomerge_cache.get(n)
            if r is None:
                r = any(rx.search(n) for rx in self.nomerge)
                self.nomerge_cache[n] = r
            if r:
                return True
        return False

    def live_at(self, fn, block, ip):
        """registers of fn that may be read from (block, ip) on"""
        if fn is BarrierFn:
            return ()
        k = ('live', fn.name)
        d = self.hooks.get(k)
        if d is None:
            d = self.hooks[k] = Live(fn, self.cfg(fn))
        return d.at(block, ip)

    def merge_equal(self, sts):
        """merge states that differ in their path condition only"""
        groups = {}
        for s in sts:
            groups.setdefault(self.fingerprint(s), []).append(s)
        out = []
        for g in groups.values():
            out += g if len(g) == 1 else self.merge_all(g)
        return out

    def fingerprint(self, s):
        out = [tuple(s.tag)]
        for f in s.frames:
            lv = self.live_at(f.fn, f.block, f.ip)
            out.append((id(f.fn), f.block, f.ip, tuple(sorted((r, vkey(v)) for r, v in f.regs.items()
                                                              if r in lv or r[0] == '$'))))
        for rid, c in sorted(s.mem.items(), key=lambda x: str(x[0])):
            if isinstance(c, Arr):
                out.append((rid, c.a.get_id()))
            else:
                out.append((rid, tuple(sorted((o, x[0], vkey(x[1])) for o, x in c.d.items()))))
        return hash(tuple(out))

    def merge_all(self, sts):
        out = []
        for s in sts:
            for i, t in enumerate(out):
                m = self.merge(t, s)
                if m is not None:
                    out[i] = m
                    break
            else:
                out.append(s)
        return out

    def merge(self, a, b):
        if len(a.frames) != len(b.frames) or a.tag != b.tag:
            return None
        for x, y in zip(a.frames, b.frames):
            if x.fn is not y.fn or x.block != y.block or x.ip != y.ip or x.iters != y.iters or \
                    x.ret_to is not y.ret_to or set(x.cut) != set(y.cut):
                return None
            if any(x.cut[h] is not y.cut[h] for h in x.cut):
                return None
        if (a.exc is None) != (b.exc is None) or (a.exc and a.exc[0] != b.exc[0]):
            return None
        if [c[0] for c in a.caught] != [c[0] for c in b.caught]:
            return None
        n = 0
        la, lb = a.pc, b.pc
        while n < len(la) and n < len(lb) and la[n].eq(lb[n]):
            n += 1
        ra, rb = la[n:], lb[n:]
        # facts that follow on both sides stay
        ga = zb(and_(*ra)) if ra else TRUE
        gb = zb(and_(*rb)) if rb else TRUE
        if not ra or not rb:
            return None
        try:
            s = State.__new__(State)
            s.own = set()
            s.exc = a.exc
            if a.exc:
                s.exc = (a.exc[0], self.mergeval(ga, a.exc[1], b.exc[1]))
            s.caught = list(a.caught)
            s.ret = None
            s.freed = a.freed
            s.tag = a.tag
            s.frames = []
            amap = {}
            for x, y in zip(a.frames, b.frames):
                f = x.copy()
                lv = self.live_at(x.fn, x.block, x.ip)
                for r in [r for r in f.regs if r not in lv and r[0] != '$']:
                    del f.regs[r]
                for r, v in y.regs.items():
                    if r not in lv and r[0] != '$':
                        continue
                    if r in x.regs:
                        u = x.regs[r]
                        if u is not v:
                            try:
                                f.regs[r] = self.mergereg(ga, u, v, x.fn, r)
                            except NoMerge:
                                return None
                    else:
                        f.regs[r] = v
                al = set(x.allocas)
                f.allocas = list(x.allocas) + [q for q in y.allocas if q not in al]
                f.names = dict(y.names)
                f.names.update(x.names)
                s.frames.append(f)
            s.mem = {}
            for rid in set(a.mem) | set(b.mem):
                ca = a.mem.get(rid)
                cb = b.mem.get(rid)
                if ca is cb:
                    s.mem[rid] = ca
                    continue
                if ca is None:
                    ca = self.ginit.get(rid)
                if cb is None:
                    cb = self.ginit.get(rid)
                if ca is None or cb is None:
                    s.mem[rid] = ca if ca is not None else cb
                    continue
                s.mem[rid] = self.mergecontent(ga, ca, cb, rid, a, b)
            if len(ra) == 1 and len(rb) == 1 and (not_(ra[0]).eq(rb[0]) or not_(rb[0]).eq(ra[0])):
                s.pc = la[:n]
            else:
                d = simp(z3.Or(ga, gb))
                s.pc = la[:n] + ([] if d is True else [zb(d)])
            k = 0
            while k < len(a.log) and k < len(b.log) and a.log[k] is b.log[k]:
                k += 1
            s.log = a.log[:k]
            for g, l in ((ga, a.log[k:]), (gb, b.log[k:])):
                for e in l:
                    s.log.append((e[0], e[1], e[2], z3.And(e[3], g) if e[3] is not None else g))
            s.model = a.model if a.model is not None else b.model
            return s
        except NoMerge:
            return None

    def mergereg(self, g, u, v, fn, r):
        if type(u) in (int, bool) and type(v) in (int, bool):
            if int(u) == int(v):
                return u
            w = self.regwidth(fn, r)
            if w is None:
                raise NoMerge()
            return self.mergeval(g, int(u), int(v), ('i', w))
        if isinstance(u, Agg):
            out = []
            for x, y in zip(u.v, v.v):
                if type(x) in (int, bool) and type(y) in (int, bool) and int(x) != int(y):
                    raise NoMerge()
                out.append(self.mergeval(g, x, y))
            return Agg(out)
        if u is None or v is None:
            return None
        return self.mergeval(g, u, v)

    def regwidth(self, fn, r):
        k = ('rw', fn.name)
        d = self.hooks.get(k)
        if d is None:
            d = {}
            for b in fn.blocks.values():
                for i in b:
                    if i.dst is not None:
                        if i.op in ('icmp', 'fcmp'):
                            d[i.dst] = 1
                        elif i.ty is not None and i.ty[0] in ('i', 'f') and i.op not in ('extractvalue',):
                            d[i.dst] = i.ty[1]
            for ty, nm, _ in fn.params:
                if ty[0] in ('i', 'f'):
                    d[nm] = ty[1]
            self.hooks[k] = d
        return d.get(r)

    def mergecontent(self, g, ca, cb, rid, a, b):
        if isinstance(ca, Arr) or isinstance(cb, Arr):
            if isinstance(ca, Cells):
                ca = self.to_arr(a, rid)
            if isinstance(cb, Cells):
                cb = self.to_arr(b, rid)
            if ca.a.eq(cb.a):
                return ca
            if self.eqonly:
                raise NoMerge()
            return Arr(z3.If(g, ca.a, cb.a), ca.w)
        if ca.default != cb.default:
            if isc(self.regions[rid].size) and self.regions[rid].size <= 256:
                if ca.default == 'zero':
                    ca = self.fill(ca, rid)
                if cb.default == 'zero':
                    cb = self.fill(cb, rid)
            else:
                raise NoMerge()
        da, db = ca.d, cb.d
        # align the cells
        diff = [o for o in set(da) | set(db) if da.get(o) is not db.get(o) and
                (o not in da or o not in db or da[o][0] != db[o][0])]
        if diff:
            ca, cb = ca.copy(), cb.copy()
            da, db = ca.d, cb.d
            for o in diff:
                x, y = da.get(o), db.get(o)
                if x is not None and y is None:
                    self.align(cb, ca, o)
                elif y is not None and x is None:
                    self.align(ca, cb, o)
                elif x is not None and y is not None and x[0] != y[0]:
                    if x[0] > y[0]:
                        self.nsplit(ca, o)
                        self.nsplit(cb, o)
                    else:
                        self.nsplit(cb, o)
                        self.nsplit(ca, o)
            # after alignment, anything still different in shape: bytes
            for o in sorted(set(da) | set(db)):
                x, y = da.get(o), db.get(o)
                if (x is None) != (y is None) or (x is not None and y is not None and x[0] != y[0]):
                    if x is not None:
                        self.nsplit(ca, o)
                    if y is not None:
                        self.nsplit(cb, o)
        out = {}
        undef = ca.default != 'zero'
        for o in set(da) | set(db):
            x, y = da.get(o), db.get(o)
            if x is y:
                out[o] = x
                continue
            if x is None or y is None:
                z = x or y
                sz, v = z
                if self.eqonly and not undef:
                    raise NoMerge()
                if undef and self.eqonly:
                    continue
                if undef:
                    if isinstance(v, (Ptr, PIte)):
                        out[o] = z
                        continue
                    oth = self.fresh(8 * sz, 'uninit')
                else:
                    oth = NULL if isinstance(v, (Ptr, PIte)) else 0
                out[o] = (sz, self.mergeval(g, v, oth, ('i', 8 * sz)) if x is not None
                          else self.mergeval(g, oth, v, ('i', 8 * sz)))
                continue
            if x[0] != y[0]:
                raise NoMerge()
            u, v = x[1], y[1]
            if type(u) is int and type(v) is int and u == v:
                out[o] = x
            else:
                out[o] = (x[0], self.mergeval(g, self.cellval(u, x[0]), self.cellval(v, x[0]), ('i', 8 * x[0])))
        return Cells(out, ca.default)

    def cellval(self, v, n):
        if type(v) is bool or (z3.is_expr(v) and z3.is_bool(v)):
            return bv(v, 8 * n)
        return v

    def fill(self, c, rid):
        c = c.copy()
        size = self.regions[rid].size
        cov = set()
        for o, (s, v) in c.d.items():
            cov.update(range(o, o + s))
        for i in range(size):
            if i not in cov:
                c.d[i] = (1, 0)
        c.default = 'undef'
        return c

    def align(self, c, other, o):
        """make cell boundaries of c meet at o and o+size(other[o])"""
        for b in (o, o + other.d[o][0]):
            for back in range(1, 16):
                cell = c.d.get(b - back)
                if cell is not None:
                    if cell[0] > back:
                        self.nsplit(c, b - back)
                    break

    def nsplit(self, c, o):
        sz, v = c.d[o]
        if sz == 1:
            return
        if isinstance(v, (Ptr, PIte)):
            raise NoMerge()
        self.split(c, o)

    # ------------------------------------------------------------ loop cuts
    def loop_spec(self, fn, header):
        k = (fn.name, header)
        if k in self.loopspec_cache:
            return self.loopspec_cache[k]
        r = None
        hs = self.cfg(fn).headers
        n = hs.index(header)
        for sp in self.loop_specs:
            if re.search(sp['fn'], fn.name) and sp.get('nth', 0) == n:
                r = sp
                break
        if r is None and fn.name.startswith(('_ZN2tt', '_ZNK2tt', '_ZZN2tt', '_ZN2ttL')):
            # the loop may have moved into a helper: a specification whose function has lost its loop
            # goes to the first loop that has the variables it talks about
            for sp in self.loop_specs:
                if self.orphan(sp) and n == sp.get('nth', 0) and self.has_locals(fn, sp):
                    r = sp
                    break
        self.loopspec_cache[k] = r
        return r

    def orphan(self, sp):
        k = id(sp)
        o = self.orphans.get(k)
        if o is None:
            o = True
            for nm, fn in self.mod.functions.items():
                if re.search(sp['fn'], nm) and len(self.cfg(fn.parse()).headers) > sp.get('nth', 0):
                    o = False
                    break
            self.orphans[k] = o
        return o

    def has_locals(self, fn, sp):
        names = {i.dst for b in fn.blocks.values() for i in b if i.op == 'alloca'}
        for n in sp.get('args', []):
            if not any(x in names or x + '.addr' in names for x in n.lstrip('*').split('|')):
                return False
        return True

    def ghost(self, st, sp):
        """run the ghost code of a loop at its head; returns the state after it"""
        f = st.frames[-1]
        args = self.inv_args(st, f, sp.get('args', []), sp['ghost'])
        n = len(st.frames)
        st.frames.append(self.barrier())
        self.push(st, sp['ghost'], args, None)
        ends = self.run([st], n + 2)
        if len(ends) > 1:
            ends = self.merge_all(ends)
        if not ends:
            raise Dead()            # the path turned out infeasible
        if len(ends) != 1:
            raise Unsupported('ghost code of a loop ends in %d states' % len(ends))
        s = ends[0]
        while len(s.frames) > n:
            s.frames.pop()
        return s

    def cut_point(self, st):
        """called when st is about to run; handles loop headers with an invariant"""
        f = st.frames[-1]
        cfg = self.cfg(f.fn)
        if f.block not in cfg.loops:
            return None
        if self.first_nonphi(f) != f.ip:
            return None
        sp = self.loop_spec(f.fn, f.block)
        if sp is None:
            if not self.dry and f.iters.get(f.block, 0) > 0:
                k = '%s:%s' % (f.fn.name, f.block)
                self.loops_unrolled[k] = max(self.loops_unrolled.get(k, 0), f.iters[f.block])
            return None
        if 'head' in sp:
            if f.iters.get(f.block, 0) == 0:
                for iv in sp['head']:
                    c = self.eval_fn(st, iv, self.inv_args(st, f, sp.get('args', []), iv))
                    self.check(st, c, 'simulation', 'initially: ' + iv)
            return None
        if 'tele' in sp:
            return self.simulate(st, f, sp)
        if f.block in f.cut:
            if f.iters.get(f.block, 0) == 0:
                return None         # the arbitrary iteration starts here
            if sp.get('ghost'):
                st = self.ghost(st, sp)
                f = st.frames[-1]
            self.close_cut(st, f, sp)
            raise Dead()
        if sp.get('ghost'):
            st = self.ghost(st, sp)
            f = st.frames[-1]
        return self.enter_cut(st, f, sp)

    def simulate(self, st, f, sp):
        """one step of a simulation argument: the loop starts in any state related (by sp['tele']) to the ghost
        state, must be in the relation sp['check'] after one iteration, and, where sp['again'] allows, ends in
        the iteration after that"""
        h = f.block
        names = sp.get('args', [])
        if h not in f.cut:
            return self.enter_cut(st, f, sp)
        n = f.iters.get(h, 0)
        if n == 0:
            return None
        if f.cut[h][2] is None:
            raise Dead()            # looking for what the loop changes
        if n == 1:
            for iv in sp['check']:
                c = self.eval_fn(st, iv, self.inv_args(st, f, names, iv))
                self.check(st, c, 'simulation', 'after a step: ' + iv)
            if sp.get('again'):
                self.assume(st, self.eval_fn(st, sp['again'], self.inv_args(st, f, names, sp['again'])))
            return None
        self.check(st, False, 'simulation', 'the loop ends where the data ends')
        raise Dead()

    def written_locals(self, f, body):
        """locals of f's function that the blocks in body may write, by syntax"""
        r = set()
        al = {i.dst for b in f.fn.blocks.values() for i in b if i.op == 'alloca'}
        for b in body:
            for i in f.fn.blocks[b]:
                if i.op == 'store':
                    ops = [i.ops[1]]
                elif i.op in ('call', 'invoke'):
                    ops = [a[1] for a in i.ops]
                elif i.op == 'load':
                    continue
                else:
                    ops = i.ops
                r |= {o[1] for o in ops if o and o[0] == 'reg' and o[1] in al}
        return r

    def first_nonphi(self, f):
        blk = f.fn.blocks[f.block]
        ip = 0
        while blk[ip].op == 'phi':
            ip += 1
        return ip

    def inv_args(self, st, f, names, fnname):
        args = []
        for n in names:
            deref = n.startswith('*')
            nm = n.lstrip('*')
            cand = None
            for x in nm.split('|'):
                for y in (x, x + '.addr'):
                    if y in f.names:
                        cand = y
                        break
                if cand:
                    break
            if cand is None:    # LLVM numbers a local whose name is taken, e.g. by the entry block
                cand = next((y for x in nm.split('|') for y in f.names if y.startswith(x) and y[len(x):].isdigit()), None)
            if cand is None:
                raise Unsupported('loop invariant of %s: no local variable %s' % (f.fn.name, nm))
            rid, ty = f.names[cand]
            p = Ptr(rid, 0)
            if deref:
                p = self.load(st, p, ('ptr',))
            args.append(p)
        return args

    def eval_fn(self, st, fname, args, wantwidth=1):
        """value of a pure function in state st"""
        if fname not in self.mod.functions:
            raise Unsupported('no function ' + fname)
        s = st.fork()
        n0 = len(s.pc)
        s.frames.append(self.barrier())
        self.push(s, fname, args, None)
        base = len(s.frames)
        w = self.wlog
        self.wlog = None
        self.dry += 1
        try:
            ends = self.run([s], base)
        finally:
            self.dry -= 1
            self.wlog = w
        res = None
        fn = self.mod.functions[fname]
        for e in ends:
            if e.exc is not None:
                raise Unsupported('exception in ' + fname)
            c = zb(and_(*e.pc[n0:]))
            v = e.ret
            if fn.ret[1] == 1:
                v = bool_of(v)
            if res is None:
                res = v
            else:
                res = self.mergeval(c, v, res, fn.ret)
        if res is None:
            raise Dead()
        return res

    def barrier(self):
        f = Frame.__new__(Frame)
        f.fn = BarrierFn
        f.block = 'b'
        f.ip = 0
        f.regs = {}
        f.allocas = []
        f.ret_to = None
        f.iters = {}
        f.cut = {}
        f.names = {}
        f.uid = 0
        self.cfgs.setdefault(BarrierFn.name, BarrierCfg)
        return f

    def check_fix(self, st, f, sp):
        """the values that sp['fix'] assigns at the loop head are the ones already there"""
        if 'fix' not in sp:
            return
        saved, self.wlog = self.wlog, []
        self.dry += 1
        try:
            s = self.ghost(st.fork(), {'ghost': sp['fix'], 'args': sp.get('args', [])})
        finally:
            self.dry -= 1
            w, self.wlog = self.wlog, saved
        for rid, off, n in w:
            if rid not in st.mem:
                continue
            if off is None:
                raise Unsupported('fix of a loop writes at an unknown offset')
            cs = [self.content(x, rid).d.get(off) for x in (st, s)]
            if cs[0] is None or cs[0][0] != n or cs[1] is None:
                raise Unsupported('fix of a loop: shape of the variable')
            a, b = cs[0][1], cs[1][1]
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                c = self.pcmp(st, 'eq', a, b)
            elif isinstance(a, (Ptr, PIte)) or isinstance(b, (Ptr, PIte)):
                c = False
            else:
                c = norm_bool(bv(a, 8 * n) == bv(b, 8 * n))
            self.check(st, c, 'invariant', 'fixed: ' + sp['fix'])

    def enter_cut(self, st, f, sp):
        h = f.block
        depth = len(st.frames)
        body = self.cfg(f.fn).loops[h]
        names = sp.get('args', [])
        fn, loc = self.where(st)
        key = 'tele' if 'tele' in sp else 'inv'
        self.loops_cut['%s:%s' % (f.fn.name, h)] = sp[key]
        invs = sp[key] if isinstance(sp[key], list) else [sp[key]]
        mods = {}       # (rid, off|None) -> n
        if key == 'inv':
            self.check_fix(st, f, sp)
            for iv in invs:
                c = self.eval_fn(st, iv, self.inv_args(st, f, names, iv))
                self.check(st, c, 'invariant', 'initially: ' + iv)
        else:
            for x in self.written_locals(f, body):
                if x in f.names:
                    rid, ty = f.names[x]
                    if ty[0] in ('i', 'f'):
                        mods[(rid, 0)] = self.mod.size(ty)

        def havoc(s):
            for (rid, off), n in sorted(mods.items(), key=lambda kv: (kv[0][0], -1 if kv[0][1] is None else kv[0][1])):
                c = self.content(s, rid)
                if c is None:
                    continue
                if off is None:
                    if isinstance(c, Cells) and any(isinstance(v, (Ptr, PIte)) for _, v in c.d.values()):
                        raise Unsupported('loop writes object holding pointers at an unknown offset: %s' %
                                          self.regions[rid].name)
                if off is None or isinstance(c, Arr):
                    w = c.w if isinstance(c, Arr) else 1
                    s.mem[rid] = Arr(z3.Const('havoc!%d' % next(self.fresh_n), sort_of(w)), w)
                    s.own.add(rid)
                    continue
                c = self.own(s, rid)
                cell = c.d.get(off)
                v = cell[1] if cell is not None and cell[0] == n else None
                if isinstance(v, Ptr) and v.r != 0 and not isinstance(v.r, tuple):
                    nv = Ptr(v.r, self.fresh(64, 'hoff'))
                elif isinstance(v, (Ptr, PIte)):
                    raise Unsupported('loop changes a pointer whose target the invariant cannot fix: %s+%d' %
                                      (self.regions[rid].name, off))
                else:
                    nv = self.fresh(8 * n, 'hv')
                self.cells_clear(c, off, n)
                c.d[off] = (n, nv)

        def stop(s):
            if len(s.frames) < depth:
                return True
            g = s.frames[depth - 1]
            if g.block not in body:
                return True
            return False

        for it in range(20):
            s = st.fork()
            havoc(s)
            s.model = None
            g = s.frames[-1]
            try:
                if key == 'tele':
                    s = self.ghost(s, {'ghost': sp['tele'], 'args': names})
                    g = s.frames[-1]
                else:
                    if 'fix' in sp:
                        s = self.ghost(s, {'ghost': sp['fix'], 'args': names})
                        g = s.frames[-1]
                    for iv in invs:
                        self.assume(s, self.eval_fn(s, iv, self.inv_args(s, g, names, iv)))
            except Dead:
                break
            token = object()
            g.cut[h] = (sp, None, None)
            g.iters[h] = 0
            saved = self.wlog
            self.wlog = []
            self.dry += 1
            try:
                self.run([s], depth, stop)
            finally:
                self.dry -= 1
                w = self.wlog
                self.wlog = saved
            if saved is not None:
                saved.extend(w)
            new = False
            for rid, off, n in w:
                if rid not in st.mem and rid not in self.ginit:
                    continue        # created inside the loop
                if rid not in st.mem:
                    self.content(st, rid)
                k = (rid, off)
                if (rid, None) in mods:
                    continue
                if off is None:
                    for kk in [kk for kk in mods if kk[0] == rid]:
                        del mods[kk]
                    mods[(rid, None)] = None
                    new = True
                    continue
                if k in mods and mods[k] >= n:
                    continue
                # overlapping shapes: fall back to bytes
                ov = [kk for kk in mods if kk[0] == rid and kk[1] < off + n and off < kk[1] + mods[kk]]
                if ov:
                    lo = min([off] + [kk[1] for kk in ov])
                    hi = max([off + n] + [kk[1] + mods[kk] for kk in ov])
                    if all(mods.get((rid, b)) == 1 for b in range(lo, hi)):
                        continue
                    for kk in ov:
                        del mods[kk]
                    for b in range(lo, hi):
                        mods[(rid, b)] = 1
                else:
                    mods[k] = n
                new = True
            if not new:
                break
        else:
            raise Unsupported('loop frame does not stabilise')
        havoc(st)
        st.model = None
        if key == 'tele':
            st = self.ghost(st, {'ghost': sp['tele'], 'args': names})
        elif 'fix' in sp:
            st = self.ghost(st, {'ghost': sp['fix'], 'args': names})
        g = st.frames[-1]
        for iv in invs if key == 'inv' else ():
            self.assume(st, self.eval_fn(st, iv, self.inv_args(st, g, names, iv)))
        v0 = None
        if sp.get('var'):
            v0 = self.eval_fn(st, sp['var'], self.inv_args(st, g, names, sp['var']))
        ptrs = {}
        for (rid, off), n in mods.items():
            if off is None:
                continue
            c = self.content(st, rid)
            if isinstance(c, Cells):
                cell = c.d.get(off)
                if cell is not None and isinstance(cell[1], Ptr):
                    ptrs[(rid, off)] = cell[1].r
        g.cut[h] = (sp, v0, ptrs)
        g.iters[h] = 0
        self.hooks.setdefault('loopmods', {})['%s:%s' % (f.fn.name, h)] = \
            [(self.regions[r].name, o) for r, o in mods]
        return st

    def close_cut(self, st, f, sp):
        names = sp.get('args', [])
        invs = sp['inv'] if isinstance(sp['inv'], list) else [sp['inv']]
        _, v0, ptrs = f.cut[f.block]
        if self.dry and ptrs is None:
            return
        for (rid, off), r in (ptrs or {}).items():
            c = self.content(st, rid)
            cell = c.d.get(off) if isinstance(c, Cells) else None
            if cell is None or not isinstance(cell[1], Ptr) or cell[1].r != r:
                raise Unsupported('loop moves a pointer to another object: %s+%d' % (self.regions[rid].name, off))
        self.check_fix(st, f, sp)
        for iv in invs:
            c = self.eval_fn(st, iv, self.inv_args(st, f, names, iv))
            self.check(st, c, 'invariant', 'preserved: ' + iv)
        if v0 is not None:
            v1 = self.eval_fn(st, sp['var'], self.inv_args(st, f, names, sp['var']))
            self.check(st, z3.ULT(bv(v1, 64), bv(v0, 64)), 'termination', 'variant decreases: ' + sp['var'])

    # ------------------------------------------------------------------ main
    def verify(self, entry, budget=None):
        """run harness `entry`; obligations and failures are collected in self"""
        t0 = time.time()
        if budget:
            self.deadline = t0 + budget
        st = State.__new__(State)
        st.frames = []
        st.mem = {}
        st.own = set()
        st.pc = []
        st.exc = None
        st.log = []
        st.model = None
        st.ret = None
        st.caught = []
        st.freed = ()
        st.tag = ()
        if entry not in self.mod.functions:
            raise Unsupported('no harness ' + entry)
        # dynamic initialisation of globals the contract depends on
        for rx in self.spec.get('ctors', ()):
            fs = [n for n in self.mod.functions if re.search(rx, n)]
            if not fs:
                raise Unsupported('no initialiser ' + rx)
            for n in fs:
                self.push(st, n, [], None)
                ends = self.run([st], 1)
                if len(ends) != 1 or ends[0].exc is not None:
                    raise Unsupported('initialiser ' + n)
                st = ends[0]
        self.push(st, entry, [], None)
        try:
            ends = self.run([st], 1)
        except TooMany:
            ends = []
        self.ended = len(ends)
        for e in ends:
            if e.exc is not None:
                o = Obligation('uncaught|%s|%s' % (entry, e.exc[0]), 'exception', entry, None,
                               'uncaught exception ' + str(e.exc[0]))
                o.n = o.solved = 1
                o.status = 'failed'
                self.obls[o.key] = o
                import smt
                m = smt.get_model(list(e.pc) + self.facts(e.pc))
                self.failures.append(Failure(o, m, list(e.log), [], None, None))
        self.wall = time.time() - t0
        return not self.failures


def vkey(v):
    if type(v) in (int, bool):
        return int(v)
    if isinstance(v, Ptr):
        return ('p', v.r, vkey(v.o)).__hash__()
    if isinstance(v, Agg):
        return tuple(vkey(x) for x in v.v).__hash__()
    if z3.is_expr(v):
        return ('z', v.get_id()).__hash__()
    return id(v)


def regs_in(x, out):
    if isinstance(x, tuple) or isinstance(x, list):
        if len(x) == 2 and x[0] == 'reg':
            out.add(x[1])
            return
        for y in x:
            regs_in(y, out)
    elif isinstance(x, dict):
        for y in x.values():
            regs_in(y, out)


class Live:
    def __init__(self, fn, cfg):
        self.fn = fn
        self.use = {}
        self.cache = {}
        phi_use = {}
        phi_def = {}
        self.out = {b: set() for b in fn.order}
        for b in fn.order:
            us = []
            pu = set()
            pd = set()
            for i in fn.blocks[b]:
                u = set()
                regs_in(i.ops, u)
                regs_in(i.x, u)
                if i.op == 'phi':
                    pu |= u
                    pd.add(i.dst)
                    u = set()
                us.append(u)
            self.use[b] = us
            phi_use[b] = pu
            phi_def[b] = pd
        ch = True
        while ch:
            ch = False
            for b in reversed(fn.order):
                o = set()
                for s in cfg.succ[b]:
                    o |= (self._at(s, 0) - phi_def[s]) | phi_use[s]
                if o != self.out[b]:
                    self.out[b] = o
                    ch = True

    def _at(self, b, ip):
        l = set(self.out[b])
        ins = self.fn.blocks[b]
        for k in range(len(ins) - 1, ip - 1, -1):
            l.discard(ins[k].dst)
            l |= self.use[b][k]
        return l

    def at(self, b, ip):
        r = self.cache.get((b, ip))
        if r is None:
            r = self.cache[(b, ip)] = self._at(b, ip)
        return r


class TooMany(Exception):
    pass


class NoMerge(Exception):
    pass


def k_is_ptr(ty):
    return ty[0] == 'ptr'


class _BF:
    name = '$barrier'
    order = ['b']

    class _I:
        op = 'nop'
        dbg = None
        x = None
        dst = None
    blocks = {'b': [_I()]}
    params = []


class _BC:
    loops = {}
    headers = []

    def key(self, f):
        return [0]


BarrierFn = _BF()
BarrierCfg = _BC()


def mentions(t, v):
    seen = set()
    st = [t]
    vid = v.get_id()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i == vid:
            return True
        st.extend(x.children())
    return False
