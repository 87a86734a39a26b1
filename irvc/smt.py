"""Solver back ends: z3 (in process), then cvc5 (separate process) when z3 gives up."""

import os
import subprocess
import tempfile
import time

import z3

STATS = {}


def _solver(kind):
    if kind == 'smt':
        return z3.Solver()
    if kind == 'bv':
        return z3.SolverFor('QF_AUFBV')
    if kind == 'sat':
        t = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'simplify', 'bv1-blast'
                    if False else 'simplify', 'max-bv-sharing', 'ackermannize_bv', 'bit-blast', 'sat')
        return t.solver()
    raise ValueError(kind)


def _z3(cs, kind, tmo):
    s = _solver(kind)
    s.set('timeout', max(1, int(tmo * 1000)))
    s.add(*cs)
    try:
        q = s.check()
    except z3.Z3Exception:
        return 'unknown', None
    if q == z3.unsat:
        return 'unsat', None
    if q == z3.sat:
        try:
            return 'sat', s.model()
        except z3.Z3Exception:
            return 'sat', None
    return 'unknown', None


def has_lambda(cs):
    seen = set()
    st = list(cs)
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


def smt2(cs):
    s = z3.Solver()
    s.add(*cs)
    return s.to_smt2()


def cvc5(cs, tmo):
    txt = smt2(cs)
    txt = '(set-logic ALL)\n' + '\n'.join(l for l in txt.split('\n') if not l.startswith('(set-info'))
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
        n = f.name
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % int(tmo * 1000), n], capture_output=True, text=True,
                           timeout=tmo + 10)
        o = p.stdout.strip().split('\n')[0]
        return o if o in ('sat', 'unsat') else 'unknown'
    except (subprocess.TimeoutExpired, OSError):
        return 'unknown'
    finally:
        os.unlink(n)


def prove(pc, c, tmo, spec):
    """pc -> c ?   returns (unsat|sat|unknown, model, back end)"""
    cs = pc + [z3.Not(c)]
    lam = has_lambda(cs)
    order = spec.get('solvers')
    if not order:
        order = ['smt:10', 'bv:30', 'cvc5:60', 'smt:1000'] if not lam else ['smt:20', 'cvc5:30', 'smt:1000']
    t0 = time.time()
    for o in order:
        k, lim = o.split(':')
        left = tmo - (time.time() - t0)
        if left <= 0.5:
            break
        lim = min(float(lim), left)
        if k == 'cvc5':
            r = cvc5(cs, lim)
            if r == 'unsat':
                return 'unsat', None, 'cvc5'
            if r == 'sat':
                q, m = _z3(cs, 'smt', max(5.0, min(left, 60)))
                return 'sat', m, 'cvc5'
        else:
            q, m = _z3(cs, k, lim)
            if q == 'unsat':
                if spec.get('second') and not lam:
                    spec['second'](cs)
                return 'unsat', None, 'z3' if k == 'smt' else 'z3-' + k
            if q == 'sat':
                return 'sat', m, 'z3' if k == 'smt' else 'z3-' + k
    return 'unknown', None, 'none'


def get_model(cs):
    q, m = _z3(cs, 'smt', 30)
    return m
