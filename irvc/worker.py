"""One verification job: python3-vt worker.py MODULE.ll JOB.json OUT.json"""

import json
import os
import resource
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
import z3

import ll
import smt
import refit
import sym
from val import Unsupported, bv


def arr_bytes(m, a, n):
    """first n bytes of the model of array a"""
    v = m.eval(a, model_completion=True)
    out = {}
    chain = []
    while z3.is_store(v):
        chain.append((v.arg(1), v.arg(2)))
        v = v.arg(0)
    if z3.is_const_array(v) and all(z3.is_bv_value(i) and z3.is_bv_value(x) for i, x in chain):
        d = v.arg(0).as_long() if z3.is_bv_value(v.arg(0)) else 0
        b = bytearray([d]) * n
        for i, x in reversed(chain):
            k = i.as_long()
            if k < n:
                b[k] = x.as_long()
        return bytes(b)
    b = bytearray(n)
    for i in range(min(n, 8192)):
        x = m.eval(z3.Select(a, z3.BitVecVal(i, 64)), model_completion=True)
        b[i] = x.as_long() if z3.is_bv_value(x) else 0
    return bytes(b)


def num(m, v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    x = m.eval(v, model_completion=True)
    if z3.is_true(x):
        return 1
    if z3.is_false(x):
        return 0
    return x.as_long() if z3.is_bv_value(x) else 0


def replay_lines(f):
    if f.model is None:
        return None
    m = f.model
    out = []
    for kind, name, v, g in f.log:
        if g is not None and not z3.is_true(m.eval(g, model_completion=True)):
            continue
        name = name.replace(' ', '_') or '_'
        if kind == 'buf':
            n = num(m, v[1])
            if n > 1 << 20:
                return None
            out.append('buf %s %s' % (name, arr_bytes(m, v[0], n).hex() or '-'))
        elif kind == 'words':
            n = num(m, v[1])
            w = v[2]
            if n > 1 << 17:
                return None
            out.append('buf %s %s' % (name, b''.join(
                num(m, z3.Select(v[0], z3.BitVecVal(k, v[0].domain().size()))).to_bytes(w, 'little') for k in range(n)).hex() or '-'))
        elif kind == 'bytes':
            out.append('bytes %s %s' % (name, bytes(num(m, x) for x in v).hex() or '-'))
        else:
            out.append('%s %s %d' % (kind, name, num(m, v)))
    return out


def main():
    ll_file, job_file, out_file = sys.argv[1:4]
    job = json.load(open(job_file))
    spec = job['spec']
    res = {'harness': job['harness'], 'shard': spec.get('shard'), 'error': None}
    resource.setrlimit(resource.RLIMIT_AS, (job.get('mem', 6 << 30), job.get('mem', 6 << 30)))
    t = time.time()
    second = {'agree': 0, 'unknown': 0, 'disagree': 0}
    if job.get('second'):
        def chk(cs):
            r = smt.cvc5(cs, job['second'])
            second['agree' if r == 'unsat' else 'disagree' if r == 'sat' else 'unknown'] += 1
        spec['second'] = chk
    e = None
    try:
        mod = ll.Module(open(ll_file).read())
        e = sym.Engine(mod, spec)
        e.loop_specs = refit.written(e)
        e.verify('vp_h_' + job['harness'], job['budget'])
    except Unsupported as x:
        res['error'] = 'unsupported: %s' % x
        if e is not None:
            res['where'] = getattr(e, 'last_where', None)
    except MemoryError:
        res['error'] = 'out of memory'
    except Exception as x:
        res['error'] = 'internal: %s' % ''.join(traceback.format_exception(type(x), x, x.__traceback__))[-3000:]
    res['wall'] = time.time() - t
    res['second'] = second
    if e is not None:
        res['obls'] = [dict(key=o.key, kind=o.kind, fn=o.fn, loc=list(o.loc) if o.loc else None, msg=o.msg, n=o.n,
                            solved=o.solved, time=o.time, status=o.status, backend=o.backend)
                       for o in e.obls.values()]
        res['covers'] = e.covers
        res['functions'] = sorted(e.functions_used)
        res['stubs'] = e.stubs_used
        res['opaque'] = sorted(e.opaque_used)
        res['loops_unrolled'] = {str(k): v for k, v in e.loops_unrolled.items()}
        res['bounded'] = sorted(e.bounded)
        res['loops_cut'] = {str(k): v for k, v in e.loops_cut.items()}
        res['solver_time'] = e.solver_time
        res['solver_calls'] = e.solver_calls + e.feas_calls
        res['ufs'] = sorted({k[0] for k in e.ufs})
        fs = []
        for f in e.failures:
            try:
                rl = replay_lines(f)
            except Exception:
                rl = None
            fs.append(dict(key=f.ob.key, kind=f.ob.kind, msg=f.ob.msg, fn=f.ob.fn,
                           loc=list(f.ob.loc) if f.ob.loc else None, trace=f.trace, inputs=rl,
                           cond=str(f.cond)[:2000]))
        res['failures'] = fs
        if spec.get('loops') and (fs or 'no local variable' in str(res['error'])):
            try:
                res['refits'] = refit.refits(e, bool(fs))
            except Exception as x:
                res['refits'] = []
    with open(out_file + '.tmp', 'w') as fo:
        json.dump(res, fo)
    os.rename(out_file + '.tmp', out_file)


if __name__ == '__main__':
    main()
