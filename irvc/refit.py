"""Loop annotations name locals of the annotated function. When a local was renamed, or a loop counts with another
variable, the annotation is tried with the other locals of the same type. Any binding under which every obligation is
discharged is as good as the written one."""
import itertools
import re


def param_types(mod, names, k):
    """types read through parameter k of the annotation functions"""
    r = set()
    for n in names:
        fn = mod.functions.get(n)
        if fn is None:
            continue
        fn.parse()
        if k >= len(fn.params):
            continue
        p = fn.params[k][1]
        regs = set()
        for b in fn.blocks.values():
            for i in b:
                if i.op == 'load' and i.ops[0] == ('reg', '%s.addr' % p):
                    regs.add(i.dst)
                elif i.op == 'load' and i.ops[0][0] == 'reg' and i.ops[0][1] in regs:
                    r.add(tuple(i.ty))
                elif i.op == 'store' and i.ops[1][0] == 'reg' and i.ops[1][1] in regs:
                    r.add(tuple(i.ty))
    return r


def written(eng):
    """~x in the arguments of a loop is the local x (or x with the number LLVM gave it) that the loop writes"""
    out = []
    for sp in eng.loop_specs:
        args = list(sp.get('args', []))
        if any(a.startswith('~') for a in args):
            stored, al = set(), []
            for nm, fn in eng.mod.functions.items():
                if not re.search(sp['fn'], nm):
                    continue
                fn.parse()
                cfg = eng.cfg(fn)
                if len(cfg.headers) <= sp.get('nth', 0):
                    continue
                al = [i.dst for b in fn.blocks.values() for i in b if i.op == 'alloca']
                stored = {i.ops[1][1] for b in cfg.loops[cfg.headers[sp.get('nth', 0)]] for i in fn.blocks[b]
                          if i.op == 'store' and i.ops[1][0] == 'reg'}
                break
            for k, a in enumerate(args):
                if a.startswith('~'):
                    x = a[1:]
                    args[k] = next((y for y in al if y in stored and y.startswith(x) and (y == x or y[len(x):].isdigit())), x)
            sp = dict(sp, args=args)
        out.append(sp)
    return out


def refits(eng, failed):
    """loop specifications to try instead of eng.loop_specs"""
    mod = eng.mod
    out = []
    for si, sp in enumerate(eng.loop_specs):
        args = sp.get('args', [])
        if not args:
            continue
        hooks = []
        for key in ('inv', 'var', 'ghost', 'fix', 'tele', 'check', 'again', 'head'):
            v = sp.get(key)
            hooks += v if isinstance(v, list) else [v] if isinstance(v, str) else []
        for nm, fn in mod.functions.items():
            if not re.search(sp['fn'], nm):
                continue
            fn.parse()
            cfg = eng.cfg(fn)
            if len(cfg.headers) <= sp.get('nth', 0):
                continue
            body = cfg.loops[cfg.headers[sp.get('nth', 0)]]
            al = {i.dst: tuple(i.ty) for b in fn.blocks.values() for i in b if i.op == 'alloca'}
            stored = set()
            for b in body:
                for i in fn.blocks[b]:
                    if i.op == 'store' and i.ops[1][0] == 'reg':
                        stored.add(i.ops[1][1])
            res = []
            for a in args:
                res.append(next((y for x in a.lstrip('*').split('|') for y in (x, x + '.addr') if y in al), None) or
                           next((y for x in a.lstrip('*').split('|') for y in al if y.startswith(x) and y[len(x):].isdigit()), None))
            used = {r for r in res if r}

            def cands(k, must):
                if args[k].startswith('*'):
                    ts = {('ptr',)}
                else:
                    ts = param_types(mod, hooks, k)
                c = [x for x, t in al.items() if x not in used and (not ts or t in ts) and (x in stored or not must)
                     and not x.startswith(('ref.tmp', 'agg.tmp', 'retval', 'exn', 'ehselector', 'this', 'cleanup'))]
                return sorted(c, key=lambda x: x not in stored)

            missing = [k for k, r in enumerate(res) if r is None]
            sets = []
            if missing:
                for t in itertools.islice(itertools.product(*[cands(k, False) for k in missing]), 200):
                    if len(set(t)) == len(t):
                        sets.append(dict(zip(missing, t)))
                sets.sort(key=lambda d: sum(x not in stored for x in d.values()))
                sets = sets[:12]
            elif failed:
                for k, r in enumerate(res):
                    if r not in stored:
                        sets += [{k: x} for x in cands(k, True)]
                sets = sets[:6]
            out.append((si, [[('*' if args[k].startswith('*') else '') + s[k] if k in s else args[k] for k in range(len(args))]
                             for s in sets]))
            break
    # missing names have to be bound in every loop at once, wrong ones are tried one loop at a time
    out = [(i, c) for i, c in out if c]
    lists = []
    specs = eng.loop_specs
    if failed:
        for i, c in out:
            lists += [{i: x} for x in c]
    else:
        for t in itertools.islice(itertools.product(*[c for i, c in out]), 16):
            lists.append({i: x for (i, c), x in zip(out, t)})
    return [[dict(sp, args=d[i]) if i in d else sp for i, sp in enumerate(specs)] for d in lists if d][:16]
