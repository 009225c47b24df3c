"""Generate and discharge the obligations of one harness function.
usage: worker.py FILE.ll HARNESS TAGS OUT.json [key=value ...]"""
import json
import os
import sys
import time
import traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir
import sym
import solve


def main():
    ll, harness, tags, out = sys.argv[1:5]
    opt = dict(a.split('=', 1) for a in sys.argv[5:])
    tags = set(tags.split(','))
    wall = float(opt.get('wall', 500))
    res = dict(harness=harness, status='ok', error='', obligations=[], covers={}, stats={})
    t0 = time.time()
    E = None
    try:
        mod = ir.Module(open(ll).read())
        E = sym.Engine(mod, dict(wall=wall * 0.6, verbose=bool(opt.get('verbose')), dump=opt.get('dump')))
        E.o['max_unroll'] = int(opt.get('unroll', 64))
        E.o['join'] = int(opt.get('join', 0))
        E.run_harness(harness)
    except (ir.Unsupported, sym.Budget) as e:
        res['status'], res['error'] = 'unsupported', '%s: %s' % (type(e).__name__, e)
    except Exception:
        res['status'], res['error'] = 'internal', traceback.format_exc()[-3000:]
    res['t_explore'] = time.time() - t0
    if E is not None:
        obs = [o for o in E.obs if o.tag in tags]
        t1 = time.time()
        B = {}
        for k in ('T1', 'T2', 'T3', 'hard'):
            if k in opt:
                B[k] = int(opt[k])
        solve.solve_all(obs, int(opt.get('j', 4)), B, deadline=t0 + wall)
        res['t_solve'] = time.time() - t1
        for o in obs:
            res['obligations'].append(dict(tag=o.tag, label=o.label, where=o.where, status=o.status, by=o.by, t=round(o.t, 3),
                                           tapes=o.model or []))
        res['covers'] = E.covers
        res['total_obligations'] = len(E.obs)
        st = E.stats
        res['stats'] = dict(steps=E.nsteps, forks=st['forks'], merges=st['merges'], cuts=st['cuts'], checks=st['checks'],
                            tsolve=round(st['tsolve'], 2), summaries=st['summaries'], loops=st['loops'], replaced=st['replaced'])
        res['functions'] = sorted(st['funcs'])
        res['external'] = sorted(E.assumed_ext)
        res['global_writes'] = sorted(getattr(E, 'global_writes', ()))
        res['notes'] = E.notes
    with open(out, 'w') as f:
        json.dump(res, f)


main()
