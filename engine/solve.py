"""Discharge the recorded obligations.

Per obligation  pc |= goal:
  1 z3, arithmetic uninterpreted;
  2 z3, with the instances of the IEEE-754 lemma schemas (fp.lemma_instances);
  3 the SMT theory of floating point (every rounding operation interpreted):
    z3 and cvc5.
`sat` at stage 3 (or at stage 1 when no arithmetic occurs) is a genuine model of
the obligation; `sat` at stages 1-2 only suggests an input, which is replayed."""
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import tempfile
import time
import z3
import fp
import euf
from fp import NOT, ZB, bv
from mem import SeqVal

T1, T2, T3 = 4000, 20000, 20000
MAXSEQ = 12


def tape_of(model, tape, cache=None):
    """values of the harness inputs under the model, or None"""
    out = []

    def ev(e):
        if isinstance(e, (bool, int)):
            return int(e)
        v = model.eval(e, model_completion=True)
        if z3.is_true(v):
            return 1
        if z3.is_false(v):
            return 0
        return v.as_long()
    try:
        for k, v in tape:
            if k == "pure":
                return None
            if k == "seq":
                n = ev(v.n)
                if n > 4096:
                    return None
                out.append(n)
                s = ev(v.start)
                for j in range(n):
                    for a in v.arrs:
                        x = a.sel((s + j) & (2**64 - 1))
                        out.append(ev(x))
            else:
                out.append(ev(v))
    except (AttributeError, z3.Z3Exception):
        return None
    return ['%x' % x for x in out]


def small(tape):
    return [z3.ULE(v.n, z3.BitVecVal(MAXSEQ, 64)) for k, v in tape if k == 'seq' and not isinstance(v.n, int)]


def check(exprs, ms):
    s = z3.Solver()
    s.set('timeout', ms)
    s.add(*exprs)
    r = s.check()
    return r, s


def cvc5_check(exprs, ms):
    s = z3.Solver()
    s.add(*exprs)
    txt = '(set-logic ALL)\n(set-option :produce-models true)\n' + s.to_smt2().replace('(check-sat)', '(check-sat)')
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % ms, f.name], capture_output=True, text=True, timeout=ms / 1000 + 20)
        o = r.stdout.strip().split('\n')[0] if r.stdout else ''
        return o
    except subprocess.TimeoutExpired:
        return 'unknown'
    finally:
        os.unlink(f.name)


def relevant(pc, goal):
    """cone of influence is left to the solver; split the goal"""
    return pc


def conjuncts(g):
    if isinstance(g, bool):
        return [g]
    if z3.is_and(g):
        r = []
        for c in g.children():
            r.extend(conjuncts(c))
        return r
    return [g]


def solve_one(pc, goal, tape, budget=None):
    """-> dict(status, by, t, tape)"""
    t0 = time.time()
    B = budget or {}
    cand = []
    parts = conjuncts(goal)
    by = set()
    for g in parts:
        r = _solve(pc, g, tape, cand, B)
        by.add(r[1])
        if r[0] != 'ok':
            return dict(status=r[0], by=r[1], t=time.time() - t0, tapes=cand)
    return dict(status='ok', by='+'.join(sorted(by)), t=time.time() - t0, tapes=[])


def _solve(pc, g, tape, cand, B):
    if g is True:
        return 'ok', 'simplifier'
    ng = ZB(NOT(g)) if not isinstance(g, bool) else z3.BoolVal(not g)
    ex = list(pc) + [ng]
    if euf.unsat(ex, B.get('T1', T1)):
        return 'ok', 'z3-EUF'
    if fp.PURE:
        if check(ex + fp.comm(fp.collect_apps(ex)), B.get('T1', T1))[0] == z3.unsat:
            return 'ok', 'z3'
        facts = fp.pure_facts(ex)
        if facts:
            if contradiction(ex + facts, B.get('T1', T1), mag=True):
                return 'ok', 'z3+fp-lemmas'
        near = fp.pure_axioms([ng], 1)
        if near:
            # the contracts of the calls in the goal alone are often enough
            e1 = ex + near
            if check(e1 + fp.lemma_instances(fp.collect_apps(near + [ng])), B.get('T1', T1))[0] == z3.unsat:
                return 'ok', 'z3+fp-lemmas'
            n1 = near + [ng]
            if contradiction(n1, B.get('T2', T2)):
                return 'ok', 'z3+fp-lemmas'
        ex = ex + fp.pure_axioms(ex)
    for p in pc:
        if not isinstance(g, bool) and p.eq(g):
            return 'ok', 'simplifier'
    r, s = check(ex, B.get('T1', T1))
    if r == z3.unsat:
        return 'ok', 'z3'
    apps = fp.collect_apps(ex)
    arith = [n for n in apps if fp.is_arith(n)]
    if r == z3.sat:
        if not arith and not any(fp.is_libm(n) for n in apps):
            r2, s2 = check(ex + small(tape), B.get('T1', T1))
            m = s2.model() if r2 == z3.sat else s.model()
            t = tape_of(m, tape)
            if t is not None:
                cand.append(t)
            return 'fail', 'z3'
    cm = fp.comm(apps)
    if cm:
        r, s = check(ex + cm, B.get('T1', T1))
        if r == z3.unsat:
            return 'ok', 'z3+fp-lemmas'
    lem = fp.lemma_instances(apps) + cm
    r, s = check(ex + lem, B.get('T2', T2))
    if r == z3.unsat:
        return 'ok', 'z3+fp-lemmas'
    # second round: lemma instances over terms the first round introduced
    apps2 = fp.collect_apps(ex + lem)
    if sum(map(len, apps2.values())) > sum(map(len, apps.values())):
        lem2 = fp.lemma_instances(apps2)
        r, s = check(ex + lem2, B.get('T2', T2))
        if r == z3.unsat:
            return 'ok', 'z3+fp-lemmas'
        lem = lem2
    if B.get('mono', 1):
        cm = fp.const_mono(ex + fp.libm_lemmas(apps), fp.collect_apps(ex + lem))
        if cm:
            lem = lem + cm
            r, s = check(ex + lem, B.get('T2', T2))
            if r == z3.unsat:
                return 'ok', 'z3+fp-lemmas'
    if r == z3.sat:
        r2, s2 = check(ex + lem + small(tape), B.get('T1', T1))
        t = tape_of((s2 if r2 == z3.sat else s).model(), tape)
        if t is not None:
            cand.append(t)
    if os.environ.get('VCDBG'):
        import pickle
        sys.stderr.write('lemma stage: %s, %d apps\n' % (r, sum(map(len, apps.values()))))
        if r == z3.sat:
            m = s.model()
            ids = {}
            for n, l in fp.collect_apps(ex + lem).items():
                for t in l:
                    ids[t.get_id()] = 't%d' % len(ids)
            for n, l in fp.collect_apps(ex + lem).items():
                for t in l:
                    if z3.is_bv(t):
                        f = lambda x: '%s:%s' % (ids.get(x.get_id(), str(x)[:8] if x.num_args() == 0 else x.decl().name()[:4] + str(x.get_id())), fp.b2f(m.eval(x, True).as_long(), x.size()) if not n.startswith(('sito', 'uito')) else m.eval(x, True).as_signed_long())
                        sys.stderr.write('  %s %s(%s) = %s %s\n' % (ids[t.get_id()], n, ', '.join(f(c) for c in t.children()), fp.b2f(m.eval(t, True).as_long(), t.size()), m.eval(t, True).as_signed_long()))
    # interpreted floating point
    if B.get('T3', T3) <= 0:
        return 'unknown', 'z3'
    cache = {}
    pe = [fp.make_precise(e, cache) for e in ex]
    pe = pe + lem_precise(pe)
    r, s = check(pe, B.get('T3', T3))
    if r == z3.unsat:
        return 'ok', 'z3-FP'
    if r == z3.sat:
        t = tape_of(PModel(s.model(), cache), tape)
        if t is not None:
            cand.insert(0, t)
        return ('fail' if not any(fp.is_libm(n) for n in apps) else 'unknown'), 'z3-FP'
    o = cvc5_check(pe, B.get('T3', T3))
    if o == 'unsat':
        return 'ok', 'cvc5-FP'
    return 'unknown', 'z3-FP'


def contradiction(pc, ms=3000, mag=False):
    """pc is unsatisfiable, judged with the lemma schemas only"""
    apps = fp.collect_apps(pc)
    lem = fp.lemma_instances(apps)
    if mag and check(list(pc) + lem + fp.mag_lemmas(apps), ms)[0] == z3.unsat:
        return True
    lem += fp.const_mono(list(pc) + fp.libm_lemmas(apps), fp.collect_apps(list(pc) + lem))
    return check(list(pc) + lem, ms)[0] == z3.unsat


def lem_precise(pe):
    """contracts of libm functions over the interpreted terms"""
    return fp.libm_lemmas(fp.collect_apps(pe))


class PModel:
    def __init__(self, m, cache):
        self.m, self.cache = m, cache

    def eval(self, e, model_completion=True):
        return self.m.eval(fp.make_precise(e, self.cache), model_completion=model_completion)


# ------------------------------------------------------------- pool
_obs = None
_B = None


def _work(i):
    signal.alarm(int(_B.get('hard', 180)))
    o = _obs[i]
    try:
        r = solve_one(o.pc, o.goal, o.tape, _B)
    except Exception as e:      # noqa
        r = dict(status='error', by=repr(e)[:200], t=0, tapes=[])
    signal.alarm(0)
    return i, r


def solve_all(obs, nproc, budget=None, deadline=None):
    """annotate every obligation with status/by/t/model"""
    global _obs, _B
    todo = []
    for i, o in enumerate(obs):
        if o.goal is True:
            o.status, o.by = 'ok', 'simplifier'
        else:
            todo.append(i)
    _obs, _B = obs, budget or {}
    if not todo:
        return
    # order: group by position, interleave over workers
    ctx = mp.get_context('fork')
    if nproc <= 1 or len(todo) == 1:
        it = (_work(i) for i in todo)
        for i, r in it:
            _set(obs[i], r)
            if deadline and time.time() > deadline:
                break
    else:
        # a killed worker (signal.alarm) must not hang the pool: use plain processes with pipes
        import queue
        idx = ctx.Value('i', 0)
        procs = []

        def loop(conn):
            while True:
                with idx.get_lock():
                    k = idx.value
                    idx.value += 1
                if k >= len(todo):
                    break
                conn.send(('start', todo[k]))
                conn.send(('done', _work(todo[k])))
            conn.close()

        def spawn():
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=loop, args=(b,))
            p.start()
            b.close()
            procs.append([p, a, None])
        for _ in range(min(nproc, len(todo))):
            spawn()
        from multiprocessing.connection import wait
        while procs:
            rd = wait([x[1] for x in procs], timeout=1)
            for x in list(procs):
                if x[1] in rd:
                    try:
                        k, v = x[1].recv()
                    except EOFError:
                        procs.remove(x)
                        x[0].join()
                        if x[2] is not None:
                            obs[x[2]].status, obs[x[2]].by, obs[x[2]].model = 'unknown', 'solver limit', []
                            if idx.value < len(todo):
                                spawn()
                        continue
                    if k == 'start':
                        x[2] = v
                    else:
                        x[2] = None
                        _set(obs[v[0]], v[1])
            if deadline and time.time() > deadline:
                for x in procs:
                    x[0].kill()
                break
    for o in obs:
        if o.status is None:
            o.status, o.by, o.model = 'unknown', 'time', []


def _set(o, r):
    o.status, o.by, o.t, o.model = r['status'], r['by'], r['t'], r['tapes']
