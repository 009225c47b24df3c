"""Decide one property: generate the obligations of every harness registered
for it from /repo's current sources, discharge them, and report.

usage: check.py PROPERTY [--tier quick|thorough]
exit 0: every obligation was accepted (or, where the verifier could not be
applied to the current source, the bounded stand-in found nothing);
exit 1: VIOLATION line."""
import argparse
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + '/engine')
sys.path.insert(0, HERE + '/specs')
import front
import registry

OUT = os.environ.get('VERIF_OUT', HERE)   # where evidence/ and replay/ go
PY = 'python3-vt'
NCPU = os.cpu_count() or 8


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.d = tempfile.mkdtemp(prefix='vc_%s_' % prop)
        self.t0 = time.time()
        self.limit = 780 if tier == 'quick' else 3000
        self.lock = threading.Lock()
        self.ir = {}
        self.irerr = {}
        self.native = {}

    def left(self):
        return self.limit - (time.time() - self.t0)

    # ------------------------------------------------------------- verifier
    def compile(self, specs):
        def one(s):
            d = os.path.join(self.d, 'ir_' + s.replace('/', '_'))
            os.makedirs(d, exist_ok=True)
            return s, front.compile_ir(os.path.join(HERE, 'specs', s), d)
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for s, (p, e) in ex.map(one, sorted(specs)):
                self.ir[s], self.irerr[s] = p, e

    def verify(self, h, j, tags):
        out = os.path.join(self.d, h['h'] + '.json')
        wall = min(h.get('wall', 300) * (1 if self.tier == 'quick' else 3), max(20, self.left() - 60))
        opts = ['%s=%s' % kv for kv in h.get('opts', {}).items()]
        t = time.time()
        p = subprocess.Popen([PY, HERE + '/engine/worker.py', self.ir[h['spec']], h['h'], tags, out, 'j=%d' % j, 'wall=%d' % wall, *opts],
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
        try:
            txt, _ = p.communicate(timeout=wall + 60)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            txt = 'worker timed out'
        if not os.path.exists(out):
            return dict(harness=h['h'], status='internal', error=(txt or '')[-2000:], obligations=[], covers={}, stats={}, t=time.time() - t)
        r = json.load(open(out))
        r['t'] = time.time() - t
        return r

    def verify_all(self, hs, tags):
        hs = sorted(hs, key=lambda h: -h.get('cost', 10))
        res = {}
        par = max(1, min(len(hs), 6))
        j = max(2, NCPU // par)
        with cf.ThreadPoolExecutor(par) as ex:
            fs = {}
            for h in hs:
                if self.ir.get(h['spec']) is None:
                    res[h['h']] = dict(harness=h['h'], status='unsupported', error='does not compile: ' + self.irerr[h['spec']][:1500],
                                       obligations=[], covers={}, stats={}, t=0)
                else:
                    fs[ex.submit(self.verify, h, j, tags)] = h
            for f in cf.as_completed(fs):
                res[fs[f]['h']] = f.result()
        return res

    # --------------------------------------------------------------- native
    def exe(self, spec, h, san=False):
        k = (spec, h, san)
        with self.lock:
            if k in self.native:
                return self.native[k]
        d = os.path.join(self.d, 'nat_%s_%s%s' % (spec.replace('/', '_'), h, '_s' if san else ''))
        os.makedirs(d, exist_ok=True)
        r = front.compile_native(os.path.join(HERE, 'specs', spec), d, h, san=san)
        with self.lock:
            self.native[k] = r
        return r

    def nat(self, spec, h, args, secs, san=False):
        """-> (outcome, text): ok fail crash hang discard nocompile"""
        exe, err = self.exe(spec, h, san)
        if not exe:
            return 'nocompile', err[:1500]
        sec = str(secs)
        env = dict(os.environ, UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1', ASAN_OPTIONS='detect_leaks=0:abort_on_error=0')
        try:
            p = subprocess.run(['timeout', '-s', 'KILL', str(int(secs + 60)), exe, *args], capture_output=True, text=True, errors='replace',
                               env=env, preexec_fn=_limits, cwd=self.d)
        except OSError as e:
            return 'nocompile', str(e)
        txt = (p.stdout + p.stderr)[-6000:]
        if p.returncode == 0:
            return 'ok', txt
        if p.returncode == 3:
            return 'discard', txt
        if p.returncode == 1 and 'FAIL ' in p.stdout:
            return 'fail', txt
        if p.returncode in (137, -9):
            return 'hang', txt
        return 'crash', 'exit %d\n%s' % (p.returncode, txt)

    def replay_tapes(self, h, obs):
        """replay the verifier's models; -> (text of the confirmed failure, tape) or None"""
        san = any(o['tag'] in ('SAFE', 'TERM') for o in obs)
        n = 0
        for o in obs:
            for t in o.get('tapes', [])[:3]:
                if n >= 24 or self.left() < 60:
                    return None
                n += 1
                f = os.path.join(self.d, 'tape')
                open(f, 'w').write(' '.join(t))
                prop = self.prop
                k, txt = self.nat(h['spec'], h['h'], [prop, 'replay', f], 5, san)
                if k == 'fail' or (k in ('crash', 'hang') and prop == registry.SAFETY):
                    return '%s\n%s' % (k, txt), t, o
        return None

    def search(self, spec, h, secs, san=False):
        """seeded search with the executable form of the contract"""
        log = os.path.join(self.d, 'log_' + h)
        k, txt = self.nat(spec, h, [self.prop, 'random', str(self.seed), str(secs), log], secs, san)
        if k in ('crash', 'hang'):
            try:
                txt += '\ncase-seed ' + open(log).read().strip()
            except OSError:
                pass
        return k, txt


def _limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_STACK, (64 << 20, 64 << 20))


def known(prop):
    out = []
    try:
        for l in open(HERE + '/KNOWN_FINDINGS.txt'):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                out.append(l[len('finding: '):])
    except OSError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    run = Run(a.prop, a.tier, seed)
    try:
        rc = decide(run, a)
    finally:
        if not a.keep:
            shutil.rmtree(run.d, ignore_errors=True)
    sys.exit(rc)


def _wanted(h, prop, tier):
    props = list(h['props'])
    if tier == 'thorough':
        props += h.get('tprops', ())
        return prop in props or prop == registry.SAFETY
    return prop in props or prop == registry.SAFETY and h.get('safety', True)


def decide(run, a):
    prop = run.prop
    safety = prop == registry.SAFETY
    tags = 'SAFE,TERM,' + prop if safety else prop
    hs = [h for h in registry.HARNESS if _wanted(h, prop, a.tier)]
    fz = [f for f in registry.FUZZ if prop in f['props']]
    # the executable stand-ins are built while the verifier runs
    pre = cf.ThreadPoolExecutor(2)
    run.compile({h['spec'] for h in hs})
    futs = [pre.submit(run.exe, f['spec'], f['h'], safety) for f in fz]
    res = run.verify_all(hs, tags)
    for f in futs:
        f.result()
    obs, viol, fallback, bounded = [], [], [], []
    for h in hs:
        r = res[h['h']]
        if a.v:
            print('%-28s %-12s %6.1fs obligations %d %s' % (h['h'], r['status'], r['t'], len(r['obligations']), r['error'][-300:]), file=sys.stderr)
        mine = r['obligations']
        bad = [o for o in mine if o['status'] != 'ok']
        obs += [(h, o) for o in mine]
        if r['status'] != 'ok':
            fallback.append((h, '%s: %s' % (r['status'], r['error'])))
        else:
            missing = [c for c in h.get('covers', []) if not r['covers'].get(c)]
            if missing:
                fallback.append((h, 'cover points not reached: %s' % ', '.join(missing)))
        if bad:
            viol.append((h, bad))
    report = []
    confirmed = None
    # 1 failed obligations: replay the models, then search for a failing input
    for h, bad in viol:
        if confirmed is None and h.get('kind') != 'state':
            c = run.replay_tapes(h, bad)
            if c:
                confirmed = ('replay of the verifier model for obligation "%s" in %s' % (c[2]['label'], h['h']), c[0],
                             'harness %s\ntape %s' % (h['h'], ' '.join(c[1])))
    if confirmed is None and (viol or fallback):
        for h in [h for h, _ in viol + fallback if h.get('kind') != 'state' and h.get('native', True)]:
            if run.left() < 60 or confirmed:
                break
            k, txt = run.search(h['spec'], h['h'], 15 if a.tier == 'quick' else 60, san=safety)
            bounded.append(dict(harness=h['h'], outcome=k, text=txt[:300]))
            if k == 'fail' or (safety and k in ('crash', 'hang')):
                confirmed = ('seeded search with the contract of %s' % h['h'], '%s\n%s' % (k, txt), 'harness ' + h['h'])
    # 2 the executable form of the property over public histories
    if confirmed is None:
        for f in fz:
            if run.left() < 30:
                break
            secs = f.get('secs', 4) if a.tier == 'quick' else 60
            if viol or fallback:
                secs = max(secs * 4, 20)
            k, txt = run.search(f['spec'], f['h'], secs, san=safety)
            bounded.append(dict(harness=f['h'], outcome=k, text=txt[:300]))
            if k == 'fail' or (safety and k in ('crash', 'hang')):
                confirmed = ('seeded histories (%s)' % f['h'], '%s\n%s' % (k, txt), 'harness ' + f['h'])
                break
    nob = len(obs)
    ndis = sum(o['status'] == 'ok' for _, o in obs)
    engine_gap = bool(fallback)
    rc = 0
    rp = None
    nviol = 0
    for k in known(prop):
        print('KNOWN-FINDING: ' + k)
    if confirmed or viol or (nob == 0 and not fallback):
        os.makedirs(OUT + '/replay', exist_ok=True)
        rp = OUT + '/replay/%s.txt' % prop
        with open(rp, 'w') as f:
            f.write('property %s, tier %s, seed %d\n' % (prop, a.tier, seed_of(run)))
            if confirmed:
                f.write('\nconfirmed against the real code by %s\n%s\n%s\n' % confirmed)
            for h, bad in viol:
                f.write('\nobligations not accepted in harness %s (specs/%s):\n' % (h['h'], h['spec']))
                for o in bad[:40]:
                    f.write('  [%s] %s\n    at %s\n    verifier: %s (%s)\n' % (o['tag'], o['label'], ' < '.join(map(str, o['where'][::-1][:6])), o['status'], o['by']))
                    for t in o.get('tapes', [])[:1]:
                        f.write('    model: %s\n' % ' '.join(t)[:2000])
            f.write('\nto replay: cd /verif && python3 engine/check.py %s\n' % prop)
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if confirmed else ' no-failing-input-found'))
        for h, bad in viol[:6]:
            for o in bad[:4]:
                print('  obligation: [%s] %s (%s in %s)' % (o['tag'], o['label'], o['status'], h['h']))
        if confirmed:
            print('  ' + confirmed[1].strip().split('\n')[0] + ' / ' + ' '.join(confirmed[1].strip().split('\n')[1:2]))
        rc = 1
        nviol = 1
    for h, why in fallback:
        print('NOTE: harness %s not decided by the verifier on this source (%s); bounded stand-in used' % (h['h'], why[:200].replace('\n', ' ')))
    by = {}
    for _, o in obs:
        if o['status'] == 'ok':
            by[o['by']] = by.get(o['by'], 0) + 1
    labels = {}
    for h, o in obs:
        k = (h['h'], o['label'] if o['tag'] not in ('SAFE', 'TERM') else o['tag'])
        labels[k] = labels.get(k, 0) + 1
    funcs, ext, loops, summ = set(), set(), {}, {}
    notes = []
    for h in hs:
        r = res[h['h']]
        funcs |= set(r.get('functions', ()))
        ext |= set(r.get('external', ()))
        for k, v in r['stats'].get('loops', {}).items():
            loops[k] = v
        summ.update(r['stats'].get('summaries', {}) or {})
        notes += r.get('notes', [])
    lib = demangle(sorted(f for f in funcs if '3ink12stroke_model' in f and not f.startswith('_ZN2vc')))
    lib = sorted({x for x in lib if x.startswith('ink::stroke_model::') and 'vc::' not in x})
    cov = dict(obligations=nob, discharged=ndis,
               checker_cmd='python3 engine/check.py %s --tier %s  (VC generator over LLVM IR of /repo; back ends z3 %s, cvc5)' % (prop, a.tier, z3v()),
               trusted_base=registry.TRUSTED + ['libm functions through their lemma contracts: ' + ', '.join(sorted(ext))] * bool(ext),
               discharged_by=by,
               solver_s=round(sum(o['t'] for _, o in obs), 2),
               functions_under_contract=lib,
               loops={k: v for k, v in sorted(loops.items())},
               summarised_functions=summ,
               harnesses={h['h']: dict(status=res[h['h']]['status'], obligations=len(res[h['h']]['obligations']), seconds=round(res[h['h']]['t'], 1),
                                       covers=res[h['h']]['covers']) for h in hs},
               contracts=['%s: %s (%d)' % (k[0], k[1], v) for k, v in sorted(labels.items())],
               bounded_stand_ins=bounded,
               undecided_harnesses=[dict(harness=h['h'], why=w[:400]) for h, w in fallback])
    if engine_gap:
        cov['explanation'] = 'The verifier could not be applied to %d harness(es) on this source; those parts are bounded only.' % len(fallback)
    ev = dict(property=prop, tier=a.tier, seed=run.seed, level='proof' if not engine_gap else 'exploration', coverage=cov,
              assumptions=registry.ASSUMPTIONS + registry.PROP_ASSUMPTIONS.get(prop, []) + notes[:10],
              wall_s=round(time.time() - run.t0, 2), violations=nviol)
    if engine_gap:
        cov.setdefault('evaluations', len(bounded))
        cov.setdefault('distinct_nontrivial', len(bounded))
        cov.setdefault('rule', 'native searches run as stand-ins')
        cov.setdefault('samples', bounded[:2])
    os.makedirs(OUT + '/evidence', exist_ok=True)
    with open(OUT + '/evidence/%s.json' % prop, 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged, %d harnesses, %.1f s' % (prop, nob, ndis, len(hs), time.time() - run.t0))
    return rc


def seed_of(run):
    return run.seed


def z3v():
    r = subprocess.run([PY, '-c', 'import z3;print(z3.get_version_string())'], capture_output=True, text=True)
    return r.stdout.strip()


def demangle(l):
    r = subprocess.run(['c++filt'], input='\n'.join(l), capture_output=True, text=True)
    return r.stdout.split('\n') if r.returncode == 0 else l


if __name__ == '__main__':
    main()
