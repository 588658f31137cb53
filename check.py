#!/usr/bin/env python3-vt
"""check.py ID [--tier quick|thorough] [--only N] [-v]   run the check of one property
   check.py --replay FILE                               replay a counterexample natively

Compiles /repo's sources to LLVM IR, executes the property's harnesses
symbolically, discharges the assertions with the solver, replays every
counterexample against the natively compiled library, writes evidence."""
import sys, os, json, time, tempfile, shutil, subprocess, multiprocessing as mp, resource, argparse, traceback, signal, threading
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'engine')); sys.path.insert(0, ROOT)
import build
import specs

KNOWN = os.path.join(ROOT, 'known_findings.txt')
GMPDEPS = ['-lgmp', '-lm']

def scratch():
    base = os.environ.get('VP_TMP') or tempfile.gettempdir()
    return tempfile.mkdtemp(prefix='vp_', dir=base)

# ------------------------------------------------------------------ native
class Native:
    """real sources + real GMP, used only to replay counterexamples"""
    def __init__(self, tmp):
        self.tmp = os.path.join(tmp, 'native'); os.makedirs(self.tmp, exist_ok=True); self.libs = {}; self.bins = {}
    def flags(self, mode):
        f = ['-std=gnu99', '-g', '-w', '-Wno-error=incompatible-function-pointer-types', '-Wno-error=int-conversion', '-Wno-error=implicit-function-declaration', '-U_FORTIFY_SOURCE', '-I' + os.path.join(build.HERE, 'inc', 'native'), '-I' + os.path.join(build.REPO, 'include'), '-I' + build.REPO, '-I' + build.HARN]
        return f + (['-O1', '-fsanitize=address,bounds', '-fno-sanitize-recover=bounds', '-fno-omit-frame-pointer'] if mode == 'asan' else ['-O0'])
    def lib(self, mode):
        if mode in self.libs: return self.libs[mode]
        d = os.path.join(self.tmp, mode); os.makedirs(d, exist_ok=True)
        def one(f):
            o = os.path.join(d, f.replace('/', '_') + '.o')
            build.run([build.CLANG] + self.flags(mode) + ['-c', os.path.join(build.REPO, f), '-o', o]); return o
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(8) as ex: os_ = list(ex.map(one, build.sources()))
        self.libs[mode] = os_
        return os_
    def bin(self, mode, h, defs):
        k = (mode, h, tuple(defs))
        if k in self.bins: return self.bins[k]
        out = os.path.join(self.tmp, '%s_%d' % (mode, len(self.bins)))
        w = ['-Wl,--wrap=' + s for s in ('malloc', 'calloc', 'realloc', 'free')]
        build.run([build.CLANG] + self.flags(mode) + list(defs) + [os.path.join(build.HARN, h + '.c'), os.path.join(ROOT, 'native', 'vp_native.c')] + self.lib(mode) + w + ['-o', out] + GMPDEPS)
        self.bins[k] = out
        return out
    def exec(self, cmd, timeout=120, **kw):
        env = dict(os.environ, **kw, ASAN_OPTIONS='detect_leaks=0:exitcode=46:allocator_may_return_null=1:detect_stack_use_after_return=1')
        cwd = tempfile.mkdtemp(dir=self.tmp)
        try: r = subprocess.run(cmd, capture_output=True, text=True, errors='replace', timeout=timeout, env=env, cwd=cwd, stdin=subprocess.DEVNULL)
        except subprocess.TimeoutExpired: return 'hang', 'no result within %d s' % timeout
        return r.returncode, (r.stdout[-3000:] + r.stderr[-3000:])
    def replay(self, h, defs, args, model):
        """(reproduced, description)"""
        mf = os.path.join(self.tmp, 'model_%d.txt' % threading.get_ident())
        with open(mf, 'w') as f:
            for k, v in model.items(): f.write('%s %d\n' % (k, v))
        b = self.bin('asan', h, defs)
        rc, out = self.exec([b, mf, '-', '-'] + [str(a) for a in args])
        if rc != 0: return True, describe(rc, out)
        b = self.bin('plain', h, defs)
        rc, out = self.exec([b, mf, '-', '-'] + [str(a) for a in args])
        if rc != 0: return True, describe(rc, out)
        for fill in ('0', '255'):
            rc, out = self.exec([b, mf, '-', '-'] + [str(a) for a in args], VP_FILL=fill)
            if rc != 0: return True, describe(rc, out)
        rc, out = self.exec(['valgrind', '-q', '--error-exitcode=43', '--leak-check=no', b, mf, '-', '-'] + [str(a) for a in args], 300, VP_FILL='256')
        if rc not in (0, 'hang'): return True, describe(rc, out)
        return False, 'not reproduced natively'
    def search(self, h, defs, args, seed, n, budget):
        """counterexample search for obligations the solver left open"""
        b = self.bin('asan', h, defs)
        df = os.path.join(self.tmp, 'dump_%s_%d.txt' % (h, os.getpid()))
        t0 = time.time()
        for i in range(n):
            if time.time() - t0 > budget: break
            rc, out = self.exec([b, '-', str(seed * 100003 + i), df] + [str(a) for a in args], 60)
            if rc != 0:
                model = {}
                for l in open(df):
                    k, v = l.split(); model[k] = int(v)
                return model, describe(rc, out)
        return None, None

def describe(rc, out):
    for l in out.splitlines():
        if l.startswith(('ASSERT-FAIL', 'UNEXPECTED-EXIT', 'SIGNAL')): return l.strip()
        if 'ERROR: AddressSanitizer' in l or 'runtime error' in l: return l.strip()[:300]
        if l.startswith('==') and ('ninitialised' in l or 'Invalid' in l or 'free' in l): return l.strip()[:300]
    return 'exit status %s: %s' % (rc, out.strip()[-200:])

def about(pid):
    """bounds and what lies outside them, as in tools/proplist.py"""
    d = {}
    def prop(id, title, statement, over, text, why, files, mech, note, **k): d[id] = (text + '; the instances below give the exact sizes', note[len(env['LN']):] + ' Larger sizes and parameters than those of the instances are outside; so are calls that break the documented preconditions.')
    env = dict(prop=prop); exec(open(os.path.join(ROOT, 'tools', 'proplist.py')).read(), env)
    return d.get(pid, ('', ''))

# ------------------------------------------------------------------ one instance
MODS = {}
def worker(job):
    idx, inst, seed, tl = job
    t0 = time.time()
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    sys.setrecursionlimit(60000); threading.stack_size(512 << 20)
    res = {}
    def go():
        import interp, solver
        try:
            mod = MODS[inst['mod']]
            o = dict(seed=seed, timeout=inst.get('qt', 60) * 1000)
            if inst.get('bt'): o['branch_timeout'] = inst['bt'] * 1000
            I = interp.Interp([mod], o)
            I.args = list(inst['args']); I.deadline = t0 + tl
            err = None
            try: I.call_main('vp_main')
            except MemoryError: err = 'out of memory'
            except RecursionError: err = 'expression recursion limit '
            except interp.Unsupported as e: err = 'not encodable / budget: ' + str(e)
            except Exception as e: err = 'engine error: %s' % traceback.format_exc()[-1500:]
            S = solver.Stats
            res.update(idx=idx, err=err, violations=I.violations[:40], undecided=[list(map(str, u)) for u in I.undecided], asserts=I.asserts, proved=I.assert_proved, concrete=I.assert_concrete, covers=dict(I.covers), paths=I.paths, forks=I.forks, merges=I.merges, steps=I.steps, used=sorted(I.used), nvars=len(I.vars), vars=[(k, str(v.lo), str(v.hi)) for k, v in list(I.vars.items())[:6]], ended=dict(I.ended),
                       q=dict(queries=S.queries, sat=S.sat, unsat=S.unsat, unknown=S.unknown, time=S.time))
        except Exception as e:
            res.update(idx=idx, err='engine error: ' + traceback.format_exc()[-1500:], violations=[], undecided=[], asserts=0, proved=0, concrete=0, covers={}, paths=0, forks=0, merges=0, steps=0, used=[], nvars=0, vars=[], ended={}, q=dict(queries=0, sat=0, unsat=0, unknown=0, time=0))
    th = threading.Thread(target=go); th.start(); th.join()
    res['wall'] = time.time() - t0
    return res

def dead(idx, why, wall):
    return dict(idx=idx, err=why, violations=[], undecided=[], asserts=0, proved=0, concrete=0, covers={}, paths=0, forks=0, merges=0, steps=0, used=[], nvars=0, vars=[], ended={}, q=dict(queries=0, sat=0, unsat=0, unknown=0, time=0), wall=wall)

def runpool(jobs, nproc, end=None):
    """one process per instance (fresh solver and caches), hard time limit"""
    ctx = mp.get_context('fork')
    pend = sorted(jobs, key=lambda j: -j[1].get('cost', j[1].get('t', 60))); run = []; out = {}
    while pend or run:
        while pend and end and time.time() > end: j = pend.pop(0); out[j[0]] = dead(j[0], 'not started: time budget of the check', 0)
        while pend and len(run) < nproc:
            j = pend.pop(0); r, w = ctx.Pipe(False)
            def child(w=w, j=j):
                r.close()
                try: w.send(worker(j))
                except BaseException as e: w.send(dead(j[0], 'engine error: %r' % (e,), 0))
                w.close(); os._exit(0)
            p = ctx.Process(target=child); p.start(); w.close()
            run.append((p, r, j, time.time()))
        mp.connection.wait([r for _, r, _, _ in run], timeout=0.5)
        nxt = []
        for p, r, j, t in run:
            if r.poll():
                try: out[j[0]] = r.recv()
                except EOFError: out[j[0]] = dead(j[0], 'worker died', time.time() - t)
                p.join(5)
                if p.is_alive(): p.kill()
            elif not p.is_alive(): out[j[0]] = dead(j[0], 'worker died (memory limit)', time.time() - t)
            elif time.time() - t > j[3] + 30 or (end and time.time() > end + 120): p.kill(); p.join(); out[j[0]] = dead(j[0], 'time limit', time.time() - t)
            else: nxt.append((p, r, j, t))
        run = nxt
    return [out[j[0]] for j in jobs]

def known(pid):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                # finding: property=ID instance=<label> site="<msg>" | description
                head, _, desc = l.partition(' | ')
                import shlex
                kv = dict(x.split('=', 1) for x in shlex.split(head[len('finding: '):]))
                kv['desc'] = desc; out.append(kv)
    return out

def label(inst): return '%s(%s)' % (inst['h'], ','.join(map(str, inst['args'])))

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('id', nargs='?'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--replay'); ap.add_argument('--only'); ap.add_argument('-v', action='store_true'); ap.add_argument('--procs', type=int, default=8)
    a = ap.parse_args()
    tmp = scratch()
    try:
        if a.replay: return do_replay(a.replay, tmp)
        return check(a, tmp)
    finally: shutil.rmtree(tmp, ignore_errors=True)

def do_replay(path, tmp):
    d = json.load(open(path)); n = Native(tmp)
    ok, desc = n.replay(d['harness'], d['defines'], d['args'], {k: int(v) for k, v in d['model'].items()})
    print(desc); return 1 if ok else 0

def check(a, tmp):
    t0 = time.time(); pid = a.id; seed = int(os.environ.get('VERIF_SEED', '1'))
    spec = specs.SPECS[pid]
    insts = []
    for i in spec['instances']:
        i = dict(i); i.setdefault('defs', []); i.setdefault('args', []); i.setdefault('t', 60); i.setdefault('tier', 'quick')
        if a.tier == 'quick' and i['tier'] != 'quick': continue
        if a.tier == 'thorough': i['t'] = i.get('tt', i['t'] * 4)
        i.setdefault('qt', max(5, i['t'] // 3))
        i['mod'] = i['h'] + '|' + ' '.join(i['defs'])
        if a.only and a.only not in label(i): continue
        insts.append(i)
    budget = spec.get('budget', 600) if a.tier == 'quick' else spec.get('tbudget', 7200)
    names = {}
    for i in insts: names.setdefault(i['mod'], 'm%d' % len(names))
    builderr = None
    try:
        js = build.build({names[i['mod']]: (os.path.join(build.HARN, i['h'] + '.c'), i['defs']) for i in insts}, tmp)
    except RuntimeError as e:
        print('cannot encode the current tree (compilation failed):\n' + str(e)); builderr = str(e)
    results = []
    if builderr is None:
        for m, n in names.items(): MODS[m] = json.load(open(js[n]))
        results = runpool([(k, i, seed, i['t']) for k, i in enumerate(insts)], a.procs, t0 + budget)
    nat = Native(tmp); kf = known(pid); viol = []; knownhits = []; unrep = []; open_ = []; searched = 0
    rdir = os.path.join(ROOT, 'replay')
    for i, r in zip(insts, results):
        seen = {}
        if a.v: print('%-40s %6.1fs asserts=%d proved=%d concrete=%d viol=%d undec=%d paths=%d forks=%d q=%d/%.1fs covers=%s %s %s' % (label(i), r['wall'], r['asserts'], r['proved'], r['concrete'], len(r['violations']), len(r['undecided']), r['paths'], r['forks'], r['q']['queries'], r['q']['time'], r['covers'], r['err'] or '', r['undecided'][:4]), flush=True)
        for v in r['violations']:
            k = (v['kind'], v['msg'])
            if seen.get(k, 0) >= 2 or len(viol) >= 12: continue
            seen[k] = seen.get(k, 0) + 1
            f = [x for x in kf if x.get('instance', '*') in ('*', label(i), i['h']) and x.get('site') in (v['msg'], '%s: %s' % (v['kind'], v['msg']))]
            try: ok, desc = nat.replay(i['h'], i['defs'], i['args'], v['model'])
            except RuntimeError as e: ok, desc = False, 'replay build failed: ' + str(e)[-300:]
            if not ok:
                unrep.append('%s %s: %s (%s)' % (label(i), v['kind'], v['msg'], desc))
                if a.v: print('  UNREPRODUCED', v['kind'], v['msg'], {k: v['model'][k] for k in list(v['model'])[:8]}, v['stack'][-5:])
                continue
            if f:
                if f[0] not in knownhits: knownhits.append(f[0])
                continue
            viol.append((i, v, desc))
            if a.v: print('  REPRODUCED', v['kind'], v['msg'], desc, {k: v['model'][k] for k in list(v['model'])[:12]}, v['stack'][-5:])
        und = bool(r['undecided']) or r['err'] is not None or not r['covers'].get('end')
        if und:
            open_.append('%s: %s %s' % (label(i), (r['err'] or ('end not reached: %s' % r['ended'] if not r['covers'].get('end') else ''))[:400], ['%s: %s' % tuple(u) for u in r['undecided']][:6]))
            if not r['violations'] and len(viol) < 12 and time.time() - t0 < budget + 100 and not i.get('nosearch') and builderr is None:
                # the solver left something open: look for a concrete witness of a violation
                try: model, desc = nat.search(i['h'], i['defs'], i['args'], seed, 300, 40)
                except RuntimeError: model = None
                searched += 1
                if model is not None:
                    v = dict(kind='search', msg=desc, model=model, stack=[])
                    f = [x for x in kf if x.get('instance', '*') in ('*', label(i), i['h']) and x.get('site') and x['site'] in desc]
                    if f:
                        if f[0] not in knownhits: knownhits.append(f[0])
                    else: viol.append((i, v, desc))
    rc = 2 if builderr else 0
    for x in knownhits: print('KNOWN-FINDING: property=%s %s' % (pid, x['desc'] or x.get('site')))
    if viol:
        os.makedirs(rdir, exist_ok=True)
        for n, (i, v, desc) in enumerate(viol[:10]):
            p = os.path.join(rdir, '%s-%d.json' % (pid, n))
            json.dump(dict(property=pid, harness=i['h'], defines=i['defs'], args=i['args'], kind=v['kind'], msg=v['msg'], model={k: str(x) for k, x in v['model'].items()}, native=desc, stack=v['stack'], how='python3-vt check.py --replay ' + p), open(p, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (pid, p)); print('  %s %s: %s\n  native replay: %s' % (label(i), v['kind'], v['msg'], desc))
        rc = 1
    tot = lambda k: sum(r[k] for r in results)
    qs = lambda k: sum(r['q'][k] for r in results)
    used = sorted(set(f for r in results for f in r['used']))
    ev = dict(property=pid, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=seed, level='other', wall_s=round(time.time() - t0, 2), violations=len(viol),
        assumptions=spec.get('assumptions', []) + specs.COMMON_ASSUMPTIONS,
        coverage=dict(
            explanation='Symbolic execution of the library compiled from the current source to LLVM IR; every assertion of every instance is discharged by simplification to a constant or by an SMT query over all values of the symbolic inputs within the bounds of the instance. Counterexamples are replayed against the natively compiled library.',
            bounds=about(pid)[0], outside_bounds=about(pid)[1],
            instances=len(insts), instances_fully_decided=sum(1 for i, r in zip(insts, results) if not r['err'] and not r['undecided'] and r['covers'].get('end')),
            symbolic_inputs=tot('nvars'), assertions_checked=tot('asserts'), assertions_by_solver=tot('proved'), assertions_by_normalisation=tot('concrete'),
            paths=tot('paths'), forks=tot('forks'), state_merges=tot('merges'), instructions=tot('steps'),
            solver=dict(queries=qs('queries'), sat=qs('sat'), unsat=qs('unsat'), unknown=qs('unknown'), seconds=round(qs('time'), 2)),
            functions_encoded=used, functions_encoded_count=len(used),
            undecided=open_, unreproduced_candidates=unrep, open_instances_searched_natively=searched,
            known_findings=[x['desc'] for x in knownhits],
            per_instance=[dict(instance=label(i), what=i.get('what', ''), wall_s=round(r['wall'], 2), assertions=r['asserts'], paths=r['paths'], queries=r['q']['queries'], covers=r['covers'], inputs=r['vars'][:4]) for i, r in zip(insts, results)]))
    if builderr: ev['coverage']['undecided'] = ['the current tree does not compile: ' + builderr[-500:]]
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    c = ev['coverage']
    print('%s: %s in %.1fs: %d instances (%d fully decided), %d assertions, %d solver queries (%.1fs), %d functions encoded, %d undecided, %d unreproduced' % (pid, ['held', 'VIOLATED', 'NO ANSWER'][rc], ev['wall_s'], len(insts), c['instances_fully_decided'], c['assertions_checked'], c['solver']['queries'], c['solver']['seconds'], len(used), len(open_), len(unrep)))
    for o in open_: print('  undecided', o)
    for o in unrep: print('  unreproduced', o)
    return rc

if __name__ == '__main__': sys.exit(main())
