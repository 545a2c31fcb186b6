#!/usr/bin/env python3
"""Decides one property: compiles /repo's current sources to LLVM IR, executes them symbolically together with the
property's harnesses (engine/, z3), replays every counterexample (and a sample of the proven paths) against the real
object code, and writes evidence/<id>.json.   usage: run.py <ID> [--tier quick|thorough] [--only RUN] [-v]"""
import argparse, threading, concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import specs
REPO = os.environ.get('MOTH_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
CLANG = 'clang'
IRFLAGS = ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-builtin', '-g', '-w', '-D__NO_CTYPE', '-fno-strict-aliasing', '-emit-llvm', '-c']
NATFLAGS = {'asan': ['-O1', '-g', '-w', '-fno-builtin', '-fsanitize=address', '-fno-omit-frame-pointer'],
            'msan': ['-O1', '-g', '-w', '-fno-builtin', '-fsanitize=memory', '-fno-omit-frame-pointer'],
            'tsan': ['-O1', '-g', '-w', '-fno-builtin', '-fsanitize=thread', '-fno-omit-frame-pointer'], 'tsan_env': ['-O1', '-g', '-w', '-fno-builtin', '-DMOTH_TSAN', '-fno-omit-frame-pointer']}
NPROC = os.cpu_count() or 4

def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    return p.returncode, p.stdout

class BuildError(Exception): pass
def must(cmd, **kw):
    rc, out = sh(cmd, **kw)
    if rc: raise BuildError('%s\n%s' % (' '.join(cmd), out[-3000:]))
    return out

def repo_sources():
    r = []
    for f in sorted(glob.glob(os.path.join(REPO, 'src', '*.c'))):
        t = open(f, errors='replace').read()
        if re.search(r'^\s*(int|void)\s+main\s*\(', t, re.M): continue
        r.append(f)
    return r

class Builder:
    def __init__(self, work, tier):
        self.w, self.tier = work, tier
        self.pool = cf.ThreadPoolExecutor(NPROC)
        self.inc = ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(ROOT, 'harness')] + (['-DTHOROUGH=1'] if tier == 'thorough' else [])
        self.srcs = repo_sources(); self.nat = {}; self.exes = {}; self.lock = threading.Lock()
    def bc(self, src, tag):
        out = os.path.join(self.w, tag + '.bc'); must([CLANG] + IRFLAGS + self.inc + [src, '-o', out]); return out
    def start(self):
        h = os.path.join(ROOT, 'harness')
        self.f_repo = [self.pool.submit(self.bc, s, 'r_' + os.path.basename(s)[:-2]) for s in self.srcs]
        self.f_env = self.pool.submit(self.bc, os.path.join(h, 'env.c'), 'env')
        self.f_nolog = self.pool.submit(self.bc, os.path.join(h, 'nolog.c'), 'nolog')
        self.f_libc = self.pool.submit(self.bc, os.path.join(ROOT, 'minilibc', 'libc.c'), 'libc')
    def harness(self, run):
        tag = 'h_' + run['h'][:-2] + ('_reallog' if run.get('real_log') else '')
        hb = self.bc(os.path.join(ROOT, 'harness', run['h']), tag)
        repo = [f.result() for f in self.f_repo]
        link, prog = os.path.join(self.w, tag + '.l.bc'), os.path.join(self.w, tag + '.p.bc')
        must(['llvm-link-18', self.f_libc.result(), self.f_env.result()] + ['--override=' + r for r in repo]
             + ([] if run.get('real_log') else ['--override=' + self.f_nolog.result()]) + ['--override=' + hb, '-o', link])
        must(['opt-18', '-passes=function(mem2reg)', link, '-o', prog])
        return prog
    # native
    def nobj(self, src, tag, san):
        out = os.path.join(self.w, '%s.%s.o' % (tag, san)); must([CLANG] + NATFLAGS[san] + self.inc + ['-c', src, '-o', out]); return out
    def native(self, run, san):
        with self.lock:
            k = (run['h'], bool(run.get('real_log')), san)
            if k in self.exes: f, mine = self.exes[k], False
            else: f = self.exes[k] = cf.Future(); mine = True
        if mine:
            try: f.set_result(self.native_build(run, san))
            except BaseException as e: f.set_exception(e)
        return f.result()
    def native_build(self, run, san):
        h = os.path.join(ROOT, 'harness')
        hsan = 'tsan_env' if san == 'tsan' else san     # only the code under test is watched by the thread sanitizer
        with self.lock:
          if san not in self.nat:
            self.nat[san] = {'repo': [self.pool.submit(self.nobj, s, 'n_' + os.path.basename(s)[:-2], san) for s in self.srcs],
                'env': self.pool.submit(self.nobj, os.path.join(h, 'env.c'), 'n_env', hsan), 'rt': self.pool.submit(self.nobj, os.path.join(h, 'rt_native.c'), 'n_rt', hsan),
                'nolog': self.pool.submit(self.nobj, os.path.join(h, 'nolog.c'), 'n_nolog', hsan)}
        n = self.nat[san]; tag = 'nh_' + run['h'][:-2]
        ho = self.nobj(os.path.join(h, run['h']), tag + ('_rl' if run.get('real_log') else ''), hsan)
        rt, env, nolog, repo = n['rt'].result(), n['env'].result(), n['nolog'].result(), [f.result() for f in n['repo']]
        syms = set()
        for o in (rt, env, ho):
            for l in must(['nm', o]).splitlines():
                m = re.match(r'[0-9a-f]+ [TtWw] moth_(\w+)$', l)
                if m: syms.add(m.group(1))
        d = os.path.join(self.w, 'x_' + tag + san + ('_rl' if run.get('real_log') else '')); os.makedirs(d, exist_ok=True)
        args = sum((['--redefine-sym', '%s=moth_%s' % (s, s)] for s in sorted(syms)), [])
        objs = []
        for o in [ho, env] + repo + [nolog]:
            q = os.path.join(d, os.path.basename(o)); must(['objcopy'] + args + [o, q]); objs.append(q)
        hq, eq, rq, nq = objs[0], objs[1], objs[2:-1], objs[-1]
        exe = os.path.join(d, 'replay')
        must([CLANG, '-fsanitize=' + {'asan': 'address', 'msan': 'memory', 'tsan': 'thread'}[san], '-Wl,-z,muldefs', hq] + ([] if run.get('real_log') else [nq]) + [eq, rt] + rq + ['-o', exe, '-lm', '-lrt', '-lpthread'])
        return exe

def by_code(stack):
    # is this access one by the code under test (or by the modelled system on its behalf), not one by the harness
    src = REPO.rstrip('/') + '/src/'; fr = [l for l in stack.splitlines() if re.match(r'\s+#\d+ ', l)]
    for i, l in enumerate(fr):
        if src in l: return True
        if ' sym_touch ' in l: return i + 1 < len(fr)     # only the code under test leaves frames of its own
        if '/harness/' in l and 'rt_native.c' not in l: return False
    return False

def run_native(exe, inputs, arg, work, idx, timeout=10):
    f = os.path.join(work, 'in_%s' % idx)
    with open(f, 'w') as o:
        for n, h in inputs: o.write('%s %s\n' % (n, h))
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:abort_on_error=0:exitcode=97', MSAN_OPTIONS='exitcode=97', TSAN_OPTIONS='exitcode=96:report_signal_unsafe=0:report_thread_leaks=0:history_size=4:external_symbolizer_path=/usr/lib/llvm-18/bin/llvm-symbolizer')
    try:
        p = subprocess.run([exe, f, str(arg)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=work)
        rc, errs = p.returncode, p.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        return 'hang', 'did not terminate within %d s' % timeout
    os.unlink(f)
    if 'ThreadSanitizer: data race' in errs:
        for rep in re.split(r'(?m)^=+$', errs):
            if 'ThreadSanitizer: data race' not in rep or 'Location is TLS' in rep: continue     # the fibers of the replay share their TLS
            two = re.split(r'(?m)^  (?:Previous )?(?:atomic )?(?:[Ww]rite|[Rr]ead) of size', rep.split('\n  Location is')[0])[1:3]
            if len(two) == 2 and all(by_code(x) for x in two):
                m = re.search(r'SUMMARY: (.*)', rep); return 'fail', (m.group(1) if m else 'data race')[:200]
        if rc == 96: return 'ok', ''
    if rc == 0: return 'ok', ''
    if rc in (77, 78, 76): return 'diverged', errs[-300:]
    m = re.search(r'RT-(ASSERT|EXIT): (.*)', errs)
    if m: return 'fail', m.group(2)
    m = re.search(r'ERROR: \w+Sanitizer: (.*)|WARNING: (MemorySanitizer: .*)', errs)
    if m: return 'fail', (m.group(1) or m.group(2))[:200]
    m = re.search(r'[Aa]ssertion [`\'].*', errs)
    return 'fail', (m.group(0)[:200] if m else 'exit status %d' % rc)

def one_run(b, run, tier, work, verbose):
    t0 = time.time(); res = {'run': run['name'], 'errors': [], 'stats': {}, 'samples': [], 'notes': []}
    prog = b.progs[run['h'], bool(run.get('real_log'))].result()
    out = os.path.join(work, 'out_' + re.sub(r'\W', '_', run['name']))
    tl = run.get('time', 240) if tier == 'quick' else run.get('ttime', 1500)
    cmd = [os.path.join(BUILD, 'mse'), prog, '--out', out, '--arg', str(run.get('arg', 0)), '--jobs', str(run.get('jobs', 2)), '--time', str(tl), '--max-insts', str(run.get('max_insts', 5000000)), '--ite-max', str(run.get('ite', 0)), '--samples', '6', '--max-errors', '24']
    rc, txt = sh(cmd, timeout=tl + 120)
    if rc: res['notes'].append('engine exit %d: %s' % (rc, txt[-300:]))
    agg = {}; reach = {}; incomplete = {}; funcs = set(); errs = []; paths = []
    for l in open(out, errors='replace'):
        try: d = json.loads(l)
        except ValueError: res['notes'].append('bad engine line'); continue
        t = d['t']
        if t == 'stat':
            for k, v in d.items():
                if isinstance(v, (int, float)): agg[k] = max(agg.get(k, 0), v) if k in ('max_query_s', 'vars') else agg.get(k, 0) + v
            for k, v in d['reach'].items(): reach[k] = reach.get(k, 0) + v
            for k, v in d['incomplete'].items(): incomplete[k] = incomplete.get(k, 0) + v
            funcs |= set(d['functions'])
        elif t == 'err': errs.append(d)
        elif t == 'path': paths.append(d)
        else: res['notes'].append(json.dumps(d)[:300])
    if not run.get('keep'): os.unlink(out)
    res.update(stats=agg, reach=reach, incomplete=incomplete, functions=sorted(funcs))
    exes = {}
    def exe(san):
        if san not in exes: exes[san] = b.native(run, san)
        return exes[san]
    # counterexamples against the real code
    seen = set()
    for i, e in enumerate(errs):
        key = (e['kind'], e['msg'], e['at'].split(' ')[0])
        if key in seen or len([x for x in res['errors'] if x['confirmed']]) >= 4: continue
        order = ['msan', 'asan'] if e['kind'] == 'uninitialised' or 'uninit' in e['msg'] else ['tsan'] if e['kind'] == 'data-race' else ['asan', 'msan']
        conf, how = False, ''
        for san in order:
            st, how = run_native(exe(san), e['inputs'], run.get('arg', 0), work, '%s_%d%s' % (re.sub(r'\W', '_', run['name']), i, san), timeout=10)
            if st == 'fail' or st == 'hang': conf = True; how = san + ': ' + how; break
            how = '%s: %s %s' % (san, st, how)
        if conf: seen.add(key)
        res['errors'].append(dict(e, run=run['name'], h=run['h'], arg=run.get('arg', 0), real_log=bool(run.get('real_log')), confirmed=conf, native=how))
    # passing paths against the real code
    val = 0
    for i, p in enumerate(paths[:6]):
        st, how = run_native(exe('asan'), p['inputs'], run.get('arg', 0), work, '%s_p%d' % (re.sub(r'\W', '_', run['name']), i), timeout=20)
        if st == 'ok' and run.get('tsan'): st, how = run_native(exe('tsan'), p['inputs'], run.get('arg', 0), work, '%s_t%d' % (re.sub(r'\W', '_', run['name']), i), timeout=20)
        if st == 'ok': val += 1
        elif run.get('uncounted'): pass
        else: res['notes'].append('passing path does not pass natively (%s %s): %s' % (st, how, json.dumps(p['inputs'])[:200]))
        if len(res['samples']) < 2: res['samples'].append({'run': run['name'], 'end': p['end'], 'insts': p['insts'], 'inputs': [[n, h[:160]] for n, h in p['inputs'][:12]]})
    res['validated'] = val; res['wall'] = time.time() - t0
    if verbose: print('  %-28s %6.1fs paths=%d branches=%d queries=%d errs=%d inc=%s %s' % (run['name'], res['wall'], agg.get('completed', 0), agg.get('branches', 0), agg.get('queries', 0), len(errs), incomplete, res['notes']), flush=True)
    return res

def load_known():
    r = []
    f = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'finding: property=(\w+) run=(\S+) match=/(.*?)/ (.*)', l)
            if m: r.append(m.groups())
    return r

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--only'); ap.add_argument('-v', action='store_true'); ap.add_argument('--keep', action='store_true')
    a = ap.parse_args(); tier = 'thorough' if a.tier == 'thorough' else 'quick'
    if a.prop == 'B01': os.execvp('python3-vt', ['python3-vt', os.path.join(HERE, 'b01.py'), '--tier', tier])
    t0 = time.time(); spec = specs.CHECKS[a.prop]
    if not os.path.exists(os.path.join(BUILD, 'mse')): must(['bash', os.path.join(ROOT, 'setup.sh')])
    runs = [r for r in spec['runs'] if (tier == 'thorough' or not r.get('thorough')) and (not a.only or a.only == r['name'])]
    work = tempfile.mkdtemp(prefix='w_%s_' % a.prop, dir=BUILD)
    try:
        b = Builder(work, tier); b.start(); b.progs = {}
        hp = cf.ThreadPoolExecutor(NPROC)
        for r in runs:
            k = (r['h'], bool(r.get('real_log')))
            if k not in b.progs: b.progs[k] = hp.submit(b.harness, r)
        rp = cf.ThreadPoolExecutor(int(os.environ.get('MOTH_PAR', '6')))
        results = [f.result() for f in [rp.submit(one_run, b, r, tier, work, a.v) for r in runs]]
        if a.keep: shutil.copytree(work, os.path.join(BUILD, 'keep'), dirs_exist_ok=True)
    except BuildError as e:
        # the tree does not compile: nothing can be decided
        print('build failed: %s' % e, file=sys.stderr); return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    known = load_known(); viol = []; unconf = []
    for r in results:
        for e in r['errors']:
            if not e['confirmed']: unconf.append(e); continue
            k = [x for x in known if x[0] == a.prop and x[1] == e['run'] and re.search(x[2], e['kind'] + ': ' + e['msg'])]
            if k: print('KNOWN-FINDING: property=%s %s' % (a.prop, k[0][3]))
            else: viol.append(e)
    S = lambda k: sum(r['stats'].get(k, 0) for r in results)
    funcs = sorted({f for r in results for f in r.get('functions', []) if '/src/' in f})
    reach = {}
    for r in results:
        for k, v in r.get('reach', {}).items(): reach[k] = reach.get(k, 0) + v
    missing = [l for l in spec.get('reach', []) if not reach.get(l)] if not a.only else []
    incomplete = {r['run']: r['incomplete'] for r in results if r.get('incomplete')}
    notes = [n for r in results for n in r['notes']]
    cov = {'states': int(S('completed')), 'transitions': int(S('branches')), 'traces_validated_against_impl': int(sum(r.get('validated', 0) for r in results)),
        'samples': [s for r in results for s in r['samples']][:8] or [{'note': 'no path completed'}],
        'functions_encoded': [re.sub(r'^.*/src/', 'src/', f) for f in funcs], 'bounds': [r['bounds'] for r in runs],
        'solver': {'queries': int(S('queries')), 'sat': int(S('sat')), 'unsat': int(S('unsat')), 'unknown': int(S('unknown')), 'cache_hits': int(S('cache_hits')), 'time_s': round(S('solver_s'), 2), 'max_query_s': round(max([r['stats'].get('max_query_s', 0) for r in results] or [0]), 3)},
        'assertions_evaluated': int(S('asserts')), 'instructions': int(S('insts')), 'assumption_killed_paths': int(S('assume_killed')), 'reached': reach, 'vacuous_labels': missing, 'incomplete': incomplete,
        'runs': [{'run': r['run'], 'paths': int(r['stats'].get('completed', 0)), 'queries': int(r['stats'].get('queries', 0)), 'wall_s': round(r['wall'], 1)} for r in results],
        'exhaustive': not incomplete and not missing and not notes, 'unconfirmed_counterexamples': [{'run': e['run'], 'kind': e['kind'], 'msg': e['msg'], 'at': e['at'][:200], 'native': e['native']} for e in unconf][:10], 'notes': notes[:10]}
    ev = {'property': a.prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking', 'coverage': cov,
        'assumptions': spec.get('assumptions', []) + specs.ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', a.prop + '.json'), 'w'), indent=1)
    for m in missing: print('note: label not reached: %s' % m, file=sys.stderr)
    for e in unconf: print('note: counterexample not reproduced natively: %s %s: %s at %s (%s)' % (e['run'], e['kind'], e['msg'], e['at'][:300], e['native']), file=sys.stderr)
    for n in notes: print('note: ' + n, file=sys.stderr)
    if incomplete: print('note: incomplete: %s' % incomplete, file=sys.stderr)
    print('%s: %d runs, %d paths, %d branch decisions, %d solver queries (%.1f s), %d paths replayed, %.1f s' % (a.prop, len(runs), cov['states'], cov['transitions'], cov['solver']['queries'], cov['solver']['time_s'], cov['traces_validated_against_impl'], time.time() - t0))
    if viol:
        rd = os.path.join(BUILD, 'replays'); os.makedirs(rd, exist_ok=True)
        for i, e in enumerate(viol[:6]):
            p = os.path.join(rd, '%s-%d.json' % (a.prop, i)); json.dump(e, open(p, 'w'), indent=1)
            print('  %s %s: %s\n    at %s\n    native: %s\n    inputs: %s' % (e['run'], e['kind'], e['msg'], e['at'][:400], e['native'], json.dumps(e['inputs'])[:600]))
            print('VIOLATION property=%s replay=%s' % (a.prop, p))
        return 1
    return 0
if __name__ == '__main__': sys.exit(main())
