#!/usr/bin/env python3-vt
"""check.py PROP [--tier quick|thorough] : proves the contracts of one property on /repo's current tree."""
import sys, os, json, time, subprocess, tempfile, shutil, hashlib, importlib, multiprocessing, re, signal
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, 'specs'))
import terms, sx, spec

JVM = '/usr/lib/jvm/java-17-openjdk-amd64/include'
FLAGS = ['-DLINUX', '-D_REENTRANT', '-D_GNU_SOURCE', '-I/usr/include/apr-1.0', '-I/usr/include/xercesc',
         '-I%s/src/framework' % REPO, '-I%s/src/cas' % REPO, '-I%s/src/jni' % REPO, '-I' + JVM, '-I' + JVM + '/linux']
CHECKFLAGS = ['-DNDEBUG', '-DTRACEOFF', '-w']


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Infra(Exception):
    pass


def irdump_path():
    d = os.path.join(VERIF, '.build')
    p = os.path.join(d, 'irdump')
    src = os.path.join(HERE, 'irdump.cpp')
    if os.path.exists(p) and os.path.getmtime(p) >= os.path.getmtime(src):
        return p
    os.makedirs(d, exist_ok=True)
    t = p + '.%d' % os.getpid()
    cx = subprocess.run(['llvm-config-18', '--cxxflags'], capture_output=True, text=True).stdout.split()
    ld = subprocess.run(['llvm-config-18', '--ldflags'], capture_output=True, text=True).stdout.split()
    r = subprocess.run(['clang++-18', '-O1', '-w'] + cx + [src, '-o', t] + ld + ['-lLLVM-18', '-fexceptions'], capture_output=True, text=True)
    if r.returncode:
        raise Infra('cannot build irdump: ' + r.stderr[-2000:])
    os.rename(t, p)
    return p


def compile_tu(job):
    src, out, text, irdump = job
    bc = out + '.bc'
    if text is not None:
        src = out + '.cpp'
        open(src, 'w').write(text)
    cmd = ['clang++-18'] + FLAGS + CHECKFLAGS + ['-O0', '-femit-all-decls', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names',
           '-gline-tables-only', '-Xclang', '-fdump-record-layouts', '-emit-llvm', '-c', src, '-o', bc]
    with open(out + '.lay', 'w') as f:
        r = subprocess.run(cmd, stdout=f, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        return (src, 'clang: ' + r.stderr[-3000:])
    r = subprocess.run(['opt-18', '-passes=sroa,simplifycfg', bc, '-o', out + '.s.bc'], capture_output=True, text=True)
    if r.returncode:
        return (src, 'opt: ' + r.stderr[-2000:])
    r = subprocess.run([irdump, out + '.s.bc', out + '.jsonl'], capture_output=True, text=True)
    if r.returncode:
        return (src, 'irdump: ' + r.stderr[-2000:])
    return (src, None)


def build(mod, tmp):
    jobs = []
    irdump = irdump_path()
    for i, t in enumerate(mod.TUS):
        jobs.append((os.path.join(REPO, 'src', t), os.path.join(tmp, 'tu%d' % i), None, irdump))
    for i, t in enumerate(getattr(mod, 'PROBES', ())):
        jobs.append((None, os.path.join(tmp, 'pr%d' % i), t, irdump))
    with multiprocessing.Pool(min(8, len(jobs))) as p:
        res = p.map(compile_tu, jobs)
    for src, err in res:
        if err:
            raise Infra('%s does not compile: %s' % (src, err))
    return [j[1] for j in jobs]


PROG = None


def load(outs):
    P = sx.Program()
    for o in outs:
        P.load(os.path.basename(o), o + '.jsonl')
    for o in outs:
        P.load_layouts(o + '.lay')
    return P


def work(arg):
    modname, idx, ts = arg
    mod = importlib.import_module(modname)
    c = mod.CONTRACTS[idx]
    R = spec.verify(PROG, c, list(getattr(mod, 'ASSUMED', ())) + [x for x in mod.CONTRACTS], getattr(mod, 'STUBS', ()), ts)
    if getattr(getattr(R, 'ex', None), 'reused', 0) and (R.undecided or R.vacuous or any(o.status != 'proved' for o in R.obls)):
        # once more, with every loop analysed afresh wherever it is met
        w0 = R.wall
        sx.REUSE = False
        try:
            R = spec.verify(PROG, c, list(getattr(mod, 'ASSUMED', ())) + [x for x in mod.CONTRACTS], getattr(mod, 'STUBS', ()), ts)
        finally:
            sx.REUSE = True
        R.wall += w0
    hints = []
    out = {'name': R.name, 'dem': R.dem, 'undecided': R.undecided, 'vacuous': R.vacuous, 'paths': R.paths, 'missing': R.missing,
           'wall': R.wall, 'trace': getattr(R, 'trace', None), 'obls': [], 'inlined': sorted(R.ex.inlined) if hasattr(R, 'ex') else [],
           'stubbed': sorted(R.ex.stubbed) if hasattr(R, 'ex') else [], 'used': sorted(R.ex.used_contracts) if hasattr(R, 'ex') else [],
           'loops': [list(x) for x in R.ex.houdini_stats] if hasattr(R, 'ex') else [], 'bounded': getattr(c, 'bounded', None)}
    for o in R.obls:
        d = {'name': o.name, 'where': o.where, 'status': o.status, 'backend': o.backend, 't': round(o.t, 3), 'kind': o.kind}
        if o.status != 'proved':
            d['goal'] = terms.show(o.goal, 12)[:1500] if not isinstance(o.goal, bool) else str(o.goal)
            d['model'] = model_text(o.model)
            d['hints'] = model_vars(o.model)
        out['obls'].append(d)
    out['stats'] = dict(sx.STATS)
    return out


def model_vars(m):
    r = {}
    if m is None:
        return r
    try:
        for d in m.decls():
            if d.arity() == 0:
                v = m[d]
                try:
                    r[d.name()] = v.as_long()
                except Exception:
                    pass
    except Exception:
        pass
    return r


def model_text(m):
    if m is None:
        return None
    try:
        return '\n'.join('%s = %s' % (d.name(), str(m[d])[:300]) for d in m.decls())[:6000]
    except Exception as e:
        return str(e)


def known_findings():
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#'):
                out.append(l)
    return out


SAN = ['-fsanitize=address,undefined', '-fno-sanitize=vptr,alignment,null,nonnull-attribute', '-fno-sanitize-recover=undefined']


def build_replay(mod, tmp):
    """compiles the replay driver together with the whole library from /repo's current sources"""
    import glob
    drv = os.path.join(VERIF, 'replay', mod.REPLAY)
    srcs = getattr(mod, 'REPLAY_SRC', None)
    if srcs is None:
        srcs = sorted(glob.glob(REPO + '/src/cas/*.cpp') + glob.glob(REPO + '/src/framework/*.cpp') + glob.glob(REPO + '/src/jni/*.cpp'))
    else:
        srcs = [os.path.join(REPO, 'src', x) for x in srcs]
    san = list(getattr(mod, 'REPLAY_CFLAGS', SAN))
    base = ['g++'] + FLAGS + CHECKFLAGS + ['-DUIMA_VERSION=2.4.1', '-g1', '-O1', '-fno-strict-aliasing', '-fno-access-control', '-I' + os.path.join(VERIF, 'replay')] + san
    jobs = []
    for i, x in enumerate([drv] + srcs):
        o = os.path.join(tmp, 'rp%d.o' % i)
        jobs.append((base + ['-c', x, '-o', o], o))
    with multiprocessing.Pool(8) as p:
        rs = p.map(runcmd, [j[0] for j in jobs], chunksize=1)
    for r in rs:
        if r:
            raise Infra('replay driver does not build: ' + r)
    exe = os.path.join(tmp, 'replay')
    r = runcmd(['g++'] + san + [j[1] for j in jobs] + ['-o', exe, '-licui18n', '-licuuc', '-licuio', '-licudata', '-lxerces-c', '-lapr-1', '-laprutil-1', '-ldl', '-lpthread'])
    if r:
        raise Infra('replay driver does not link: ' + r)
    return exe


def runcmd(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    return r.stderr[-3000:] if r.returncode else None


FWSRC = None


def main():
    global PROG
    prop = sys.argv[1]
    tier = 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    deadline = t0 + (780 if tier == 'quick' else 3300)
    mod = importlib.import_module(prop)
    tmp = tempfile.mkdtemp(prefix='vchk_%s_' % prop)
    try:
        rc = run(prop, mod, tier, seed, tmp, t0)
    except Infra as e:
        log('INFRASTRUCTURE: ' + str(e))
        rc = 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def run(prop, mod, tier, seed, tmp, t0):
    global PROG
    outs = build(mod, tmp)
    PROG = load(outs)
    tb = time.time() - t0
    only = os.environ.get('ONLY')
    idx = [i for i, c in enumerate(mod.CONTRACTS) if not only or re.search(only, c.name)]
    idx = [i for i in idx if not (getattr(mod.CONTRACTS[i], 'optional', False) and PROG.find(mod.CONTRACTS[i].dem) is None)]
    idx.sort(key=lambda i: -getattr(mod.CONTRACTS[i], 'cost', 1))
    ts = 1.0 if tier == 'quick' else 3.0
    results = []
    maxw = 420 if tier == 'quick' else 2400
    ctx = multiprocessing.get_context('fork')
    pool = ctx.Pool(8, maxtasksperchild=1)
    hs = [(i, pool.apply_async(work, ((prop, i, ts),))) for i in idx]
    for i, h in hs:
        try:
            results.append(h.get(timeout=max(1, maxw - (time.time() - t0))))
        except multiprocessing.TimeoutError:
            c = mod.CONTRACTS[i]
            results.append({'name': c.name, 'dem': c.dem, 'undecided': 'time limit of the check reached', 'vacuous': None, 'paths': 0, 'missing': False,
                            'wall': time.time() - t0, 'obls': [], 'inlined': [], 'stubbed': [], 'used': [], 'loops': [], 'stats': {}, 'bounded': None, 'trace': None})
        except Exception as e:
            c = mod.CONTRACTS[i]
            results.append({'name': c.name, 'dem': c.dem, 'undecided': 'verifier failure: %r' % e, 'vacuous': None, 'paths': 0, 'missing': False,
                            'wall': 0, 'obls': [], 'inlined': [], 'stubbed': [], 'used': [], 'loops': [], 'stats': {}, 'bounded': None, 'trace': None})
    pool.terminate()
    pool.join()
    # verdict
    failed = []
    for r in results:
        if os.environ.get('VERBOSE'):
            log('== %s: paths %d, obligations %d, %.1fs %s' % (r['name'], r['paths'], len(r['obls']), r['wall'], r['undecided'] or r['vacuous'] or ''))
            if r['trace'] and os.environ.get('VERBOSE') == '2':
                log(r['trace'])
            for l in r['loops']:
                log('   loop', l)
            for o in r['obls']:
                if os.environ.get('SLOW') and o['t'] > float(os.environ['SLOW']):
                    log('   slow %.1f %s %s %s %s' % (o['t'], o['status'], o['backend'], o['name'], (o.get('goal') or '')[:300]))
        for o in r['obls']:
            if o['status'] != 'proved':
                failed.append((r, o))
        if r['undecided']:
            failed.append((r, {'name': 'verification of the function completes', 'where': r['dem'], 'status': 'undecided', 'goal': r['undecided'], 'model': None, 'hints': {}, 'backend': '-'}))
        if r['vacuous']:
            failed.append((r, {'name': 'contract is not vacuous', 'where': r['dem'], 'status': 'failed', 'goal': r['vacuous'], 'model': None, 'hints': {}, 'backend': '-'}))
        if not r['obls'] and not r['undecided']:
            failed.append((r, {'name': 'obligations are generated', 'where': r['dem'], 'status': 'failed', 'goal': 'no obligations', 'model': None, 'hints': {}, 'backend': '-'}))
    nob = sum(len(r['obls']) for r in results)
    ndis = sum(1 for r in results for o in r['obls'] if o['status'] == 'proved')
    viol = 0
    kf = [l for l in known_findings() if 'property=%s ' % prop in l and not l.startswith('fixed:')]
    rep = None
    if failed:
        for r, o in failed:
            log('FAILED %s | %s | %s | %s | %s' % (r['name'], o['name'], o['where'], o['status'], (o.get('goal') or '')[:300 if not os.environ.get('VERBOSE') else 3000]))
            if os.environ.get('VERBOSE') == '2' and o.get('model'):
                log(o['model'])
        if not os.environ.get('NOREPLAY'):
            rep = report(prop, mod, tier, seed, tmp, failed, kf)
        else:
            rep = ('none', None)
        viol = 1
    for l in kf:
        print('KNOWN-FINDING: ' + l, flush=True)
    write_evidence(prop, mod, tier, seed, results, nob, ndis, viol, time.time() - t0, failed)
    if failed:
        print('VIOLATION property=%s replay=%s%s' % (prop, rep[0], '' if rep[1] else ' no-failing-input-found'), flush=True)
        return 1
    log('%s: %d functions under contract, %d/%d obligations discharged, %.1fs (build %.1fs)' % (prop, len(results), ndis, nob, time.time() - t0, tb))
    return 0


def report(prop, mod, tier, seed, tmp, failed, kf):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s.txt' % prop)
    txt = []
    hints = {}
    for r, o in failed:
        txt.append('obligation: %s :: %s\n  at: %s\n  status: %s (%s)\n  goal: %s\n  counterexample:\n%s\n' % (r['name'], o['name'], o['where'], o['status'], o['backend'], o.get('goal'), o.get('model')))
        for k, v in (o.get('hints') or {}).items():
            hints.setdefault(k, []).append(v)
    found = None
    rlog = ''
    if getattr(mod, 'REPLAY', None):
        try:
            exe = build_replay(mod, tmp)
            vals = sorted(set(v for vs in hints.values() for v in vs if abs(v) < (1 << 64)))
            hf = os.path.join(tmp, 'hints.txt')
            open(hf, 'w').write('\n'.join(str(v) for v in vals) + '\n')
            env = dict(os.environ)
            env['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4000'
            try:
                p = subprocess.run([exe, hf, str(seed)], capture_output=True, text=True, errors='replace', timeout=200 if tier == 'quick' else 900, cwd=tmp, env=env)
                rlog = (p.stdout + p.stderr)[-6000:]
                if p.returncode != 0:
                    found = True
            except subprocess.TimeoutExpired as e:
                rlog = 'replay timed out\n' + (e.stdout.decode(errors='replace') if e.stdout else '')[-2000:]
                if 'FAIL' in rlog:
                    found = True
        except Infra as e:
            rlog = str(e)
    txt.append('replay on the code compiled from the current tree: %s\n%s' % ('concrete failing input found' if found else 'no failing input found', rlog))
    open(path, 'w').write('\n'.join(txt))
    log(txt[-1][:3000])
    return (path, found)


def write_evidence(prop, mod, tier, seed, results, nob, ndis, viol, wall, failed):
    back = {}
    for r in results:
        for o in r['obls']:
            if o['status'] == 'proved':
                back[o['backend']] = back.get(o['backend'], 0) + 1
    solver = sum(o.get('t', 0) for r in results for o in r['obls'])
    stub = sorted(set(s for r in results for s in r['stubbed']))
    inl = sorted(set(s for r in results for s in r['inlined']))
    trusted = ['clang 18 front end, and its sroa and simplifycfg passes (the verified text is the LLVM IR compiled from /repo on this run)',
               'the verification-condition generator /verif/tool/sx.py and the term layer terms.py', 'z3 and cvc5'] + \
              ['opaque: ' + s for s in stub]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': mod.LEVEL,
          'coverage': {'obligations': nob, 'discharged': ndis, 'checker_cmd': 'python3-vt tool/check.py %s --tier %s' % (prop, tier),
                       'trusted_base': trusted,
                       'functions_under_contract': [{'function': r['dem'], 'contract': r['name'], 'obligations': len(r['obls']),
                                                     'discharged': sum(1 for o in r['obls'] if o['status'] == 'proved'), 'paths': r['paths'],
                                                     'loops': r['loops'], 'seconds': round(r['wall'], 2), 'callee_contracts_used': r['used'], 'bounded': r['bounded']} for r in results],
                       'inlined_callees': inl, 'discharged_by': back, 'solver_seconds': round(solver, 2),
                       'undischarged': [{'function': r['dem'], 'obligation': o['name'], 'where': o['where'], 'status': o['status']} for r, o in failed]},
          'assumptions': list(COMMON_ASSUMPTIONS) + list(getattr(mod, 'ASSUMPTIONS', ())),
          'wall_s': round(wall, 2), 'violations': viol}
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


COMMON_ASSUMPTIONS = [
    'partial correctness: termination is not proved',
    'memory is accessed through cells of the type last written (no type punning) except where a fixed offset is read at another width, which is modelled',
    'distinct objects named in a precondition do not overlap; operator new returns fresh storage and does not fail',
    'release configuration (NDEBUG), 64-bit Linux layout as reported by clang on this run',
    'unsigned and signed machine arithmetic is modelled exactly (modulo 2^n); floating point arithmetic is uninterpreted',
]

if __name__ == '__main__':
    main()
