#!/usr/bin/env python3
"""Runs the solver-based checks.

  vp.py setup                      build the symbolic executor
  vp.py check <ID> [quick|thorough] decide one property (exit 0 / 1 / 2)
  vp.py query <ID> <query>         run a single query and print its result
  vp.py replay <file>              re-execute a stored counterexample natively
  vp.py list
"""
import sys, os, json, time, subprocess, hashlib, shutil, tempfile, re, threading
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
H = os.path.join(VERIF, 'h')
BUILD = os.path.join(VERIF, 'build')
ENGINE_SRC = os.path.join(VERIF, 'engine', 'gse.cpp')
CLANG = 'clang-18' if shutil.which('clang-18') else 'clang'
sys.path.insert(0, os.path.join(VERIF, 'tools'))
sys.dont_write_bytecode = True
import specs

JOBS = int(os.environ.get('VP_JOBS', '8'))
NATIVE_TIMEOUT = 20
PYTHON = '/opt/veriftools/pyvenv/bin/python3'   # has the z3 bindings


def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)


def engine():
    """build the engine when it is missing or its source changed"""
    h = hashlib.sha256(open(ENGINE_SRC, 'rb').read()).hexdigest()[:16]
    out = os.path.join(BUILD, 'gse-' + h)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    cfg = 'llvm-config-18' if shutil.which('llvm-config-18') else 'llvm-config'
    cpp = sh([cfg, '--cppflags']).stdout.decode().split()
    ld = sh([cfg, '--ldflags']).stdout.decode().split()
    tmp = out + '.%d.tmp' % os.getpid()
    r = sh(['g++', '-O2', '-std=c++17', '-w'] + cpp + ['-o', tmp, ENGINE_SRC] + ld + ['-lLLVM-18', '-lz3'])
    if r.returncode:
        sys.stderr.write(r.stderr.decode())
        raise SystemExit(2)
    os.rename(tmp, out)
    return out


class BuildError(Exception):
    pass


class GeneratorError(BuildError):
    """the generator refused a valid definition, or what it wrote is not valid C against /repo's own headers"""


class Workspace:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='vp-')
        self.cache = {}
        self.lock = threading.Lock()
        self.locks = {}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def once(self, key, fn):
        with self.lock:
            l = self.locks.setdefault(key, threading.Lock())
        with l:
            if key not in self.cache:
                try:
                    self.cache[key] = ('ok', fn())
                except Exception as e:
                    self.cache[key] = ('err', e)
            k, v = self.cache[key]
            if k == 'err':
                raise v
            return v

    # -- the current generator run on one of our service definitions
    def generated(self, idl):
        def make():
            out = os.path.join(self.dir, 'gen-' + os.path.basename(idl).replace('.', '_'))
            os.makedirs(out, exist_ok=True)
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
            r = sh([sys.executable, os.path.join(REPO, 'generator', 'parser.py'), '--service', os.path.join(VERIF, 'idl', idl),
                    '--out', out, '--lang-c', '--server', '--client'], env=env, timeout=120)
            if r.returncode or not [f for f in os.listdir(out) if f.endswith('.c')]:
                raise GeneratorError('the generator fails on the valid definition %s: %s' % (idl, (r.stderr + r.stdout).decode()[-800:]))
            return out
        return self.once(('gen', idl), make)

    # -- what was generated, compiled the way a user does: /repo's headers, no stand-ins
    def plain(self, idl):
        def make():
            d = self.generated(idl)
            for f in sorted(os.listdir(d)):
                if f.endswith('.c'):
                    r = sh(['gcc', '-std=gnu11', '-w', '-Werror=implicit-function-declaration', '-Werror=int-conversion', '-Werror=incompatible-pointer-types',
                            '-c', '-I' + d, '-I' + os.path.join(VERIF, 'idl'), '-I' + os.path.join(REPO, 'include'), '-o', '/dev/null', os.path.join(d, f)], timeout=120)
                    if r.returncode:
                        raise GeneratorError('the code generated for %s does not compile: %s' % (idl, r.stderr.decode(errors='replace').replace(d + '/', '')[:1500]))
            return True
        return self.once(('plain', idl), make)

    # -- a copy of a header with one constant scaled down (stated as a bound of the query)
    def scaled(self, spec):
        def make():
            d = os.path.join(self.dir, 'scaled-' + hashlib.md5(repr(spec).encode()).hexdigest()[:8])
            os.makedirs(d, exist_ok=True)
            for hdr, macro, val in spec:
                dst = os.path.join(d, os.path.basename(hdr))
                src = dst if os.path.exists(dst) else os.path.join(REPO, hdr)
                t = open(src).read()
                t2, n = re.subn(r'(#define\s+%s\s+).*' % re.escape(macro), r'\g<1>%s' % val, t)
                open(dst, 'w').write(t2)
            return d
        return self.once(('scaled', tuple(map(tuple, spec))), make)

    def flags(self, q):
        inc = []
        if q.get('scale'):
            inc.append('-I' + self.scaled(q['scale']))
        for g in q.get('gen', []):
            inc += ['-I' + self.generated(g), '-I' + os.path.join(VERIF, 'idl')]
        inc += ['-I' + os.path.join(H, 'include'), '-I' + H, '-I' + os.path.join(REPO, 'include'),
                '-I' + os.path.join(REPO, 'runtime'), '-I' + os.path.join(REPO, 'runtime/link/socket')]
        return inc + ['-DGRACHT_BUILD', '-std=gnu11', '-w', '-g', '-include', os.path.join(H, 'vp_pre.h')]

    def sources(self, q):
        """[(path, own defines)]"""
        defs = ['-D%s=%s' % kv if kv[1] is not None else '-D' + kv[0] for kv in sorted(q.get('defs', {}).items())]
        world = ['vp_core.c', 'vp_alloc.c', 'vp_race.c'] + q.get('world', [])
        hs = [(os.path.join(H, q['harness']), defs)] + [(os.path.join(H, w), [d for d in defs if d.startswith('-DVP_')]) for w in world]
        rs = [(os.path.join(REPO, s), q.get('rdefs', [])) for s in q.get('srcs', [])]
        for g in q.get('gen', []):
            d = self.generated(g)
            rs += [(os.path.join(d, f), []) for f in sorted(os.listdir(d)) if f.endswith('.c') and (not q.get('genpick') or any(k in f for k in q['genpick']))]
        return hs + rs

    def compile_one(self, src, flags, extra, native):
        key = ('o', src, tuple(flags), tuple(extra), native)

        def make():
            out = os.path.join(self.dir, hashlib.md5(repr(key).encode()).hexdigest() + ('.o' if native else '.bc'))
            if native == 'race':  # instrumented accesses of the real code, callbacks in vp_race.c
                real = not src.startswith(H + os.sep)
                cmd = [CLANG, '-O0', '-DVP_RACE', '-c'] + (['-fsanitize=thread'] if real else []) + flags + extra + ['-o', out, src]
            elif native:
                cmd = [CLANG, '-O1', '-fno-omit-frame-pointer', '-fsanitize=address', '-c'] + flags + extra + ['-o', out, src]
            else:
                cmd = [CLANG, '-O0', '-Xclang', '-disable-O0-optnone', '-fno-builtin', '-DVP_SYM', '-emit-llvm', '-c'] + flags + extra + ['-o', out, src]
            r = sh(cmd, timeout=300)
            if r.returncode:
                if os.path.dirname(src) == H and os.path.basename(src).startswith('gen'):   # the generated code itself compiles (plain)
                    raise GeneratorError('code written against the interface of the generated code does not compile: ' + r.stderr.decode()[:1500])
                raise BuildError('compiling %s: %s' % (src, r.stderr.decode()[-2000:]))
            return out
        return self.once(key, make)

    def bitcode(self, q):
        flags = self.flags(q)
        bcs = [self.compile_one(s, flags, d, False) for s, d in self.sources(q)]
        base = os.path.join(self.dir, 'm-' + hashlib.md5((q['name'] + repr(sorted(q.get('defs', {}).items()))).encode()).hexdigest()[:12])
        r = sh(['llvm-link-18', '-o', base + '.l.bc'] + bcs)
        if r.returncode:
            raise BuildError('linking: ' + r.stderr.decode()[-2000:])
        r = sh(['opt-18', '-passes=function(mem2reg,instsimplify,simplifycfg)', '-o', base + '.bc', base + '.l.bc'])
        if r.returncode:
            raise BuildError('opt: ' + r.stderr.decode()[-2000:])
        os.unlink(base + '.l.bc')
        return base + '.bc'

    def native(self, q, mode=True):
        def make():
            flags = self.flags(q)
            objs = [self.compile_one(s, flags, d, mode) for s, d in self.sources(q)]
            out = os.path.join(self.dir, ('r-' if mode == 'race' else 'n-') + hashlib.md5((q['name'] + repr(sorted(q.get('defs', {}).items()))).encode()).hexdigest()[:12])
            r = sh([CLANG] + ([] if mode == 'race' else ['-fsanitize=address']) + ['-o', out] + objs + ['-lpthread'])
            if r.returncode:
                raise BuildError('native link: ' + r.stderr.decode()[-2000:])
            return out
        return self.once(('native', mode, q['name'], repr(sorted(q.get('defs', {}).items()))), make)


def run_native(ws, q, inputs, mode=True):
    """-> (outcome, text): completed | assert | memory | race | hang | stopped | error"""
    exe = ws.native(q, mode)
    fd, p = tempfile.mkstemp(dir=ws.dir)
    os.write(fd, ('\n'.join(map(str, inputs)) + '\n').encode())
    os.close(fd)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99:abort_on_error=0:detect_stack_use_after_return=0')
    try:
        o = [str(x) for x in q.get('opts', [])]
        pre = o[o.index('--preempt') + 1] if '--preempt' in o else '2'
        r = sh([exe, p, pre], timeout=NATIVE_TIMEOUT, env=env, cwd=ws.dir)
    except subprocess.TimeoutExpired:
        return 'hang', 'no termination within %d s' % NATIVE_TIMEOUT
    finally:
        os.unlink(p)
    txt = r.stderr.decode(errors='replace')
    if r.returncode == 98:
        return 'assert', '\n'.join(l for l in txt.splitlines() if 'VP-' in l)
    if r.returncode == 96:
        return 'race', '\n'.join(l for l in txt.splitlines() if 'VP-' in l)
    if r.returncode == 97:
        return 'hang', txt[-1500:]
    if r.returncode == 99 or r.returncode < 0:
        return 'memory', txt[:3000]
    if r.returncode == 77:
        return 'stopped', txt[-500:]
    if r.returncode == 0 and 'VP-COMPLETED' in txt:
        return 'completed', ''
    return 'error', 'rc=%d %s' % (r.returncode, txt[-1500:])


def run_query(ws, pid, q, tier, budget):
    t0 = time.time()
    res = {'name': q['name'], 'bounds': q.get('bounds', ''), 'status': 'error', 'detail': ''}
    if q.get('python'):
        return run_python(ws, q, res, budget)
    try:
        for g in q.get('gen', []):
            ws.plain(g)
        bc = ws.bitcode(q)
    except GeneratorError as e:
        msg, _, text = str(e).partition(': ')
        res.update(status='violation', violations=[{'msg': msg, 'loc': 'generator/parser.py', 'inputs': [], 'kind': 'generator', 'confirmed': True,
                                                    'replay_outcome': 'rejected', 'replay_text': text}])
        return res
    except BuildError as e:
        res['detail'] = str(e)
        res['status'] = 'build-error'
        return res
    out = bc + '.json'
    cmd = [engine(), bc, '--out', out, '--time', str(int(budget)), '--own', H + os.sep] + [str(x) for x in q.get('opts', [])]
    try:
        p = sh(cmd, timeout=budget + 60)
    except subprocess.TimeoutExpired:
        res['status'] = 'timeout'
        return res
    finally:
        try:
            os.unlink(bc)
        except OSError:
            pass
    if p.returncode or not os.path.exists(out):
        res['detail'] = 'engine failed (rc %d): %s' % (p.returncode, p.stderr.decode()[-1500:])
        return res
    r = json.load(open(out))
    os.unlink(out)
    res.update(r)
    res['validated'] = 0
    # replay: the counterexample, or (when there is none) sample paths, against the real machine code
    try:
        if r['status'] == 'violation':
            for v in r['violations']:
                oc, txt = run_native(ws, q, v['inputs'], 'race' if v['kind'] == 'race' else True)
                v['replay_outcome'], v['replay_text'] = oc, txt
                v['confirmed'] = oc in ('assert', 'memory', 'race') or (oc == 'hang' and v['kind'] in ('nontermination', 'deadlock'))
                if oc == 'hang':
                    v['confirmed'] = True
        elif r['status'] == 'ok' and q.get('validate', True):
            for sm in r['samples'][:4 if tier == 'quick' else 12]:
                oc, txt = run_native(ws, q, sm)
                if oc == 'completed':
                    res['validated'] += 1
                elif oc in ('assert', 'memory'):  # the machine code fails on it: a violation that the encoding does not show
                    res['status'] = 'violation'
                    res['violations'] = [{'msg': 'an execution fails natively', 'loc': q['harness'], 'inputs': sm, 'kind': 'native', 'confirmed': True, 'replay_outcome': oc, 'replay_text': txt}]
                else:
                    res['status'] = 'mismatch'
                    res['detail'] = 'a path the solver found clean ended natively with %s: %s (inputs %s)' % (oc, txt, sm)
    except BuildError as e:
        res['status'] = 'build-error'
        res['detail'] = str(e)
    res['total_s'] = time.time() - t0
    return res


PYSYM = [PYTHON, os.path.join(VERIF, 'tools', 'pysym.py'), REPO]


def run_python(ws, q, res, budget):
    """a query over the generator itself"""
    f = os.path.join(ws.dir, 'py-' + q['name'])
    json.dump(dict(q['python'], time=budget), open(f + '.json', 'w'))
    try:
        r = sh(PYSYM + [f + '.json', f + '.out'], timeout=budget + 60)
    except subprocess.TimeoutExpired:
        res['status'] = 'timeout'
        return res
    if r.returncode or not os.path.exists(f + '.out'):
        res['detail'] = 'symbolic execution failed: ' + r.stderr.decode()[-1500:]
        return res
    res.update(json.load(open(f + '.out')))
    return res


def load_known():
    out = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                out.append(json.loads(l))
    return out


def repo_head():
    r = sh(['git', '-C', REPO, 'rev-parse', 'HEAD'])
    return r.stdout.decode().strip()


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    prop = specs.PROPS[pid]
    qs = [q for q in prop['queries'] if tier == 'thorough' or q.get('tier', 'quick') == 'quick']
    if tier == 'thorough':  # deeper variants replace the quick query of the same group
        deep = {q.get('replaces') for q in qs if q.get('replaces')}
        qs = [q for q in qs if q['name'] not in deep]
    only = os.environ.get('VP_ONLY')
    if only:
        qs = [q for q in qs if re.search(only, q['name'])]
    total = 780 if tier == 'quick' else 6 * 3600
    engine()
    ws = Workspace()
    results = []
    try:
        with ThreadPoolExecutor(max_workers=JOBS) as ex:
            futs = [ex.submit(run_query, ws, pid, q, tier, max(5, min(q.get('budget', 600 if tier == 'quick' else 7200), total - (time.time() - t0)))) for q in sorted(qs, key=lambda q: -q.get('cost', 1))]
            for f in as_completed(futs):
                results.append(f.result())
        results.sort(key=lambda r: r['name'])
        return finish(ws, pid, tier, seed, prop, results, t0)
    finally:
        ws.close()


def finish(ws, pid, tier, seed, prop, results, t0):
    known = [k for k in load_known() if k.get('property') == pid and k.get('status') == 'known']
    viol, errs, knownhit = [], [], []
    for r in results:
        if r['status'] == 'violation':
            for v in r['violations']:
                if not v['confirmed']:
                    errs.append('%s: counterexample for "%s" (%s) did not reproduce natively: %s %s' % (r['name'], v['msg'], v['loc'], v.get('replay_outcome'), v.get('replay_text', '')[:400]))
                    continue
                k = next((k for k in known if k['query'] == r['name'] and k['message'] == v['msg']), None)
                (knownhit if k else viol).append((r, v, k))
        elif r['status'] != 'ok':
            errs.append('%s: %s %s' % (r['name'], r['status'], r.get('detail', '')))
    for k in known:  # a listed finding is demonstrated by its own query, which must still reach it
        pass
    rc = 0
    for r, v, k in knownhit:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    seen = set()
    for r, v, _ in viol:
        d = os.path.join(VERIF, 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s.json' % (pid, re.sub(r'[^A-Za-z0-9]+', '-', r['name'])))
        json.dump({'property': pid, 'query': r['name'], 'violation': v, 'bounds': r.get('bounds'), 'repo': repo_head(),
                   'rerun': 'python3 tools/vp.py replay ' + path}, open(path, 'w'), indent=1)
        if r['name'] in seen:
            continue
        seen.add(r['name'])
        print('%s [%s]: %s' % (pid, r['name'], v['msg']))
        print('  at %s; native replay: %s %s' % (v['loc'], v['replay_outcome'], v['replay_text'].strip().splitlines()[0][:200] if v['replay_text'].strip() else ''))
        print('  inputs %s' % (v['inputs'][:40],))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        rc = 1
    for e in errs:
        print('ERROR %s %s' % (pid, e))
    if rc == 0 and errs:
        rc = 2
    write_evidence(pid, tier, seed, prop, results, len(viol), time.time() - t0)
    ok = [r for r in results if r['status'] == 'ok']
    print('%s %s: %d/%d queries decided, %d paths, %d solver queries, %.1f s solver, %.1f s wall' % (
        pid, tier, len(ok), len(results), sum(r.get('paths', 0) for r in results), sum(r.get('queries', 0) for r in results),
        sum(r.get('solver_s', 0) for r in results), time.time() - t0))
    return rc


def write_evidence(pid, tier, seed, prop, results, nviol, wall):
    fns, asserts = set(), set()
    samples = []
    for r in results:
        fns |= set(r.get('functions', []))
        asserts |= set(r.get('assertions', []))
        for s in r.get('samples', [])[:1]:
            samples.append({'query': r['name'], 'path_inputs': s[:48]})
    g = lambda k: sum(r.get(k, 0) for r in results)
    cov = {
        'states': g('paths'),
        'transitions': g('instructions'),
        'traces_validated_against_impl': g('validated'),
        'samples': samples[:8],
        'explanation': 'states = symbolic paths explored to their end (each stands for all inputs satisfying its path condition), transitions = IR instructions executed symbolically, '
                       'traces_validated_against_impl = solver-produced path inputs re-executed natively (AddressSanitizer build of the same sources) with the same outcome',
        'functions_encoded': sorted(fns),
        'assertions_checked': sorted(asserts),
        'assertion_evaluations': g('assert_evaluations'),
        'memory_accesses_checked': g('memory_checks'), 'race_checks': g('race_checks'),
        'solver_queries': g('queries'), 'solver_sat': g('sat'), 'solver_unsat': g('unsat'), 'solver_unknown': g('unknown'),
        'solver_time_s': round(g('solver_s'), 3),
        'queries': [{k: r.get(k) for k in ('name', 'bounds', 'status', 'paths', 'paths_completed', 'paths_pruned', 'queries', 'solver_s', 'wall_s', 'witnesses')} for r in results],
        'solver': prop.get('solver', 'Z3 (libz3) through engine/gse.cpp over LLVM 18 IR'),
        'exhaustive': all(r['status'] == 'ok' for r in results),
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': specs.COMMON_ASSUMPTIONS + prop.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': nviol}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == 'setup':
        print(engine())
        return 0
    if a[0] == 'list':
        for p, d in specs.PROPS.items():
            print(p, d.get('title', ''), [q['name'] for q in d['queries']])
        return 0
    if a[0] == 'check':
        tier = a[2] if len(a) > 2 else os.environ.get('VERIF_TIER', 'quick')
        return check(a[1], tier)
    if a[0] == 'query':
        q = next(q for q in specs.PROPS[a[1]]['queries'] if q['name'] == a[2])
        ws = Workspace()
        try:
            r = run_query(ws, a[1], q, 'quick', float(a[3]) if len(a) > 3 else 600)
        finally:
            ws.close()
        for k, v in r.items():
            if k not in ('functions', 'assertions', 'samples'):
                print(k, ':', v if k != 'violations' else json.dumps(v, indent=1))
        return 0
    if a[0] == 'replay':
        d = json.load(open(a[1]))
        q = next(q for q in specs.PROPS[d['property']]['queries'] if q['name'] == d['query'])
        if d['violation']['kind'] == 'python':
            return subprocess.call(PYSYM + ['replay', '/dev/stdin'], stdin=subprocess.Popen(['cat', a[1]], stdout=subprocess.PIPE).stdout)
        ws = Workspace()
        try:
            if d['violation']['kind'] == 'generator':
                try:
                    for g in q['gen']:
                        ws.plain(g)
                    ws.bitcode(q)
                    oc, txt = 'completed', ''
                except GeneratorError as e:
                    oc, txt = 'rejected', str(e)
            else:
                oc, txt = run_native(ws, q, d['violation']['inputs'], 'race' if d['violation']['kind'] == 'race' else True)
        finally:
            ws.close()
        print(d['violation']['msg'])
        print('native outcome:', oc)
        print(txt)
        return 0 if oc == 'completed' else 1
    return 2


if __name__ == '__main__':
    sys.exit(main())
