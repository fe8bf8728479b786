#!/usr/bin/env python3
"""Symbolic execution of the generator (Python) with symbolic numbers in a service definition.

  pysym.py REPO SPEC.json OUT.json

The generator runs unmodified, from its command line entry on.  The definition text holds a
placeholder literal for every symbolic number; the int() the generator's own modules call turns a
placeholder into a SymInt, an int whose comparisons and arithmetic build Z3 terms.  Every branch on
such a term is decided by the solver: both sides are explored when both are feasible, so the paths
together stand for every assignment of integers to the numbers.  At the end of each path the oracle
is decided by the solver under the path condition.
"""
import sys, os, io, json, time, runpy, shutil, tempfile, subprocess, contextlib, builtins, importlib, importlib.machinery, re
import z3

sys.dont_write_bytecode = True
BASE = 7000000        # placeholders of the symbolic numbers
DERIVED = 8000000     # placeholders of numbers computed from them
REAL_INT = int


class Abort(BaseException):
    pass


class Run:
    """one path"""
    def __init__(self, prefix):
        self.prefix = prefix
        self.taken = []
        self.solver = z3.Solver()
        self.derived = {}
        self.pending = []
        self.forks = 0


CUR = None
STATS = {'queries': 0, 'sat': 0, 'unsat': 0, 'unknown': 0, 'solver_s': 0.0, 'steps': 0}
FUNCS = set()
SEEN = set()      # symbolic numbers that reached the generator


def feasible(run, cond):
    t = time.time()
    run.solver.push()
    run.solver.add(cond)
    r = run.solver.check()
    run.solver.pop()
    STATS['queries'] += 1
    STATS['solver_s'] += time.time() - t
    STATS[str(r)] = STATS.get(str(r), 0) + 1
    if r == z3.unknown:
        raise Abort('solver gave up')
    return r == z3.sat


def decide(cond, extra=None):
    """the value of a symbolic condition on this path"""
    if extra is None:
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
    run = CUR
    i = len(run.taken)
    if i < len(run.prefix):
        v = run.prefix[i][0]
    else:
        t, f = feasible(run, cond), feasible(run, z3.Not(cond))
        if t and f:
            run.pending.append(run.taken + [(False, extra)])
            v = True
        else:
            v = t
    run.taken.append((v, extra))
    run.solver.add(cond if v else z3.Not(cond))
    return v


class SymBool:
    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return decide(self.e)

    def __eq__(self, o):
        return bool(self) == o

    def __hash__(self):
        return hash(bool(self))


def term(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, REAL_INT):
        return z3.IntVal(REAL_INT(x))
    return None


class SymInt(REAL_INT):
    def __new__(cls, e, mark=None):
        if mark is None:
            e = z3.simplify(e)
            if z3.is_int_value(e):
                return e.as_long()
            mark = next((m for m, d in CUR.derived.items() if d.eq(e)), None)
            if mark is None:
                mark = DERIVED + len(CUR.derived)
                CUR.derived[mark] = e
        o = REAL_INT.__new__(cls, mark)
        o.e = e
        return o

    def __hash__(self):
        return 1

    def __bool__(self):
        return decide(self.e != 0)

    def __index__(self):
        return concrete(self)

    def __neg__(self):
        return SymInt(-self.e)

    def __abs__(self):
        return SymInt(z3.If(self.e < 0, -self.e, self.e))

    def __pos__(self):
        return self

    def __int__(self):
        return self

    def __str__(self):
        return REAL_INT.__repr__(self)

    __repr__ = __str__

    def __format__(self, spec):
        if spec in ('', 'd'):
            return str(self)
        return format(concrete(self), spec)


def concrete(s):
    """a place that needs the value itself: one path for each value the path allows (only small ranges)"""
    run = CUR
    for _ in range(600):
        i = len(run.taken)
        if i < len(run.prefix):   # a repeated decision asks about the value it asked about the first time
            v = run.prefix[i][1]
        else:
            if run.solver.check() != z3.sat:
                raise Abort('infeasible')
            v = run.solver.model().eval(s.e, model_completion=True).as_long()
        if decide(s.e == v, v):
            return v
    raise Abort('a symbolic number is used where its value is needed, over too many values')


def _cmp(name, op):
    def f(self, o):
        t = term(o)
        if t is None:
            return NotImplemented
        return SymBool(op(self.e, t))
    setattr(SymInt, name, f)


for _n, _op in (('__eq__', lambda a, b: a == b), ('__ne__', lambda a, b: a != b), ('__lt__', lambda a, b: a < b), ('__le__', lambda a, b: a <= b), ('__gt__', lambda a, b: a > b), ('__ge__', lambda a, b: a >= b)):
    _cmp(_n, _op)


def _bits(op):
    def f(a, b):
        return z3.BV2Int(op(z3.Int2BV(a, 64), z3.Int2BV(b, 64)), is_signed=True)
    return f


def _arith(name, op):
    def f(self, o):
        t = term(o)
        return NotImplemented if t is None else SymInt(op(self.e, t))

    def r(self, o):
        t = term(o)
        return NotImplemented if t is None else SymInt(op(t, self.e))
    setattr(SymInt, '__%s__' % name, f)
    setattr(SymInt, '__r%s__' % name, r)


def _floordiv(a, b):
    return z3.ToInt(z3.ToReal(a) / z3.ToReal(b))


for _n, _op in (('add', lambda a, b: a + b), ('sub', lambda a, b: a - b), ('mul', lambda a, b: a * b), ('floordiv', _floordiv), ('mod', lambda a, b: a - b * _floordiv(a, b)),
                ('and', _bits(lambda a, b: a & b)), ('or', _bits(lambda a, b: a | b)), ('xor', _bits(lambda a, b: a ^ b)), ('lshift', _bits(lambda a, b: a << b)), ('rshift', _bits(lambda a, b: a >> b))):
    _arith(_n, _op)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, REAL_INT)

    def __subclasscheck__(cls, x):
        return issubclass(x, REAL_INT)


class IntShim(metaclass=_IntMeta):
    """stands for int in the generator's modules: the placeholder literals become symbolic numbers"""
    def __new__(cls, *a, **k):
        if a and isinstance(a[0], SymInt):
            return a[0]
        v = REAL_INT(*a, **k)
        if BASE <= v < BASE + len(SYMS):
            SEEN.add(v)
            return SymInt(SYMS[v - BASE], v)
        return v


class RangeShim:
    """range, with membership decided as a comparison"""
    def __init__(self, *a):
        self.r = builtins.range(*[concrete(x) if isinstance(x, SymInt) else x for x in a])

    def __contains__(self, x):
        if not isinstance(x, SymInt):
            return x in self.r
        r = self.r
        if r.step < 0:
            r = r[::-1]
        return decide(z3.And(x.e >= r.start, x.e < r.stop, (x.e - r.start) % r.step == 0))

    def __iter__(self):
        return iter(self.r)

    def __reversed__(self):
        return reversed(self.r)

    def __len__(self):
        return len(self.r)

    def __getitem__(self, i):
        return self.r[i]

    def __eq__(self, o):
        return self.r == (o.r if isinstance(o, RangeShim) else o)

    def __hash__(self):
        return hash(self.r)


SYMS = []
GEN = None
SHIMS = {'int': IntShim, 'range': RangeShim}


class Finder:
    """the generator's modules see IntShim as int"""
    @staticmethod
    def find_spec(name, path=None, target=None):
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec is None or not spec.origin or not os.path.realpath(spec.origin).startswith(GEN + os.sep) or not spec.loader:
            return None
        loader = spec.loader
        orig = loader.exec_module

        def exec_module(module):
            module.__dict__.update(SHIMS)
            orig(module)
        loader.exec_module = exec_module
        return spec


def profile(frame, event, arg):
    if event == 'call' and frame.f_code.co_filename.startswith(GEN):
        STATS['steps'] += 1
        FUNCS.add(os.path.relpath(frame.f_code.co_filename, os.path.dirname(GEN)) + ':' + frame.f_code.co_name)


def one(prefix, args, assume):
    """run one path of the generator; returns (run, accepted, files, text)"""
    global CUR
    CUR = run = Run(prefix)
    for c in assume:
        run.solver.add(c)
    out = tempfile.mkdtemp(prefix='vp-py-')
    buf = io.StringIO()
    for m in [m for m, v in sys.modules.items() if getattr(v, '__file__', None) and os.path.realpath(v.__file__).startswith(GEN + os.sep)]:
        del sys.modules[m]
    argv, cwd, path = sys.argv, os.getcwd(), list(sys.path)
    sys.argv = ['parser.py'] + args + ['--out', out]
    sys.path.insert(0, GEN)
    os.chdir(out)
    status = 0
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            try:
                sys.setprofile(profile)
                runpy.run_path(os.path.join(GEN, 'parser.py'), init_globals=SHIMS, run_name='__main__')
            except SystemExit as e:
                status = 0 if e.code in (None, 0) else 1
            except Abort:
                raise
            except Exception as e:
                status = 1
                buf.write('%s: %s' % (type(e).__name__, e))
            finally:
                sys.setprofile(None)
    finally:
        sys.argv, sys.path[:] = argv, path
        os.chdir(cwd)
        files = {f: open(os.path.join(out, f)).read() for f in sorted(os.listdir(out))}
        shutil.rmtree(out, ignore_errors=True)
    return run, status == 0, files, buf.getvalue()


def fill(text, values):
    return re.sub(r'\b(%d\d{%d})\b' % (BASE // 1000, 3), lambda m: str(values[REAL_INT(m.group(1)) - BASE]) if REAL_INT(m.group(1)) - BASE < len(values) else m.group(1), text)


def native(spec, repo, values):
    """the definition with these numbers, through the real command line"""
    d = tempfile.mkdtemp(prefix='vp-py-')
    try:
        for f, t in spec['files'].items():
            open(os.path.join(d, f), 'w').write(fill(t, values))
        o = os.path.join(d, 'out')
        os.mkdir(o)
        r = subprocess.run([sys.executable, os.path.join(repo, 'generator', 'parser.py'), '--service', os.path.join(d, spec['root'])] + spec['args'] + ['--out', o],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'), timeout=60, cwd=o)
        return r.returncode == 0, {f: open(os.path.join(o, f)).read() for f in sorted(os.listdir(o))}, r.stdout.decode(errors='replace')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def good(spec, s):
    """the oracle: every service number and every number of a function or event in 1..255, those of one service distinct"""
    c = []
    for svc in spec['services']:
        for i in [svc['id']] + svc['members']:
            c += [s[i] >= 1, s[i] <= 255]
        m = [s[i] for i in svc['members']]
        if len(m) > 1:
            c.append(z3.Distinct(*m))
    return z3.And(*c) if c else z3.BoolVal(True)


def values(model, n):
    return [model.eval(SYMS[i], model_completion=True).as_long() for i in range(n)]


def good_values(spec, v):
    for svc in spec['services']:
        ids = [v[i] for i in svc['members']]
        if any(x < 1 or x > 255 for x in ids + [v[svc['id']]]) or len(set(ids)) != len(ids):
            return False
    return True


def lines(files):
    return sorted((f, l) for f, t in files.items() for l in t.splitlines())


def judge(spec, repo, v, ref=None):
    """natively: what is wrong with these numbers, or None.  ref: the generated files with placeholders"""
    acc, files, text = native(spec, repo, v)
    ok = good_values(spec, v)
    if acc and not ok:
        return 'a definition with ambiguous or out-of-range numbers is accepted', 'accepted'
    if not acc and ok:
        return 'a definition with valid numbers is rejected', text.strip()[-300:]
    if not acc and files:
        return 'a rejected definition leaves generated files', ' '.join(files)
    if not acc and not text.strip():
        return 'a definition is rejected without a diagnosis', ''
    if acc and ref is not None:
        want = lines({f: fill(t, v) for f, t in ref.items()})
        got = lines(files)
        if want != got:
            d = [x for x in got if x not in want][:2] + [x for x in want if x not in got][:2]
            return 'the generated code does not carry the numbers of the definition', repr(d)[:400]
    return None


def main():
    global SYMS, GEN
    repo, specf, outf = sys.argv[1:4]
    if specf == 'replay':
        d = json.load(open(outf))['violation']
        r = judge(d['spec'], repo, d['values'], d.get('ref'))
        print(r[0] + ': ' + r[1] if r else 'no violation')
        return 1 if r else 0
    spec = json.load(open(specf))
    GEN = os.path.realpath(os.path.join(repo, 'generator'))
    sys.meta_path.insert(0, Finder)
    t0 = time.time()
    n = spec['n']
    SYMS = [z3.Int('n%d' % i) for i in range(n)]
    assume = [c for i in range(n) for c in ((SYMS[i] >= spec['range'][0]), (SYMS[i] <= spec['range'][1]))]
    d = tempfile.mkdtemp(prefix='vp-py-')
    res = {'status': 'ok', 'violations': [], 'samples': [], 'detail': ''}
    try:
        for f, t in spec['files'].items():
            open(os.path.join(d, f), 'w').write(t)
        args = ['--service', os.path.join(d, spec['root'])] + spec['args']
        work, paths, accepted, rejected, ref, bad = [[]], 0, 0, 0, None, []
        s_ok = good(spec, SYMS)
        while work:
            if time.time() - t0 > spec.get('time', 600):
                res.update(status='timeout')
                break
            run, acc, files, text = one(work.pop(), args, assume)
            work += run.pending
            paths += 1
            accepted += acc
            rejected += not acc

            def ask(cond, msg):
                """a violation if this is possible on the path"""
                if not feasible(run, cond):
                    return
                run.solver.push()
                run.solver.add(cond)
                run.solver.check()
                bad.append((values(run.solver.model(), n), msg, text[-300:]))
                run.solver.pop()
            if acc:
                ask(z3.Not(s_ok), 'a definition with ambiguous or out-of-range numbers is accepted')
            else:
                ask(s_ok, 'a definition with valid numbers is rejected')
                if files:
                    ask(z3.BoolVal(True), 'a rejected definition leaves generated files')
                if not text.strip():
                    ask(z3.BoolVal(True), 'a definition is rejected without a diagnosis')
            if acc:
                nums = {REAL_INT(x) for t in files.values() for x in re.findall(r'(?<![0-9A-Za-z_])[78]00\d{4}(?![0-9A-Za-z_])', t)}
                for m in sorted(nums):
                    if m in run.derived and not any(not feasible(run, run.derived[m] != x) for x in SYMS):
                        ask(z3.And(*[run.derived[m] != x for x in SYMS]), 'the generated code carries a number that is not one of the definition')
                lost = [i for i in range(n) if BASE + i not in nums]
                if lost:
                    ask(z3.BoolVal(True), 'the generated code lacks a number of the definition')
                if ref is None:
                    if not lost:
                        ref = files
                elif lines(ref) != lines(files):
                    ask(z3.BoolVal(True), 'the generated code does not carry the numbers of the definition')
            if len(res['samples']) < 6 and run.solver.check() == z3.sat:
                res['samples'].append(values(run.solver.model(), n))
            if len(bad) >= 5:
                break
        STATS['paths'] = paths
        res.update(paths=paths, paths_completed=paths, paths_pruned=0, accepted=accepted, rejected=rejected, queries=STATS['queries'], sat=STATS['sat'], unsat=STATS['unsat'], unknown=STATS['unknown'],
                   solver_s=STATS['solver_s'], instructions=STATS['steps'], functions=sorted(FUNCS), assertions=['accepted exactly if valid', 'nothing written when rejected', 'generated code carries the numbers'],
                   assert_evaluations=2 * paths, wall_s=time.time() - t0, witnesses=['accepted: %d' % accepted, 'rejected: %d' % rejected])
        for v, msg, text in bad:
            if len(res['violations']) >= 3:
                break
            j = judge(spec, repo, v, ref)
            res['violations'].append({'msg': j[0] if j else msg, 'loc': 'generator', 'inputs': v, 'kind': 'python', 'confirmed': bool(j), 'replay_outcome': 'reproduced' if j else 'not reproduced',
                                      'replay_text': j[1] if j else text, 'spec': spec, 'values': v, 'ref': ref})
        if bad:
            conf = [v for v in res['violations'] if v['confirmed']]
            res['violations'] = conf or res['violations']
            res['status'] = 'violation'
        elif res['status'] == 'ok':
            if len(SEEN) != n or not accepted or (spec['services'] and not rejected):
                res.update(status='vacuous', detail='%d of %d numbers symbolic, %d accepted, %d rejected' % (len(SEEN), n, accepted, rejected))
            else:
                res['validated'] = 0
                for v in res['samples'][:4]:
                    j = judge(spec, repo, v, ref)
                    if j:
                        res.update(status='violation', violations=[{'msg': j[0], 'loc': 'generator', 'inputs': v, 'kind': 'python', 'confirmed': True, 'replay_outcome': 'reproduced', 'replay_text': j[1], 'spec': spec, 'values': v, 'ref': ref}])
                        break
                    res['validated'] += 1
    except Abort as e:
        res.update(status='incomplete', detail=str(e))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    json.dump(res, open(outf, 'w'))
    return 0


if __name__ == '__main__':
    sys.exit(main())
