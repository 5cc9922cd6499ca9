"""Check driver: obligations, evidence, replay, verdict."""
import contextlib, json, os, subprocess, sys, time, traceback, hashlib, glob, shutil
from concurrent.futures import ThreadPoolExecutor
from . import terms as t, poly, smt, extract
from .terms import T
from .vals import *
from .access import OutOfBounds
from .exec import Exec, St, Throw, PathDead, Violated
from .extract import Program, ExtractError, REPO, VERIF

BUILD = os.path.join(VERIF, 'build')


class Enough(Exception):
    """Several obligations have failed: go to the replay."""


class Ctx:
    MAXFAIL = 6
    BUDGET = {'quick': 420, 'thorough': 700}

    def __init__(self, pid, tier='quick', seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.obls = []            # (function, name, ok, backend, why)
        self.functions = {}       # function -> [total, discharged]
        self.unreached = {}       # function -> reason
        self.assumptions = []
        self.trusted = set()
        self.bounded = []         # descriptions of bounded stand-ins that ran
        self.cur = '?'
        self.controls = [0, 0]
        self.execs = []
        self.prog = None
        self.extract_s = 0.0
        self.contracts_only = set()
        self.notes = []
        from . import exec as _e
        _e.DEADLINE[0] = self.t0 + self.BUDGET.get(tier, 420)

    def load(self, specs):
        t0 = time.time()
        self.prog = Program().load(specs)
        self.extract_s += time.time() - t0
        return self.prog

    def exec(self):
        ex = Exec(self.prog)
        self.execs.append(ex)
        return ex

    @contextlib.contextmanager
    def fn(self, name):
        """Obligations of one function under contract."""
        old = self.cur
        self.cur = name
        self.functions.setdefault(name, [0, 0])
        try:
            yield
        except (Violated, OutOfBounds) as e:
            self.record('memory-safety', False, 'symbolic execution', str(e))
        except PathDead:
            self.record('reachable', False, 'symbolic execution', 'no execution path returns')
        except Throw:
            self.record('no-throw', False, 'symbolic execution', 'the function throws on every path')
        except (Unsupported, ExtractError, NotImplementedError, poly.TooBig) as e:
            self.unreached[name] = '%s: %s' % (type(e).__name__, e)
        except RecursionError:
            self.unreached[name] = 'recursion limit'
        except (KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError, ZeroDivisionError, StopIteration) as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.unreached[name] = 'engine: %s %s (%s:%s)' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)
            if os.environ.get('DV_DEBUG'):
                traceback.print_exc()
        finally:
            self.cur = old

    def record(self, name, ok, by, why=''):
        f = self.functions.setdefault(self.cur, [0, 0])
        f[0] += 1
        f[1] += 1 if ok else 0
        self.obls.append((self.cur, name, bool(ok), by, why))
        if not ok and os.environ.get('DV_DEBUG'):
            print('FAILED', self.cur, name, by, why[:1500], file=sys.stderr)
        if not ok:
            self.nfail = getattr(self, 'nfail', 0) + 1
            if self.nfail >= self.MAXFAIL and not os.environ.get('DV_ALL'):
                raise Enough()
        if time.time() > self.t0 + self.BUDGET.get(self.tier, 420) and self.cur != '?':
            raise Unsupported('time budget used up')
        return ok

    def eq(self, name, pc, a, b, control=False):
        """Obligation: a == b (values of the same shape)."""
        pairs = list(zip(self.scal(a), self.scal(b)))
        if len(self.scal(a)) != len(self.scal(b)):
            return self.record(name, False, 'shape', 'different shapes')
        ok = True
        by = set()
        why = ''
        for x, y in pairs:
            if x.sort == 'B' or y.sort == 'B':
                p = smt.prove(pc, t.eq(x, y))
            elif x.sort not in ('I', 'R'):
                p = smt.prove(pc, t.eq(x, y))
            else:
                p = smt.prove_eq(tuple(pc), t.toR(x), t.toR(y))
            by.add(p.by)
            if not p.ok:
                ok, why = False, 'got %s\nspecified %s\n%s' % (str(x)[:1500], str(y)[:1500], p.why)
                break
        self.record(name, ok, '+'.join(sorted(by)), why)
        if control and ok:
            x, y = pairs[0]
            if x.sort == 'R':
                self.control(not smt.prove_eq(tuple(pc), x, t.add(y, t.R(1))).ok)
        return ok

    def control(self, ok):
        """Vacuity guard: a deliberately wrong contract must not be provable."""
        self.controls[0] += 1
        if ok:
            self.controls[1] += 1
        else:
            self.record('vacuity-control', False, 'control', 'a false obligation was accepted: contradictory precondition')

    def scal(self, v):
        if isinstance(v, T):
            return [v]
        if isinstance(v, Cx):
            return [v.re, v.im]
        if isinstance(v, Tup):
            r = []
            for x in v.items:
                r += self.scal(x)
            return r
        if isinstance(v, Ptr):
            return [t.const(str(v), 'S')]
        if isinstance(v, Obj):
            return [v.term]
        raise Unsupported('comparison of %s' % type(v).__name__)

    def true(self, name, pc, c):
        p = smt.prove(tuple(pc), c)
        return self.record(name, p.ok, p.by, p.why)

    def reach(self, name, pc):
        """Cover: the precondition / path is satisfiable."""
        r = smt.check_sat(list(pc))
        self.control(r != 'unsat')

    def fail(self, name, why):
        return self.record(name, False, 'contract', why)

    def discharge(self, ex):
        """Side obligations generated by the executor."""
        for o in ex.obls:
            p = smt.prove(o.pc, o.cond)
            self.record('%s@%s' % (o.name, o.line), p.ok, p.by, p.why)
        ex.obls = []


# ----------------------------------------------------------------- harness
CXXFLAGS = ['-std=c++17', '-O1', '-w', '-fPIC', '-DNDEBUG']


def linkflags():
    L = '/usr/lib/x86_64-linux-gnu/'
    tri = [x for x in sorted(glob.glob(L + 'libtrilinos_*.so')) if 'stokhos' not in x]
    return ['-fuse-ld=gold', '-ldeal.ii', '-Wl,--as-needed'] + tri + ['-ltbb', '-L' + L + 'openmpi/lib', '-lmpi', '-lmpi_cxx', '-lpetsc_real'] + sorted(glob.glob(L + 'libTK*.so')) + ['-lboost_system']


def repo_hash(files, extra=''):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    h.update(extra.encode())
    return h.hexdigest()[:24]


def compile_one(src, flags, objdir):
    heads = sorted(glob.glob(REPO + '/include/*.h')) + sorted(glob.glob(VERIF + '/harness/*.h'))
    key = repo_hash(heads + [src], ' '.join(flags))
    obj = os.path.join(objdir, os.path.basename(src).replace('.cc', '') + '-' + key + '.o')
    if not os.path.exists(obj):
        tmp = obj + '.%d.tmp' % os.getpid()
        p = subprocess.run(['g++'] + flags + extract.incflags() + ['-I', VERIF + '/harness', '-c', src, '-o', tmp],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            return None, p.stdout.decode()[-3000:]
        os.replace(tmp, obj)
    return obj, ''


def build_harness(name, sources, san=False):
    """Compile harness/<name>.cc with the repository sources of the current tree."""
    objdir = os.path.join(BUILD, 'obj')
    os.makedirs(objdir, exist_ok=True)
    flags = list(CXXFLAGS) + ['-fno-access-control']
    if san:
        flags = ['-std=c++17', '-O1', '-g', '-w', '-fPIC', '-DNDEBUG', '-fno-access-control', '-fsanitize=address,undefined',
                 '-fno-sanitize=vptr,alignment', '-fno-sanitize-recover=undefined']
    srcs = [os.path.join(REPO, s) for s in sources] + [os.path.join(VERIF, 'harness', name + '.cc')]
    with ThreadPoolExecutor(8) as e:
        res = list(e.map(lambda s: compile_one(s, flags, objdir), srcs))
    for o, err in res:
        if o is None:
            raise RuntimeError('harness does not compile: ' + err)
    exe = os.path.join(BUILD, 'bin', '%s-%s%s' % (name, hashlib.sha256(' '.join(o for o, _ in res).encode()).hexdigest()[:16], '-san' if san else ''))
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    if not os.path.exists(exe):
        tmp = exe + '.%d.tmp' % os.getpid()
        p = subprocess.run(['g++', '-o', tmp] + (['-fsanitize=address,undefined'] if san else []) + [o for o, _ in res] + linkflags(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise RuntimeError('harness does not link: ' + p.stdout.decode()[-3000:])
        os.replace(tmp, exe)
    return exe


def run_harness(name, sources, args, seed, timeout=300, san=False, cwd=None, np=1):
    """Returns (failures, stats, log).  The harness prints 'FAIL <key> <detail>'
    for each contract clause violated on a concrete input of the real code and
    'STAT <name> <number>'."""
    exe = build_harness(name, sources, san)
    scratch = os.path.join(BUILD, 'scratch-%s-%d-%d' % (name, os.getpid(), np))
    os.makedirs(scratch, exist_ok=True)
    env = dict(os.environ, VERIF_SEED=str(seed), OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1',
               OMP_NUM_THREADS='1', DV_REPO=REPO, ASAN_OPTIONS='detect_leaks=0:exitcode=99', HOME=os.environ.get('HOME', '/root'))
    cmd = [exe] + [str(a) for a in args]
    if np > 1:
        env.update(OMPI_MCA_btl_vader_single_copy_mechanism='none', OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_hwloc_base_binding_policy='none', OMPI_MCA_plm_rsh_agent='/bin/false')
        cmd = ['mpirun', '--oversubscribe', '--bind-to', 'none', '-n', str(np)] + cmd
    try:
        p = subprocess.run(cmd, cwd=scratch, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        out = p.stdout.decode('utf8', 'replace')
        rc = p.returncode
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b'').decode('utf8', 'replace')
        rc = 'timeout'
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if np > 1 and 'START' not in out:
        raise RuntimeError('mpirun did not start the processes: ' + out[-800:])
    fails, stats = [], {}
    for l in out.splitlines():
        if l.startswith('FAIL '):
            k, _, d = l[5:].partition(' ')
            fails.append((k, d))
        elif l.startswith('STAT '):
            k, v = l[5:].rsplit(None, 1)
            stats[k] = stats.get(k, 0) + int(float(v))
    if 'DONE' not in out and not fails:
        fails.append(('crash', 'the real code ended abnormally (%s): %s' % (rc, out[-1500:])))
    elif rc not in (0, 'timeout') and not fails:
        fails.append(('crash', 'the real code ended with status %s: %s' % (rc, out[-1500:])))
    return fails, stats, out


# ----------------------------------------------------------------- known findings
def known_findings(pid):
    """Lines 'known: property=<id> key=<key> <what>' in /verif/known_findings.txt."""
    res = {}
    f = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            if l.startswith('known: '):
                kv = dict(x.split('=', 1) for x in l.split()[1:3])
                if kv.get('property') == pid:
                    res[kv['key']] = l.split(None, 3)[3].strip()
    return res


class Harness:
    def __init__(self, name, sources, args=(), san=False, timeout=300, always=False, what='', np=1):
        self.name, self.sources, self.args, self.san, self.timeout, self.always, self.what, self.np = name, sources, args, san, timeout, always, what, np


def finish(ctx, harnesses, level='proof', title=''):
    """Decide, write evidence, print the verdict; returns the exit status."""
    pid = ctx.pid
    failed = [o for o in ctx.obls if not o[2]]
    known = known_findings(pid)
    kn_hit = {}
    # an obligation listed as a known finding (same function and clause)
    rest = []
    for o in failed:
        k = 'obl:%s:%s' % (o[0], o[1])
        k = k.replace(' ', '_')
        if k in known:
            kn_hit[k] = known[k]
        else:
            rest.append(o)
    failed = rest
    total = len(ctx.obls)
    vac = total == 0 and not ctx.unreached
    concrete = []
    logs = {}
    hstats = {}
    herr = []
    need = bool(failed) or bool(ctx.unreached)
    for h in harnesses:
        if not (need or h.always) or os.environ.get('DV_NOHARNESS'):
            continue
        try:
            fails, st, log = run_harness(h.name, h.sources, list(h.args) + [ctx.tier], ctx.seed, h.timeout, h.san, np=h.np)
        except (RuntimeError, OSError) as e:
            herr.append('%s: %s' % (h.name, e))
            continue
        hstats[h.name] = st
        logs[h.name] = log
        for k, d in fails:
            kk = 'run:' + k
            if kk in known:
                kn_hit[kk] = known[kk]
            else:
                concrete.append((h.name, k, d))
        if h.always or need:
            ctx.bounded.append('%s: %s %s' % (h.name, h.what, json.dumps(st)))
    viol = bool(failed) or bool(concrete) or (vac and not harnesses)
    backs = {}
    for o in ctx.obls:
        if o[2]:
            backs[o[3]] = backs.get(o[3], 0) + 1
    trusted = set(ctx.trusted)
    fns = {}
    for ex in ctx.execs:
        for k, v in ex.trusted.items():
            trusted.add(k)
    assumptions = ['doubles are treated as mathematical reals; machine integers as mathematical integers except constant unsigned arithmetic, which wraps',
                   'denominators occurring in the verified functions are non-zero where the contract requires it',
                   'the C++ semantics implemented by dv/exec.py and the library contracts in dv/models.py'] + ctx.assumptions
    inlined = {}
    for ex in ctx.execs:
        for k, v in ex.used.items():
            inlined[k] = inlined.get(k, 0) + v
    ev = {'property': pid, 'tier': ctx.tier, 'seed': ctx.seed, 'level': level,
          'coverage': {'obligations': total, 'discharged': sum(1 for o in ctx.obls if o[2]),
                       'checker_cmd': 'python3-vt /verif/run.py %s %s' % (pid, ctx.tier),
                       'trusted_base': ['clang 18 AST of the real sources', 'dv/exec.py VC generator', 'dv/poly.py exact ring normal form', 'z3 ' + __import__('z3').get_version_string()] + sorted('library contract: ' + x for x in trusted),
                       'functions_under_contract': [{'function': f, 'obligations': v[0], 'discharged': v[1]} for f, v in ctx.functions.items()],
                       'functions_executed_from_source': inlined,
                       'outside_reach_bounded_only': ctx.unreached,
                       'bounded_stand_ins': ctx.bounded,
                       'discharged_by_back_end': backs,
                       'solver_seconds': round(smt.stats['seconds'], 3), 'smt_queries': smt.stats['queries'],
                       'ring_zero_tests': poly.stats['zero_tests'], 'extraction_seconds': round(ctx.extract_s, 2),
                       'vacuity_controls': ctx.controls[0], 'vacuity_controls_rejected_as_required': ctx.controls[1],
                       'harness_errors': herr, 'harness_stats': hstats, 'notes': ctx.notes},
          'assumptions': assumptions, 'wall_s': round(time.time() - ctx.t0, 2), 'violations': len(failed) + len(concrete)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k, w in kn_hit.items():
        print('KNOWN-FINDING: property=%s %s [%s]' % (pid, w, k))
    print('%s: %d obligations, %d discharged, %d functions under contract, %d outside reach, %.1f s' % (
        pid, total, ev['coverage']['discharged'], len(ctx.functions), len(ctx.unreached), ev['wall_s']))
    for f, w in ctx.unreached.items():
        print('  outside reach: %s: %s' % (f, w[:300]))
    for e in herr:
        print('  harness error: %s' % e[:600])
    for b in ctx.bounded:
        print('  bounded: ' + b[:300])
    if not viol:
        return 0
    os.makedirs(os.path.join(BUILD, 'replay'), exist_ok=True)
    rp = os.path.join(BUILD, 'replay', pid + '.txt')
    with open(rp, 'w') as f:
        f.write('property %s\n' % pid)
        for h, k, d in concrete:
            f.write('FAILING INPUT on the real code [%s/%s]: %s\n' % (h, k, d))
        for fn, n, ok, by, why in failed:
            f.write('FAILED OBLIGATION %s / %s (%s)\n%s\n\n' % (fn, n, by, why))
        for h in harnesses:
            f.write('replay: VERIF_SEED=%d /verif/run.py harness %s %s\n' % (ctx.seed, h.name, ' '.join(map(str, h.args))))
        for k, l in logs.items():
            f.write('--- output of %s\n%s\n' % (k, l[-20000:]))
        if vac:
            f.write('no obligation was generated\n')
    for fn, n, ok, by, why in failed[:10]:
        print('  failed obligation: %s / %s (%s)' % (fn, n, by))
    for h, k, d in concrete[:10]:
        print('  failing input: [%s/%s] %s' % (h, k, d[:300]))
    print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if concrete else ' no-failing-input-found'))
    return 1
