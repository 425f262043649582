"""Shared machinery: scratch directories, evidence files, violation reports, parallel exploration.

Every check is a module checks/<id>.py with a function ``run(ctx)``.  ``ctx`` counts what was explored
and collects violations; nothing here looks at the text of the code under test.
"""
import atexit
import contextlib
import errno
import hashlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVIDENCE = os.path.join(VERIF, 'evidence')
REPLAYS = os.path.join(EVIDENCE, 'replays')

_scratch_root = None


def prepare_environment():
    """HOME, temp dir and byte code all go to one scratch directory, removed at exit."""
    global _scratch_root
    _scratch_root = tempfile.mkdtemp(prefix='verif-')
    owner = os.getpid()

    def cleanup():
        if os.getpid() == owner:
            shutil.rmtree(_scratch_root, ignore_errors=True)

    atexit.register(cleanup)
    home = os.path.join(_scratch_root, 'home')
    os.makedirs(home)
    os.environ['HOME'] = home
    os.environ['TMPDIR'] = _scratch_root
    tempfile.tempdir = _scratch_root
    os.environ['MPLBACKEND'] = 'Agg'
    for var in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS', 'NUMEXPR_NUM_THREADS',
                'NUMEXPR_MAX_THREADS'):
        os.environ[var] = '1'
    sys.dont_write_bytecode = True
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    sys.path.insert(0, os.path.join(VERIF, 'stubs'))
    sys.path.insert(0, REPO)
    os.chdir(_scratch_root)
    import warnings
    warnings.simplefilter('ignore')


def scratch_root():
    return _scratch_root


@contextlib.contextmanager
def scratch(prefix='s'):
    d = tempfile.mkdtemp(prefix=prefix + '-', dir=_scratch_root)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    """silence the code under test (it prints progress on stdout)"""
    with open(os.devnull, 'w') as sink:
        with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
            yield


def digest(obj):
    return hashlib.sha1(repr(obj).encode()).hexdigest()[:12]


class Ctx:
    def __init__(self, prop, level, tier):
        self.prop = prop
        self.level = level
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.nontrivial = set()
        self.samples = []
        self.space = []
        self.notes = []
        self.violations = []
        self.rule = ''
        self.known_hits = {}
        self.t0 = time.time()

    # ---- accounting -------------------------------------------------------------
    def count(self, states=0, transitions=0, traces=0, evaluations=0):
        self.states += states
        self.transitions += transitions
        self.traces += traces
        self.evaluations += evaluations

    def sample(self, text, limit=12):
        if len(self.samples) < limit:
            self.samples.append(str(text)[:400])

    def space_note(self, name, bound):
        self.space.append({'dimension': name, 'bound': str(bound)})

    def nontriv(self, key):
        self.nontrivial.add(key if isinstance(key, str) else digest(key))

    # ---- violations -------------------------------------------------------------
    def violation(self, what, case=None):
        self.violations.append((str(what), case))

    def merge(self, part):
        """merge what a worker returned (see pmap)"""
        for k in ('states', 'transitions', 'traces', 'evaluations'):
            setattr(self, k, getattr(self, k) + part.get(k, 0))
        self.nontrivial.update(part.get('nontrivial', ()))
        for s in part.get('samples', ()):
            self.sample(s)
        self.violations.extend([tuple(v) for v in part.get('violations', ())])


class Part(dict):
    """what one worker reports back"""

    def __init__(self):
        super().__init__(states=0, transitions=0, traces=0, evaluations=0, nontrivial=set(), samples=[],
                         violations=[])

    def count(self, **kw):
        for k, v in kw.items():
            self[k] += v

    def violation(self, what, case=None):
        if len(self['violations']) < 20:
            self['violations'].append((str(what), case))

    def sample(self, text):
        if len(self['samples']) < 2:
            self['samples'].append(str(text)[:400])

    def nontriv(self, key):
        self['nontrivial'].add(key if isinstance(key, str) else digest(key))


def raised_by_code_under_test(err):
    tb = err.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(os.path.join(REPO, 'dedop') + os.sep):
            return True
        tb = tb.tb_next
    return False


class Timeout(BaseException):
    pass


def _on_alarm(signum, frame):
    raise Timeout('no result after %d s' % ITEM_LIMIT)


ITEM_LIMIT = 150      # seconds; the slowest item of any check needs a small fraction of this


def describe(item, limit=300):
    text = repr(item)
    return text if len(text) <= limit else text[:limit] + '...'


def _guarded(args):
    fn, item = args
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(ITEM_LIMIT)
    try:
        return fn(item)
    except Timeout as err:
        p = Part()
        p['timeout'] = True
        p.violation('%s on %s' % (err, describe(item)), traceback.format_exc()[-3000:])
        return p
    except (MemoryError, KeyboardInterrupt) as err:
        p = Part()
        p['harness_error'] = '%s: %s' % (describe(item), traceback.format_exc())
        return p
    except BaseException as err:
        p = Part()
        if isinstance(err, OSError) and err.errno in (errno.ENOSPC, errno.EMFILE, errno.ENOMEM):
            p['harness_error'] = '%s: %s' % (describe(item), traceback.format_exc())
            return p
        # Raised by the code under test, or by the oracle because it met behaviour it has no meaning for (a missing
        # variable, an unreadable file, ...): the oracles are deterministic and complete on the unchanged tree.
        origin = 'code under test' if raised_by_code_under_test(err) else 'oracle cannot interpret the result'
        p.violation('unexpected %s: %s (%s) on %s' % (type(err).__name__, err, origin, describe(item)),
                    traceback.format_exc()[-3000:])
        return p
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def unprivileged(fn, item, folder):
    """fn(item) in a child process that owns ``folder`` and nothing else; returns its Part"""
    import pickle
    nobody = 65534
    os.chmod(_scratch_root, 0o711)
    for d, dirs, names in os.walk(folder):
        for n in [d] + [os.path.join(d, x) for x in names]:
            os.chown(n, nobody, nobody, follow_symlinks=False)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.alarm(ITEM_LIMIT)
            os.chdir(folder)
            if os.geteuid() == 0:
                os.setgroups([])
                os.setgid(nobody)
                os.setuid(nobody)
            part = _guarded((fn, item))
            with os.fdopen(w, 'wb') as fp:
                pickle.dump(part, fp)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as fp:
        data = fp.read()
    os.waitpid(pid, 0)
    if not data:
        p = Part()
        p.violation('the process ended without a result on %s' % describe(item))
        return p
    return pickle.loads(data)


def pmap(ctx, fn, items, workers=None, chunksize=1, fresh=False):
    """Explore ``items`` exhaustively in worker processes; fn(item) returns a Part.
    fresh: every item gets a process of its own, so that no item sees what another one did to module state."""
    items = list(items)
    workers = workers or min(8, os.cpu_count() or 1, max(1, len(items)))
    parts = []
    if workers == 1 and not fresh:
        for i in items:
            parts.append(_guarded((fn, i)))
    else:
        with mp.get_context('fork').Pool(workers, maxtasksperchild=1 if fresh else None) as pool:
            bad = 0
            for p in pool.imap(_guarded, [(fn, i) for i in items], chunksize=1 if fresh else chunksize):
                parts.append(p)
                bad += len(p.get('violations', ()))
                if p.get('timeout') or bad >= (1 if os.environ.get('VERIF_STOP') else 40):
                    ctx.notes.append('stopped early: enough violations')
                    break
    for p in parts:
        if 'harness_error' in p:
            raise RuntimeError('harness error on ' + p['harness_error'])
        ctx.merge(p)
    if os.environ.get('VERIF_STOP') and any(p.get('violations') for p in parts):
        raise Stop()
    return parts


class Stop(Exception):
    """VERIF_STOP is set (mutation campaigns): the first violation is enough"""


def finished(parts, items):
    return len(parts) == len(items)


# ---- known findings ------------------------------------------------------------------
def load_known():
    path = os.path.join(VERIF, 'known-findings.jsonl')
    out = []
    if os.path.exists(path):
        with open(path) as fp:
            for line in fp:
                line = line.strip()
                if line and not line.startswith('#'):
                    out.append(json.loads(line))
    return out


def finish(ctx):
    """write evidence, print verdict, return the exit code"""
    known = [k for k in load_known() if k.get('property') == ctx.prop and k.get('status') == 'known']
    fresh, hits = [], {}
    for what, case in ctx.violations:
        for k in known:
            if k['match'] in what:
                hits.setdefault(k['match'], k)
                break
        else:
            fresh.append((what, case))
    for k in hits.values():
        print('KNOWN-FINDING: property=%s %s' % (ctx.prop, k['what']))

    os.makedirs(REPLAYS, exist_ok=True)
    coverage = {
        'space': ctx.space,
        'violations_reported': len(fresh),
        'known_findings_hit': len(hits),
    }
    if ctx.notes:
        coverage['notes'] = ctx.notes
    if ctx.level == 'model_checking':
        coverage.update(states=ctx.states, transitions=ctx.transitions,
                        traces_validated_against_impl=ctx.traces, samples=ctx.samples)
        if ctx.evaluations:
            coverage['evaluations'] = ctx.evaluations
    else:
        coverage.update(evaluations=ctx.evaluations, distinct_nontrivial=len(ctx.nontrivial), rule=ctx.rule,
                        samples=ctx.samples)
        if ctx.states:
            coverage['states'] = ctx.states
            coverage['transitions'] = ctx.transitions
    evidence = {'property': ctx.prop, 'tier': ctx.tier, 'seed': ctx.seed, 'level': ctx.level,
                'coverage': coverage, 'wall_s': round(time.time() - ctx.t0, 2)}
    with open(os.path.join(EVIDENCE, ctx.prop + '.json'), 'w') as fp:
        json.dump(evidence, fp, indent=1, default=str)

    if fresh:
        path = os.path.join(REPLAYS, '%s-%s.json' % (ctx.prop, digest(fresh[0])))
        with open(path, 'w') as fp:
            json.dump({'property': ctx.prop, 'count': len(fresh),
                       'violations': [{'what': w, 'case': c} for w, c in fresh[:50]]}, fp, indent=1, default=str)
        for w, _ in fresh[:8]:
            print('  ' + w[:600])
        print('VIOLATION property=%s replay=%s' % (ctx.prop, path))
        return 1
    print('OK property=%s states=%d transitions=%d evaluations=%d wall=%.1fs' % (
        ctx.prop, ctx.states, ctx.transitions, ctx.evaluations, time.time() - ctx.t0))
    return 0
