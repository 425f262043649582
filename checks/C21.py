"""C21: every history of commands of the command line acts on the right workspace, configuration and inputs."""
import fnmatch
import io
import os
import re
import sys

from vlib import core, pipeline, wsmodel
from vlib.wsmodel import Either, Model, Refused

LEVEL = 'model_checking'

SOURCES = {'p.nc': b'first input', 'q.nc': b'second input', 'n.txt': b'not a product', 'bad.nc': b'BAD input'}
RES = None


# ---- commands --------------------------------------------------------------------------------------------------
# a command is (name, {option: value}); the values None (not given) are left out
def cmd(name, **kw):
    return (name, tuple(sorted((k, v) for k, v in kw.items() if v is not None)))


LONG = {'w': 'workspace', 'c': 'config', 'i': 'input', 'o': 'output', 'r': 'run', 's': 'status', 'rm': 'remove',
        'cp': 'copy', 'rn': 'rename', 'cur': 'current', 'ls': 'list', 'cl': 'clean', 'v': 'version', 'up': 'upgrade',
        '-w': '--workspace', '-c': '--config', '-y': '--yes', '-q': '--quiet', '-s': '--skip-l1bs',
        '-a': '--all-configs', '-i': '--inputs', '-o': '--output'}


def argv(world, c):
    """the arguments and the text typed by the user"""
    a, typed = short_argv(world, c)
    if world.long:
        a = [LONG.get(x, x) if n < len(c[0].split()) or x.startswith('-') else x for n, x in enumerate(a)]
    return a, typed


def short_argv(world, c):
    name, kw = c[0], dict(c[1])
    a = name.split()
    if 'w' in kw:
        a += ['-w', kw['w']]
    if 'c' in kw:
        a += ['-c', kw['c']]
    if kw.get('cryosat'):
        a += ['--cryosat-adapted']
    for flag in ('y', 'q', 's', 'a'):
        if kw.get(flag):
            a += ['-' + flag]
    if 'o' in kw:
        a += ['-o', os.path.join(world.root, kw['o'])]
    if 'i' in kw:
        a += ['-i'] + [os.path.join(world.src, x) for x in kw['i']]
    if 'files' in kw:
        a += [os.path.join(world.src, x) for x in kw['files']]
    for x in kw.get('args', ()):
        a.append(x)
    return a, kw.get('typed', '')


def alphabet(level):
    """level 0: commands that build; 1: all"""
    out = []
    ws = ('a', 'default')
    for w in ws:
        out += [cmd('workspace add', args=(w,)), cmd('w rm', args=(w,), y=True), cmd('w cur', args=(w,)),
                cmd('w cp', args=(w,))]
    out += [cmd('w cp', args=('a', 'default')), cmd('w cp', args=('a', 'b')), cmd('w rn', args=('b',)),
            cmd('w rn', args=('a', 'default')), cmd('w rn', args=('default', 'a')), cmd('w rn', args=('a', 'a')),
            cmd('w cp'), cmd('w rm', y=True), cmd('w rm', typed='\n'), cmd('w rm', typed='no\n'),
            cmd('w rm', args=('a',), typed='yes\n'), cmd('w rm', args=('a',), typed='n\n'),
            cmd('w cur'), cmd('w ls'), cmd('w rm', args=('b',), y=True)]
    for w in (None, 'a', 'b'):
        out += [cmd('config add', w=w, args=('x',)), cmd('c rm', w=w, args=('x',), y=True),
                cmd('c rn', w=w, args=('y',)), cmd('c cp', w=w), cmd('c cur', w=w), cmd('c ls', w=w),
                cmd('i ls', w=w), cmd('o ls', w=w), cmd('r', w=w, q=True), cmd('r', w=w, a=True)]
    out += [cmd('c add', args=('default',)), cmd('c add', args=('y',), cryosat=True), cmd('c add', args=('x',), w='default'),
            cmd('c rm', y=True), cmd('c rm', typed='\n'), cmd('c rm', typed='nope\n'),
            cmd('c cp', args=('x',)), cmd('c cp', args=('x', 'default')), cmd('c cp', args=('x', 'y')),
            cmd('c rn', args=('x', 'y')), cmd('c rn', args=('y', 'x')), cmd('c rn', args=('x', 'x')),
            cmd('c cur', args=('x',)), cmd('c cur', args=('y',)), cmd('c cur', args=('x',), w='default'),
            cmd('c v'), cmd('c up'), cmd('c v', args=('x',)), cmd('c up', args=('y',), w='a'),
            cmd('c add', args=('a',), w='default')]
    out += [cmd('input add', files=('p.nc',), q=True), cmd('i add', files=('*.nc',)), cmd('i add', files=('q.nc', 'n.txt'), w='a'),
            cmd('i add', files=('none*.nc',)),
            cmd('i rm', q=True), cmd('i rm', args=('p.nc',), q=True), cmd('i rm', args=('p*',), typed='\n'),
            cmd('i rm', args=('q.nc',), typed='no\n'), cmd('i rm', args=('zzz',), q=True, w='a'),
            cmd('i ls', args=('p*',))]
    out += [cmd('output clean', q=True), cmd('o cl', typed='\n'), cmd('o cl', typed='no\n'), cmd('o cl', c='x', q=True),
            cmd('o ls', c='x'), cmd('o ls', args=('*p*',))]
    out += [cmd('run', s=True, q=True), cmd('r', c='x', q=True), cmd('r', c='y', a=True), cmd('r', i=('p.nc',), q=True),
            cmd('r', i=('q.nc', 'p.nc'), a=True, q=True), cmd('r', o='elsewhere', q=True), cmd('r', i=('bad.nc', 'p.nc'), q=True),
            cmd('status')]
    return out


STARTS = [
    (cmd('w add', args=('a',)), cmd('c add', args=('x',)), cmd('i add', files=('p.nc', 'q.nc'), q=True), cmd('r', q=True)),
    (cmd('w add', args=('default',)), cmd('c add', args=('default',)), cmd('c add', args=('x',), cryosat=True),
     cmd('i add', files=('q.nc',), q=True), cmd('r', a=True, q=True), cmd('w cp', args=('default', 'a')),
     cmd('w add', args=('b',)), cmd('c add', args=('y',)), cmd('i add', files=('p.nc', 'q.nc'), q=True),
     cmd('w cur', args=('a',))),
]
# with nothing chosen, as the other programs may leave it
UNSET = [
    (cmd('w add', args=('a',)), cmd('c add', args=('x',)), cmd('i add', files=('p.nc',), q=True), cmd('unset')),
    (cmd('w add', args=('default',)), cmd('c add', args=('x',)), cmd('i add', files=('q.nc',), q=True),
     cmd('w add', args=('a',)), cmd('c add', args=('y',)), cmd('unset')),
    (cmd('w add', args=('default',)), cmd('c add', args=('default',)), cmd('w add', args=('a',)), cmd('c add', args=('x',)),
     cmd('i add', files=('p.nc',), q=True), cmd('unset', w='a'), cmd('unset', w='default')),
]


# ---- the model -------------------------------------------------------------------------------------------------
class Stop(Exception):
    """the command fails from here on; what was done before stays"""


def unique(name, used):
    n, i = name, 2
    while n in used:
        n, i = '%s_%d' % (name, i), i + 1
    return n


def pick(names):
    names = sorted(names)
    return 'default' if 'default' in names else names[0] if names else None


def product_name(path, conf):
    return 'L1B_%s_%s.nc' % (os.path.basename(path)[:-3], conf)


class Cli:
    def __init__(self, state, world):
        self.m = Model(state, RES)
        self.runs = []          # expected runs of the processor
        self.shown = None       # expected list on the screen
        self.world = world
        self.says = []          # names that must be on the screen

    @property
    def s(self):
        return self.m.s

    def default_ws(self):
        if 'default' not in self.s['ws']:
            self.m.create_workspace('default')
            self.s['current'] = 'default'
        return 'default'

    def need_ws(self, kw, k='w'):
        w = kw.get(k) or self.s['current']
        if not w:
            raise Refused('no current workspace')
        return w

    def conf_of(self, w):
        return self.m.ws(w)['current']

    def execute(self, c):
        name, kw = c[0], dict(c[1])
        group, _, sub = name.partition(' ')
        group = {'workspace': 'w', 'config': 'c', 'input': 'i', 'output': 'o', 'run': 'r'}.get(group, group)
        getattr(self, '%s_%s' % (group, sub or 'all'))(kw, kw.get('args', ()))

    @staticmethod
    def confirmed(kw, flag):
        return bool(kw.get(flag)) or kw.get('typed', '').strip().lower() in ('', 'yes')

    def unset_all(self, kw, a):
        if kw.get('w'):
            self.m.ws(kw['w'])['current'] = None
        else:
            self.s['current'] = None

    # workspaces
    def w_add(self, kw, a):
        self.m.create_workspace(a[0])
        self.s['current'] = a[0]

    def w_rm(self, kw, a):
        w = a[0] if a else self.need_ws(kw)
        if self.confirmed(kw, 'y'):
            self.m.delete_workspace(w)
            if self.s['current'] == w:
                self.s['current'] = pick(self.s['ws'])

    def w_cp(self, kw, a):
        w = a[0] if a else self.need_ws(kw)
        self.m.copy_workspace(w, unique(a[1] if len(a) > 1 else w + '_1', self.s['ws']))

    def w_rn(self, kw, a):
        w = a[0] if len(a) > 1 else self.need_ws(kw)
        new = unique(a[-1], self.s['ws'])
        self.m.rename_workspace(w, new)
        if self.s['current'] == w:
            self.s['current'] = new

    def w_cur(self, kw, a):
        if a:
            self.m.set_current_workspace_name(a[0])
        elif self.s['current']:
            self.says.append(self.s['current'])

    def w_ls(self, kw, a):
        self.shown = sorted(self.s['ws'])

    # configurations
    def c_add(self, kw, a):
        w = kw.get('w') or self.s['current'] or self.default_ws()
        self.m.create_config(w, a[0], kw.get('cryosat', False))
        self.m.ws(w)['current'] = a[0]

    def named(self, kw, a):
        w = self.need_ws(kw)
        c = a[0] if a else self.conf_of(w)
        if not c:
            raise Refused('no current configuration')
        return w, c

    def c_rm(self, kw, a):
        w, c = self.named(kw, a)
        if self.confirmed(kw, 'y'):
            self.m.delete_config(w, c)
            x = self.m.ws(w)
            if x['current'] == c:
                x['current'] = pick(x['configs'])

    def c_cp(self, kw, a):
        w, c = self.named(kw, a)
        self.m.copy_config(w, c, unique(a[1] if len(a) > 1 else c + '_copy', self.m.ws(w)['configs']))

    def c_rn(self, kw, a):
        w, c = self.named(kw, a[:-1])
        x = self.m.ws(w)
        new = unique(a[-1], x['configs'])
        self.m.rename_config(w, c, new)
        if x['current'] == c:
            x['current'] = new

    def c_cur(self, kw, a):
        w = kw.get('w') or self.s['current'] or 'default'
        if a:
            self.m.set_current_config_name(w, a[0])
        elif self.conf_of(w):
            self.says.append(self.conf_of(w))

    def c_ls(self, kw, a):
        self.shown = sorted(self.m.ws(self.need_ws(kw))['configs'])

    def c_v(self, kw, a):
        w, c = self.named(kw, a)
        self.m.conf(w, c)
        self.says += [w, c]

    def c_up(self, kw, a):
        w, c = self.named(kw, a)        # everything here is of the current version
        self.m.conf(w, c)

    # inputs
    def i_add(self, kw, a):
        got = []
        for p in kw['files']:
            got += [n for n in sorted(SOURCES) if fnmatch.fnmatchcase(n, p)]
        if not got:
            raise Refused('nothing')
        w = kw.get('w') or self.s['current'] or self.default_ws()
        self.m.add_inputs(w, [(n, SOURCES[n]) for n in got])

    def inputs(self, w, patterns):
        names = sorted(n for n in self.s['ws'].get(w, {}).get('inputs', ()) if n.endswith('.nc'))
        return [n for n in names if not patterns or any(fnmatch.fnmatchcase(n, p) for p in patterns)]

    def i_rm(self, kw, a):
        w = self.need_ws(kw)
        got = self.inputs(w, a)
        if not got:
            raise Refused('nothing')
        if self.confirmed(kw, 'q'):
            self.m.remove_inputs(w, got)

    def i_ls(self, kw, a):
        w = self.need_ws(kw)
        if w not in self.s['ws']:
            raise Either('not there')
        self.shown = self.inputs(w, a)

    # outputs
    def o_named(self, kw):
        w = self.need_ws(kw)
        c = kw.get('c') or self.conf_of(w)
        if not c:
            raise Refused('no current configuration')
        return w, c

    def o_clean(self, kw, a):
        w, c = self.o_named(kw)
        if not self.m.ws(w)['configs'].get(c, {}).get('outputs'):
            raise Refused('nothing')
        if self.confirmed(kw, 'q'):
            self.m.remove_outputs(w, c)

    o_cl = o_clean

    def o_ls(self, kw, a):
        w, c = self.o_named(kw)
        if c not in self.m.ws(w)['configs']:
            raise Either('not there')
        self.shown = [n for n in sorted(self.m.conf(w, c)['outputs'])
                      if n.endswith('.nc') and (not a or fnmatch.fnmatchcase(n, a[0]))]

    # the processor
    def r_all(self, kw, a):
        if kw.get('a') and kw.get('c'):
            raise Refused('both')
        w = kw.get('w') or self.s['current']
        if not w:
            # 'default' is used, and created
            c = kw.get('c')
            w = self.default_ws()
        else:
            c = kw.get('c') or self.conf_of(w)
        x = self.m.ws(w)
        if kw.get('a'):
            cs = sorted(x['configs'])
            if not cs:
                raise Stop('no configuration')
        else:
            if not c:
                c = 'default'
                if c not in x['configs']:
                    self.m.create_config(w, c)
                    x['current'] = c
            cs = [c]
        inputs = [os.path.join(self.world.src, n) for n in kw['i']] if kw.get('i') else \
            [os.path.join(self.world.base, w, 'inputs', n) for n in self.inputs(w, ())]
        if not inputs:
            raise Stop('no inputs')
        for c in cs:
            out = os.path.join(self.world.root, kw['o']) if kw.get('o') else \
                os.path.join(self.world.base, w, 'configs', c, 'outputs')
            if c not in x['configs']:
                raise Stop('no such configuration')
            conf = tuple(os.path.join(self.world.base, w, 'configs', c, k + '.json') for k in wsmodel.KINDS)
            for i in inputs:
                if os.path.basename(i) == 'bad.nc':
                    raise Stop('the processor fails')
                self.runs.append((c,) + conf + (out, bool(kw.get('s')), i))
                if not kw.get('o'):
                    self.m.add_output(w, c, product_name(i, c), b'product')

    def status_all(self, kw, a):
        if self.s['current']:
            self.says.append(self.s['current'])
            self.says.append(self.conf_of(self.s['current']) or '(not set)')
        else:
            self.says.append('(not set)')


# ---- the real thing --------------------------------------------------------------------------------------------
class World:
    long = False        # write out the names of commands and options

    def __init__(self, d):
        self.root = os.path.realpath(os.path.join(d, 'around'))
        self.base = os.path.join(self.root, 'user', 'workspaces')
        self.src = os.path.join(self.root, 'sources')
        os.makedirs(self.src)
        os.makedirs(os.path.join(self.root, 'user'))
        for n, t in SOURCES.items():
            with open(os.path.join(self.src, n), 'wb') as fp:
                fp.write(t)
        self.initial = wsmodel.snapshot(self.root)

    def manager(self):
        from dedop.ui.workspace_manager import WorkspaceManager
        return WorkspaceManager(self.base)

    def call(self, args, typed='', manager=None, factory=None):
        """-> exit code, stdout, stderr, runs"""
        from dedop.cli import main as cli
        runs = []
        from dedop.model.exception import ProcessorException
        from dedop.util.monitor import Monitor

        class Recorder:
            def __init__(self, name=None, cnf_file=None, cst_file=None, chd_file=None, output_dir='.', skip_l1bs=True):
                for f in (chd_file, cnf_file, cst_file):
                    if not os.path.isfile(f):
                        raise ProcessorException('no such file %s' % f)
                self.conf = (name, chd_file, cnf_file, cst_file, output_dir, bool(skip_l1bs))

            def process(self, l1a_file, monitor=Monitor.NULL):
                if os.path.basename(l1a_file) == 'bad.nc':
                    raise ProcessorException('cannot process %s' % l1a_file)
                with monitor.starting('processing', total_work=1):
                    monitor.progress(1)
                out = self.conf[4]
                if os.path.basename(out) == 'outputs':
                    os.makedirs(out, exist_ok=True)
                    with open(os.path.join(out, product_name(l1a_file, self.conf[0])), 'wb') as fp:
                        fp.write(b'product')
                runs.append(self.conf + (l1a_file,))

        std = sys.stdin, sys.stdout, sys.stderr
        sys.stdin, sys.stdout, sys.stderr = io.StringIO(typed), io.StringIO(), io.StringIO()
        try:
            code = cli.main(args=args, workspace_manager=manager or self.manager(),
                            processor_factory=factory or Recorder)
            return code, sys.stdout.getvalue(), sys.stderr.getvalue(), runs
        finally:
            sys.stdin, sys.stdout, sys.stderr = std


def normal(run):
    return tuple(os.path.realpath(x) if isinstance(x, str) and os.sep in x else x for x in run)


def visible(tree):
    pre = 'user/workspaces/'
    return {p[len(pre):]: v for p, v in tree.items()
            if p.startswith(pre) and v is not None and os.path.basename(p) != '.current'}


def observe(world, s):
    bad = []
    m = world.manager()
    names = list(m.get_workspace_names())
    if names != sorted(s['ws']):
        bad.append('workspaces are %s, expected %s' % (names, sorted(s['ws'])))
        return bad
    cur = m.get_current_workspace().name or None
    if cur != s['current']:
        bad.append('current workspace is %r, expected %r' % (cur, s['current']))
    for w in names:
        x = s['ws'][w]
        if list(m.get_config_names(w) or []) != sorted(x['configs']):
            bad.append('configurations of %s are %s, expected %s' % (w, m.get_config_names(w), sorted(x['configs'])))
        cc = m.get_current_config_name(w) or None
        if cc != x['current']:
            bad.append('current configuration of %s is %r, expected %r' % (w, cc, x['current']))
    return bad


def in_scope(s, c):
    kw = dict(c[1])
    if c[0].endswith('i add') or c[0] == 'input add':
        w = kw.get('w')
        return w is None or w in s['ws']        # adding inputs to a workspace that does not exist is not specified
    return True


def step(part, world, state, tree, c, hist):
    """-> new state, new tree, or None"""
    model = Cli(state, world)
    verdict = 'ok'
    try:
        model.execute(c)
        allowed = [(True, model.s)]
    except Refused:
        verdict, allowed = 'refused', [(False, state)]
    except Stop:
        verdict, allowed = 'stop', [(False, model.s)]
    except Either:
        verdict, allowed = 'either', [(False, state), (True, state)]
        if c[0] == 'workspace add':     # an empty workspace may be created again
            s2 = wsmodel.copy.deepcopy(state)
            s2['current'] = dict(c[1])['args'][0]
            allowed.append((True, s2))
    a, typed = argv(world, c)
    if c[0] == 'unset':
        if dict(c[1]).get('w'):
            world.manager().set_current_config_name(dict(c[1])['w'], '')
        else:
            world.manager().set_current_workspace_name('')
        code, out, err, runs = 0, '', '', []
    else:
        code, out, err, runs = world.call(a, typed)
    part.count(transitions=1)
    now = wsmodel.snapshot(world.root)
    shown_hist = ' ; '.join(describe(h) for h in hist)
    label = '"%s" after [%s]' % (describe(c), shown_hist)
    want = None
    reasons = []
    for ok, s in allowed:
        if (code == 0) != ok:
            reasons.append('exit code %r (%s)' % (code, err.strip()[-200:] or out.strip()[-200:]))
        elif visible(now) != wsmodel.files(s):
            reasons.append('files: %s' % wsmodel.diff(wsmodel.files(s), visible(now)))
        else:
            bad = observe(world, s)
            if bad:
                reasons += bad[:2]
            else:
                want = s
                break
    if want is None:
        part.violation('%s: %s' % (label, '; '.join(reasons[:3])))
        return None
    if verdict == 'refused' and now != tree:
        part.violation('%s: failed, but changed %s' % (label, wsmodel.diff(tree, now)))
        return None
    outside = {p: v for p, v in now.items() if not p.startswith('user/workspaces')}
    if outside != {p: v for p, v in world.initial.items() if not p.startswith('user/workspaces')}:
        part.violation('%s: changed files elsewhere' % label)
        return None
    if code != 0 and not err.strip():
        part.violation('%s: fails without a message' % label)
    if verdict in ('ok', 'stop') and [normal(r) for r in runs] != [normal(r) for r in model.runs] and \
            sorted(map(normal, runs)) != sorted(map(normal, model.runs)):
        part.violation('%s: the processor ran %s, expected %s' % (label, runs, model.runs))
        return None
    if verdict in ('refused', 'either') and runs:
        part.violation('%s: failed, but ran the processor' % label)
    if verdict == 'ok' and model.shown is not None:
        got = re.findall(r'^\s*\d+: (.*)$', out, re.M)
        if got != model.shown:
            part.violation('%s: lists %s, expected %s' % (label, got, model.shown))
            return None
    if verdict == 'ok':
        for t in model.says:
            if not re.search(r'(?<!\w)%s(?!\w)' % re.escape(t), out):
                part.violation('%s: "%s" is not shown: %s' % (label, t, out))
                return None
    return want, now


def describe(c):
    kw = dict(c[1])
    t = c[0]
    for k, v in kw.items():
        if k == 'args' or k == 'files':
            t += ' ' + ' '.join(v)
        elif k == 'typed':
            t += ' <%r' % v
        elif v is True:
            t += ' -' + k
        else:
            t += ' -%s %s' % (k, ' '.join(v) if isinstance(v, tuple) else v)
    return t


def expand(item):
    history, level = item
    part = core.Part()
    part['next'] = []
    os.fsync = lambda fd: None
    with core.scratch('c21') as d:
        world = World(d)
        world.long = level == 2
        state, tree = wsmodel.empty(), world.initial
        for i, c in enumerate(history):
            r = step(part, world, state, tree, c, history[:i])
            if r is None:
                return part
            state, tree = r
        part.count(traces=1)
        for c in alphabet(level):
            if not in_scope(state, c):
                continue
            r = step(part, world, state, tree, c, history)
            now = wsmodel.snapshot(world.root)
            if r is not None and now != tree:
                part['next'].append((history + (c,), core.digest(sorted(now.items(), key=lambda kv: kv[0]))))
            if now != tree:
                wsmodel.restore(world.root, tree, now)
            if len(part['violations']) >= 5:
                break
        part.nontriv(core.digest(sorted(tree.items(), key=lambda kv: kv[0])))
    return part


# ---- products that are opened --------------------------------------------------------------------------------
def opened(item):
    """inspect, compare, open and edit: which files"""
    part = core.Part()
    os.fsync = lambda fd: None
    with core.scratch('c21') as d:
        world = World(d)
        for a in (['w', 'add', 'a'], ['c', 'add', 'x'], ['c', 'add', 'y'], ['i', 'add', os.path.join(world.src, 'p.nc')],
                  ['r', '-a', '-q'], ['w', 'cp', 'a', 'b'], ['c', 'cur', '-w', 'b', 'x'], ['w', 'add', 'e']):
            code = world.call(a)[0]
            if code != 0:
                part.violation('%s: exit code %r' % (a, code))
                return part
        other = os.path.join(world.src, 'p.nc')

        from dedop.ui.workspace_manager import WorkspaceManager
        log = []

        class Manager(WorkspaceManager):
            def inspect_l1b_product(self, workspace_name, l1b_path):
                log.append(('inspect', workspace_name, os.path.realpath(l1b_path)))

            def compare_l1b_products(self, workspace_name, l1b_path_1, l1b_path_2):
                log.append(('compare', workspace_name, os.path.realpath(l1b_path_1), os.path.realpath(l1b_path_2)))

            def open_file(self, path):
                log.append(('open', os.path.realpath(path)))

        cur = {'a': 'y', 'b': 'x', 'e': None}

        def path(w, c, n):
            return os.path.join(world.base, w, 'configs', c, 'outputs', n)

        def go(a, want):
            del log[:]
            before = wsmodel.snapshot(world.root)
            code, out, err, runs = world.call(a, manager=Manager(world.base))
            part.count(transitions=1, traces=1)
            part.nontriv(a)
            if want is None:
                if code == 0 or log:
                    part.violation('%s: exit code %r, did %s; expected an error' % (a, code, log))
            elif code != 0 or sorted(log) != sorted(want):
                part.violation('%s: exit code %r, did %s, expected %s %s' % (a, code, log, want, err))
            if wsmodel.snapshot(world.root) != before:
                part.violation('%s: changed the workspaces' % a)

        def where(w, c):
            return (['-w', w] if w else []) + (['-c', c] if c else [])

        names = ['L1B_p_x.nc', 'L1B_p_y.nc', other]
        short, now, w = item
        world.call(['w', 'cur', now])
        for c in (None, 'x', 'y', 'z'):
            ww = w or now
            cc = c or cur[ww]
            for n in names:
                p = n if os.sep in n else path(ww, cc, n) if cc else None
                ok = p is not None and os.path.exists(p)
                go(['o', 'ins'] + where(w, c) + [n], [('inspect', ww, os.path.realpath(p))] if ok else None)
            outs = os.path.join(world.base, ww, 'configs', cc or '', 'outputs')
            if not cc:
                go(['o', 'op'] + where(w, c), None)
            elif os.path.isdir(outs):
                go(['o', 'op'] + where(w, c), [('open', os.path.realpath(outs))])
            if cc in ('x', 'y') and ww != 'e':
                files = [os.path.join(world.base, ww, 'configs', cc, k + '.json') for k in wsmodel.KINDS]
                a = ['c', 'ed'] + (['-w', w] if w else []) + ([c] if c else [])
                go(a, [('open', os.path.realpath(f)) for f in files])
            for w2 in (None, 'a', 'b'):
                for c2 in (None, 'x', 'y'):
                    vv, dd = w2 or ww, c2 or cc
                    for n1 in names:
                        for n2 in [None] + names:
                            p1 = n1 if os.sep in n1 else path(ww, cc, n1) if cc else None
                            m = n2 or n1
                            p2 = m if os.sep in m else path(vv, dd, m) if dd else None
                            ok = p1 is not None and p2 is not None and os.path.exists(p1) and os.path.exists(p2)
                            a = ['o', 'cmp'] + where(w, c) + (['-W', w2] if w2 else []) + \
                                (['-C', c2] if c2 else []) + [n1] + ([n2] if n2 else [])
                            if short and (c == 'z' or now == 'e') and w2:
                                continue
                            go(a, [('compare', ww, os.path.realpath(p1), os.path.realpath(p2))] if ok else None)
                            if len(part['violations']) > 5:
                                return part
    return part


# ---- the other commands ----------------------------------------------------------------------------------------
def others(item):
    """what only shows something, what is given as path, upgrades of old versions, arguments that make no sense"""
    import json
    import webbrowser
    part = core.Part()
    os.fsync = lambda fd: None
    with core.scratch('c21') as d:
        world = World(d)
        here = os.getcwd()
        out1, err2 = os.dup(1), os.dup(2)
        null = os.open(os.devnull, os.O_WRONLY)
        browser, opened_urls = webbrowser.open_new_tab, []
        log = []

        from dedop.ui.workspace_manager import WorkspaceManager

        class Manager(WorkspaceManager):
            def launch_notebook(self, title, notebook_dir, notebook_path=None):
                log.append((os.path.realpath(notebook_dir), os.path.isdir(notebook_dir), notebook_path))

            def inspect_l1b_product(self, workspace_name, l1b_path):
                log.append(('inspect', workspace_name, os.path.realpath(l1b_path)))

        def go(a, ok=True, says=(), same=True):
            before = wsmodel.snapshot(world.root)
            del log[:]
            part.count(transitions=1, traces=1)
            part.nontriv(a)
            os.dup2(null, 1)
            os.dup2(null, 2)
            try:
                code, out, err, runs = world.call(a, manager=Manager(world.base))
            except BaseException as error:
                if not isinstance(error, Exception):
                    raise
                part.violation('%s: %s: %s' % (a, type(error).__name__, error))
                return '', []
            finally:
                os.dup2(out1, 1)
                os.dup2(err2, 2)
            if (code == 0) != ok:
                part.violation('%s: exit code %r, %s' % (a, code, err.strip()[-200:]))
            if not ok and not err.strip():
                part.violation('%s: fails without a message' % a)
            for t in says:
                if ' '.join(t.split()) not in ' '.join(out.split()):
                    part.violation('%s: does not show %r: %r' % (a, t, out))
            if same and wsmodel.snapshot(world.root) != before:
                part.violation('%s: changed %s' % (a, wsmodel.diff(before, wsmodel.snapshot(world.root))))
            return out, runs

        webbrowser.open_new_tab = lambda url: opened_urls.append(url) or True
        os.chdir(world.src)
        try:
            # nothing there
            for a in (['c', 'info'], ['c', 'i', 'x'], ['c', 'i', '-w', 'zz'], ['c', 'v'], ['c', 'up'], ['zzz'], ['w', 'zzz'],
                      ['w', 'rn'], ['c', 'add'], ['r', '--zzz'], ['w', 'ls', 'extra']):
                go(a, ok=False)
            go(['s'])
            go(['s', '-l'])
            if os.path.exists(world.base):
                part.violation('the workspaces directory exists')
            go(['notebook'], same=False)
            if log != [(os.path.realpath(world.base), True, None)]:
                part.violation('notebook: started %s' % log)
            with open(os.path.join(core.REPO, 'LICENSE')) as fp:
                go(['license'], says=[fp.read()])
            go(['copyright'], says=['copyright (C) 2016', 'European Space Agency', 'GNU General Public License'])
            go(['man'])
            if len(opened_urls) != 1 or not opened_urls[0].startswith('http'):
                part.violation('man: opened %s' % opened_urls)
            for group in ('w', 'c', 'i', 'o'):
                go([group], says=['add' if group != 'o' else 'inspect'])
            go(['o', 'ins', os.path.join('.', 'p.nc')], same=False)
            if log != [('inspect', 'default', os.path.join(world.src, 'p.nc'))]:
                part.violation('output inspect: did %s' % log)
            # paths relative to where the user is
            go(['w', 'add', 'a'], same=False)
            go(['c', 'add', 'x'], same=False)
            go(['c', 'add', 'y'], same=False)
            for a, n in ((['p.nc'], ['p.nc']), (['*.nc'], ['bad.nc', 'p.nc', 'q.nc']), (['.'], None), (['n.txt', 'p.nc'], None)):
                go(['i', 'add'] + a, same=False, ok=n != None or a[0] == 'n.txt')
                got = world.manager().get_input_names('a')
                if n and sorted(got) != n:
                    part.violation('input add %s: inputs are %s' % (a, got))
            os.makedirs('deep/er/est')
            for f in 'deep/er/d.nc', 'deep/er/est/e.nc':
                with open(f, 'wb') as fp:
                    fp.write(b'deep')
            for f, n in (('**/d.nc', 'd.nc'), (os.path.join('deep', '**', 'e.nc'), 'e.nc')):
                go(['i', 'add', f], same=False)
                if n not in world.manager().get_input_names('a'):
                    part.violation('input add %s: nothing' % f)
            _, runs = go(['r', '-q', '-i', 'p.nc', os.path.join('deep', 'er', 'd.nc'), '-o', 'out'])
            if [(os.path.realpath(r[-1]), os.path.realpath(r[4])) for r in runs] != \
                    [(os.path.join(world.src, n), os.path.join(world.src, 'out')) for n in ('p.nc', 'deep/er/d.nc')]:
                part.violation('run with relative paths: %s' % runs)
            # what it says about a configuration
            m = world.manager()
            for a, w, c in ((['c', 'i'], 'a', 'y'), (['c', 'info', 'x'], 'a', 'x'), (['c', 'info', '-w', 'a', 'y'], 'a', 'y')):
                go(a, says=[w, c, m.get_config_path(w, c)])
            go(['c', 'i', '-w', 'default'], ok=False)
            go(['c', 'i', '-w', 'zz', 'x'], ok=False)
            out, _ = go(['s'])
            for label, t in (('current workspace', 'a'), ('current DDP configuration', 'y'), ('workspace names', 'a, default'),
                             ('workspaces location', world.base)):
                if not re.search(r'^%s:\s+%s\s*$' % (re.escape(label), re.escape(t)), out, re.M):
                    part.violation('status: %s is not %s: %s' % (label, t, out))
            bulk = {'a/inputs/bulk.nc': 3, 'a/configs/x/outputs/bulk.nc': 5, 'default/inputs/bulk.nc': 2,
                    'default/inputs/bulk2.nc': 1}
            for f, n in bulk.items():
                f = os.path.join(world.base, f)
                os.makedirs(os.path.dirname(f), exist_ok=True)
                with open(f, 'wb') as fp:
                    fp.truncate(n << 20)
            out, _ = go(['s'])
            if not re.search(r'\s%d(\.\d+)? M' % sum(bulk.values()), out):
                part.violation('status: the size is not %d MiB: %s' % (sum(bulk.values()), out))
            for f in bulk:
                os.remove(os.path.join(world.base, f))
            # old versions
            def text(c, k):
                with open(m.get_config_file('a', c, k)) as fp:
                    return fp.read()

            now = {k: json.loads(text('x', k))['__metainf__']['version'] for k in wsmodel.KINDS}
            for named in (False, True):
                for old in range(1, 8):
                    kinds = [k for i, k in enumerate(wsmodel.KINDS) if old >> i & 1]
                    for c in 'xy':
                        for k in wsmodel.KINDS:
                            j = json.loads(text(c, k))
                            if k in kinds:
                                j.pop('__metainf__', None)
                            else:
                                j['__metainf__'] = {'version': now[k]}
                            m.write_config_file('a', c, k, json.dumps(j))
                    other = {k: text('x' if not named else 'y', k) for k in wsmodel.KINDS}
                    a = ['-w', 'a', 'x'] if named else []
                    out, _ = go(['c', 'v'] + a, says=['%s.json: %s' % (k, 'no-version' if k in kinds else 'version %d' % now[k])
                                                      for k in wsmodel.KINDS])
                    go(['c', 'up'] + a, same=False, says=['%s.json: version %d' % (k, now[k]) for k in wsmodel.KINDS])
                    c = 'x' if named else 'y'
                    for k in wsmodel.KINDS:
                        v = json.loads(text(c, k)).get('__metainf__', {}).get('version')
                        if v != now[k]:
                            part.violation('config upgrade %s: %s of %s has version %s, was %s' % (
                                a, k, c, v, 'old' if k in kinds else 'current'))
                    if other != {k: text('x' if not named else 'y', k) for k in wsmodel.KINDS}:
                        part.violation('config upgrade %s: changed another configuration' % a)
                    go(['c', 'up'] + a)
        finally:
            os.chdir(here)
            webbrowser.open_new_tab = browser
            os.close(out1)
            os.close(err2)
            os.close(null)
    return part


# ---- with the real processor -------------------------------------------------------------------------------
def end_to_end(item):
    """products of "dedop run" are those of the processor itself"""
    from vlib import l1a, scen
    skip, all_configs, named, elsewhere, bad = item
    part = core.Part()
    with core.scratch('c21') as d:
        world = World(d)
        m = world.manager()
        inputs = {}
        for i, n in enumerate(('L1A_one.nc', 'two.nc')):
            bursts = scen.drained(l1a.orbit(14 + 2 * i, rng_seed=i + 1))
            inputs[n] = (l1a.write_l1a(os.path.join(world.src, n), bursts), bursts)
        world.call(['w', 'add', 'a'])
        confs = {'x': {}, 'y': {'zp_fact_range_cnf': 2}}
        for c, over in confs.items():
            world.call(['c', 'add', c])
            paths = l1a.write_config(os.path.join(d, 'conf-' + c), over, None, None)
            for k, p in zip(('CNF', 'CST', 'CHD'), paths):
                with open(p) as fp:
                    m.write_config_file('a', c, k, fp.read())
        world.call(['i', 'add'] + [p for p, _ in inputs.values()])
        out = os.path.join(d, 'elsewhere') if elsewhere else None
        a = ['r'] + (['-s'] if skip else []) + (['-a'] if all_configs else []) + (['-o', out] if out else [])
        if bad:
            with open(os.path.join(world.src, 'broken.nc'), 'wb') as fp:
                fp.write(b'not netCDF')
            a += ['-i', os.path.join(world.src, 'broken.nc')]
        elif named:
            a += ['-i', inputs['two.nc'][0]]
        from dedop.cli import main as cli
        with core.quiet():
            code = cli.main(args=a, workspace_manager=m)
        part.count(transitions=1, traces=1)
        part.nontriv(item)
        if bad:
            if code == 0:
                part.violation('%s: exit code 0 for a file that cannot be read' % a)
            return part
        if code != 0:
            part.violation('%s: exit code %r' % (a, code))
            return part
        want = set()
        for c in (sorted(confs) if all_configs else ['y']):
            dir_ = out or m.get_outputs_path('a', c)
            for n in (['two.nc'] if named else sorted(inputs)):
                b, s = pipeline.names(n, c)
                want.add(os.path.join(dir_, b))
                if not skip:
                    want.add(os.path.join(dir_, s))
                with core.scratch('ref') as e:
                    proc = pipeline.make_processor(e, confs[c], None, None, not skip, name=c)
                    pipeline.call(proc, inputs[n][0])
                    ref = pipeline.read_products(e, inputs[n][0], not skip, name=c)
                for name, r in ((b, ref[0]), (s, ref[1])):
                    if r is None:
                        continue
                    p = os.path.join(dir_, name)
                    if not os.path.exists(p):
                        part.violation('%s: no product %s' % (a, p))
                        continue
                    if pipeline.Product(p).signature() != r.signature():
                        part.violation('%s: %s differs from the product of the processor' % (a, name))
        got = {os.path.join(q, n) for root in [os.path.join(world.base, 'a', 'configs')] + ([out] if out else [])
               for q, _, ns in os.walk(root) for n in ns if n.endswith('.nc')}
        if got != want:
            part.violation('%s: products %s, expected %s' % (a, sorted(got), sorted(want)))
    return part


def run(ctx):
    global RES
    pipeline.fast_fit()
    RES = wsmodel.resources(core.REPO)
    ctx.rule = 'every reachable directory tree'
    seen = set()
    depths = (4, 3, 3) if ctx.thorough else (3, 2, 1)
    for start, depth in ((((),), depths[0]), (tuple(STARTS), depths[1]), (tuple(UNSET), depths[2])):
        frontier = list(start)
        for level in range(depth):
            parts = core.pmap(ctx, expand, [(h, 1) for h in frontier], chunksize=4)
            ctx.count(states=len(frontier))
            frontier = []
            for p in parts:
                for h, key in p.get('next', ()):
                    if key not in seen:
                        seen.add(key)
                        frontier.append(h)
            if ctx.violations:
                return
        if frontier:
            ctx.sample('%d states at the last level, e.g. %s' % (len(frontier), [describe(c) for c in frontier[0]]))
    # the same with the names written out
    core.pmap(ctx, expand, [(h, 2) for h in ((),) + tuple(STARTS + UNSET)], chunksize=1)
    core.pmap(ctx, others, [0])
    core.pmap(ctx, opened, [(not ctx.thorough, now, w) for now in ('a', 'b', 'e') for w in (None, 'a', 'b', 'e')],
              chunksize=1)
    items = [(s, a, n, e, False) for s in (False, True) for a in (False, True) for n in (False, True)
             for e in (False, True) if not (a and e and not n) or ctx.thorough]
    core.pmap(ctx, end_to_end, items + [(False, False, False, False, True)])
    ctx.space_note('commands', len(alphabet(1)))
    ctx.space_note('depth', 'all sequences of %d commands from nothing, %d from two filled trees, '
                   '%d from trees with nothing chosen (trees merged)' % depths)
    ctx.space_note('end to end', '%d option combinations with the real processor' % len(items))
