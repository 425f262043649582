"""C25: the user's configuration is the one of the home folder, overridden by the one of the working directory."""
import os
import sys

from vlib import core, wsmodel

LEVEL = 'model_checking'

# name: (text of the file, the variables it defines; None: the file is broken and counts as empty)
FILES = {
    'none': (None, {}),
    'empty': ('', {}),
    'comment': ('# nothing\n', {}),
    'one': ("a = 1\nb = 'one'\n", {'a': 1, 'b': 'one'}),
    'two': ("b = 'two'\nc = [1, {'x': None}]\n", {'b': 'two', 'c': [1, {'x': None}]}),
    'falsy': ("a = 0\nb = ''\nc = None\n", {'a': 0, 'b': '', 'c': None}),
    'path': ("workspaces_dir = '~/mine'\nb = '~'\n", {'workspaces_dir': '~/mine', 'b': '~'}),
    'path2': ("workspaces_dir = '/somewhere/~'\na = '~/x~y'\n", {'workspaces_dir': '/somewhere/~', 'a': '~/x~y'}),
    'computed': ("import os.path\na = os.path.join('x', 'y')\nb = [i * 2 for i in range(3)]\n_p = 3\nc = _p + 1\n",
                 {'a': 'x/y', 'b': [0, 2, 4], '_p': 3, 'c': 4}),
    'function': ("import os.path\nbase = 'x'\ndef join(n):\n    return os.path.join(base, n)\na = join('y')\n"
                 "b = sorted(['b', 'a'], key=lambda s: (base, s))\nc = [[base + j for j in 'ab'] for i in (1, 2)]\n",
                 {'base': 'x', 'a': 'x/y', 'b': ['a', 'b'], 'c': [['xa', 'xb']] * 2}),
    'recursive': ("def f(n):\n    return 1 if n < 2 else n * f(n - 1)\na = f(4)\nclass K:\n    v = 3\n    def w(self):\n"
                  "        return K.v + a\nb = K().w()\n", {'a': 24, 'b': 27}),
    'unicode': ("a = '\u00e9\u4e2d'\n", {'a': '\u00e9\u4e2d'}),
    'deleted': ("a = 1\nb = 2\ndel b\n", {'a': 1}),
    'crlf': ("a = 1\r\nif a:\r\n    b = 5\r\n", {'a': 1, 'b': 5}),
    'syntax': ("a = 'wrong'\nb = = 2\n", None),
    'runtime': ("a = 'wrong'\nb = 'wrong'\nc = 1 / 0\n", None),
    'missing name': ("a = 'wrong'\nb = undefined_name\n", None),
    'import': ("b = 'wrong'\nimport no_such_module_anywhere\n", None),
    'raise': ("c = 'wrong'\nraise ValueError('x')\n", None),
    'binary': (b"a = 'wrong'\n\xff\xfe\n", None),
    'nul': ("a = 'wrong'\n\0\n", None),
}
NAMES = ['a', 'b', 'c', 'base', '_p', 'workspaces_dir', 'processor_factory', 'other']


def put(path, text):
    if text is not None:
        with open(path, 'wb') as fp:
            fp.write(text if isinstance(text, bytes) else text.encode('utf-8'))


def case(item):
    """one start of the program"""
    home_kind, local_kind, state = item
    part = core.Part()
    label = 'home: %s (%s), working directory: %s' % (home_kind, state, local_kind)
    with core.scratch('c25') as d:
        d = os.path.realpath(d)
        home, cwd = os.path.join(d, 'home'), os.path.join(d, 'cwd')
        os.makedirs(cwd)
        if state != 'no home':
            os.makedirs(home)
        if state == 'file':
            put(os.path.join(home, '.dedop'), 'a file')
        elif state not in ('no folder', 'no home'):
            os.makedirs(os.path.join(home, '.dedop'))
        home_file = os.path.join(home, '.dedop', 'config.py')
        if state == 'folder in place':
            os.makedirs(home_file)
        elif state == 'ready':
            put(home_file, FILES[home_kind][0])
        put(os.path.join(cwd, 'dedop-config.py'), FILES[local_kind][0])
        before = wsmodel.snapshot(d)
        os.environ['HOME'] = home
        os.chdir(cwd)
        import io
        out = io.StringIO()
        old = sys.stdout
        sys.stdout = out
        try:
            from dedop.util.config import get_config, get_config_path, get_config_value
            config = get_config()
            values = {n: get_config_value(n, 'the default') for n in NAMES}
            plain = {n: get_config_value(n) for n in NAMES}
            paths = {n: get_config_path(n, '~/default') for n in ('a', 'b', 'workspaces_dir', 'other')}
            same = get_config() is config
        finally:
            sys.stdout = old
            os.chdir('/')
        part.count(states=1, transitions=1, traces=1)
        want = dict(FILES[home_kind][1] or {}) if state == 'ready' else {}
        want.update(FILES[local_kind][1] or {})
        bad = []
        for n in NAMES:
            if n in want and (values[n] != want[n] or type(values[n]) is not type(want[n]) or n not in config):
                bad.append('%s is %r, not %r' % (n, values[n], want[n]))
            if n not in want and (values[n] != 'the default' or plain[n] is not None or n in config):
                bad.append('%s is %r though not defined' % (n, values[n]))
        if any(n.startswith('__') for n in config):
            bad.append('defines %s' % sorted(config))
        for n, p in paths.items():
            v = want.get(n, '~/default')
            w = None if v is None else str(v).replace('~', home, 1) if str(v) == '~' or str(v).startswith('~/') else str(v)
            if p != w:
                bad.append('path %s is %r, not %r' % (n, p, w))
        if not same:
            bad.append('two configurations')
        broken = (FILES[home_kind][1] is None and state == 'ready') + (FILES[local_kind][1] is None)
        if broken != out.getvalue().count('warning') and state == 'ready':
            bad.append('%d broken files, said: %s' % (broken, out.getvalue()))
        after = wsmodel.snapshot(d)
        rel = 'home/.dedop/config.py'
        if (state == 'no folder' or state == 'ready' and home_kind == 'none'):
            # a commented template is written for the user
            with open(os.path.join(core.REPO, 'dedop', 'util', 'config-template.py'), 'rb') as fp:
                before[rel] = fp.read()
            before['home/.dedop'] = None
        if after != before:
            bad.append('files: %s' % wsmodel.diff(before, after))
        for b in bad[:3]:
            part.violation('%s: %s' % (label, b))
        if not bad:
            part.nontriv(core.digest(sorted(want.items(), key=str)) + state)
    return part


FACTORY = '''
import os
record = os.path.join(os.environ['HOME'], 'record')

class Mine:
    def __init__(self, *args, **kwargs):
        self.args = args

    def process(self, l1a_file, monitor=None):
        with open(record, 'a') as fp:
            fp.write('%s %s\\n' % (tag, os.path.basename(l1a_file)))
        return 0

tag = '<TAG>'

def processor_factory(*args, **kwargs):
    return Mine(*args, **kwargs)
'''


def command(item):
    """the command line follows the configuration: where the workspaces are and who processes"""
    home_kind, local_kind, factory = item
    part = core.Part()
    label = 'command line with home: %s, working directory: %s, factory: %s' % item
    texts = {'none': None, 'dir': "workspaces_dir = '~/ws-TAG'\n", 'abs': "import os\nworkspaces_dir = os.environ['HOME'] + '/abs-TAG'\n",
             'broken': "workspaces_dir = '~/ws-TAG'\n1 / 0\n"}
    with core.scratch('c25') as d:
        d = os.path.realpath(d)
        home, cwd = os.path.join(d, 'home'), os.path.join(d, 'cwd')
        os.makedirs(os.path.join(home, '.dedop'))
        os.makedirs(cwd)
        want, who = '.dedop/workspaces', None
        for tag, kind, path in (('h', home_kind, os.path.join(home, '.dedop', 'config.py')),
                                ('l', local_kind, os.path.join(cwd, 'dedop-config.py'))):
            text = texts[kind]
            if factory in (tag, 'both'):
                text = FACTORY.replace('<TAG>', tag) + (text or '')
                who = tag if kind != 'broken' else who
            put(path, text and text.replace('TAG', tag))
            if kind in ('dir', 'abs'):
                want = {'dir': 'ws-', 'abs': 'abs-'}[kind] + tag
        os.environ['HOME'] = home
        os.chdir(cwd)
        put(os.path.join(cwd, 'L1A_x.nc'), 'input')
        try:
            with core.quiet():
                from dedop.cli.main import main
                codes = [main(a) for a in (['workspace', 'add', 'w'], ['config', 'add', 'c'], ['input', 'add', 'L1A_x.nc'])]
                if who:
                    codes.append(main(['run']))
        finally:
            os.chdir('/')
        part.count(states=1, transitions=len(codes), traces=1)
        if codes != [0] * len(codes):
            part.violation('%s: exit codes %s' % (label, codes))
            return part
        if not os.path.isdir(os.path.join(home, want, 'w', 'configs', 'c')):
            part.violation('%s: the workspace is not in %s but in %s' % (
                label, want, [k for k in wsmodel.snapshot(home) if k.endswith('/w')]))
        others = [k for k in wsmodel.snapshot(home) if k.endswith('/w') and k != want + '/w']
        if others:
            part.violation('%s: there is also %s' % (label, others))
        if who:
            record = os.path.join(home, 'record')
            got = open(record).read() if os.path.exists(record) else ''
            if got != '%s L1A_x.nc\n' % who:
                part.violation('%s: processed by %r' % (label, got))
        part.nontriv(core.digest(item))
    return part


def run(ctx):
    ctx.rule = 'every start with its two configuration files'
    items = [(h, l, 'ready') for h in FILES for l in FILES]
    items += [('none', l, s) for l in FILES for s in ('no folder', 'no home', 'file', 'folder in place')]
    core.pmap(ctx, case, items, fresh=True)
    kinds = ['none', 'dir', 'abs', 'broken']
    core.pmap(ctx, command, [(h, l, f) for h in kinds for l in kinds for f in ('no', 'h', 'l', 'both')], fresh=True)
    ctx.space_note('files', 'all pairs of %d contents of the two files; 5 states of the home folder' % len(FILES))
    ctx.space_note('command line', 'all pairs of 4 contents x 4 factories')
    ctx.sample('home: one, working directory: two')
    ctx.sample('home: runtime error, working directory: function')
