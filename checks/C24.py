"""C24: notebooks are opened for exactly the products asked for, and never overwrite one, for all paths and histories."""
import ast
import contextlib
import itertools
import json
import os
import stat
import subprocess
import sys

from vlib import core, wsmodel

LEVEL = 'model_checking'

NAMES = ['L1B_a.nc', 'with space.nc', "apo'strophe.nc", 'quo"te.nc', 'both\'"".nc', 'back\\slash.nc', 'tail\\', 'dollar$HOME.nc',
         'per%scent %d.nc', 'bra{title}ce{}.nc', '{0}.nc', 'unicode-\u00e9\u4e2d\U0001f6f0.nc', 'new\nline.nc', 'tab\t.nc',
         '`tick`.nc', 'a;b&c|d.nc', '#hash.nc', 'none', "'''.nc", '\\n\\x41.nc', '%matplotlib.nc', 'nul\x01.nc', '"', "'"]
FOLDERS = ['/data/out', '/data/it\'s "here"', '/d\u00e4ta/x y', 'relative/outputs', '/odd\\', '', '/a{b}/%s']
WORKSPACES = ['w', 'my work', "o'brien", 'b{title}r{}', 'w%d', 'w\u00e9\u4e2d', '{0}']


@contextlib.contextmanager
def recorded(outcome='ok'):
    """no program is started: what would be, is recorded"""
    calls = []

    class Popen:
        def __init__(self, args, *a, **kw):
            calls.append(args)
            self.args = args
            self.pid = 1
            self.stdin = self.stdout = self.stderr = None
            if outcome == 'missing':
                raise FileNotFoundError(2, 'No such file or directory', 'sh')
            self.returncode = 0 if outcome == 'ok' else 127

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def wait(self, timeout=None):
            return self.returncode

        def poll(self):
            return self.returncode

        def communicate(self, input=None, timeout=None):
            return (b'', b'')

        def kill(self):
            pass

    old = subprocess.Popen, os.system
    subprocess.Popen = Popen
    os.system = lambda c: calls.append(c) or (0 if outcome == 'ok' else 127 << 8)
    try:
        yield calls
    finally:
        subprocess.Popen, os.system = old


def templates():
    base = os.path.join(core.REPO, 'dedop', 'ui', 'data', 'notebooks')
    docs = {}
    for n in ('inspect', 'compare'):
        with open(os.path.join(base, n + '-template.ipynb'), encoding='utf-8') as fp:
            docs[n] = json.load(fp)
    return docs


def calls_of(cell, function):
    """the arguments of all calls of the function in a code cell"""
    source = ''.join(cell['source'])
    source = '\n'.join(line for line in source.split('\n') if not line.startswith('%'))
    found = []
    for node in ast.walk(ast.parse(source)):
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == function:
            found.append([ast.literal_eval(a) for a in node.args] + [ast.literal_eval(k.value) for k in node.keywords])
    return found


def judge(kind, data, paths, docs):
    """what is wrong with a new notebook"""
    try:
        doc = json.loads(data.decode('utf-8'))
    except ValueError as e:
        return 'the notebook is no JSON document: %s' % e
    want = docs[kind]
    if {k: v for k, v in doc.items() if k != 'cells'} != {k: v for k, v in want.items() if k != 'cells'}:
        return 'the metadata of the notebook differs from the template'
    if len(doc['cells']) != len(want['cells']):
        return 'the notebook has %d cells, not %d' % (len(doc['cells']), len(want['cells']))
    function = {'inspect': 'inspect_l1b_product', 'compare': 'compare_l1b_products'}[kind]
    got = []
    for have, t in zip(doc['cells'], want['cells']):
        if '__L1B_FILE_PATH' not in ''.join(t['source']):
            if have != t:
                return 'a cell differs from the template: %.80s' % (have,)
            continue
        try:
            got += calls_of(have, function)
        except (SyntaxError, ValueError) as e:
            return 'the call of %s is no valid Python: %s in %r' % (function, e, have['source'])
    if got != [list(paths)]:
        return 'the notebook is about %r' % (got,)
    return None


class World:
    def __init__(self, d, workspace='w'):
        from dedop.ui.workspace_manager import WorkspaceManager
        self.base = os.path.join(os.path.realpath(d), 'workspaces')
        os.makedirs(self.base)
        self.manager = WorkspaceManager(self.base)
        self.manager.create_workspace(workspace)
        self.ws = workspace
        self.folder = os.path.join(self.base, workspace, 'notebooks')

    def open(self, kind, paths, how='manager', ws=None):
        from dedop.ui.workspace_manager import WorkspaceError
        ws = self.ws if ws is None else ws
        try:
            with core.quiet():
                if how == 'service':
                    from dedop.webapi.websocket import WebSocketService
                    s = WebSocketService(self.manager)
                    (s.inspect_output if kind == 'inspect' else s.compare_outputs)(ws, *paths)
                elif kind == 'inspect':
                    self.manager.inspect_l1b_product(ws, *paths)
                else:
                    self.manager.compare_l1b_products(ws, *paths)
        except WorkspaceError as e:
            return 'refused'
        return 'done'


def added(before, after, folder, base):
    """the one new notebook, or what else has changed"""
    rel = os.path.relpath(folder, base)
    new = {k: v for k, v in after.items() if k not in before and k != rel}
    if {k: v for k, v in after.items() if k in before} != before or len(new) != 1:
        return None, None, 'changed %s' % wsmodel.diff(before, after)
    (k, v), = new.items()
    if os.path.dirname(k) != rel or not k.endswith('.ipynb') or not isinstance(v, bytes):
        return None, None, 'wrote %s' % k
    return os.path.basename(k), v, None


def contents(item):
    ws, kind, paths = item
    part = core.Part()
    docs = templates()
    with core.scratch('c24') as d:
        world = World(d, ws)
        for how in ('manager', 'service'):
            label = '%s of %r in %r through the %s' % (kind, paths, ws, how)
            before = wsmodel.snapshot(world.base)
            with recorded() as calls:
                r = world.open(kind, paths, how)
            part.count(transitions=1, states=1)
            after = wsmodel.snapshot(world.base)
            if r != 'done':
                part.violation('%s: refused' % label)
                break
            name, data, bad = added(before, after, world.folder, world.base)
            bad = bad or judge(kind, data, paths, docs)
            if not bad and world.manager.get_notebook_names(ws) != sorted(
                    os.path.basename(k) for k in after if k.endswith('.ipynb') and 'notebooks' in k):
                bad = 'the notebooks listed are %s' % world.manager.get_notebook_names(ws)
            if not bad and (len(calls) != 1 or os.path.join(world.folder, name) not in str(calls[0])
                            or world.folder not in str(calls[0])):
                bad = 'starts %s' % (calls,)
            if not bad and (kind not in name or not name_of(paths[0]) in name):
                bad = 'the notebook is called %r' % name
            if bad:
                part.violation('%s: %s' % (label, bad))
                break
            part.nontriv(core.digest((name, data)))
    return part


def name_of(path):
    """the plain part of the name of the product that the notebook is named after"""
    base = path.replace('\\', '/').split('/')[-1]
    return ''.join(itertools.takewhile(lambda c: c.isalnum() or c in '-_. ', base))


# ---- histories ------------------------------------------------------------------------------------------------
A, B = '/data/L1B_a.nc', '/data/L1B_b.nc'
STEPS = [('inspect', (A,)), ('inspect', (B,)), ('compare', (A, B)), ('compare', (B, A)), ('inspect', ('/other/L1B_a.nc',)),
         ('fail', (A,)), ('missing', (A,)), ('delete', 0), ('delete', -1), ('edit', 0), ('edit', -1), ('rename', 0), ('folder', 0),
         ('rmtree', 0), ('nowhere', (A,))]


def history(item):
    """all continuations of a history of two steps to the depth"""
    start, depth = item
    part = core.Part()
    docs = templates()
    with core.scratch('c24') as d:
        world = World(d)
        empty = wsmodel.snapshot(world.base)

        def replay(h):
            wsmodel.restore(world.base, empty, wsmodel.snapshot(world.base))
            for i, s in enumerate(h):
                if not step(s, h[:i]):
                    return False
            return True

        def step(s, h):
            what, arg = s
            label = 'after %s: %s %s' % ([x[0] for x in h], what, arg)
            before = wsmodel.snapshot(world.base)
            notebooks = sorted(k for k in before if k.endswith('.ipynb') and isinstance(before[k], bytes))
            part.count(transitions=1)
            if what in ('inspect', 'compare', 'fail', 'missing', 'nowhere'):
                kind = what if what in ('inspect', 'compare') else 'inspect'
                with recorded(what if what in ('fail', 'missing') else 'ok') as calls:
                    r = world.open(kind, arg, ws='nowhere' if what == 'nowhere' else None)
                after = wsmodel.snapshot(world.base)
                if what == 'nowhere':
                    if r != 'refused' or after != before or calls:
                        part.violation('%s: %s in a workspace that does not exist, %s' % (
                            label, r, wsmodel.diff(before, after)))
                        return False
                    return True
                if r != ('refused' if what in ('fail', 'missing') else 'done'):
                    part.violation('%s: %s' % (label, r))
                    return False
                name, data, bad = added(before, after, world.folder, world.base)
                bad = bad or judge(kind, data, arg, docs)
                if not bad and (len(calls) != 1 or os.path.join(world.folder, name) not in str(calls[0])):
                    bad = 'starts %s' % (calls,)
                if bad:
                    part.violation('%s: %s' % (label, bad))
                    return False
            elif what == 'rmtree':
                if os.path.isdir(world.folder):
                    wsmodel.restore(world.base, empty, before)
            elif what == 'folder':
                # something else is called like the next notebook
                path = os.path.join(world.folder, 'inspect-L1B_a.nc-%d.ipynb' % (
                    1 + sum('inspect-L1B_a' in n for n in before)))
                if not os.path.exists(path):
                    os.makedirs(path)
            elif notebooks:
                path = os.path.join(world.base, notebooks[arg])
                if what == 'delete':
                    os.remove(path)
                elif what == 'edit':
                    with open(path, 'ab') as fp:
                        fp.write(b' my work')
                elif what == 'rename':
                    os.rename(path, path[:-len('.ipynb')] + '0.ipynb')
            listed = world.manager.get_notebook_names('w')
            now = wsmodel.snapshot(world.base)
            want = sorted(os.path.basename(k) for k, v in now.items() if k.endswith('.ipynb') and isinstance(v, bytes))
            if listed != want:
                part.violation('%s: notebooks listed %s, there are %s' % (label, listed, want))
                return False
            return True

        seen = set()
        frontier = [start]
        for level in range(depth - len(start) + 1):
            found = []
            for h in frontier:
                if not replay(h):
                    return part
                tree = wsmodel.snapshot(world.base)
                key = core.digest(sorted(tree.items()))
                if key in seen:
                    continue
                seen.add(key)
                part.nontriv(key)
                part.count(states=1, traces=1)
                if level < depth - len(start):
                    found += [h + (s,) for s in STEPS]
            frontier = found
    return part


# ---- launching ------------------------------------------------------------------------------------------------
PROGRAM = '''#!%s
import json, os, sys
with open(%r, 'a') as fp:
    fp.write(json.dumps([os.path.basename(sys.argv[0])] + sys.argv[1:]) + '\\n')
sys.exit(%d)
'''
TEMPLATES = [None, '{command}', '  {command}  ', '"{prefix}/bin/window" "{title}" {command}', '"{command_file}"',
             '"{prefix}/bin/window" "{title}" "{command_file}"', '"{prefix}/bin/window" {{literal}}']
# what a shell does with $, `, " and \\ between quotes is not part of the property
LAUNCH_NAMES = ['L1B_a.nc', 'with space.nc', "apo'strophe.nc", 'per%scent %d.nc', 'bra{title}ce{}.nc', 'uni-\u00e9\u4e2d.nc', 'a;b&c|d.nc',
                '#hash.nc', '(x) [y] *.nc']


def launch(item):
    """the shell really runs, with programs of ours in place of Jupyter and the terminal"""
    from dedop.ui.workspace_manager import WorkspaceError
    from dedop.util.config import get_config
    template, ws, name, how, code = item
    part = core.Part()
    label = 'launching %r in %r with %r through the %s' % (name, ws, template, how)
    with core.scratch('c24') as d:
        d = os.path.realpath(d)
        world = World(d, ws)
        # another workspace is the current one
        world.manager.create_workspace('elsewhere')
        world.manager.set_current_workspace_name('elsewhere')
        prefix = os.path.join(d, 'py')
        log = os.path.join(d, 'log')
        os.makedirs(os.path.join(prefix, 'bin'))
        for p in ('jupyter', 'window'):
            path = os.path.join(prefix, 'bin', p)
            with open(path + '.py', 'w') as fp:
                fp.write(PROGRAM % (sys.executable, log, code))
            with open(path, 'w') as fp:
                fp.write('#!/bin/sh\nexec "%s" "%s.py" "$@"\n' % (sys.executable, path))
            os.chmod(path, stat.S_IRWXU)
        with open(os.path.join(prefix, 'bin', 'activate'), 'w') as fp:
            fp.write('PATH="$1/bin:$PATH"\n')
        old = sys.prefix, dict(get_config()), os.environ['PATH']
        sys.prefix = prefix
        os.environ['PATH'] = '/usr/bin:/bin'
        try:
            if template is None:
                get_config().pop('launch_notebook_command', None)
            else:
                get_config()['launch_notebook_command'] = template
            notebook = None
            try:
                # an earlier launch has nothing to do with this one
                with core.quiet():
                    world.manager.launch_notebook('before', world.base, os.path.join(world.base, 'before.ipynb'))
            except WorkspaceError:
                pass
            if os.path.exists(log):
                os.remove(log)
            try:
                with core.quiet():
                    if how == 'manager':
                        world.manager.inspect_l1b_product(ws, '/data/' + name)
                    elif how == 'service':
                        from dedop.webapi.websocket import WebSocketService
                        os.makedirs(world.folder)
                        notebook = os.path.join(world.folder, name + '.ipynb')
                        with open(notebook, 'w') as fp:
                            fp.write('{}')
                        WebSocketService(world.manager).launch_notebook(ws, name + '.ipynb')
                    else:
                        world.manager.launch_notebook('my title', world.base)
                r = 'done'
            except WorkspaceError as e:
                r = 'refused'
        finally:
            sys.prefix = old[0]
            get_config().clear()
            get_config().update(old[1])
            os.environ['PATH'] = old[2]
        part.count(transitions=1, states=1, traces=1)
        got = []
        if os.path.exists(log):
            with open(log) as fp:
                got = [json.loads(line) for line in fp]
        if how == 'manager':
            names = world.manager.get_notebook_names(ws)
            if len(names) != 1:
                part.violation('%s: notebooks %s' % (label, names))
                return part
            notebook = os.path.join(world.folder, names[0])
        opened = ['notebook', '--notebook-dir', world.base if how == 'plain' else world.folder]
        opened += [notebook] if notebook else []
        if r != ('done' if code == 0 else 'refused'):
            part.violation('%s: %s, though the program ended with %d; %s was run' % (label, r, code, got))
        elif len(got) != 1:
            part.violation('%s: %s was run' % (label, got))
        elif template and 'window' in template:
            rest = got[0][1:]
            if '{{' in template:
                bad = rest != ['{literal}']
            elif 'command_file' in template:
                bad = len(rest) != 2 or not os.path.isfile(rest[1]) or not os.access(rest[1], os.X_OK)
            else:
                bad = len(rest) < 2 or rest[2:] != opened or os.path.basename(rest[1]) != 'jupyter'
            if got[0][0] != 'window.py' or bad or '{{' not in template and 'DeDop' not in rest[0]:
                part.violation('%s: %s was run' % (label, got))
        elif got[0] != ['jupyter.py'] + opened:
            part.violation('%s: %s was run, not jupyter with %s' % (label, got, opened))
        else:
            part.nontriv(core.digest(label))
    return part


def editor(item):
    """the editor is started for the file asked for; blank commands are refused, no command does nothing"""
    from dedop.ui.workspace_manager import WorkspaceError
    from dedop.util.config import get_config
    template, name, how = item
    part = core.Part()
    with core.scratch('c24') as d:
        d = os.path.realpath(d)
        world = World(d)
        log, prog = os.path.join(d, 'log'), os.path.join(d, 'prog.py')
        with open(prog, 'w') as fp:
            fp.write(PROGRAM % (sys.executable, log, 0))
        os.chmod(prog, stat.S_IRWXU)
        os.makedirs(os.path.join(d, 'bin'))
        if how == 'xdg':
            os.symlink(prog, os.path.join(d, 'bin', 'xdg-open'))
        path = os.path.join(d, name)
        old = dict(get_config()), os.environ['PATH']
        os.environ['PATH'] = os.path.join(d, 'bin')
        try:
            get_config().pop('launch_editor_command', None)
            if template is not None:
                get_config()['launch_editor_command'] = template.replace('PROG', prog)
            try:
                with core.quiet():
                    world.manager.open_file(path)
                r = 'done'
            except WorkspaceError:
                r = 'refused'
        finally:
            get_config().clear()
            get_config().update(old[0])
            os.environ['PATH'] = old[1]
        part.count(transitions=1, states=1, traces=1)
        got = []
        if os.path.exists(log):
            with open(log) as fp:
                got = [json.loads(line)[1:] for line in fp]
        if template is None:
            want = ('done', [[path]] if how == 'xdg' else [])
        elif not template.strip():
            want = ('refused', [])
        else:
            want = ('done', [['-x', path] if '-x' in template else [path]])
        if (r, got) != want:
            part.violation('opening %r in the editor %r (%s): %s, run with %s' % (name, template, how, r, got))
        else:
            part.nontriv(core.digest(item))
    return part


def unwritable(item):
    """nothing can be written below the workspace (a file is in the way): reported, nothing is started"""
    part = core.Part()
    with core.scratch('c24') as d:
        world = World(d)
        with open(world.folder, 'w') as fp:
            fp.write('a file')
        before = wsmodel.snapshot(world.base)
        with recorded() as calls:
            try:
                r = world.open(item, ('/data/x.nc', '/data/y.nc')[:1 if item == 'inspect' else 2])
            except OSError as e:
                r = 'refused'
        part.count(transitions=1, states=1)
        if r != 'refused' or calls or wsmodel.snapshot(world.base) != before:
            part.violation('%s with a file in place of the folder of notebooks: %s, starts %s' % (item, r, calls))
    return part


def run(ctx):
    with core.quiet():
        import dedop.webapi.websocket    # nothing is imported while subprocess is replaced
    ctx.rule = 'every new notebook and every launch'
    paths = [os.path.join(f, n) for f in FOLDERS for n in NAMES]
    items = [('w', 'inspect', (p,)) for p in paths]
    items += [(w, 'inspect', (p,)) for w in WORKSPACES[1:] for p in paths[:len(NAMES)]]
    few = [os.path.join(f, n) for f in FOLDERS for n in NAMES[::3]] if ctx.thorough else paths[:len(NAMES)] + [paths[30], paths[60]]
    items += [('w', 'compare', (p, q)) for p in few for q in few]
    core.pmap(ctx, contents, items, chunksize=16)
    depth = 5 if ctx.thorough else 4
    core.pmap(ctx, history, [((s,), depth) for s in STEPS])
    items = [(t, w, n, how, code) for t in TEMPLATES for w in ('w', 'my work', "o'brien")
             for n in LAUNCH_NAMES for how in ('manager', 'service', 'plain') for code in (0, 3)
             if (w == 'w' or n == LAUNCH_NAMES[0] or ctx.thorough) and (how != 'plain' or n == LAUNCH_NAMES[0])]
    # the command file is one per user: one launch at a time
    core.pmap(ctx, launch, [i for i in items if '{command_file}' in str(i[0])], workers=1)
    core.pmap(ctx, launch, [i for i in items if '{command_file}' not in str(i[0])], chunksize=8)
    core.pmap(ctx, editor, [(t, n, how) for t in (None, 'PROG "{file}"', '  PROG -x "{file}" ', ' ', '\t') for n in LAUNCH_NAMES
                            for how in ('xdg', 'none')], chunksize=4)
    core.pmap(ctx, unwritable, ['inspect', 'compare'])
    ctx.space_note('paths', '%d folders x %d names, %d workspace names; comparisons of %d x %d paths' % (
        len(FOLDERS), len(NAMES), len(WORKSPACES), len(few), len(few)))
    ctx.space_note('histories', 'all sequences of %d steps out of %d (trees merged)' % (depth, len(STEPS)))
    ctx.space_note('launching', '%d command templates x names x ways x exit codes, with a real shell' % len(TEMPLATES))
    ctx.sample('inspect %r' % paths[4])
    ctx.sample('%s' % (STEPS[:4],))
