"""C19: no name of a workspace, configuration or input leads to another place; every other name works."""
import itertools
import os
import shutil
import subprocess
import sys

from vlib import core, wsmodel
from vlib.wsmodel import Model

LEVEL = 'model_checking'

LONG = 'n' * 300


def hostile(root):
    """names that are not the name of a single directory below the workspaces"""
    up = ['..', '../..', '../victim', '../../victim', '../user', 'a/../../victim', '../workspaces/a', './a', 'a/.',
          'a/', 'a/configs', 'a/b', 'a//b', '/', '//', '.', '', '../', './', '.current', 'a\0b', '\0', 'a\nb', '\n',
          '..\\victim', 'a\\b', '\\', os.path.join(root, 'victim'), os.path.join(root, 'user', 'workspaces', 'a'),
          '../../../../../../..' + os.path.join(root, 'victim'), '../ab', 'x/outputs', '../inputs', LONG]
    return up


ODD = ['...', ' ', 'a b', '~', '-rf', '.hidden', '\u00e4\u20ac', '*', '?', '[a]', '$HOME', 'n;m', "q'uote", '"', '%s',
       '{title}', 'configs', 'inputs', 'outputs', 'a.nc', 'CNF.json', 'A', 'n' * 200, '..a', 'a..', '.current2', '#', '&']

# every operation with the positions of its names; N is a free name
SIGNATURES = [
    ('create_workspace', ('new',)), ('delete_workspace', ('ws',)), ('copy_workspace', ('ws', 'new')),
    ('rename_workspace', ('ws', 'new')), ('set_current_workspace_name', ('ws',)), ('create_config', ('ws', 'new')),
    ('delete_config', ('ws', 'cfg')), ('copy_config', ('ws', 'cfg', 'new')), ('rename_config', ('ws', 'cfg', 'new')),
    ('set_current_config_name', ('ws', 'cfg')), ('write_config_file', ('ws', 'cfg', '=CNF', '={"x": 1}')),
    ('upgrade_config', ('ws', 'cfg', '=CNF')), ('upgrade_all_config', ('ws', 'cfg')), ('add_inputs', ('ws',)),
    ('remove_inputs', ('ws', 'in')), ('remove_outputs', ('ws', 'cfg')), ('inspect_l1b_product', ('ws', '=/p/x.nc')),
    ('compare_l1b_products', ('ws', '=/p/x.nc', '=/p/y.nc')),
]
GOOD = {'ws': 'a', 'cfg': 'x', 'new': 'fresh', 'in': 'p.nc'}


def build(folder, filled):
    """the surroundings of the workspaces hold everything that an escaping name could reach"""
    root = os.path.join(folder, 'around')
    base = os.path.join(root, 'user', 'workspaces')
    res = wsmodel.resources(core.REPO)

    def fill(p):
        for q in ('configs/x', 'configs/x/outputs', 'inputs', 'outputs', 'notebooks'):
            os.makedirs(os.path.join(p, q), exist_ok=True)
        for n, t in res[False].items():
            for q in ('configs/x', '.'):
                with open(os.path.join(p, q, n), 'wb') as fp:
                    fp.write(t.replace(b'"version": 3', b'"version": 1'))
        for q in ('configs/x/outputs/L1B.nc', 'inputs/p.nc', 'outputs/L1B.nc', 'p.nc'):
            with open(os.path.join(p, q), 'w') as fp:
                fp.write('precious')
        with open(os.path.join(p, 'configs', '.current'), 'w') as fp:
            fp.write('x')

    os.makedirs(base)
    for p in (root, os.path.join(root, 'user'), os.path.join(root, 'victim')):
        fill(p)
    if filled:
        for w in ('a', 'ab'):
            fill(os.path.join(base, w))
            for q in ('outputs/L1B.nc', 'p.nc', 'CNF.json', 'CHD.json', 'CST.json'):
                os.remove(os.path.join(base, w, q))
            os.rmdir(os.path.join(base, w, 'outputs'))
        with open(os.path.join(base, '.current'), 'w') as fp:
            fp.write('a')
    with open(os.path.join(root, 'source.nc'), 'w') as fp:
        fp.write('source')
    return root, base


def use_copy(folder):
    """the unprivileged process reads the program from a copy in its own folder"""
    shutil.copytree(os.path.join(core.REPO, 'dedop'), os.path.join(folder, 'dedop'),
                    ignore=shutil.ignore_patterns('__pycache__', '*.pyc'))
    for m in [m for m in sys.modules if m == 'dedop' or m.startswith('dedop.')]:
        del sys.modules[m]
    sys.path[:] = [folder] + [p for p in sys.path if p not in (core.REPO, folder)]
    import dedop.ui.workspace_manager       # noqa: F401
    import dedop.util.monitor               # noqa: F401


class Stop(Exception):
    pass


def call(base, root, name, args):
    from dedop.ui.workspace_manager import WorkspaceManager
    from dedop.util.monitor import Monitor
    m = WorkspaceManager(base)
    if name == 'add_inputs':
        return m.add_inputs(args[0], [os.path.join(root, 'source.nc')], Monitor.NULL)
    if name == 'remove_inputs':
        return m.remove_inputs(args[0], [args[1]], Monitor.NULL)
    return getattr(m, name)(*args)


def no_processes():
    def record(*a, **k):
        return 0
    for n in ('check_call', 'call', 'run', 'Popen', 'check_output'):
        setattr(subprocess, n, record)
    os.system = record


def attack(item):
    folder, filled, jobs = item
    part = core.Part()
    root, base = os.path.join(folder, 'around'), os.path.join(folder, 'around', 'user', 'workspaces')
    no_processes()
    from dedop.ui.workspace_manager import WorkspaceManager
    tree = wsmodel.snapshot(folder)
    with core.quiet():
        for name, args in jobs:
            try:
                call(base, root, name, args)
                err = None
            except Exception as e:
                err = e
            now = wsmodel.snapshot(folder)
            part.count(transitions=1, traces=1)
            label = '%s%r' % (name, tuple(x if len(x) < 80 else x[:60] + '...' for x in args))
            label = label.replace(folder, '<scratch>')
            if now != tree:
                part.violation('%s (%s) changed %s' % (label, 'no error' if err is None else err,
                                                       wsmodel.diff(tree, now)))
                wsmodel.restore(folder, tree, now)
            elif err is None and LONG not in args:
                part.violation('%s was not refused' % label)
            part.nontriv(label)
        m = WorkspaceManager(base)
        for h in hostile(root):
            label = repr(h if len(h) < 80 else h[:60]).replace(folder, '<scratch>')
            for what, got in (('workspace_exists(%s)' % label, m.workspace_exists(h)),
                              ('config_exists("a", %s)' % label, m.config_exists('a', h))):
                part.count(transitions=1)
                if got:
                    part.violation('%s is true' % what)
    part.count(states=1)
    return part


def odd(item):
    """a name with unusual characters is a name like any other"""
    folder, _, name = item
    part = core.Part()
    root, base = os.path.join(folder, 'around'), os.path.join(folder, 'around', 'user', 'workspaces')
    no_processes()
    from dedop.ui.workspace_manager import WorkspaceManager
    from dedop.util.monitor import Monitor
    res = wsmodel.resources(folder)
    model = Model(wsmodel.empty(), res)
    outer = {p: v for p, v in wsmodel.snapshot(folder).items() if not p.startswith('around/user/workspaces/')}
    src = os.path.join(root, name if name != 'CNF.json' else 'CNF2.json') + '.nc'
    src_name = os.path.basename(src)
    if not os.path.exists(src):
        with open(src, 'w') as fp:
            fp.write('source')
        outer[os.path.relpath(src, folder)] = b'source'
    other = 'other'
    steps = [('create_workspace', other), ('create_workspace', name), ('create_config', name, name),
             ('create_config', other, name), ('set_current_workspace_name', name),
             ('set_current_config_name', name, name), ('copy_config', name, name, 'z'),
             ('write_config_file', name, name, 'CNF', '{}'), ('rename_config', name, 'z', 'y'),
             ('rename_config', name, name, 'z'), ('rename_config', name, 'z', name), ('copy_workspace', name, 'w3'),
             ('add_inputs', name), ('add_inputs', other), ('remove_inputs', name), ('delete_workspace', name),
             ('copy_workspace', 'w3', name), ('delete_config', name, name), ('rename_workspace', name, 'w4'),
             ('rename_workspace', 'w4', name), ('delete_config', other, name), ('delete_workspace', name)]
    with core.quiet():
        for i, step in enumerate(steps):
            label = 'name %r: step %d, %s' % (name[:30], i, step[0])
            m = WorkspaceManager(base)
            if step[0] == 'add_inputs':
                m.add_inputs(step[1], [src], Monitor.NULL)
                model.add_inputs(step[1], [(src_name, b'source')])
            elif step[0] == 'remove_inputs':
                m.remove_inputs(step[1], [src_name], Monitor.NULL)
                model.remove_inputs(step[1], [src_name])
            else:
                getattr(m, step[0])(*step[1:])
                getattr(model, step[0])(*step[1:])
            part.count(transitions=1)
            snap = wsmodel.snapshot(folder)
            pre = 'around/user/workspaces/'
            got = {p[len(pre):]: v for p, v in snap.items() if p.startswith(pre) and v is not None
                   and os.path.basename(p) != '.current'}
            want = model.files()
            now_outer = {p: v for p, v in snap.items() if not p.startswith(pre)}
            if got != want:
                part.violation('%s: %s' % (label, wsmodel.diff(want, got)))
                return part
            if now_outer != outer:
                part.violation('%s changed outside: %s' % (label, wsmodel.diff(outer, now_outer)))
                return part
            m = WorkspaceManager(base)
            if list(m.get_workspace_names()) != sorted(model.s['ws']):
                part.violation('%s: workspaces %s' % (label, m.get_workspace_names()))
                return part
            for w, x in model.s['ws'].items():
                if list(m.get_config_names(w) or []) != sorted(x['configs']):
                    part.violation('%s: configurations %s' % (label, m.get_config_names(w)))
                if list(m.get_input_names(w)) != sorted(x['inputs']):
                    part.violation('%s: inputs %s' % (label, m.get_input_names(w)))
                if (m.get_current_config_name(w) or None) != x['current']:
                    part.violation('%s: current configuration %s' % (label, m.get_current_config_name(w)))
            if (m.get_current_workspace().name or None) != model.s['current']:
                part.violation('%s: current workspace %s' % (label, m.get_current_workspace().name))
    part.count(states=1, traces=1)
    return part


def contained(item):
    kind, filled, spec = item
    with core.scratch('c19') as d:
        os.chmod(d, 0o711)
        folder = os.path.join(d, 'jail')
        os.mkdir(folder)
        root, base = build(folder, filled)
        use_copy(folder)
        if kind == 'odd':
            return core.unprivileged(odd, (folder, filled, spec), folder)
        names = hostile(root)
        jobs = []
        depth = spec
        for op, positions in SIGNATURES:
            at = [i for i, p in enumerate(positions) if not p.startswith('=')]
            for r in range(1, depth + 1):
                for where in itertools.combinations(at, r):
                    for hs in itertools.product(names, repeat=r):
                        args = [p[1:] if p.startswith('=') else GOOD[p] for p in positions]
                        for i, h in zip(where, hs):
                            args[i] = h
                        if op.startswith('set_current') and '' in args:
                            continue        # clears the selection
                        if r == 2 and hs[0] != hs[1] and LONG in hs:
                            continue
                        jobs.append((op, tuple(args)))
        k, n = int(kind.split('/')[0]), int(kind.split('/')[1])
        return core.unprivileged(attack, (folder, filled, jobs[k::n]), folder)


def run(ctx):
    ctx.rule = 'every operation x every position of a name x every hostile name'
    depth, n = (2, 32) if ctx.thorough else (1, 8)
    items = [('%d/%d' % (k, n), filled, depth) for k in range(n) for filled in (True, False)]
    items += [('odd', False, name) for name in ODD]
    core.pmap(ctx, contained, items, fresh=True)
    ctx.space_note('hostile names', [h if len(h) < 50 else h[:50] for h in hostile('/around')])
    ctx.space_note('names that must work', [o if len(o) < 50 else o[:50] for o in ODD])
    ctx.space_note('operations', '%d, up to %d hostile arguments at a time' % (len(SIGNATURES), depth))
    ctx.notes.append('run as an unprivileged user that owns one scratch folder, with process starts replaced')
