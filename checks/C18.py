"""C18: workspaces, configurations, inputs and outputs behave as an abstract store, for every history of operations."""
import fnmatch
import os

from vlib import core, wsmodel
from vlib.wsmodel import Either, Model, Refused

LEVEL = 'model_checking'

W = ('a', 'ab')
C = ('x', 'xy')
SOURCES = {'p.nc': b'first input', 'p2.nc': b'second input', 'r.txt': b'not a product'}
SOURCES2 = {'p.nc': b'the first input again'}
PATTERNS = (None, [], 'p.nc', 'p', ['p', 'p2'], ['p.nc'], 'p*', ['p*', '*.nc'], ['*2*'], 'none', ['none', 'p2.nc'], '*.txt', '?2.nc', 'P*',
            ['P*', '*2.NC'], 'p[!2]*', ['[a-o]*'])
EDITED = '\n {"edited": {"value": 1, "description": "\u00b5m \u2026"}}\r\n\n'
OUT = (('L1B_p.nc', b'product one'), ('log.txt', b'log'))


def place(w, c, name):
    if c is None:
        return '%s/inputs/%s' % (w, name)
    return '%s/configs/%s/outputs/%s' % (w, c, name) if name.endswith('.nc') else '%s/configs/%s/%s.json' % (w, c, name)


def operations(wide):
    ops = []
    for w in W:
        ops += [('create_workspace', w), ('delete_workspace', w), ('set_current_workspace_name', w)]
        ops += [(n, w, v) for n in ('copy_workspace', 'rename_workspace') for v in W]
        for c in C:
            ops += [('create_config', w, c, False), ('delete_config', w, c), ('set_current_config_name', w, c),
                    ('write_config_file', w, c, 'CNF', EDITED), ('remove_outputs', w, c),
                    ('add_output', w, c, 0), ('edit', w, c, 'CHD')]
            ops += [(n, w, c, e) for n in ('copy_config', 'rename_config') for e in C]
        ops += [('create_config', w, 'x', True), ('write_config_file', w, 'x', 'CST', ''), ('add_output', w, 'x', 1), ('edit', w, 'x', 'L1B_p.nc'),
                ('edit', w, None, 'p.nc')]
        ops += [('add_inputs', w, ('p.nc',)), ('add_inputs', w, ('p2.nc', 'r.txt')), ('add_inputs', w, ()),
                ('add_inputs', w, ('again/p.nc',)), ('add_inputs', w, ('missing.nc',)),
                ('remove_inputs', w, ('p.nc',)), ('remove_inputs', w, ('p2.nc', 'none.nc', 'p.nc')),
                ('remove_inputs', w, ())]
    ops.append(('delete_all_workspaces',))
    return ops


class World:
    def __init__(self, d):
        self.root = os.path.join(d, 'around')
        self.base = os.path.join(self.root, 'user', 'workspaces')
        os.makedirs(self.base)
        with open(os.path.join(self.root, 'user', 'other.txt'), 'w') as fp:
            fp.write('other')
        os.makedirs(os.path.join(self.root, 'a', 'configs', 'x'))
        with open(os.path.join(self.root, 'a', 'configs', 'x', 'CNF.json'), 'w') as fp:
            fp.write('not mine')
        self.src = os.path.join(self.root, 'sources')
        os.makedirs(os.path.join(self.src, 'again'))
        for n, t in SOURCES.items():
            with open(os.path.join(self.src, n), 'wb') as fp:
                fp.write(t)
        for n, t in SOURCES2.items():
            with open(os.path.join(self.src, 'again', n), 'wb') as fp:
                fp.write(t)
        self.initial = wsmodel.snapshot(self.root)

    def manager(self):
        from dedop.ui.workspace_manager import WorkspaceManager
        return WorkspaceManager(self.base)

    def apply(self, op):
        """the real thing"""
        from dedop.util.monitor import Monitor
        m = self.manager()
        name, args = op[0], op[1:]
        if name == 'add_output':
            out = m.get_outputs_path(args[0], args[1])
            os.makedirs(out, exist_ok=True)
            with open(os.path.join(out, OUT[args[2]][0]), 'wb') as fp:
                fp.write(OUT[args[2]][1])
            return None
        if name == 'edit':
            # an editor that writes into the file that is there
            with open(os.path.join(self.base, place(*args)), 'r+b') as fp:
                fp.truncate()
                fp.write(b'edited in place')
            return None
        if name == 'add_inputs':
            return m.add_inputs(args[0], [os.path.join(self.src, n) for n in args[1]], Monitor.NULL)
        if name == 'remove_inputs':
            return m.remove_inputs(args[0], list(args[1]), Monitor.NULL)
        if name == 'create_config':
            return m.create_config(args[0], args[1], cryosat=args[2])
        return getattr(m, name)(*args)


def model_apply(model, op):
    name, args = op[0], op[1:]
    if name == 'add_output':
        return model.add_output(args[0], args[1], *OUT[args[2]])
    if name == 'add_inputs':
        cont = []
        for n in args[1]:
            b = os.path.basename(n)
            cont.append((b, SOURCES2[b] if n.startswith('again/') else SOURCES.get(b)))
        return model.add_inputs(args[0], cont)
    if name == 'edit':
        w, c, n = args
        x = model.s['ws'][w]
        y = x['configs'].get(c)
        (x['inputs'] if c is None else y['outputs'] if n.endswith('.nc') else y['files'])[
            n if n.endswith('.nc') else n + '.json'] = b'edited in place'
        return None
    return getattr(model, name)(*args)


def in_scope(state, op):
    """steps of the environment only where they make sense; adding inputs to a workspace that does not exist is
    not specified"""
    if op[0] == 'add_output':
        return op[2] in state['ws'].get(op[1], {}).get('configs', {})
    if op[0] == 'edit':
        return place(*op[1:]) in wsmodel.files(state)
    if op[0] == 'add_inputs':
        return op[1] in state['ws']
    return True


def listed(names, pattern):
    nc = sorted(n for n in names if n.endswith('.nc'))
    if not pattern:
        return nc
    ps = [pattern] if isinstance(pattern, str) else pattern
    return [n for n in nc if any(fnmatch.fnmatchcase(n, p) for p in ps)]


def observe(world, s):
    """everything that can be asked, against the model state"""
    bad = []
    m = world.manager()

    def expect(what, got, want):
        if got != want:
            bad.append('%s gives %r, expected %r' % (what, got, want))

    def refused(what, fn, *a):
        from dedop.ui.exception import WorkspaceError
        try:
            r = fn(*a)
        except WorkspaceError:
            return
        bad.append('%s of a missing workspace gives %r' % (what, r))

    names = sorted(s['ws'])
    expect('list of workspaces', list(m.get_workspace_names()), names)
    cur = s['current']
    cw = m.get_current_workspace()
    expect('current workspace', cw.name or None, cur)
    if cur:
        expect('directory of the current workspace', os.path.realpath(cw.workspace_dir),
               os.path.realpath(os.path.join(world.base, cur)))
    expect('workspaces', [(x['name'], bool(x['is_current']), os.path.realpath(x['workspace_dir']))
                          for x in m.get_workspaces()],
           [(n, n == cur, os.path.realpath(os.path.join(world.base, n))) for n in names])
    for w in W:
        x = s['ws'].get(w)
        expect('workspace_exists(%s)' % w, bool(m.workspace_exists(w)), x is not None)
        if x is None:
            refused('get_config_names', m.get_config_names, w)
            refused('get_current_config_name', m.get_current_config_name, w)
            refused('get_notebook_names', m.get_notebook_names, w)
            expect('inputs of missing %s' % w, list(m.get_input_names(w)), [])
        else:
            expect('configurations of %s' % w, list(m.get_config_names(w) or []), sorted(x['configs']))
            expect('current configuration of %s' % w, m.get_current_config_name(w) or None, x['current'])
            expect('notebooks of %s' % w, list(m.get_notebook_names(w)), sorted(x['notebooks']))
            for p in PATTERNS:
                expect('inputs %s of %s' % (p, w), list(m.get_input_names(w, p)), listed(x['inputs'], p))
            expect('input paths of %s' % w, [os.path.realpath(p) for p in m.get_input_paths(w)],
                   [os.path.realpath(os.path.join(world.base, w, 'inputs', n)) for n in listed(x['inputs'], None)])
        for c in C:
            y = x['configs'].get(c) if x else None
            expect('config_exists(%s, %s)' % (w, c), bool(m.config_exists(w, c)), y is not None)
            for p in PATTERNS[:8] + ('l1b*', ['l1b*', '*.NC'], 'L1B_*'):
                expect('outputs %s of %s/%s' % (p, w, c), list(m.get_output_names(w, c, p)),
                       listed(y['outputs'], p) if y else [])
            if y:
                for k in wsmodel.KINDS:
                    path = m.get_config_file(w, c, k)
                    with open(path, 'rb') as fp:
                        expect('%s of %s/%s' % (k, w, c), fp.read(), y['files'][k + '.json'])
    return bad


def visible(tree):
    """files below the workspaces directory, without the selection"""
    pre = 'user/workspaces/'
    return {p[len(pre):]: v for p, v in tree.items()
            if p.startswith(pre) and v is not None and os.path.basename(p) != '.current'}


def outside(tree):
    return {p: v for p, v in tree.items() if not p.startswith('user/workspaces')}


RES = None


def check_step(part, world, state, tree, op, hist):
    """one transition; -> (new model state, new tree) or None"""
    from dedop.ui.exception import WorkspaceError
    model = Model(state, RES)
    verdict = 'ok'
    try:
        model_apply(model, op)
    except Refused:
        verdict = 'refused'
    except Either:
        verdict = 'either'
    err = None
    try:
        world.apply(op)
    except WorkspaceError as e:
        err = e
    except FileNotFoundError as e:
        if op[0] != 'write_config_file':
            raise
        err = e
    part.count(transitions=1)
    now = wsmodel.snapshot(world.root)
    label = '%s after %s' % (op, hist)
    want = model.s if verdict == 'ok' else state
    if verdict == 'ok' and err is not None:
        part.violation('%s: refused (%s)' % (label, err))
    elif verdict == 'refused' and err is None:
        part.violation('%s: not refused, changed %s' % (label, wsmodel.diff(tree, now)))
    elif verdict == 'refused' and op[0] != 'add_inputs' and now != tree:
        part.violation('%s: refused, but changed %s' % (label, wsmodel.diff(tree, now)))
    elif visible(now) != wsmodel.files(want):
        part.violation('%s: files differ from the expected ones: %s' % (
            label, wsmodel.diff(wsmodel.files(want), visible(now))))
    elif outside(now) != outside(tree):
        part.violation('%s: changed outside of the workspaces: %s' % (label, wsmodel.diff(outside(tree), outside(now))))
    else:
        bad = observe(world, want)
        for b in bad[:2]:
            part.violation('%s: %s' % (label, b))
        if not bad:
            return want, now
    return None


def expand(item):
    """replay a history, then take every operation from there"""
    history, wide = item
    part = core.Part()
    part['next'] = []
    os.fsync = lambda fd: None
    with core.scratch('c18') as d:
        world = World(d)
        state, tree = wsmodel.empty(), world.initial
        for i, op in enumerate(history):
            r = check_step(part, world, state, tree, op, history[:i])
            if r is None:
                return part
            state, tree = r
        part.count(traces=1)
        for op in operations(wide):
            if not in_scope(state, op):
                continue
            r = check_step(part, world, state, tree, op, history)
            now = wsmodel.snapshot(world.root)
            if r is not None and now != tree:
                part['next'].append((history + (op,), core.digest(sorted(now.items(), key=lambda kv: kv[0]))))
            if now != tree:
                wsmodel.restore(world.root, tree, now)
            if len(part['violations']) >= 5:
                break
        part.nontriv(core.digest(sorted(tree.items(), key=lambda kv: kv[0])))
    return part


STARTS = [
    (('create_workspace', 'a'), ('create_config', 'a', 'x', False), ('set_current_config_name', 'a', 'x'),
     ('set_current_workspace_name', 'a'), ('add_inputs', 'a', ('p.nc',)), ('add_output', 'a', 'x', 0)),
    (('create_workspace', 'a'), ('create_config', 'a', 'x', False), ('create_config', 'a', 'xy', False),
     ('write_config_file', 'a', 'xy', 'CNF', EDITED), ('set_current_config_name', 'a', 'xy'),
     ('create_workspace', 'ab'), ('create_config', 'ab', 'x', True), ('set_current_workspace_name', 'ab'),
     ('add_output', 'a', 'x', 0), ('add_output', 'a', 'x', 1), ('add_output', 'ab', 'x', 0),
     ('add_inputs', 'ab', ('p2.nc', 'r.txt')), ('add_inputs', 'a', ('p.nc',))),
]


def run(ctx):
    global RES
    RES = wsmodel.resources(core.REPO)
    ctx.rule = 'every reachable directory tree'
    seen = set()
    # breadth first, level by level; the starts are explored as far as the empty tree is
    for start, depth in ((((),), 5 if ctx.thorough else 4), (tuple(STARTS), 4 if ctx.thorough else 3)):
        frontier = list(start)
        for level in range(depth):
            parts = core.pmap(ctx, expand, [(h, ctx.thorough) for h in frontier], chunksize=4)
            ctx.count(states=len(frontier))
            frontier = []
            for p in parts:
                for h, key in p.get('next', ()):
                    if key not in seen:
                        seen.add(key)
                        frontier.append(h)
            if ctx.violations:
                break
        if frontier:
            ctx.sample('last level from %s...: %d states, e.g. %s' % (start[0][:2], len(frontier), frontier[0]))
    ctx.space_note('names', 'workspaces %s, configurations %s' % (W, C))
    ctx.space_note('operations', len(operations(ctx.thorough)))
    ctx.space_note('depth', 'all sequences of %d operations from nothing, %d from two filled trees (tree states merged)'
                   % ((5, 4) if ctx.thorough else (4, 3)))
