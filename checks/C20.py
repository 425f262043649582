"""C20: neither a crash nor an error at any file system step damages what the user has."""
import os

from vlib import core, faults, wsmodel

LEVEL = 'fault_enumeration'

BIG = '{"edited": {"value": "%s"}}' % ('v' * 30000)
SELECTION = ('.current',)

# (operation, arguments, kind): what a crash or an error may leave behind
#   atomic: every query gives the old or the new state
#   each:   every file is the old or the new one
#   new:    a failed operation leaves no trace of the new object; a crash leaves everything else intact
OPS = [
    ('set_current_workspace_name', ('b',), 'atomic'),
    ('set_current_config_name', ('a', 'y'), 'atomic'),
    ('set_current_config_name', ('b', 'x'), 'atomic'),      # for the first time
    ('write_config_file', ('a', 'x', 'CNF', BIG), 'atomic'),
    ('write_config_file', ('a', 'x', 'CHD', '{}'), 'atomic'),
    ('upgrade_config', ('a', 'x', 'CNF'), 'atomic'),
    ('upgrade_all_config', ('a', 'x'), 'each'),
    ('create_config', ('a', 'n'), 'new'),
    ('create_config', ('c', 'n'), 'new'),
    ('copy_config', ('a', 'x', 'n'), 'new'),
    ('rename_config', ('a', 'x', 'n'), 'atomic'),
    ('create_workspace', ('n',), 'new'),
    ('copy_workspace', ('a', 'n'), 'new'),
    ('rename_workspace', ('a', 'n'), 'atomic'),
    ('add_inputs', ('a', ('q.nc',)), 'each'),               # a new one
    ('add_inputs', ('a', ('p.nc',)), 'each'),               # replaces one
    ('add_inputs', ('a', ('q.nc', 'p.nc', 'r.nc')), 'each'),
    ('add_inputs', ('c', ('p.nc',)), 'each'),
    ('remove_inputs', ('a', ('p.nc', 'p2.nc')), 'each'),
    ('remove_outputs', ('a', 'x'), 'each'),
    ('delete_config', ('a', 'x'), 'gone'),
    ('delete_workspace', ('a',), 'gone'),
]
MODES = ('crash', 'torn', 'error', 'torn-error', 'full')


def build(root):
    base = os.path.join(root, 'workspaces')
    res = wsmodel.resources(core.REPO)
    for w, c in (('a', 'x'), ('a', 'y'), ('b', 'x')):
        d = os.path.join(base, w, 'configs', c)
        os.makedirs(d)
        for n, t in res[False].items():
            with open(os.path.join(d, n), 'wb') as fp:
                # an older version, so that there is something to upgrade
                fp.write(t.replace(b'"version": 3,\n    "changelog"', b'"version": 1,\n    "changelog"')
                         .replace(b'"version": 1,\n    "changelog"', b'"version": -1,\n    "changelog"')
                         .replace(b'"version": 0,\n    "changelog"', b'"version": -1,\n    "changelog"'))
    os.makedirs(os.path.join(base, 'c'))
    for w in ('a', 'b'):
        os.makedirs(os.path.join(base, w, 'inputs'))
        for n in ('p.nc', 'p2.nc'):
            with open(os.path.join(base, w, 'inputs', n), 'wb') as fp:
                fp.write(b'old ' + n.encode() * 5000)
    os.makedirs(os.path.join(base, 'a', 'configs', 'x', 'outputs'))
    for n in ('L1B_p.nc', 'L1BS_p.nc', 'log.txt'):
        with open(os.path.join(base, 'a', 'configs', 'x', 'outputs', n), 'wb') as fp:
            fp.write(b'output ' + n.encode())
    with open(os.path.join(base, '.current'), 'w') as fp:
        fp.write('a')
    with open(os.path.join(base, 'a', 'configs', '.current'), 'w') as fp:
        fp.write('x')
    src = os.path.join(root, 'src')
    os.makedirs(src)
    for n in ('p.nc', 'q.nc', 'r.nc'):
        with open(os.path.join(src, n), 'wb') as fp:
            fp.write(b'new ' + n.encode() * 20000)
    return base, src


def perform(base, src, op, args):
    from dedop.ui.workspace_manager import WorkspaceManager
    from dedop.util.monitor import Monitor
    m = WorkspaceManager(base)
    if op == 'add_inputs':
        m.add_inputs(args[0], [os.path.join(src, n) for n in args[1]], Monitor.NULL)
    elif op == 'remove_inputs':
        m.remove_inputs(args[0], list(args[1]), Monitor.NULL)
    else:
        getattr(m, op)(*args)


def view(base):
    """what a user sees: {thing: content}, through a new manager"""
    from dedop.ui.workspace_manager import WorkspaceManager
    m = WorkspaceManager(base)
    out = {'current': m.get_current_workspace().name or None}
    for w in m.get_workspace_names():
        out['ws', w] = True
        out['ws', w, 'current'] = m.get_current_config_name(w) or None
        for n in m.get_input_names(w):
            out['input', w, n] = read(m.get_inputs_path(w, n))
        for c in m.get_config_names(w) or []:
            out['config', w, c] = True
            for k in wsmodel.KINDS:
                out['file', w, c, k] = read(m.get_config_file(w, c, k))
            for n in m.get_output_names(w, c):
                out['output', w, c, n] = read(m.get_outputs_path(w, c, n))
    return out


def read(p):
    try:
        with open(p, 'rb') as fp:
            return fp.read()
    except FileNotFoundError:
        return None


def belongs(key, op, args):
    """is this thing part of the object that the operation creates or removes?"""
    if op in ('create_config', 'copy_config'):
        return key[:1] in (('config',), ('file',), ('output',)) and key[1:3] == (args[0], args[-1])
    if op in ('copy_workspace', 'create_workspace'):
        return key != 'current' and key[1] == args[-1]
    if op == 'delete_config':
        return key[:1] in (('config',), ('file',), ('output',)) and key[1:3] == args
    if op == 'delete_workspace':
        return key != 'current' and key[1] == args[0]
    return False


def judge(op, args, kind, old, new, got, outcome, detail):
    if outcome == 'done' and got != new:
        return 'reported success, but %s' % show(new, got)
    if got == old or got == new:
        return None
    if kind == 'each':
        bad = [k for k in set(old) | set(new) | set(got)
               if got.get(k, 'absent') not in (old.get(k, 'absent'), new.get(k, 'absent'))]
        # things that neither state has
        return 'left %s' % show(old, {k: got.get(k) for k in bad}, bad) if bad else None
    rest_old = {k: v for k, v in old.items() if not belongs(k, op, args)}
    rest_got = {k: v for k, v in got.items() if not belongs(k, op, args)}
    if kind in ('new', 'gone'):
        if rest_old != rest_got:
            return 'damaged other things: %s' % show(rest_old, rest_got)
        if kind == 'new' and outcome == 'error':
            return 'left an incomplete object: %s' % show(old, got)
        return None
    return 'is neither the old nor the new state: %s' % show(old, got)


def show(a, b, keys=None):
    out = []
    for k in sorted(keys if keys is not None else set(a) | set(b), key=str):
        if a.get(k, 'absent') != b.get(k, 'absent'):
            def s(x):
                return x if not isinstance(x, bytes) else '%d bytes' % len(x)
            out.append('%s: %s -> %s' % (k, s(a.get(k, 'absent')), s(b.get(k, 'absent'))))
    return '; '.join(out[:4])


def again(part, root, base, src, op, args, kind, old, new, got):
    """an attempt that failed or was interrupted must not block the next one"""
    def attempt():
        part.count(evaluations=1)
        return faults.run_in_child(faults.Injector(root), lambda: perform(base, src, op, args))[:2]

    if got == new:
        return None
    if got != old and kind == 'new':
        # an empty folder is no obstacle to creating something there; anything incomplete can be deleted
        empty = all(v is None or v is True for k, v in got.items() if belongs(k, op, args))
        if not (empty and op.startswith('create')):
            def delete():
                perform(base, src, *(('delete_workspace', (args[-1],)) if op.endswith('workspace') else
                                     ('delete_config', (args[0], args[-1]))))
            r, d = faults.run_in_child(faults.Injector(root), delete)[:2]
            if r != 'done' or view(base) != old:
                return 'what it left cannot be deleted (%s %s): %s' % (r, d, show(old, view(base)))
    elif got != old and kind == 'gone' and not any(belongs(k, op, args) for k in got):
        return None
    r, d = attempt()
    if r != 'done' or view(base) != new:
        return 'afterwards the operation does not work any more (%s %s): %s' % (r, d, show(new, view(base)))
    return None


def explore(item):
    op, args, kind, k0, stride, twice = item
    part = core.Part()
    with core.scratch('c20') as d:
        root = os.path.join(d, 'r')
        os.makedirs(root)
        base, src = build(root)
        tree = wsmodel.snapshot(root)
        old = view(base)
        res, detail, n, log = faults.run_in_child(faults.Injector(root), lambda: perform(base, src, op, args))
        if res != 'done':
            part.violation('%s%s failed without any fault: %s' % (op, args, detail))
            return part
        new = view(base)
        after = wsmodel.snapshot(root)
        left = [p for p in after if p.endswith('.tmp') or p.endswith('~')]
        if left:
            part.violation('%s%s leaves %s' % (op, args, left))
        wsmodel.restore(root, tree, after)
        for k in range(k0, n, stride):
            for mode in MODES:
                if mode in ('torn', 'torn-error') and not log[k].startswith(('write', 'sendfile')):
                    continue
                if mode == 'full' and log[k].split()[0] not in faults.WRITE:
                    continue
                got_res, detail, _, _ = faults.run_in_child(faults.Injector(root, k, mode),
                                                            lambda: perform(base, src, op, args))
                part.count(evaluations=1)
                label = '%s%s, %s at step %d (%s)' % (op, tuple(a if len(a) < 40 else '...' for a in args), mode, k,
                                                      log[k].replace(d, ''))
                part.nontriv(label)
                part.sample(label + ': ' + got_res)
                try:
                    got = view(base)
                    msg = judge(op, args, kind, old, new, got, got_res, detail) \
                        or again(part, root, base, src, op, args, kind, old, new, got)
                except Exception as err:
                    msg = 'cannot be read afterwards: %s: %s' % (type(err).__name__, err)
                if msg:
                    part.violation('%s: %s' % (label, msg))
                elif twice and kind != 'gone' and mode in ('crash', 'torn', 'full'):
                    # a second attempt meets a fault as well
                    wsmodel.restore(root, tree)
                    faults.run_in_child(faults.Injector(root, k, mode), lambda: perform(base, src, op, args))
                    mid, first = wsmodel.snapshot(root), view(base)
                    if first == old:
                        for k2 in range(n + 6):
                            for mode2 in MODES:
                                r2, d2, _, _ = faults.run_in_child(faults.Injector(root, k2, mode2),
                                                                   lambda: perform(base, src, op, args))
                                part.count(evaluations=1)
                                try:
                                    msg = judge(op, args, kind, old, new, view(base), r2, d2)
                                except Exception as err:
                                    msg = 'cannot be read afterwards: %s: %s' % (type(err).__name__, err)
                                if msg:
                                    part.violation('%s, then %s at step %d: %s' % (label, mode2, k2, msg))
                                wsmodel.restore(root, mid)
                wsmodel.restore(root, tree)
                if len(part['violations']) >= 5:
                    return part
        part.count(states=len(range(k0, n, stride)), transitions=n)
    return part


def run(ctx):
    ctx.rule = 'a fault (crash, torn write, error, full disk) at one file system step of one operation'
    import dedop.ui.workspace_manager       # noqa: F401  (imported before the faults)
    import dedop.util.monitor               # noqa: F401
    stride = 8 if ctx.thorough else 4
    items = [(op, args, kind, k, stride, ctx.thorough) for op, args, kind in OPS for k in range(stride)]
    core.pmap(ctx, explore, items)
    ctx.space_note('operations', len(OPS))
    ctx.space_note('faults', 'crash, torn write and crash, error, torn write and error, disk full from here on; every '
                   'file system step%s' % ('; after a crash also a second fault' if ctx.thorough else ''))
