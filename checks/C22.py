"""C22: the web service does on the workspaces what it says, for every history of requests, and answers in JSON."""
import itertools
import json
import os

from vlib import core, pipeline, wsmodel
from vlib.wsmodel import Either, Model, Refused

LEVEL = 'model_checking'

W = ('a', 'default')
C = ('x', 'default')
SOURCES = {'p.nc': b'first input', 'q.nc': b'second input'}
CNF = {'edited': {'value': 1.5, 'units': None}, 'Zulu': {'value': [1, 2]}}
CHD = {'other': {'value': 'text \u00e9'}}
DOCS = {'cnf': CNF, 'chd': CHD, 'cst': {}}
RES = None


def pick(names):
    names = sorted(names)
    return 'default' if 'default' in names else names[0] if names else None


def operations(thorough):
    ops = []
    for w in W:
        ops += [('new_workspace', w), ('delete_workspace', w), ('set_current_workspace', w)]
        ops += [(n, w, v) for n in ('copy_workspace', 'rename_workspace') for v in W + ('b',)]
        for c in C:
            ops += [('add_new_config', w, c, False), ('delete_config', w, c), ('set_current_config', w, c),
                    ('save_configs', w, c, ('cnf',)), ('remove_output_files', w, c), ('upgrade_configs', w, c),
                    ('output', w, c)]
            ops += [(n, w, c, e) for n in ('copy_config', 'rename_config') for e in C + ('y',)]
        ops += [('add_new_config', w, c, True) for c in C]
        ops += [('save_configs', w, 'x', ('chd', 'cst')), ('save_configs', w, 'x', ()),
                ('delete_config', w, 'y')]
        ops += [('add_input_files', w, ('p.nc',)), ('add_input_files', w, ('q.nc', 'p.nc')), ('add_input_files', w, ()),
                ('remove_input_files', w, ('p.nc',)), ('remove_input_files', w, ('q.nc', 'none.nc'))]
    ops += [('delete_workspace', 'b'), ('set_current_workspace', 'b')]
    return ops


def stored(doc):
    """a saved parameter file is a JSON document; its layout is free"""
    return json.loads(doc.decode('utf-8'))


class World:
    def __init__(self, d):
        self.root = os.path.realpath(os.path.join(d, 'around'))
        self.base = os.path.join(self.root, 'user', 'workspaces')
        self.src = os.path.join(self.root, 'sources')
        os.makedirs(self.src)
        os.makedirs(self.base)
        for n, t in SOURCES.items():
            with open(os.path.join(self.src, n), 'wb') as fp:
                fp.write(t)
        self.initial = wsmodel.snapshot(self.root)

    def service(self):
        from dedop.ui.workspace_manager import WorkspaceManager
        from dedop.webapi.websocket import WebSocketService
        return WebSocketService(WorkspaceManager(self.base))

    def apply(self, service, op):
        name, args = op[0], op[1:]
        if name == 'output':
            out = os.path.join(self.base, args[0], 'configs', args[1], 'outputs')
            os.makedirs(out, exist_ok=True)
            for n in ('L1B_p.nc', 'log.txt'):
                with open(os.path.join(out, n), 'wb') as fp:
                    fp.write(b'product')
            return None
        if name == 'add_input_files':
            return service.add_input_files(args[0], [os.path.join(self.src, n) for n in args[1]])
        if name == 'remove_input_files':
            return service.remove_input_files(args[0], list(args[1]))
        if name == 'save_configs':
            docs = DOCS
            return service.save_configs(args[0], args[1], {k: docs[k] for k in args[2]})
        return getattr(service, name)(*args)


def model_apply(m, op):
    name, args = op[0], op[1:]
    s = m.s
    if name == 'new_workspace':
        m.create_workspace(*args)
    elif name == 'delete_workspace':
        m.delete_workspace(*args)
        s['current'] = pick(s['ws'])
    elif name in ('copy_workspace', 'rename_workspace', 'copy_config', 'rename_config'):
        getattr(m, name)(*args)
    elif name == 'set_current_workspace':
        m.set_current_workspace_name(*args)
    elif name == 'set_current_config':
        m.set_current_config_name(*args)
    elif name == 'add_new_config':
        m.create_config(*args)
    elif name == 'delete_config':
        m.delete_config(*args)
        x = m.ws(args[0])
        x['current'] = pick(x['configs'])
    elif name == 'save_configs':
        x = m.s['ws'].get(args[0], {}).get('configs', {}).get(args[1])
        if x is None:
            raise (Refused if args[2] else Either)('not there')
        for k in args[2]:
            x['files'][k.upper() + '.json'] = json.dumps(DOCS[k]).encode()
    elif name == 'upgrade_configs':
        x = m.conf(*args)
        for k in wsmodel.KINDS:
            doc = stored(x['files'][k + '.json'])
            if '__metainf__' not in doc:
                raise Either('upgrades are checked elsewhere')
    elif name == 'remove_output_files':
        m.remove_outputs(*args)
    elif name == 'add_input_files':
        m.add_inputs(args[0], [(n, SOURCES[n]) for n in args[1]])
    elif name == 'remove_input_files':
        m.remove_inputs(*args)
    elif name == 'output':
        m.add_output(args[0], args[1], 'L1B_p.nc', b'product')
        m.add_output(args[0], args[1], 'log.txt', b'product')
    else:
        raise AssertionError(op)


def in_scope(s, op):
    if op[0] == 'output':
        return op[2] in s['ws'].get(op[1], {}).get('configs', {})
    if op[0] == 'add_input_files':
        return op[1] in s['ws']
    if op[0] == 'upgrade_configs':
        x = s['ws'].get(op[1], {}).get('configs', {}).get(op[2])
        return x is None or all(b'__metainf__' in t for t in x['files'].values())
    return True


def content(tree):
    """files below the workspaces directory; parameter files as documents"""
    pre = 'user/workspaces/'
    return norm({p[len(pre):]: v for p, v in tree.items()
                 if p.startswith(pre) and v is not None and os.path.basename(p) != '.current'})


def norm(files):
    return {p: (json.dumps(stored(v), sort_keys=True) if p.endswith('.json') else v) for p, v in files.items()}


def ws_json(world, name, current):
    return (name, os.path.realpath(os.path.join(world.base, name)), current)


def as_ws(d):
    return (d['name'], os.path.realpath(d['workspace_dir']), bool(d['is_current']))


def observe(world, service, s):
    bad = []

    def ask(what, want, *args):
        got = getattr(service, what)(*args)
        try:
            got = json.loads(json.dumps(got))
        except (TypeError, ValueError) as e:
            bad.append('%s%r cannot be sent as JSON: %s' % (what, args, e))
            return
        if callable(want):
            want = want(got)
            if want is not None:
                bad.append('%s%r: %s' % (what, args, want))
        elif (got or None if want is None else got) != want:
            bad.append('%s%r gives %r, expected %r' % (what, args, got, want))

    def refused(what, *args):
        try:
            got = getattr(service, what)(*args)
        except Exception:
            return
        bad.append('%s%r gives %r, although there is no such thing' % (what, args, got))

    cur = s['current']

    def all_ws(got):
        g = [as_ws(x) for x in got['workspaces']]
        w = [ws_json(world, n, n == cur) for n in sorted(s['ws'])]
        return None if g == w else 'gives %s, expected %s' % (g, w)

    def current(got):
        if not cur:
            return None if not got['name'] and not got['is_current'] or got['name'] in (None, '') else \
                'gives %s, expected none' % got
        return None if as_ws(got) == ws_json(world, cur, True) else 'gives %s, expected %s' % (got, cur)

    ask('get_all_workspaces', all_ws)
    ask('get_current_workspace', current)
    for w in W + ('b',):
        x = s['ws'].get(w)
        if x is None:
            refused('get_config_names', w)
            refused('get_current_config', w)
            refused('get_configs', w, 'x')
            refused('get_notebook_file_names', w)
            continue
        ask('get_config_names', lambda got: None if (got or []) == sorted(x['configs']) else
            'gives %s, expected %s' % (got, sorted(x['configs'])), w)
        ask('get_current_config', lambda got: None if (got['name'] or None) == x['current'] else
            'gives %s, expected %s' % (got, x['current']), w)
        ask('get_notebook_file_names', sorted(x['notebooks']), w)
        for c in C + ('y',):
            y = x['configs'].get(c)
            if y is None:
                refused('get_configs', w, c)
                continue
            ask('get_output_names', sorted(n for n in y['outputs'] if n.endswith('.nc')), w, c)

            def configs(got):
                if got['name'] != c:
                    return 'name %r' % got['name']
                for k in wsmodel.KINDS:
                    doc = stored(y['files'][k + '.json'])
                    if got[k.lower()] != doc:
                        return '%s is not the content of the file' % k
                    if got[k.lower() + '_order'] != sorted(doc, key=str.lower):
                        return 'order of %s is %s' % (k, got[k.lower() + '_order'])
                return None

            ask('get_configs', configs, w, c)
    defaults = {k.lower() + '_version': stored(RES[False][k + '.json'])['__metainf__']['version'] for k in wsmodel.KINDS}
    ask('get_default_config_versions', defaults)
    return bad


def step(part, world, service, state, tree, op, hist):
    model = Model(state, RES)
    verdict = 'ok'
    try:
        model_apply(model, op)
    except Refused:
        verdict = 'refused'
    except Either:
        verdict = 'either'
    err, got = None, None
    try:
        got = world.apply(service, op)
    except Exception as e:
        err = e
    part.count(transitions=1)
    now = wsmodel.snapshot(world.root)
    want = model.s if verdict == 'ok' else state
    label = '%s after %s' % (op, hist)
    n0 = len(part['violations'])
    if verdict == 'ok' and err is not None:
        part.violation('%s: refused (%s: %s)' % (label, type(err).__name__, err))
    elif verdict == 'refused' and err is None:
        part.violation('%s: not refused, changed %s' % (label, wsmodel.diff(tree, now)))
    elif verdict == 'refused' and now != tree:
        part.violation('%s: refused, but changed %s' % (label, wsmodel.diff(tree, now)))
    elif content(now) != norm(wsmodel.files(want)):
        part.violation('%s: files differ from the expected ones: %s' % (
            label, wsmodel.diff(norm(wsmodel.files(want)), content(now))))
    else:
        try:
            json.dumps(got)
        except (TypeError, ValueError) as e:
            part.violation('%s: the answer cannot be sent as JSON: %s' % (label, e))
        if verdict == 'ok' and op[0] in ('new_workspace', 'copy_workspace', 'rename_workspace', 'set_current_workspace'):
            if as_ws(got)[:2] != ws_json(world, op[-1], None)[:2]:
                part.violation('%s: answers %s' % (label, got))
        for b in observe(world, service, want)[:2]:
            part.violation('%s: %s' % (label, b))
    return (want, now) if len(part['violations']) == n0 else None


def expand(item):
    history, thorough, kept = item
    part = core.Part()
    part['next'] = []
    os.fsync = lambda fd: None
    with core.scratch('c22') as d:
        world = World(d)
        service = world.service()
        state, tree = wsmodel.empty(), world.initial
        for i, op in enumerate(history):
            r = step(part, world, service, state, tree, op, history[:i])
            if r is None:
                return part
            state, tree = r
        part.count(traces=1)
        for op in operations(thorough):
            if not in_scope(state, op):
                continue
            r = step(part, world, service if kept else world.service(), state, tree, op, history)
            now = wsmodel.snapshot(world.root)
            if r is not None and now != tree:
                part['next'].append((history + (op,), core.digest(sorted(now.items(), key=lambda kv: kv[0]))))
            if now != tree:
                wsmodel.restore(world.root, tree, now)
            if len(part['violations']) >= 5:
                break
        part.nontriv(core.digest(sorted(tree.items(), key=lambda kv: kv[0])))
    return part


STARTS = [
    (('new_workspace', 'a'), ('add_new_config', 'a', 'x', False), ('set_current_workspace', 'a'),
     ('set_current_config', 'a', 'x'), ('add_input_files', 'a', ('p.nc',)), ('output', 'a', 'x')),
    (('new_workspace', 'a'), ('add_new_config', 'a', 'x', True), ('add_new_config', 'a', 'default', False),
     ('save_configs', 'a', 'x', ('cnf',)), ('new_workspace', 'default'), ('add_new_config', 'default', 'x', False),
     ('copy_workspace', 'a', 'b'), ('set_current_workspace', 'b'), ('output', 'a', 'x'),
     ('add_input_files', 'default', ('q.nc', 'p.nc'))),
]


# ---- files ---------------------------------------------------------------------------------------------------
def files(item):
    """positions and attributes of an L1A file"""
    import netCDF4 as nc
    import numpy as np
    from vlib import l1a
    kind, lats, lons = item
    part = core.Part()
    with core.scratch('c22') as d:
        world = World(d)
        service = world.service()
        path = os.path.join(d, 'L1A_f.nc')
        atts = {'none': {}, 'text': {'title': 'a title', 'empty': ''},
                'int': {'cycle': np.int32(12), 'pass': np.int16(-3), 'big': np.int64(2 ** 40), 'byte': np.int8(5)},
                'float': {'semi_major': 6378137.0, 'small': np.float32(0.5)},
                'array': {'limits': np.array([1.5, -2.0]), 'counts': np.array([1, 2, 3], 'i2'), 'title': 'x'}}[kind]
        with nc.Dataset(path, 'w') as ds:
            ds.createDimension('t', len(lats or lons or (0, 0)))
            for n, v in (('lat_l1a_echo_sar_ku', lats), ('lon_l1a_echo_sar_ku', lons)):
                if v is not None:
                    x = ds.createVariable(n, 'i4', ('t',))
                    x.scale_factor = 1e-6
                    x.set_auto_maskandscale(False)
                    x[:] = np.array(v, 'i4')
            for k, v in atts.items():
                ds.setncattr(k, v)
        before = open(path, 'rb').read()
        got = service.get_lat_lon(path)
        part.count(transitions=2, traces=1)
        part.nontriv(item)
        try:
            got = json.loads(json.dumps(got))
            for k, v in (('lat', lats), ('lon', lons)):
                want = [q * 1e-6 for q in v] if v is not None else []
                if len(got[k]) != len(want) or any(abs(g - w) > 1e-12 for g, w in zip(got[k], want)):
                    part.violation('%s of %s is %s, expected %s' % (k, item, got[k], want))
            if lats and lons:
                ends = json.loads(json.dumps(service.get_max_min_coordinates(path)))
                for k, v in (('lat', lats), ('lon', lons)):
                    if len(ends[k]) != 2 or any(abs(g - q * 1e-6) > 1e-12 for g, q in zip(ends[k], (v[0], v[-1]))):
                        part.violation('the ends of %s of %s are %s' % (k, item, ends[k]))
            g = json.loads(json.dumps(service.get_global_attributes(path)))
            w = {k: v.tolist() if hasattr(v, 'tolist') else v for k, v in atts.items()}
            if g != w:
                part.violation('attributes are %s, expected %s' % (g, w))
        except (TypeError, ValueError) as e:
            part.violation('%s: cannot be sent as JSON: %s' % (item, e))
        if open(path, 'rb').read() != before:
            part.violation('%s: the file has been changed' % (item,))
    return part


def upgrades(item):
    """the three files of a configuration have any versions; another configuration must not change"""
    from checks.C17 import upgraded
    part = core.Part()
    with core.scratch('c22') as d:
        world = World(d)
        service = world.service()
        service.new_workspace('a')
        docs, want = {}, {}
        for kind, back in zip(wsmodel.KINDS, item):
            default = stored(RES[False][kind + '.json'])
            version = default['__metainf__']['version'] - back
            touched = {p[0] for e in default['__metainf__']['changelog'] if e['version'] > version
                       for p in e['parameters']}
            doc = {k: dict(v, value=9) if isinstance(v.get('value'), float) else v for k, v in default.items()
                   if k != '__metainf__' and k not in touched}
            doc.update({k: {'value': 1} for k in touched})
            if version >= 0:
                doc['__metainf__'] = {'version': version, 'changelog': []}
            docs[kind.lower()] = doc
            want[kind.lower()] = upgraded(doc, default)
        for c in 'xy':
            service.add_new_config('a', c, False)
            service.save_configs('a', c, docs)
        got = service.upgrade_configs('a', 'x')
        part.count(transitions=1, traces=1, states=1)
        part.nontriv(item)
        for what, g, w in (('the answer', got, want), ('the configuration', service.get_configs('a', 'x'), want),
                           ('another configuration', service.get_configs('a', 'y'), docs)):
            for k in w:
                if g[k] != w[k]:
                    part.violation('files %s versions behind, after an upgrade %s of %s is not as expected: %s' % (
                        item, k, what, [n for n in set(g[k]) | set(w[k]) if g[k].get(n) != w[k].get(n)]))
    return part


def process(item):
    """a run of the processor by the service"""
    from cate.util.monitor import Monitor
    from vlib import l1a, scen
    over, other, cancel = item
    part = core.Part()
    with core.scratch('c22') as d:
        world = World(d)
        service = world.service()
        path = l1a.write_l1a(os.path.join(d, 'L1A_x.nc'), scen.drained(l1a.orbit(14)))
        service.new_workspace('a')
        for c, o in (('x', over), ('y', other)):
            service.add_new_config('a', c, False)
            paths = l1a.write_config(os.path.join(d, 'conf-' + c), dict(o), None, None)
            docs = {}
            for k, p in zip(('cnf', 'cst', 'chd'), paths):
                with open(p) as fp:
                    docs[k] = json.load(fp)
            service.save_configs('a', c, docs)
        out = os.path.join(d, 'products')
        for there in (False, True):      # the second time into a folder that is there
            if there:
                for n in os.listdir(out):
                    os.remove(os.path.join(out, n))
                with open(os.path.join(out, 'else.txt'), 'w') as fp:
                    fp.write('text')
            mon = Monitor()
            if cancel:
                mon.cancel()
            with core.quiet():
                service.process('name', 'a', 'x', out, path, mon)
            part.count(transitions=1, traces=1)
            part.nontriv(item)
            if [e[0] for e in mon.events].count('start') != 1 or mon.events[-1][0] != 'done':
                part.violation('%s: the monitor got %s' % (item, mon.events[:3]))
            b, s = pipeline.names(path, 'name')
            names = sorted(set(os.listdir(out)) - {'else.txt'})
            if names != sorted([b, s]):
                part.violation('%s: products %s, expected %s' % (item, names, [b, s]))
                return part
        with core.scratch('ref') as e:
            proc = pipeline.make_processor(e, dict(over), None, None, True, name='name')
            m2 = Monitor()
            if cancel:
                m2.cancel()
            pipeline.call(proc, path, m2)
            ref = pipeline.read_products(e, path, True, name='name')
        for n, r in ((b, ref[0]), (s, ref[1])):
            if pipeline.Product(os.path.join(out, n)).signature() != r.signature():
                part.violation('%s: %s differs from the product of the processor' % (item, n))
    return part


def run(ctx):
    global RES
    pipeline.fast_fit()
    RES = wsmodel.resources(core.REPO)
    ctx.rule = 'every reachable directory tree'
    seen = set()
    depths = (4, 3) if ctx.thorough else (3, 2)
    for start, depth in ((((),), depths[0]), (tuple(STARTS), depths[1])):
        frontier = list(start)
        for level in range(depth):
            parts = core.pmap(ctx, expand, [(h, ctx.thorough, True) for h in frontier], chunksize=4)
            ctx.count(states=len(frontier))
            frontier = []
            for p in parts:
                for h, key in p.get('next', ()):
                    if key not in seen:
                        seen.add(key)
                        frontier.append(h)
            if ctx.violations:
                return
        if frontier:
            ctx.sample('%d states at the last level, e.g. %s' % (len(frontier), frontier[0]))
    coords = [None, (0,), (1, 2), (-89000000, 90000000, 5), (179999999, -180000000)]
    core.pmap(ctx, files, [(k, a, b) for k in ('none', 'text', 'int', 'float', 'array') for a in coords for b in coords
                           if a is None or b is None or len(a) == len(b)])
    tops = [stored(RES[False][k + '.json'])['__metainf__']['version'] for k in wsmodel.KINDS]
    core.pmap(ctx, upgrades, list(itertools.product(*(range(-1, t + 2) for t in tops))))
    overs = [(), (('zp_fact_range_cnf', 2),), (('output_format_flag_cnf', 'sentinel-3'),), (('flag_cal2_correction_cnf', False),)]
    core.pmap(ctx, process, [(a, b, k) for a in overs for b in overs[:2] for k in (False, True)])
    ctx.space_note('requests', len(operations(ctx.thorough)))
    ctx.space_note('depth', 'all sequences of %d requests from nothing, %d from two filled trees (trees merged)' % depths)
