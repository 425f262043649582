"""C17: upgrading a configuration applies exactly the changes since its version, and keeps the user's other values."""
import itertools
import json
import os
import shutil
import sys

from vlib import core

LEVEL = 'model_checking'

KEYS = ('a_x', 'b_x')
OPS = (None, '+', '*', '-')
KINDS = ('CHD', 'CNF', 'CST')


def package(d):
    """a copy of the program whose default configuration can be replaced"""
    shutil.copytree(os.path.join(core.REPO, 'dedop'), os.path.join(d, 'dedop'),
                    ignore=shutil.ignore_patterns('__pycache__', '*.pyc', 'notebooks'))
    return os.path.join(d, 'dedop', 'ui', 'data', 'config')


def reload_manager(d):
    for m in [m for m in sys.modules if m == 'dedop' or m.startswith('dedop.')]:
        del sys.modules[m]
    sys.path[:] = [d] + [p for p in sys.path if p not in (core.REPO, d)]
    import importlib
    importlib.invalidate_caches()
    from dedop.ui.workspace_manager import WorkspaceManager
    assert os.path.realpath(sys.modules['dedop'].__file__).startswith(os.path.realpath(d))
    return WorkspaceManager


def val(v):
    return {'value': v, 'units': 'u', 'description': 'text %s' % v}


def make_default(kind, seqs, listed=3, order=1):
    """a default configuration of version ``listed`` with the given history of each key"""
    log = [{'version': 0, 'parameters': [], 'comment': 'initial'}]
    for i in range(listed):
        ps = [[k, s[i], 'why'] for k, s in zip(KEYS, seqs) if s[i]]
        log.append({'version': i + 1, 'parameters': ps[::order], 'comment': 'c%d' % i})
    doc = {'__metainf__': {'description': kind, 'version': listed, 'changelog': log}}
    doc['same'] = val('default same')
    for k, s in zip(KEYS, seqs):
        last = [o for o in s if o]
        if not last or last[-1] != '-':
            doc[k] = val('default ' + k)
    return doc


def upgraded(user, default):
    """the specification"""
    cur = user['__metainf__']['version'] if '__metainf__' in user else -1
    if cur >= default['__metainf__']['version']:
        return user
    out = {k: v for k, v in user.items() if k != '__metainf__'}
    last = {}
    for entry in default['__metainf__']['changelog']:
        if entry['version'] > cur:
            for name, op, _ in entry['parameters']:
                last[name] = op
    for name, op in last.items():
        if op == '-':
            out.pop(name, None)
        else:
            out[name] = default[name]
    out['__metainf__'] = default['__metainf__']
    return out


def ver(doc):
    return doc['__metainf__']['version'] if '__metainf__' in doc else -1


def users(kind):
    for version in (None, 0, 1, 2, 3, 4):
        for have in itertools.product((False, True), repeat=len(KEYS)):
            doc = {}
            if version is not None:
                doc['__metainf__'] = {'description': 'mine', 'version': version,
                                      'changelog': [{'version': 0, 'parameters': [], 'comment': ''}]}
            doc['same'] = val('my same')
            doc['own'] = val(17)
            for k, h in zip(KEYS, have):
                if h:
                    doc[k] = val('my ' + k)
            yield doc


def dump(path, doc):
    with open(path, 'w') as fp:
        json.dump(doc, fp)


def load(path):
    with open(path) as fp:
        return json.load(fp)


def case(item):
    """one batch of default configurations, each with all users' files"""
    batch = item
    part = core.Part()
    with core.scratch('c17') as d:
        folder = package(d)
        others = {k: make_default(k, ((None,) * 3,) * 2) for k in KINDS}
        base = os.path.join(d, 'ws')
        conf = os.path.join(base, 'w', 'configs', 'c')
        os.makedirs(conf)
        for kind, seqs, order in batch:
            default = make_default(kind, seqs, order=order)
            for k in KINDS:
                dump(os.path.join(folder, k + '.json'), default if k == kind else others[k])
            m = reload_manager(d)(base)
            for user in users(kind):
                for k in KINDS:
                    dump(os.path.join(conf, k + '.json'), user if k == kind else others[k])
                label = '%s: history %s, file of version %s with %s' % (kind, seqs, ver(user), sorted(user))
                want = upgraded(user, default)
                path = os.path.join(conf, kind + '.json')
                for turn in (1, 2):
                    got_version = m.upgrade_config('w', 'c', kind)
                    got = load(path)
                    if got != want:
                        part.violation('%s: upgrade %d gives %s, expected %s' % (
                            label, turn, short(got), short(want)))
                        break
                    if got_version != ver(want) or m.get_config_version('w', 'c', kind) != ver(want):
                        part.violation('%s: version %s reported, expected %s' % (label, got_version, ver(want)))
                        break
                for k in KINDS:
                    if k != kind and load(os.path.join(conf, k + '.json')) != others[k]:
                        part.violation('%s: %s was changed too' % (label, k))
                if sorted(os.listdir(conf)) != ['CHD.json', 'CNF.json', 'CST.json']:
                    part.violation('%s: left %s' % (label, os.listdir(conf)))
                part.count(states=1, transitions=2, traces=1)
            if m.get_default_config_version(kind) != 3:
                part.violation('default version is %s' % m.get_default_config_version(kind))
            if len(part['violations']) > 10:
                break
        part.sample('%s, history of changes %s: all versions and contents of the file' % batch[0][:2])
    return part


def short(doc):
    return {k: (v.get('value') if k != '__metainf__' else v.get('version')) for k, v in doc.items()}


def together(item):
    """upgrade of all three files at a time, each at its own version"""
    part = core.Part()
    versions, order = item
    with core.scratch('c17') as d:
        folder = package(d)
        defaults = {}
        for i, k in enumerate(KINDS):
            seqs = (('+', None, '*')[i:] + ('+', None, '*')[:i], (None, '-', None))
            defaults[k] = make_default(k, seqs, listed=3)
            defaults[k]['__metainf__']['version'] = 3 + i
            dump(os.path.join(folder, k + '.json'), defaults[k])
        m = reload_manager(d)(os.path.join(d, 'ws'))
        if tuple(m.get_all_default_config_version()) != (3, 4, 5):
            part.violation('default versions %s' % (m.get_all_default_config_version(),))
        docs = {}
        for ws, c in (('w', 'c'), ('w', 'c2'), ('w2', 'c')):
            conf = os.path.join(d, 'ws', ws, 'configs', c)
            os.makedirs(conf)
            for k, v in zip(KINDS, versions):
                doc = {'same': val('mine'), 'b_x': val(3)}
                if v is not None:
                    doc['__metainf__'] = {'version': v, 'changelog': []}
                docs[ws, c, k] = doc
                dump(os.path.join(conf, k + '.json'), doc)
        if order == 'all':
            got = tuple(m.upgrade_all_config('w', 'c'))
        else:
            by = {k: m.upgrade_config('w', 'c', k) for k in order}
            got = tuple(by[k] for k in KINDS)
        want = {k: upgraded(docs['w', 'c', k], defaults[k]) for k in KINDS}
        label = 'files of versions %s, %s' % (versions, order)
        if got != tuple(ver(want[k]) for k in KINDS):
            part.violation('%s: versions %s' % (label, got))
        if tuple(m.get_all_config_version('w', 'c')) != tuple(ver(want[k]) for k in KINDS):
            part.violation('%s: versions read back %s' % (label, m.get_all_config_version('w', 'c')))
        for (ws, c, k), doc in docs.items():
            now = load(os.path.join(d, 'ws', ws, 'configs', c, k + '.json'))
            exp = want[k] if (ws, c) == ('w', 'c') else doc
            if now != exp:
                part.violation('%s: %s/%s/%s is %s, expected %s' % (label, ws, c, k, short(now), short(exp)))
        part.count(states=1, transitions=3, traces=1)
    return part


def shipped(item):
    """files of every older version, made from the shipped default, become usable"""
    kind, version, edited = item
    part = core.Part()
    from dedop.ui.workspace_manager import WorkspaceManager
    from dedop.conf import CharacterisationFile, ConfigurationFile, ConstantsFile
    import warnings
    default = load(os.path.join(core.REPO, 'dedop', 'ui', 'data', 'config', kind + '.json'))
    touched = {p[0] for e in default['__metainf__']['changelog'] if e['version'] > version for p in e['parameters']}
    with core.scratch('c17') as d:
        m = WorkspaceManager(os.path.join(d, 'ws'))
        m.create_workspace('w')
        m.create_config('w', 'c')
        user = {k: v for k, v in default.items() if k not in touched and k != '__metainf__'}
        if edited:
            user = {k: dict(v, value=9) if isinstance(v['value'], (int, float)) and not isinstance(v['value'], bool)
                    else v for k, v in user.items()}
        for k in touched:
            user[k] = val(1)
        if version >= 0:
            user['__metainf__'] = {'version': version, 'changelog': []}
        path = m.get_config_file('w', 'c', kind)
        dump(path, user)
        m.upgrade_all_config('w', 'c')
        got, want = load(path), upgraded(user, default)
        label = 'shipped %s, file of version %d%s' % (kind, version, ', edited' if edited else '')
        if got != want:
            part.violation('%s: %s' % (label, [k for k in set(got) | set(want) if got.get(k) != want.get(k)]))
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter('always')
            cst = ConstantsFile(m.get_config_file('w', 'c', 'CST'))
            CharacterisationFile(cst, m.get_config_file('w', 'c', 'CHD'))
            ConfigurationFile(m.get_config_file('w', 'c', 'CNF'))
        for w in rec:
            part.violation('%s: %s' % (label, w.message))
        part.count(states=1, transitions=1, traces=1)
    return part


def run(ctx):
    ctx.rule = 'every history of changes x every version and content of the file'
    seqs = list(itertools.product(OPS, repeat=3))
    second = seqs if ctx.thorough else [s for s in seqs if sum(o is not None for o in s) <= 1]
    defaults = [('CNF', (a, b), 1) for a in seqs for b in second]
    defaults += [('CNF', (a, b), -1) for a in seqs if len([o for o in a if o]) >= 2 for b in second if b != (None,) * 3]
    defaults += [(k, (a, (None, '-', None)), 1) for a in seqs[:: 1 if ctx.thorough else 3] for k in ('CHD', 'CST')]
    n = 16
    items = [defaults[i::n * 8] for i in range(n * 8)]
    core.pmap(ctx, case, items, fresh=True)
    vs = (None, 0, 2, 3, 4, 6)
    core.pmap(ctx, together, [(t, o) for t in itertools.product(vs, repeat=3) for o in
                              (('all',) if not ctx.thorough else ('all', ('CST', 'CNF', 'CHD'), ('CNF', 'CHD', 'CST')))],
              fresh=True)
    core.pmap(ctx, shipped, [(k, v, e) for k, top in (('CHD', 1), ('CNF', 3), ('CST', 0)) for v in range(-1, top)
                             for e in (False, True)])
    ctx.space_note('changelogs', '%d histories of two parameters over three versions' % len(defaults))
    ctx.space_note('files', 'no version, versions 0..4, each parameter present or not, upgraded twice')
