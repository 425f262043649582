"""Abstract model of the workspaces of a user, and directory snapshots.

A model state is a plain dict:
  {'current': name or None,
   'ws': {name: {'current': name or None, 'inputs': {file: content}, 'notebooks': {file: content},
                 'configs': {name: {'files': {'CNF.json': content, ...}, 'outputs': {file: content}}}}}}
"""
import copy
import os

KINDS = ('CHD', 'CNF', 'CST')


def empty():
    return {'current': None, 'ws': {}}


def new_ws():
    return {'current': None, 'inputs': {}, 'notebooks': {}, 'configs': {}}


class Refused(Exception):
    """the operation must be refused and change nothing"""


class Either(Exception):
    """whether the operation is refused is not specified; in any case it changes nothing"""


class Model:
    """operations on a copy of a state; raise Refused / Either"""

    def __init__(self, state, resources):
        self.s = copy.deepcopy(state)
        self.res = resources        # {False: {...default files}, True: {... cryosat files}}

    def ws(self, w):
        if w not in self.s['ws']:
            raise Refused('no workspace %s' % w)
        return self.s['ws'][w]

    def conf(self, w, c):
        cs = self.ws(w)['configs']
        if c not in cs:
            raise Refused('no configuration %s' % c)
        return cs[c]

    def create_workspace(self, w):
        if w in self.s['ws']:
            x = self.s['ws'][w]
            if x['configs'] or x['inputs'] or x['notebooks']:
                raise Refused('exists')
            raise Either('an empty workspace may be created again')
        self.s['ws'][w] = new_ws()

    def delete_workspace(self, w):
        self.ws(w)
        del self.s['ws'][w]

    def copy_workspace(self, w, v):
        src = self.ws(w)
        if v in self.s['ws']:
            raise Refused('exists')
        self.s['ws'][v] = copy.deepcopy(src)

    def rename_workspace(self, w, v):
        self.copy_workspace(w, v)
        del self.s['ws'][w]

    def set_current_workspace_name(self, w):
        self.ws(w)
        self.s['current'] = w

    def create_config(self, w, c, cryosat=False):
        x = self.ws(w)
        if c in x['configs']:
            raise Refused('exists')
        x['configs'][c] = {'files': dict(self.res[bool(cryosat)]), 'outputs': {}}

    def delete_config(self, w, c):
        self.conf(w, c)
        del self.s['ws'][w]['configs'][c]

    def copy_config(self, w, c, e):
        src = self.conf(w, c)
        if e in self.s['ws'][w]['configs']:
            raise Refused('exists')
        self.s['ws'][w]['configs'][e] = copy.deepcopy(src)

    def rename_config(self, w, c, e):
        self.copy_config(w, c, e)
        del self.s['ws'][w]['configs'][c]

    def set_current_config_name(self, w, c):
        self.conf(w, c)
        self.s['ws'][w]['current'] = c

    def write_config_file(self, w, c, kind, text):
        self.conf(w, c)['files'][kind + '.json'] = text.encode()

    def add_inputs(self, w, contents):
        """contents: [(name, content or None if the file cannot be read)]"""
        x = self.ws(w)
        for name, content in contents:
            if content is None:
                raise Refused('no such file')
            x['inputs'][name] = content

    def remove_inputs(self, w, names):
        x = self.s['ws'].get(w)
        if x is None:
            raise Either('no workspace')
        for n in names:
            x['inputs'].pop(n, None)

    def remove_outputs(self, w, c):
        x = self.s['ws'].get(w, {}).get('configs', {}).get(c)
        if x is None:
            raise Refused('nothing there')
        if not x['outputs']:
            raise Either('no outputs')
        x['outputs'].clear()

    def delete_all_workspaces(self):
        self.s = empty()

    def add_output(self, w, c, name, content):
        """a run of the processor"""
        self.conf(w, c)['outputs'][name] = content

    def files(self):
        return files(self.s)


def files(state):
    """{path: content} of everything but the selection"""
    out = {}
    for w, x in state['ws'].items():
        for n, t in x['inputs'].items():
            out['%s/inputs/%s' % (w, n)] = t
        for n, t in x['notebooks'].items():
            out['%s/notebooks/%s' % (w, n)] = t
        for c, y in x['configs'].items():
            for n, t in y['files'].items():
                out['%s/configs/%s/%s' % (w, c, n)] = t
            for n, t in y['outputs'].items():
                out['%s/configs/%s/outputs/%s' % (w, c, n)] = t
    return out


# ---- directory trees -----------------------------------------------------------------------------------------
def snapshot(root):
    """{relative path: bytes, None for a directory, ('link', target)}"""
    out = {}
    for d, dirs, names in os.walk(root):
        rel = os.path.relpath(d, root)
        rel = '' if rel == '.' else rel + '/'
        for n in dirs:
            p = os.path.join(d, n)
            out[rel + n] = ('link', os.readlink(p)) if os.path.islink(p) else None
        for n in names:
            p = os.path.join(d, n)
            if os.path.islink(p):
                out[rel + n] = ('link', os.readlink(p))
            elif os.path.isfile(p):
                with open(p, 'rb') as fp:
                    out[rel + n] = fp.read()
            else:
                out[rel + n] = ('special',)
    return out


def restore(root, snap, now=None):
    """make the tree equal to ``snap`` (``now``: its present content, if known)"""
    now = snapshot(root) if now is None else now
    for p in sorted(now, key=len, reverse=True):
        if p not in snap or (now[p] is None) != (snap[p] is None):
            q = os.path.join(root, p)
            if now[p] is None:
                os.rmdir(q)
            else:
                os.remove(q)
    for p in sorted(snap, key=len):
        q = os.path.join(root, p)
        if p in now and (now[p] is None) == (snap[p] is None) and now[p] == snap[p]:
            continue
        if snap[p] is None:
            os.mkdir(q)
        elif isinstance(snap[p], tuple):
            os.symlink(snap[p][1], q)
        else:
            with open(q, 'wb') as fp:
                fp.write(snap[p])


def diff(a, b, limit=6):
    out = []
    for p in sorted(set(a) | set(b)):
        if p not in a:
            out.append('+' + p)
        elif p not in b:
            out.append('-' + p)
        elif a[p] != b[p]:
            out.append('~' + p)
    return out[:limit]


def resources(repo):
    out = {}
    for flag, folder in ((False, 'config'), (True, 'cryosat_config')):
        out[flag] = {}
        for k in KINDS:
            with open(os.path.join(repo, 'dedop', 'ui', 'data', folder, k + '.json'), 'rb') as fp:
                out[flag][k + '.json'] = fp.read()
    return out
