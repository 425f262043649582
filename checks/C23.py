"""C23: progress of nested tasks adds up, cancelling reaches all of them, and the console shows it, for all task trees."""
import io
import itertools
import os
import re
import signal
import sys

from vlib import core

LEVEL = 'model_checking'

# A program is (label, total, how, steps): how = 'with' (the context manager) or 'plain' (start ... done);
# a step is ('w', work, msg), ('c', share, program), ('x',) cancel here, ('i',) Ctrl-C, ('r', kind) an error


class Boom(Exception):
    pass


class Stopped(KeyboardInterrupt):
    pass


class Left(SystemExit):
    pass


class Other(BaseException):
    pass


KINDS = {'error': Boom, 'interrupt': Stopped, 'exit': Left, 'other': Other}
BOOMS = tuple(KINDS.values())


class Seen:
    """what the root monitor is told (a monitor of our own)"""

    def __init__(self, mod):
        log = self.log = []
        self.cancelled = False
        outer = self

        class Root(mod.Monitor):
            def start(self, label, total_work=None):
                log.append(('start', label, total_work))

            def progress(self, work=None, msg=None):
                log.append(('progress', work, msg))

            def done(self):
                log.append(('done',))

            def cancel(self):
                outer.cancelled = True

            def is_cancelled(self):
                return outer.cancelled

        self.monitor = Root()


class Oracle:
    """expected events at the root: start, then (work or None, msg), then done"""

    def __init__(self):
        self.log = []
        self.cancelled = False

    def root(self, p):
        label, total, how, steps = p
        self.log.append(('start', label, total))
        try:
            self.steps(steps, lambda work, msg: self.log.append(('progress', work, msg)))
        except BOOMS:
            if how == 'with':
                self.log.append(('done',))
            raise
        self.log.append(('done',))

    def steps(self, steps, tell):
        for s in steps:
            if s[0] == 'w':
                tell(s[1], s[2])
            elif s[0] == 'c':
                self.child(s[1], s[2], tell)
            elif s[0] in 'xi':
                self.cancelled = True
            elif s[0] == 'r':
                raise KINDS[s[1] if len(s) > 1 else 'error']()

    def child(self, share, p, tell):
        label, total, how, steps = p
        if how.startswith('early'):
            self.cancelled = True
            how = how[6:]

        def up(work, msg):
            tell(share * (work / total) if work is not None and total else None,
                 '%s: %s' % (label, msg) if msg is not None else None)

        zero = 0.0 if total is not None else None
        tell(zero, label)
        try:
            self.steps(steps, up)
        except BOOMS:
            if how == 'with':
                tell(zero, label)
            raise
        tell(zero, label)


def play(monitor, p, chain, errors):
    """run a program on a real monitor"""
    label, total, how, steps = p
    chain = chain + [monitor]
    if how.startswith('early'):
        # cancelled before it has begun
        monitor.cancel()
        errors['cancelled'] = True
        how = how[6:]

    def body():
        for s in steps:
            if s[0] == 'w':
                if s[1] is None:
                    monitor.progress(msg=s[2]) if s[2] is not None else monitor.progress()
                elif s[2] is None:
                    monitor.progress(s[1])
                else:
                    monitor.progress(work=s[1], msg=s[2])
            elif s[0] == 'c':
                play(monitor.child(s[1]), s[2], chain, errors)
            elif s[0] == 'x':
                if any(m.is_cancelled() for m in chain) and not errors['cancelled']:
                    errors['list'].append('cancelled before anybody asked for it')
                monitor.cancel()
                errors['cancelled'] = True
            elif s[0] == 'i':
                os.kill(os.getpid(), signal.SIGINT)
                errors['cancelled'] = True
            elif s[0] == 'r':
                raise KINDS[s[1] if len(s) > 1 else 'error']()
            for m in chain:
                if bool(m.is_cancelled()) != errors['cancelled'] and not errors['never']:
                    errors['list'].append('after %s a monitor says cancelled = %r' % (s, m.is_cancelled()))
                elif errors['never'] and m.is_cancelled():
                    errors['list'].append('the null monitor is cancelled')

    if how == 'with':
        with monitor.starting(label, total_work=total) as m:
            if m is not monitor:
                errors['list'].append('the context is not the monitor')
            body()
    else:
        monitor.start(label, total_work=total)
        body()
        monitor.done()


def same(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x[0] != y[0] or len(x) != len(y):
            return False
        for u, v in zip(x[1:], y[1:]):
            if isinstance(u, (int, float)) and isinstance(v, (int, float)):
                if abs(u - v) > 1e-9:
                    return False
            elif u != v:
                return False
    return True


def worked(log):
    return sum(e[1] or 0 for e in log if e[0] == 'progress')


# ---- console ---------------------------------------------------------------------------------------------------
def expected_console(log, size, cancelled):
    """the lines that must be shown, one after the other"""
    lines = []
    label = total = None
    done = 0.0
    last = (None, None)

    def line(pct, msg):
        bar = ''
        if pct is not None and size:
            k = int(size * pct / 100 + 0.5)
            bar = '[%s%s] ' % ('#' * k, '-' * (size - k))
        if pct is None:
            return '%s: %s' % (label, msg or 'progress')
        return '%s: %s%3d%%%s' % (label, bar, pct, ' ' + msg if msg else '')

    for e in log:
        if e[0] == 'start':
            label, total, done, last = e[1], e[2], 0.0, (None, None)
            lines.append(line(None, 'started'))
        elif e[0] == 'progress':
            pct = None
            if e[1] is not None:
                done += e[1]
                pct = round(100. * done / total) if total else None
            if (pct, e[2]) != last:
                lines.append(line(pct, e[2]))
            last = (pct, e[2])
        else:
            lines.append(line(None, 'cancelled' if cancelled else last[1] or 'done'))
    return lines


def screen(text):
    """what a terminal shows after each flush-worthy write of a line, and at the end"""
    shown = []
    for chunk in text.split('\r')[1:]:
        row = shown[-1] if shown else ''
        row = row.split('\n')[-1]
        body = chunk.rstrip('\n')
        row = body + row[len(body):]
        shown.append(row)
    return [r.rstrip() for r in shown]


def console(mod, p, size, stay, handler, part):
    want = Oracle()
    failed = False
    try:
        want.root(p)
    except BOOMS:
        failed = True
    old = signal.getsignal(signal.SIGINT)
    out = io.StringIO()
    real, sys.stdout = sys.stdout, out
    errors = {'list': [], 'cancelled': False, 'never': False}
    got_failed = False
    try:
        signal.signal(signal.SIGINT, handler)
        m = mod.ConsoleMonitor(stay_in_line=stay, progress_bar_size=size)
        try:
            play(m, p, [], errors)
        except BOOMS:
            got_failed = True
        after = signal.getsignal(signal.SIGINT)
    finally:
        sys.stdout = real
        signal.signal(signal.SIGINT, old)
    label = 'console(%s, %s): %s' % (size, stay, p)
    for e in errors['list'][:1]:
        part.violation('%s: %s' % (label, e))
    if failed != got_failed:
        part.violation('%s: the error of the task got lost' % label)
    if p[2] == 'with' or not failed:
        if after != handler:
            part.violation('%s: Ctrl-C is not handled as before: %r' % (label, after))
    exp = expected_console(want.log, size, want.cancelled)
    text = out.getvalue()
    rows = screen(text) if stay else text.split('\n')[:-1]
    if [r.rstrip() for r in rows] != [r.rstrip() for r in exp]:
        part.violation('%s: shows %s, expected %s' % (label, rows, exp))
    if stay and (p[2] == 'with' or not failed) and not text.endswith('\n'):
        part.violation('%s: the line is not ended' % label)


# ---- programs --------------------------------------------------------------------------------------------------
def leaves(n, totals=(None, 1, 3, 10, 0), msgs=(None, 'm')):
    for total in totals:
        t = total or 1
        acts = [('w', w, m) for w in (None, 0, t, t / 2, t / 3) for m in msgs]
        for k in range(n + 1):
            for steps in itertools.product(acts, repeat=k):
                yield total, steps


def named(label, total, steps, how='with'):
    return (label, total, how, tuple(steps))


def programs(kind, thorough):
    if kind == 'flat':
        for total, steps in leaves(3):
            for how in ('with', 'plain'):
                yield named('task', total, steps, how)
    elif kind == 'child':
        for total, steps in leaves(2, msgs=(None, 'm') if thorough else ('m',)):
            for rt in (None, 10, 7.5):
                for share in (0, 1, 6.5, 10):
                    yield named('task', rt, [('c', share, named('part', total, steps))])
                    yield named('task', rt, [('w', 1, 'a'), ('c', share, named('part', total, steps, 'plain')), ('w', None, 'z')])
    elif kind == 'siblings':
        small = [(t, s) for t, s in leaves(1, totals=(None, 3, 10), msgs=('m',))]
        for (t1, s1), (t2, s2) in itertools.product(small, repeat=2):
            for a, b in ((3, 7), (0.5, 9.5), (10, 0)):
                yield named('task', 10, [('c', a, named('one', t1, s1)), ('c', b, named('two', t2, s2))])
                yield named('task', 10, [('c', a, named('one', t1, list(s1) + [('c', 1, named('two', t2, s2))]))])
    elif kind == 'deep':
        small = [(t, s) for t, s in leaves(1, totals=(None, 4), msgs=('m', None))]
        for (t1, s1), (t2, s2), (t3, s3) in itertools.product(small, repeat=3):
            yield named('task', 10, [('c', 5, named('one', t1, list(s1) + [('c', 2, named('two', t2, list(s2) + [
                ('c', 4, named('three', t3, s3))]))])), ('w', 5, None)])
    elif kind == 'odd':
        # more work than announced, messages without text, tasks that are cancelled before they have begun
        some = [('w', w, m) for w in (1, 5.5, 25) for m in (None, '', 'm')]
        for total, share, how in itertools.product((2, 10, None), (0, 4, 10), ('with', 'plain', 'early-with', 'early-plain')):
            for k in range(3):
                for steps in itertools.product(some, repeat=k):
                    yield named('task', 10, [('c', share, named('part', total, steps, how))])
                    yield named('task', 10, [('c', 5, named('one', 4, [('w', 1, None), ('c', share, named(
                        'part', total, steps, how)), ('w', 1, 'b')])), ('w', 5, None)])
    elif kind == 'events':
        # a cancel, a Ctrl-C or an error at every point of a tree
        base = [('w', 3, 'a'), ('w', 2, None)]
        for evs in ([('x',)], [('i',)], [('r',)], [('x',), ('r',)], [('i',), ('r',)], [('x',), ('x',)],
                    [('r', 'interrupt')], [('r', 'exit')], [('r', 'other')], [('i',), ('r', 'interrupt')]):
            for depth in range(3):
                for at in range(3):
                    for how in itertools.product(('with', 'plain'), repeat=3):
                        progs = None
                        for d in (2, 1, 0):
                            steps = list(base)
                            if progs is not None:
                                steps.insert(1, ('c', 2, progs))
                            if d == depth:
                                k = min(at, len(steps))
                                steps[k:k] = evs
                            progs = named('level%d' % d, 5, steps, how[d])
                        yield progs


def batch(item):
    kind, thorough, part_no, of = item
    import dedop.util.monitor as mod
    part = core.Part()
    for i, p in enumerate(programs(kind, thorough)):
        if i % of != part_no:
            continue
        part.count(states=1)
        part.nontriv(p)
        uses_signal = "('i',)" in repr(p)
        # 1. an own monitor at the root
        if not uses_signal:
            want = Oracle()
            try:
                want.root(p)
                failed = False
            except BOOMS:
                failed = True
            seen = Seen(mod)
            errors = {'list': [], 'cancelled': False, 'never': False}
            try:
                play(seen.monitor, p, [], errors)
                got_failed = False
            except BOOMS:
                got_failed = True
            part.count(transitions=len(want.log), traces=1)
            for e in errors['list'][:1]:
                part.violation('%s: %s' % (p, e))
            if failed != got_failed:
                part.violation('%s: the error of the task got lost' % (p,))
            if not same(seen.log, want.log):
                part.violation('%s: tells %s, expected %s' % (p, seen.log, want.log))
            # a completed part is worth its share: checked on its own, without the oracle's formula
            if kind == 'child' and not failed:
                for s in p[3]:
                    if s[0] == 'c' and s[2][1]:
                        full = sum(x[1] or 0 for x in s[2][3])
                        own = sum(x[1] or 0 for x in p[3] if x[0] == 'w')
                        if abs(worked(seen.log) - own - s[1] * full / s[2][1]) > 1e-9:
                            part.violation('%s: %g of work was reported' % (p, worked(seen.log)))
            # 2. nobody is interested
            errors = {'list': [], 'cancelled': False, 'never': True}
            try:
                play(mod.Monitor.NULL, p, [], errors)
            except BOOMS:
                pass
            for e in errors['list'][:1]:
                part.violation('%s: %s' % (p, e))
        # 3. the console
        for j, (size, stay) in enumerate(((None, False), (0, True), (10, True), (80, True), (7, False))):
            if not thorough and kind != 'events' and (i + j) % 5 > 2:
                continue
            for handler in ((signal.default_int_handler, signal.SIG_IGN, signal.SIG_DFL) if kind == 'events' else
                            (signal.default_int_handler,)):
                part.count(traces=1)
                console(mod, p, size, stay, handler, part)
        if len(part['violations']) > 3:
            break
    return part


def reuse(item):
    """one console monitor for several tasks in a row, the second one after an error"""
    import dedop.util.monitor as mod
    part = core.Part()
    first, second, stay = item
    out = io.StringIO()
    real, sys.stdout = sys.stdout, out
    try:
        m = mod.ConsoleMonitor(stay_in_line=stay, progress_bar_size=10)
        for p in (first, second):
            try:
                play(m, p, [], {'list': [], 'cancelled': False, 'never': False})
            except BOOMS:
                pass
        after = signal.getsignal(signal.SIGINT)
    finally:
        sys.stdout = real
    part.count(traces=1, states=1)
    part.nontriv(item)
    if after != signal.default_int_handler:
        part.violation('%s: Ctrl-C is not handled as before' % (item,))
    # work and percentage start again; the text of the last line may be the last message
    logs = []
    o = Oracle()
    try:
        o.root(second)
    except BOOMS:
        pass
    want = expected_console(o.log, 10, False)
    text = out.getvalue()
    rows = screen(text) if stay else text.split('\n')[:-1]
    tail = rows[-len(want):]
    if tail[:-1] != [r.rstrip() for r in want[:-1]]:
        part.violation('%s: the second task shows %s, expected %s' % (item, tail, want))
    return part


def run(ctx):
    signal.signal(signal.SIGINT, signal.default_int_handler)
    ctx.rule = 'every task tree'
    n = 8
    kinds = ('flat', 'child', 'siblings', 'deep', 'odd', 'events')
    core.pmap(ctx, batch, [(k, ctx.thorough, i, n) for k in kinds for i in range(n)], chunksize=1)
    tasks = [named('task one', 10, [('w', 4, None)]), named('task one', 10, [('w', 10, None), ('r',)]),
             named('t', 4, [('w', 1, None), ('w', 3, None)]), named('t', None, [('w', None, None)]),
             named('a much longer label of a task', 3, [('w', 3, None)])]
    core.pmap(ctx, reuse, [(a, b, s) for a in tasks for b in tasks for s in (False, True)])
    for k in kinds:
        ctx.space_note(k, sum(1 for _ in programs(k, ctx.thorough)))
    ctx.sample('a tree: %s' % (next(iter(programs('deep', False))),))
