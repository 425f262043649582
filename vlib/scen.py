"""Helpers shared by the checks that run the whole pipeline."""
import numpy as np

from . import core, l1a, pipeline, refmodel


def drained(bursts, gap=100.0, tail=5, tag=9, **kw):
    """the bursts, followed by a short segment after a gap, so that the first segment is processed to its end
    (a lone segment with fewer surfaces than the start-up queue is refused by the processor)"""
    return list(bursts) + l1a.shift_time(l1a.orbit(tail, tag=tag, **kw), bursts[-1]['time'] - 1000.0 + gap)


def kind_of(cnf):
    return 'extended' if (cnf or {}).get('output_format_flag_cnf', 'extended') == 'extended' else 's3'


def check_reference(part, label, bursts, cnf=None, chd=None, cst=None, only=None, skip=(), only_bs=None, l1bs=True,
                    wave_tol=2e-6, result=None, ns=None, npulse=None):
    """run the real processor and compare every record of its products with the reference model"""
    part.count(evaluations=1, traces=1)
    try:
        recs, k = pipeline.reference(bursts, cnf, chd, cst)
    except refmodel.Ambiguous as err:
        part.count(states=1)
        part.setdefault('ambiguous', []).append('%s: %s' % (label, err))
        return None
    h = pipeline.merged(l1a.CHD, chd)
    res = result or pipeline.run(bursts, cnf, chd, cst, l1bs=l1bs, ns=ns or h['N_samples_sar_chd'],
                                 npulse=npulse or h['N_ku_pulses_burst_chd'])
    if res.error is not None:
        part.violation('%s: processing failed: %s: %s' % (label, type(res.error).__name__, res.error), label)
        return res
    part.count(states=len(recs), transitions=sum(r['size'] for r in recs))
    for r in recs:
        part.nontriv((label, r['counter'], r['size'], round(float(r['surface'].time), 6)))
    for prod, kind, sel in ((res.l1b, kind_of(cnf), only), (res.l1bs, 'l1bs', only_bs or only)):
        if prod is None:
            continue
        for d in pipeline.compare(prod, recs, k, kind, only=sel, skip=skip, wave_tol=wave_tol)[:3]:
            part.violation('%s: %s %s' % (label, 'L1BS' if kind == 'l1bs' else 'L1B', d), label)
    part.sample('%s -> %d records, stack sizes %s' % (label, len(recs), [r['size'] for r in recs][:12]))
    return res


def same_products(a, b, skip=()):
    """differences between two Results, byte for byte"""
    out = []
    for which in ('l1b', 'l1bs'):
        p, q = getattr(a, which), getattr(b, which)
        if (p is None) != (q is None):
            out.append('%s exists in one case only' % which)
        elif p is not None:
            out.extend('%s %s' % (which.upper(), d) for d in diff_products(p, q, skip))
    return out


def diff_products(p, q, skip=()):
    if p.n != q.n:
        return ['%d records instead of %d' % (p.n, q.n)]
    sp, sq = p.signature(skip), q.signature(skip)
    return ['variable %s differs' % k for k in sorted(set(sp) | set(sq)) if sp.get(k) != sq.get(k)]


def records(prod, skip=()):
    return [prod.record(i, skip) for i in range(prod.n)]


def ambiguities(ctx, parts):
    n = sum(len(p.get('ambiguous', ())) for p in parts)
    if n:
        ctx.notes.append('%d cases skipped because the expected result hangs on a floating point tie' % n)
    total = sum(p['evaluations'] for p in parts)
    if total and n > total * 0.05:
        raise RuntimeError('harness error: %d of %d cases are ties' % (n, total))
