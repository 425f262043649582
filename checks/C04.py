"""C04: the stack of a surface holds exactly the beams of the bursts that see it, whatever the streaming order."""
from vlib import core, l1a, pipeline, scen

LEVEL = 'model_checking'

# everything that tells which bursts and beams made it into a stack, and the order of the records
ONLY = {'time', 'nb_stack', 'beam_ang', 'look_ang', 'start_look_angle_stack', 'stop_look_angle_stack',
        'start_beam_ang_stack', 'stop_beam_ang_stack', 'seq_count', 'isp_coarse_time', 'agc_ku', 'waveform',
        'x_pos', 'y_pos', 'z_pos', 'records_count', 'burst_start_ind', 'burst_stop_ind', 'iq', 'meas_x_pos',
        'meas_y_pos', 'meas_z_pos', 'lat', 'lon', 'cog_cor', 'roll_sral_mispointing'}

PASSES = {
    'mid': dict(),
    'south': dict(lat0=-55.0, lon0=-170.0, heading=-70.0),
    'north': dict(lat0=70.0, lon0=100.0, heading=30.0),
    'dateline': dict(lat0=12.0, lon0=179.7, heading=10.0),
    'equator': dict(lat0=-0.5, lon0=-0.1, heading=85.0),
    'climbing': dict(climb=25.0),
    'sinking': dict(lat0=50.0, heading=-80.0, climb=-25.0),
}


def case(item):
    pipeline.fast_fit()
    name, n, extra, cnf, chd = item
    part = core.Part()
    kw = dict(PASSES[name], npulse=chd.get('N_ku_pulses_burst_chd', l1a.NP), brf=chd.get('brf_sar_chd'))
    bursts = l1a.orbit(n, **kw)
    if extra == 'drain':
        bursts = scen.drained(bursts, npulse=kw['npulse'], brf=kw['brf'])
    elif extra == 'two':
        bursts = bursts + l1a.shift_time(l1a.orbit(n, tag=3, **kw), 500.0)
    label = 'pass %s, %d bursts (%s), cnf %s chd %s' % (name, n, extra, cnf, chd)
    res = scen.check_reference(part, label, bursts, cnf, chd, only=ONLY)
    if res is not None and res.error is None:
        order(part, label, res)
    return part


def order(part, label, res):
    t = res.l1b.value['time']
    if not all(b > a for a, b in zip(t, t[1:])):
        part.violation('%s: records are not in strictly increasing time order' % label)
    c = res.l1bs.value['records_count']
    if not all(b > a for a, b in zip(c, c[1:])):
        part.violation('%s: surface counters are not strictly increasing' % label)


def run(ctx):
    items = []
    lens = list(range(1, 25)) if not ctx.thorough else list(range(1, 60))
    for n in lens:
        items.append(('mid', n, 'drain', {}, {}))
    for name in PASSES:
        for n in (9, 14, 20):
            items.append((name, n, 'two', {}, {}))
    for looks in range(1, 13):
        for n in (7, 13, 18):
            items.append(('mid', n, 'drain', {'N_looks_stack_cnf': looks}, {}))
    for npulse in (4, 6, 8, 10, 12):
        for looks in (2, 5, 9):
            items.append(('mid', 16, 'drain', {'N_looks_stack_cnf': looks, 'azimuth_window_width_cnf': npulse},
                          {'N_ku_pulses_burst_chd': npulse, 'brf_sar_chd': 0.33 * npulse}))
    # bursts at least as dense as the surfaces (fewer would leave ground that no surface stands for)
    for brf in (2.55, 3.9, 5.2, 7.8):
        for n in (20, 40):
            items.append(('mid', n, 'drain', {}, {'brf_sar_chd': brf}))
    # long enough for the streaming queues to reach their working size and to drain at the end of the file
    longs = (96, 104, 111, 125, 140) if not ctx.thorough else range(96, 200, 4)
    for n in longs:
        items.append(('mid', n, 'single', {}, {}))
    for name in ('south', 'north', 'dateline'):
        items.append((name, 110, 'single', {}, {}))
    # the full size of the instrument: the start-up queue is only just long enough for 64 beams
    for n, brf, looks, m, name in ((118, 21.5, 64, 'approx', 'mid'), (125, 21.5, 50, 'exact', 'south'),
                                   (230, 36.7, 110, 'approx', 'mid'), (130, 22.3, 64, 'approx', 'dateline')):
        items.append((name, n, 'single', {'N_looks_stack_cnf': looks, 'azimuth_window_width_cnf': 64,
                                          'flag_azimuth_processing_method_cnf': m, 'zp_fact_range_cnf': 1},
                      {'N_ku_pulses_burst_chd': 64, 'brf_sar_chd': brf}))
    if ctx.thorough:
        for name in PASSES:
            for n in range(1, 31):
                for looks in (3, 6, 8, 20):
                    for m in ('approx', 'exact'):
                        items.append((name, n, 'drain', {'N_looks_stack_cnf': looks,
                                                         'flag_azimuth_processing_method_cnf': m}, {}))
    # the long ones first
    items.sort(key=lambda i: -i[1])
    ctx.space_note('length of the first segment', lens)
    ctx.space_note('passes', sorted(PASSES))
    ctx.space_note('looks per stack', '1..12')
    ctx.space_note('pulses per burst', '4, 6, 8, 10, 12, 64')
    parts = core.pmap(ctx, case, items)
    scen.ambiguities(ctx, parts)
