"""C05: the log file is recovered after a crash: no flushed record is lost, none is invented or altered."""
from dfir_ntfs import LogFile as L
from ..core import SimFile, drain, pick
from .. import loghist
from ..oracle.logmodel import LogModel, check_listing, check_structures

LEVEL = 'exploration'
RUNS = {'quick': 18000, 'thorough': 120000}
SHRINK = ['ops']
RULE = ('one run = a history of log records, checkpoints and flushes written by a simulated log file service (1.1 with tail copies or 2.0 with fast '
        'pages, wrapping several times), a crash at an arbitrary page write keeping an arbitrary part of what was not flushed, then a full parse of the '
        'log file. Non-trivial: the log wrapped, a record spans pages, or a page needed its tail or fast copy')
STATE_MEASURE = 'distinct (version, wrapped, crash mode, pages recovered from copies, partial records, un-flushed records present) tuples'
REAL = ['dfir_ntfs.LogFile: LogFileParser, restart pages and areas, log record pages, tail and fast page recovery, client data, open attribute table']
STUB = ['log file service and NTFS client (sim.writers.logsim)', 'write-back disk (sim.core.SimDisk)', 'acquired $LogFile file (SimFile)']
ASSUMPTIONS = ['a sector is written atomically; pages rewritten in place are first copied to a tail page (1.1) or a fast page (2.x) behind a barrier; '
               'in-place writes of the fast pages are ordered', 'every page a record spans carries an LSN not lower than that record']
MUST_HIT = ['dax', 'log-wrap', 'multi-page-record', 'tail-copy', 'bulk', 'crash-in-write', 'torn-write', 'page-from-copy', 'partial-record', 'oat-resolved', 'dump-resolved', 'fields-unflushed-kept', 'between-dumps', 'new-client']


def generate(rng, tier):
    sc = loghist.gen_scene(rng, tier)
    sc['cfg']['hdr'] = rng.randrange(1 << 20) if rng.random() < 0.5 else 0
    sc['cfg']['minor'] = rng.randrange(2)
    if sc['cfg']['cluster'] == 4096:
        sc['cfg']['ra'] = pick(rng, [64, 72, 80, 88, 96, 104, 112])
    sc['slack'] = pick(rng, [0, 0, 512, 3584, 4096, 61440, 12288])
    return sc


def execute(sc, ctx):
    sim, image = loghist.build(sc, ctx)
    model = LogModel(sim, image)
    if sc.get('slack'):
        image = image + b'\xff' * sc['slack']     # acquired together with what follows the log in its last cluster
        ctx.probe('slack')
    fo = SimFile(ctx, image, (), 'log')
    p = L.LogFileParser(fo)
    out = drain(ctx, p.parse_ntfs_records(), 5 * len(sim.records) + 10)
    got, must = check_listing(ctx, L, sim, model, out)
    check_structures(ctx, L, sim, model, image)
    # Flushed records are durable by the protocol, whatever was being written when the power failed.
    live = {}
    for r in sim.records:
        for part in r.parts:
            live[part[0]] = max(live.get(part[0], 0), part[1])
    for q, vs in sim.inplace.items():
        live[q] = max([live.get(q, 0)] + [v.cycle for v in vs])
    for r in sim.records:
        if r.acked and all(live[a] == c for a, c in r.parts) and not in_flight(sim, r):
            if not model.durable(r):
                from ..core import HarnessError
                raise HarnessError('the simulated log service lost a flushed record: %d' % r.lsn)
    if any(not sim.by_lsn[x].acked for x in got):
        ctx.probe('fields-unflushed-kept')
    n = sum(1 for v in model.page.values() if v.copy)
    if n:
        ctx.probe('page-from-copy')
    # A second parse, and one without recovery, on the same object.
    again = [x.lsn for x in drain(ctx, p.parse_ntfs_records(), 5 * len(sim.records) + 10)]
    ctx.check(again == [x.lsn for x in out], 'second-parse', 'a second parse reports other records')
    raw = [x.lsn for x in drain(ctx, p.parse_ntfs_records(False), 5 * len(sim.records) + 10)]
    fresh = [x.lsn for x in drain(ctx, L.LogFileParser(SimFile(ctx, image, (), 'log')).parse_ntfs_records(False), 5 * len(sim.records) + 10)]
    ctx.check(raw == fresh, 'changes-kept', 'a parse without recovery, after one with recovery, reports other records than one with a new object')
    ctx.check(all(a < b for a, b in zip(raw, raw[1:])) and all(x in sim.by_lsn for x in raw), 'phantom-record', 'parse without recovery')
    wrapped = sim.cycle > sim.cfg['seq0']
    ctx.nontrivial = wrapped or n > 0 or any(len(r.parts) > 1 for r in sim.records)
    ctx.state(sim.cfg['ver'], wrapped, sc['crash']['mode'] if sc['crash_at'] > 0 else '', min(n, 5), len(got) > len(must))
    ctx.sample = {'cfg': sc['cfg'], 'ops': sc['ops'][:6], 'crash_at': sc['crash_at'], 'crash': sc['crash']}


def in_flight(sim, r):
    """Part of a page which is being reused for the next cycle when the crash hits."""
    for p, c in r.parts:
        if sim.meta[p]['cycle'] != c:
            return True
    return False
