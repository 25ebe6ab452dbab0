"""C06: damage to parts of a log file is contained: other records are still reported, nothing is invented, errors are not hidden."""
import struct
from dfir_ntfs import LogFile as L
from ..core import SimFile, Violation, drain, pick, wpick, rng_for
from .. import loghist
from ..oracle.logmodel import LogModel, check_listing
from ..writers.logsim import PAGE
from ..writers import ntfs

LEVEL = 'exploration'
RUNS = {'quick': 30000, 'thorough': 400000}
SHRINK = ['damage', 'faults', 'ops']
RULE = ('one run = a log file written by the simulated log file service, a crash, then damaged media: bad, zeroed, overwritten or misdirected pages, a damaged '
        'restart page, corrupt record headers, a truncated file, read errors; then a full parse. Non-trivial: at least one damaged page or read error')
STATE_MEASURE = 'distinct (version, set of damage kinds, read fault kind, outcome) tuples'
REAL = ['dfir_ntfs.LogFile: LogFileParser, restart pages and areas, log record pages, tail and fast page recovery, client data, open attribute table']
STUB = ['log file service and NTFS client (sim.writers.logsim)', 'write-back disk (sim.core.SimDisk)', 'acquired $LogFile file (SimFile)']
ASSUMPTIONS = ['a damaged page fails its update sequence check or holds whole pages written elsewhere; a page corrupted before it was protected only loses its own records',
               'when both restart pages are unusable, refusing the file is the right answer']
MUST_HIT = ['zeroed-page', 'bad-sector-in-page', 'misdirected-page', 'marked-bad', 'corrupt-inside', 'restart-damaged', 'refused', 'early-eof', 'eio-transient', 'eio-bad-sector', 'retried']


def generate(rng, tier):
    sc = loghist.gen_scene(rng, tier)
    n = (34 if sc['cfg']['ver'] != 11 else 4) + sc['cfg']['inf']
    start = n - sc['cfg']['inf']
    dmg = []
    for _ in range(wpick(rng, [(0, 2), (1, 4), (2, 2), (4, 1)])):
        k = pick(rng, ['zero', 'sector', 'sector', 'misdirect', 'bad', 'inside', 'inside', 'restart', 'copyoff', 'garbage'])
        dmg.append({'k': k, 'page': rng.randrange(start, n) if rng.random() < 0.8 else rng.randrange(2, n), 'x': rng.randrange(1 << 30)})
    sc['damage'] = dmg
    f = []
    m = wpick(rng, [('none', 5), ('eof', 1.5), ('eio', 1), ('bad', 0.7)])
    if m == 'eof':
        f.append({'k': 'eof', 'at': rng.randrange(0, n * PAGE) if rng.random() < 0.5 else rng.randrange(0, n + 1) * PAGE})
    elif m == 'eio':
        f.append({'k': 'eio', 'n': rng.randrange(0, 12) if rng.random() < 0.5 else rng.randrange(0, 300)})
    elif m == 'bad':
        lo = rng.randrange(0, n * 8) * 512
        f.append({'k': 'bad', 'lo': lo, 'hi': lo + 512})
    sc['faults'] = f
    sc['recover'] = rng.random() < 0.8
    return sc


def damage(sim, image, sc, ctx):
    """Returns (image, in-place pages whose content is not trusted, records not trusted)."""
    image = bytearray(image)
    n = sim.npages
    soft = set()
    for d in sc['damage']:
        p = 2 + (d['page'] - 2) % (n - 2)
        off = p * PAGE
        rng = rng_for('dmg', d['x'])
        k = d['k']
        if k == 'zero':
            image[off:off + PAGE] = bytes(PAGE)
            ctx.fault('zeroed-page')
        elif k == 'garbage':
            s = off + rng.randrange(8) * 512
            image[s:s + 512] = bytes([rng.randrange(256)]) * 512
            ctx.fault('bad-sector-in-page')
        elif k == 'sector':
            s = off + rng.randrange(8) * 512
            image[s + 510] ^= 1 + rng.randrange(255)
            ctx.fault('bad-sector-in-page')
        elif k == 'misdirect':
            q = 2 + rng.randrange(n - 2)
            image[q * PAGE:(q + 1) * PAGE] = image[off:off + PAGE]
            ctx.fault('misdirected-page')
            soft.add(q)
        elif k == 'bad':
            if image[off:off + 4] == b'RCRD' and not sim.cfg.get('dax'):
                image[off:off + 4] = b'BAAD'
                ctx.fault('marked-bad')
        elif k == 'restart':
            s = rng.randrange(2) * PAGE + rng.randrange(8) * 512
            if rng.random() < 0.7:
                image[s + 511] ^= 0x55
            else:
                s -= s % PAGE
                image[s:s + PAGE] = bytes(PAGE)
            ctx.fault('restart-damaged')
        elif k in ('inside', 'copyoff'):
            # The page was corrupted before it was protected: a valid update sequence array over a corrupt record header.
            if k == 'copyoff':
                p = rng.randrange(2, sim.start)
                off = p * PAGE
            if bytes(image[off:off + 4]) != b'RCRD' or image[off + 4:off + 8] != b'\x28\0\x09\0':
                continue
            raw = bytes(image[off:off + PAGE])
            if any(raw[i * 512 + 510:i * 512 + 512] != raw[40:42] for i in range(8)):
                continue
            b = bytearray(raw)
            for i in range(8):
                b[i * 512 + 510:i * 512 + 512] = raw[42 + 2 * i:44 + 2 * i]
            if k == 'copyoff':
                if sim.v2:
                    struct.pack_into('<L', b, 60, rng.choice([0xFFFFF000, 0x7FFFF000, (n + 1) * PAGE, 0x1234, 12288 + 8]))
                else:
                    struct.pack_into('<q', b, 8, rng.choice([-4096, 1 << 62, (n + 1) * PAGE, 0x1234, 1 << 40]))
                soft.add(-1)
            else:
                v = next((v for v in sim.inplace.get(p, []) + sim.copies.get(p, []) if v.raw == raw), None)
                heads = [r for r in v.parts if r.parts[0] == (v.pos, v.cycle)] if v is not None else []
                if not heads:
                    continue
                r = rng.choice(heads)
                fld = rng.choice([(8, '<Q', 8), (16, '<Q', 8), (24, '<L', 4), (24, '<L', 4), (28, '<L', 4), (32, '<L', 4), (sim.hdr, '<Q', 8), (sim.hdr + 4, '<H', 2), (sim.hdr + 8, '<H', 2), (sim.hdr + 6, '<H', 2)])
                val = rng.choice([0, 1, 0xFFFFFFF8, 0x7FFFFFF0, 8, 24, 40, rng.randrange(1 << 32)])
                if fld[1] == '<H':
                    val = rng.choice([1, 8, 31, 3, 0xFFFF])
                if r.off + fld[0] + fld[2] <= PAGE:
                    struct.pack_into(fld[1], b, r.off + fld[0], val)
            image[off:off + PAGE] = ntfs.protect(bytes(b), int.from_bytes(raw[40:42], 'little'), 40)
            soft.add(p)
            ctx.fault('corrupt-inside')
    return bytes(image), soft


def execute(sc, ctx):
    sim, image = loghist.build(sc, ctx)
    image, soft = damage(sim, image, sc, ctx)
    end = len(image)
    for f in sc['faults']:
        if f['k'] == 'eof':
            end = min(end, f['at'])
    clean = bytearray(image[:end])
    for p in range(2, sim.npages):      # pages marked bad are read like good ones
        if clean[p * PAGE:p * PAGE + 4] == b'BAAD':
            clean[p * PAGE:p * PAGE + 4] = b'RCRD'
    model = LogModel(sim, bytes(clean))
    full = end >= 2 * PAGE
    usable = full and any(r is not None for r in model.restarts)
    fo = SimFile(ctx, image, sc['faults'], 'log')
    attempts = 0
    out = None
    p = None
    while True:
        attempts += 1
        try:
            if p is None:
                p = L.LogFileParser(fo)
            out = drain(ctx, p.parse_ntfs_records(sc['recover']), 20 * len(sim.records) + 1000)
        except OSError:
            ctx.check(fo.n_fired > 0, 'read-error', 'an I/O error without a fault')
            ctx.probe('io-error')
            if any(f['k'] == 'eio' for f in sc['faults']) and attempts < 4:
                continue
            ctx.state(sim.cfg['ver'], 'io-error')
            ctx.nontrivial = True
            return
        except L.LogFileException as e:
            ctx.check(not usable, 'file-refused', lambda: 'the log file was refused: %r' % e)
            ctx.probe('refused')
            ctx.state(sim.cfg['ver'], 'refused')
            return
        break
    if attempts > 1:
        ctx.probe('retried')
    ctx.check(usable, 'restart-accepted', 'a log file without a usable restart page was accepted')
    any_soft = bool(soft)
    if not any_soft and sc['recover']:
        check_listing(ctx, L, sim, model, out)
    else:
        # Records of corrupt pages are not trusted; everything else still has to be there and to be right.
        lsns = [x.lsn for x in out]
        ctx.check(len(lsns) == len(set(lsns)), 'duplicate-record', 'a log record is reported twice')
        got = {}
        for x in out:
            got[x.lsn] = x
        if not soft and not sc['recover']:
            # Without recovery only the pages in place count.
            for x in lsns:
                ctx.check(x in sim.by_lsn and model.may(sim.by_lsn[x]), 'phantom-record', 'LSN %d', x)
        hit = {v.pos for q in soft for v in sim.copies.get(q, [])} | {q for q in soft}
        safe = [q for q in model.sure if q in model.inplace and q not in hit]
        # the copies which recovery may write over a page
        if sc['recover']:
            cop = {v.pos for v in model.copies}
            if -1 in soft or any(q < sim.start for q in soft):
                safe = []
            safe = [q for q in safe if q not in cop]
        for q in safe:
            v = model.inplace[q]
            for lsn in {v.last_lsn, v.last_end}:
                r = sim.by_lsn.get(lsn)
                if r is not None and r.complete and r.parts[0] == (q, v.cycle) and len(r.parts) == 1 and model.whole(r):
                    ctx.check(lsn in got, 'record-lost', lambda: 'LSN %d in an intact page (%d) is not reported' % (lsn, q))
                    x = got[lsn]
                    if r.rtype == 1:
                        ctx.check(bytes(x.get_redo_data()) == r.info['redo'], 'payload', 'LSN %d', lsn)
                    ctx.probe('safe-record')
    ctx.nontrivial = bool(sc['damage']) or bool(sc['faults'])
    ctx.state(sim.cfg['ver'], tuple(sorted({d['k'] for d in sc['damage']})), tuple(f['k'] for f in sc['faults']), sc['recover'], attempts)
    ctx.sample = {'cfg': sc['cfg'], 'ops': sc['ops'][:4], 'damage': sc['damage'], 'faults': sc['faults']}
