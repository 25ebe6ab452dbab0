"""C13: reading file content from FAT12/16/32 and exFAT volumes: exactly the bytes of the chain, never others, never a silently shortened read."""
from dfir_ntfs.addons import FAT, exFAT
from ..core import SimFile, Scheduler, rng_for, pick
from ..oracle.fatmodel import FatRef, Refused, NoData
from ..oracle.exfatmodel import ExFatRef, TooBig
from .. import fathist, exfathist

LEVEL = 'exploration'
RUNS = {'quick': 14000, 'thorough': 200000}
SHRINK = ['damage', 'faults', 'reads', 'ops']
RULE = ('one run = a FAT12/16/32 or exFAT volume with a history of writes, growth, truncation, deletion and reuse of clusters, a crash or damage to its tables, then a sequence of reads of whole files, prefixes and arbitrary chains '
        'by one or two interleaved readers, with read faults. Non-trivial: at least one read returned data')
STATE_MEASURE = 'distinct (file system, cluster size, crash mode, damage kinds, fault kind, outcomes of reads) tuples'
REAL = ['dfir_ntfs.addons.FAT.FileSystemParser.read_chain, FAT.chain', 'dfir_ntfs.addons.exFAT.FileSystemParser.read_chain, FAT.chain, Bitmap']
STUB = ['FAT and exFAT drivers (sim.writers.fatsim, exfatsim)', 'write-back disk (SparseDisk)', 'volume image (SimFile)']
ASSUMPTIONS = ['a chain that loops, or that leads to a free or reserved cluster, ends there; a bad cluster reads as zeros and ends the chain']
MUST_HIT = ['fat', 'exfat', 'live-content', 'chain', 'prefix', 'no-data', 'bad-cluster', 'loop', 'long-chain', 'eio-transient', 'eio-bad-sector', 'early-eof', 'interleaved', 'contiguous-read', 'allocation', 'beyond-volume']


def generate(rng, tier):
    ex = rng.random() < 0.45
    sc = (exfathist if ex else fathist).generate(rng, tier, True)
    if ex:
        sc['damage'] = [d if d[0] in ('fatval', 'fatloop', 'bmchain', 'bitmap', 'longchain') else [pick(rng, ['fatval', 'fatloop', 'fatval', 'fatloop', 'longchain']), d[1]] for d in sc['damage']]
    else:
        sc['damage'] = [d if d[0] in ('fatval', 'fatloop', 'longchain') else [pick(rng, ['fatval', 'fatloop', 'fatval', 'fatloop', 'longchain']), d[1]] for d in sc['damage']]
    sc['ex'] = ex
    sc['vcut'] = rng.random() if rng.random() < 0.15 else None
    sc['reads'] = [rng.randrange(1 << 30) for _ in range(rng.randrange(1, 25))]
    return sc


def execute(sc, ctx):
    FAT.WARN_FUNC = lambda *a, **k: None
    ex = sc['ex']
    h = exfathist if ex else fathist
    sim, image = h.build(sc, ctx)
    h.damage(sc, ctx, sim, image)
    q = sim.geo
    ctx.probe('exfat' if ex else 'fat')
    faults = h.faults(sc, sim, image)
    if ex:
        faults = [dict(f, at=max(f['at'], q.base + 24 * 4096)) if f['k'] == 'eof' else f for f in faults]
    kinds = {f['k'] for f in faults}
    end = min([f['at'] for f in faults if f['k'] == 'eof'] + [len(image)])
    vsize = q.size if sc['vsize'] else None
    if sc['vcut'] is not None:
        top = max(sim.used if ex else [c for c in sim.fat if c >= 2 and sim.fat[c]] or [2])
        vsize = max(1 << 20 if ex else 4096, int(q.coff(2) + (top - 1) * q.cs * sc['vcut']))
    vf = SimFile(ctx, image, faults, 'vol')
    refused = False
    try:
        ref = (ExFatRef if ex else FatRef)(image, q, end, vsize)
    except (Refused, TooBig):
        refused = True
    fs = None
    for attempt in range(6):
        fired = vf.n_fired
        try:
            fs = (exFAT if ex else FAT).FileSystemParser(vf, q.base, vsize)
            break
        except OSError:
            ctx.check(vf.n_fired > fired, 'read-error', 'an I/O error without a fault')
        except ((exFAT.FileSystemException, ValueError) if ex else (FAT.FileSystemException,)) as e:
            ctx.check(refused, 'volume-refused', 'the volume is not opened: %r', e)
            break
    if fs is None or refused:
        return
    exc = (exFAT if ex else FAT).FileSystemException
    files = [x for x in sim.nodes(False) if ex or not x.attrs & 8]
    intact = sc['crash']['mode'] == 'none' and not sc['damage']
    seen = set()

    def reader(seeds):
        for seed in seeds:
            rng = rng_for('rd', seed)
            what = rng.choice(['file', 'file', 'whole', 'prefix', 'any', 'alloc'])
            x = rng.choice(files) if files else None
            nofat = False
            size = None
            if x is None or what == 'any':
                cs = [c for c in sim.fat if c >= 2] or [2]
                first = rng.choice([rng.choice(cs), rng.randrange(0, q.last + 3), 0, 1, q.last, 0x0FFFFFF7, 0xFFF7, 0xFF7, 0xFFFFFFF7])
                size = rng.choice([None, 0, 1, q.cs, q.cs * 2 + 5, 1 << 40, q.cs * 300 + 1 if q.cs <= 4096 else None])
                if ex and rng.random() < 0.4 and size is not None and size < 1 << 20:
                    nofat = True
                what = 'any'
            else:
                first = x.first
                nofat = ex and x.nofat
                size = x.size if what in ('file', 'alloc') or nofat else None if what == 'whole' else rng.randrange(0, x.size + 2 * q.cs)
            if what == 'alloc':
                c = rng.choice([first, rng.randrange(0, q.last + 3)])
                if ex:
                    got = fs.bm.is_allocated(c)
                    want = ref.allocated(c)
                else:
                    try:
                        got = fs.fat.is_allocated(c)
                    except OSError:
                        ctx.check(vf.n_fired > 0, 'read-error', 'an I/O error without a fault')
                        yield
                        continue
                    v = ref.elem(c)
                    want = None if v is None else v != 0
                ctx.check(got == want, 'wrong-allocation', 'cluster %d: %r instead of %r', c, got, want)
                ctx.probe('allocation')
                yield
                continue
            try:
                want = ref.data(first, size, nofat) if ex else ref.data(first, size)
            except NoData as e:
                want = None
                if 'beyond' in str(e):
                    ctx.probe('beyond-volume')
            except TooBig:
                yield
                continue
            fired = vf.n_fired
            try:
                if ex:
                    got = fs.read_chain(first, size, nofat) if rng.random() < 0.5 or nofat else fs.read_chain(first, size)
                else:
                    got = fs.read_chain(first, size) if size is not None else fs.read_chain(first)
            except OSError:
                ctx.check(vf.n_fired > fired, 'read-error', 'an I/O error without a fault')
                seen.add('eio')
                yield
                continue
            except (exc, ValueError) as e:
                ctx.check(want is None, 'data-refused', lambda: 'reading %r bytes from cluster %d failed: %r' % (size, first, e))
                ctx.probe('no-data')
                seen.add('refused')
                yield
                continue
            ctx.check(vf.n_fired == fired, 'error-hidden', 'a read failed, but data was returned')
            ctx.check(want is not None, 'made-up-data', lambda: '%d bytes were returned for cluster %d' % (len(got), first))
            ctx.check(got == want, 'wrong-data', lambda: 'cluster %d, size %r: %s' % (first, size, diff(got, want)))
            if intact and x is not None and what != 'any':
                w = x.content
                n = min(len(w), len(want))
                ctx.check(got[:len(w)] == w[:len(got)] and (what != 'file' or got == w), 'wrong-content', lambda: 'file of %d bytes at cluster %d: %s' % (len(w), first, diff(got, w)))
                ctx.probe('live-content')
            ctx.nontrivial = ctx.nontrivial or bool(got)
            ctx.probe({'prefix': 'prefix', 'file': 'file'}.get(what, 'chain'))
            if nofat:
                ctx.probe('contiguous-read')
            seen.add(what)
            try:
                ch = ref.chain(first)
                if None in ch:
                    ctx.probe('bad-cluster')
                if ch and ch[-1] is not None and ref.elem(ch[-1]) in ch:
                    ctx.probe('loop')
                if rng.random() < 0.3 and not kinds & {'eio', 'bad'}:
                    ctx.check(fs.fat.chain(first) == ch, 'wrong-chain', lambda: 'chain of %d is %r instead of %r' % (first, fs.fat.chain(first)[:20], ch[:20]))
            except NoData:
                pass
            yield
    if sc['two']:
        k = len(sc['reads']) // 2
        Scheduler(ctx, sc['plan']).run({'a': reader(sc['reads'][:k]), 'b': reader(sc['reads'][k:])})
        ctx.probe('interleaved')
    else:
        for _ in reader(sc['reads']):
            ctx.step()
    ctx.check_no_writes()
    ctx.state(ex, getattr(q, 'type', 0), q.cs, sc['crash']['mode'], tuple(sorted({d[0] for d in sc['damage']})), tuple(sorted(kinds)), tuple(sorted(seen)))
    ctx.sample = {'geo': sc['geo'], 'ops': sc['ops'][:4], 'damage': sc['damage'], 'faults': sc['faults'], 'reads': len(sc['reads'])}


def diff(a, b):
    if len(a) != len(b):
        return '%d bytes instead of %d' % (len(a), len(b))
    i = next(i for i in range(len(a)) if a[i] != b[i])
    return 'byte %d differs: %r instead of %r' % (i, a[i:i + 16], b[i:i + 16])
