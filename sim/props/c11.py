"""C11: listing a FAT12/16/32 volume: everything in use exactly once and exact, deleted entries marked as such, damage contained."""
from dfir_ntfs.addons import FAT
from ..core import SimFile, Scheduler, drain
from ..oracle.fatmodel import FatRef, Refused, TooBig, entries
from .. import fathist

LEVEL = 'exploration'
RUNS = {'quick': 20000, 'thorough': 200000}
SHRINK = ['damage', 'faults', 'ops']
RULE = ('one run = a volume (FAT12, 16 or 32, any geometry) formatted and used by a simulated driver (create, grow, truncate, delete in several styles, rename, reuse of entries and clusters), a crash with lost, torn or '
        'reordered sectors, damaged FAT elements and directory entries, then one or two interleaved listings with read faults. Non-trivial: at least one entry and one deletion, crash, damage or fault')
STATE_MEASURE = 'distinct (type, cluster size, driver options, crash mode, damage kinds, fault kind, size of listing) tuples'
REAL = ['dfir_ntfs.addons.FAT: BSBPB, FAT, DirectoryEntries, FileSystemParser.walk']
STUB = ['FAT driver (sim.writers.fatsim)', 'write-back disk (SparseDisk)', 'volume image (SimFile)']
ASSUMPTIONS = ['the boot sector is intact', 'a directory entry that leads back to a directory above it may be left out', 'the order of orphan directories is free']
MUST_HIT = ['crash-prefix', 'crash-reorder', 'torn-write', 'fat-entry', 'fat-loop', 'zeroed-sector', 'garbage-sector', 'long-name-entry', 'long-chain', 'deleted-directory-tail', 'directory-cross-link', 'eio-transient', 'eio-bad-sector', 'early-eof',
            'deleted-dir', 'deleted-file', 'slot-reused', 'remnant-cluster', 'orphan-directory', 'interleaved', 'fat12', 'fat16', 'fat32', 'disk-full', 'unlinked-open', 'live-checked', 'other-codepage', 'short-names-only']


def generate(rng, tier):
    return fathist.generate(rng, tier)


def execute(sc, ctx):
    FAT.WARN_FUNC = lambda *a, **k: ctx.probe('warning')
    sim, image = fathist.build(sc, ctx)
    fathist.damage(sc, ctx, sim, image)
    q = sim.geo
    ctx.probe('fat%d' % q.type)
    faults = fathist.faults(sc, sim, image)
    kinds = {f['k'] for f in faults}
    end = min([f['at'] for f in faults if f['k'] == 'eof'] + [len(image)])
    vsize = q.size if sc['vsize'] else None
    refused = False
    enc = sc.get('enc', 'ascii')
    if enc != 'ascii':
        ctx.probe('other-codepage')
    tree, orphans = [], {}
    try:
        ref = FatRef(image, q, end, vsize, enc)
        tree, orphans = ref.walk(3000, sc['scan'])
    except Refused:
        refused = True
    except TooBig:
        ctx.probe('too-big')
        return
    vf = SimFile(ctx, image, faults, 'vol')
    limit = len(tree) + sum(len(v) for v in orphans.values()) + 50
    got = None
    for attempt in range(6):
        outs = [[], []]
        fired = vf.n_fired
        try:
            fs = FAT.FileSystemParser(vf, q.base, vsize)
            ctx.check(fs.fat_type == q.type and fs.cluster_size == q.cs, 'wrong-geometry', 'FAT%d with clusters of %d bytes instead of FAT%d with %d', fs.fat_type, fs.cluster_size, q.type, q.cs)

            def consume(k):
                for x in fs.walk(enc, sc['scan']):
                    outs[k].append(fathist.norm(x))
                    ctx.step()
                    ctx.check(len(outs[k]) <= limit, 'no-progress', 'more than %d items', limit)
                    yield
            if sc['two']:
                Scheduler(ctx, sc['plan']).run({'a': consume(0), 'b': consume(1)})
                ctx.probe('interleaved')
            else:
                for _ in consume(0):
                    pass
        except OSError:
            ctx.check(vf.n_fired > fired, 'read-error', 'an I/O error without a fault')
            ctx.probe('io-error')
            ctx.nontrivial = True
            if 'bad' in kinds:
                break
            continue
        except (FAT.FileSystemException, ValueError) as e:
            ctx.check(refused, 'listing-failed', 'the volume is not listed: %r', e)
            ctx.probe('refused')
            break
        ctx.check(vf.n_fired == fired, 'error-hidden', 'a read failed, but the listing did not')
        ctx.check(not refused, 'not-refused', 'a volume without a readable root directory is listed')
        got = outs[0]
        fathist.compare(ctx, got, tree, orphans)
        for nt in sorted({x['nt'] for x in got if isinstance(x, dict)}):
            e = bool(nt & 1)
            g, w = tuple(FAT.ParseNTByte(nt)), (bool(nt & 8), bool(nt & 16), e, e and bool(nt & 2), nt >> 5 << 1 | nt >> 2 & 1 if e else None)
            ctx.check(g == w, 'wrong-flags', '%#x: %r instead of %r', nt, g, w)
        if sc['two']:
            fathist.compare(ctx, outs[1], tree, orphans)
        if sc['crash']['mode'] == 'none' and not sc['damage'] and not kinds & {'eof'} and not sc['scan']:
            fathist.check_live(ctx, sim, got, enc)
            ctx.probe('live-checked')
        for b in ref.bufs[:6]:
            # The same directory without its long names.
            de = FAT.DirectoryEntries(b, q.type == 32)
            want = [dict(x, long=None) for x in entries(b, q.type == 32, enc) if isinstance(x, dict)]
            short = [fathist.norm(x) for x in de.entries(enc, True)]
            ctx.check(short == want, 'short-listing', lambda: 'short names only: %r instead of %r' % ([x for x in short if x not in want][:2], [x for x in want if x not in short][:2]))
            full = [fathist.norm(x) for x in de.entries(enc)]
            ctx.check(full == entries(b, q.type == 32, enc), 'directory-listing', 'a directory is not listed on its own as it is in the tree')
            ctx.probe('short-names-only')
        break
    ctx.check_no_writes()
    if got and (sc['crash']['mode'] != 'none' or sc['damage'] or faults or any(isinstance(x, tuple) or x['del'] for x in got)):
        ctx.nontrivial = True
    ctx.state(q.type, q.cs, sc['opts']['zero'], sc['opts']['firstfit'], sc['crash']['mode'], tuple(sorted({d[0] for d in sc['damage']})), tuple(sorted(kinds)), len(got or ()) // 10)
    ctx.sample = {'geo': sc['geo'], 'ops': sc['ops'][:4], 'damage': sc['damage'], 'faults': sc['faults'], 'crash': sc['crash'], 'listed': len(got or ())}
