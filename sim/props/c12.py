"""C12: listing an exFAT volume: everything in use exactly once and exact, deleted entries marked, backup boot region, damage contained."""
from dfir_ntfs.addons import exFAT
from ..core import SimFile, Scheduler
from ..oracle.exfatmodel import ExFatRef, Refused, TooBig
from .. import exfathist as h

LEVEL = 'exploration'
RUNS = {'quick': 8000, 'thorough': 100000}
SHRINK = ['damage', 'faults', 'ops']
RULE = ('one run = an exFAT volume formatted and used by a simulated driver (contiguous and chained files and directories, deletion in several styles, rename, reuse), a crash with lost, torn or reordered sectors, damaged '
        'boot regions, FAT elements, bitmap and entry sets, then one or two interleaved listings with read faults. Non-trivial: at least one entry and one deletion, crash, damage or fault')
STATE_MEASURE = 'distinct (sector size, cluster size, FATs, driver options, crash mode, damage kinds, fault kind, boot regions damaged, size of listing) tuples'
REAL = ['dfir_ntfs.addons.exFAT: BR, FAT, Bitmap, DirectoryEntries, FileSystemParser.walk']
STUB = ['exFAT driver (sim.writers.exfatsim)', 'write-back disk (SparseDisk)', 'volume image (SimFile)']
ASSUMPTIONS = ['a directory entry that leads back to a directory above it may be left out', 'the order of orphan directories is free', 'a backup boot region is used on volumes with sectors of 512 or 4096 bytes only']
MUST_HIT = ['crash-prefix', 'crash-reorder', 'torn-write', 'fat-entry', 'fat-loop', 'zeroed-sector', 'garbage-sector', 'entry-type', 'entry-set-size', 'entry-set-first', 'entry-set-date', 'bitmap-chain', 'boot-region',
            'volume-flags', 'eio-transient', 'eio-bad-sector', 'early-eof', 'deleted-dir', 'deleted-file', 'slot-reused', 'orphan-directory', 'interleaved', 'backup-used', 'refused', 'two-fats', 'unlinked-open', 'live-checked',
            'converted-to-chain']


def generate(rng, tier):
    return h.generate(rng, tier)


def execute(sc, ctx):
    sim, image = h.build(sc, ctx)
    hurt = h.damage(sc, ctx, sim, image)
    q = sim.geo
    faults = h.faults(sc, sim, image)
    kinds = {f['k'] for f in faults}
    end = min([f['at'] for f in faults if f['k'] == 'eof'] + [len(image)])
    vsize = q.size if sc['vsize'] else None
    if q.nfats == 2:
        ctx.probe('two-fats')
    # which boot region is usable: the tool needs the bytes it reads for it (the image may be cut inside)
    ok_main = 0 not in hurt
    ok_back = 1 not in hurt and q.bps in (512, 4096)
    if end < q.base + q.data_off:
        # cut inside the boot regions or the FAT: the root directory is out of reach
        ok_main = ok_back = False
    refused = not (ok_main or ok_back)
    partial = False
    maybe = end < q.base + 24 * 4096     # hardly anything was acquired: refusing the volume is fine
    tree, orphans = [], {}
    if not refused:
        try:
            tree, orphans, partial = ExFatRef(image, q, end, vsize).walk(3000, sc['scan'])
        except Refused:
            refused = True
        except TooBig:
            ctx.probe('too-big')
            return
    vf = SimFile(ctx, image, faults, 'vol')
    limit = len(tree) + sum(len(v) for v in orphans.values()) + 50
    got = None
    for attempt in range(6):
        outs = [[], []]
        fired = vf.n_fired
        fs = None
        try:
            fs = exFAT.FileSystemParser(vf, q.base, vsize)
            ctx.check(fs.cluster_size == q.cs, 'wrong-geometry', 'clusters of %d bytes instead of %d', fs.cluster_size, q.cs)
            ctx.check(maybe or bool(fs.backup_used) == (not ok_main), 'backup-flag', 'backup_used is %r', fs.backup_used)
            if not ok_main:
                ctx.probe('backup-used')

            def consume(k):
                for x in fs.walk(sc['scan']):
                    outs[k].append(h.norm(x))
                    ctx.step()
                    ctx.check(len(outs[k]) <= limit, 'no-progress', 'more than %d items', limit)
                    yield
            if sc['two']:
                Scheduler(ctx, sc['plan']).run({'a': consume(0), 'b': consume(1)})
                ctx.probe('interleaved')
            else:
                for _ in consume(0):
                    pass
        except OSError:
            ctx.check(vf.n_fired > fired, 'read-error', 'an I/O error without a fault')
            ctx.probe('io-error')
            ctx.nontrivial = True
            if 'bad' in kinds:
                break
            continue
        except (exFAT.FileSystemException, ValueError) as e:
            ctx.check(refused or partial or maybe, 'listing-failed', 'the volume is not listed: %r', e)
            ctx.probe('refused')
            if partial and not refused and fs is not None and not sc['two']:
                h.compare(ctx, outs[0], tree, {})
            break
        ctx.check(vf.n_fired == fired, 'error-hidden', 'a read failed, but the listing did not')
        ctx.check(not refused and not partial, 'not-refused', 'a volume that cannot be listed is listed')
        got = outs[0]
        h.compare(ctx, got, tree, orphans)
        if sc['two']:
            h.compare(ctx, outs[1], tree, orphans)
        if sc['crash']['mode'] == 'none' and not {d[0] for d in sc['damage']} - {'boot', 'flags'} and 'eof' not in kinds and not sc['scan']:
            h.check_live(ctx, sim, got)
            ctx.probe('live-checked')
        break
    ctx.check_no_writes()
    if got and (sc['crash']['mode'] != 'none' or sc['damage'] or faults or any(isinstance(x, tuple) or x['del'] for x in got)):
        ctx.nontrivial = True
    ctx.state(q.bps, q.cs, q.nfats, sc['opts']['zero'], sc['opts']['contig'], sc['crash']['mode'], tuple(sorted({d[0] for d in sc['damage']})), tuple(sorted(kinds)), tuple(sorted(hurt)), len(got or ()) // 10)
    ctx.sample = {'geo': sc['geo'], 'ops': sc['ops'][:4], 'damage': sc['damage'], 'faults': sc['faults'], 'crash': sc['crash'], 'listed': len(got or ())}
