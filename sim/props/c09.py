"""C09: a shadow copy kept on another volume reads exactly as the volume was when the snapshot was taken."""
from .. import vsshist

LEVEL = 'exploration'
RUNS = {'quick': 7000, 'thorough': 150000}
SHRINK = ['damage', 'faults', 'ops']
RULE = ('one run = a volume with a history of writes, moves, deletions, snapshots, snapshot deletions and writes to snapshots, executed by a simulated copy-on-write driver, with power cuts inside driver '
        'updates, then several shadow copies of the resulting image read through interleaved parsers with read faults or damaged store metadata. Non-trivial: a live snapshot with at least one diff area entry')
STATE_MEASURE = 'distinct (live snapshots, entry kinds with use state, faults, damage, size argument, deleted snapshots, parallel readers) tuples'
REAL = ['dfir_ntfs.ShadowCopy: ShadowParserTwoVolumes and all block classes']
STUB = ['shadow copy driver (sim.writers.vsssim)', 'write-back disk (SparseDisk)', 'volume and storage volume files (SimFile)']
ASSUMPTIONS = ['the driver orders its updates: old data, table entry, then the write (so do the items of the catalog)', 'a block that no snapshot needs, up to the effective bitmap, may be overwritten without a copy',
               'a chain cut by a block whose own offset is wrong is not compared']
MUST_HIT = ['cow', 'move', 'move-chained', 'cow-of-forward-target', 'overlay', 'snapshot', 'deleted', 'stacked', 'crash-inside-update', 'table-chained', 'bitmap-chained', 'interleaved', 'eio-transient',
            'eio-bad-sector', 'early-eof', 'short-read', 'unaligned-volume-size', 'damage-reported', 'damage-ring-table', 'damage-ring-bitmap', 'damage-ring-ctl', 'failed-selection', 'extended', 'copy-replaced', 'dead-refused', 'edge-virgin', 'edge-nosb', 'edge-sbfield', 'edge-sig', 'edge-mismatch', 'edge-no3', 'edge-twice', 'edge-tiny', 'edge-badoff', 'edge-unselected']


def generate(rng, tier):
    return vsshist.generate(rng, tier, True)


def execute(sc, ctx):
    vsshist.execute(sc, ctx, True)
