"""C15: reading an MBR and its chain of extended boot records: every partition reachable, once, in order; loops end; damage hides nothing else."""
import struct
from dfir_ntfs import PartitionTable
from ..core import SimFile, SparseDisk, Scheduler, pick, wpick, rng_for

LEVEL = 'exploration'
RUNS = {'quick': 80000, 'thorough': 900000}
SHRINK = ['damage', 'faults', 'ops', 'calls']
RULE = ('one run = a disk partitioned by a simulated tool (primary, extended and logical partitions added, deleted and resized, each change written as linked boot records with or without barriers), a crash with lost or reordered sectors, damaged boot records, '
        'links forming loops, then a sequence of reads with read faults, possibly by two interleaved readers. Non-trivial: at least one partition and a crash, damage or fault, or a chain of two records')
STATE_MEASURE = 'distinct (sector size, types of primary partitions, length of chain, crash mode, damage kinds, fault kinds, outcomes) tuples'
REAL = ['dfir_ntfs.PartitionTable.MBR']
STUB = ['partitioning tool (in this module)', 'write-back disk (SparseDisk)', 'disk image (SimFile)']
ASSUMPTIONS = ['a sector is written atomically', 'a boot record that cannot be read completely or has no signature ends its chain']
MUST_HIT = ['crash-prefix', 'crash-reorder', 'lost-write', 'chain', 'loop', 'cut-chain', 'empty-record', 'zeroed-sector', 'garbage-sector', 'bad-link', 'bad-signature', 'zero-start', 'two-extended', 'eio-transient', 'eio-bad-sector', 'early-eof', 'short-read', 'interleaved', 'refused', 'nested-table', 'many-logical', 'other-link-type']

EXT = [0x5, 0xF, 0x85]


def ent(p):
    return bytes([p[0]]) + p[1] + bytes([p[2]]) + p[3] + struct.pack('<LL', p[4], p[5])


def generate(rng, tier):
    ss = pick(rng, [512, 512, 512, 4096, 1024])
    ops = []
    for _ in range(rng.randrange(1, 16)):
        k = wpick(rng, [('addl', 6), ('dell', 2), ('resize', 1), ('prim', 2), ('flush', 2), ('bulk', 0.15)])
        ops.append([k, rng.randrange(1 << 30)])
    sc = {'ss': ss, 'size': pick(rng, [150, 200, 1000, 5000]), 'seed': rng.randrange(1 << 30), 'exts': wpick(rng, [(1, 6), (0, 1), (2, 1.5), (4, 0.2)]), 'barrier': rng.random() < 0.6, 'ops': ops,
          'crash': {'mode': pick(rng, ['none', 'none', 'lost', 'prefix', 'reorder', 'reorder']), 'seed': rng.randrange(1 << 30)}, 'damage': [], 'faults': [], 'boot': rng.random() < 0.5,
          'calls': [pick(rng, ['mbr', 'parts', 'ebr', 'ebr']) for _ in range(rng.randrange(1, 7))] + ['ebr'], 'two': rng.random() < 0.25, 'plan': [rng.randrange(2) for _ in range(12)]}
    for _ in range(wpick(rng, [(0, 3), (1, 3), (2, 2), (4, 1)])):
        sc['damage'].append([pick(rng, ['zero', 'garbage', 'link', 'link', 'loop', 'sig', 'type', 'first']), rng.randrange(1 << 30)])
    f = wpick(rng, [('none', 6), ('eio', 1.5), ('bad', 1), ('eof', 1), ('short', 0.7)])
    if f == 'eio':
        sc['faults'] = [{'k': 'eio', 'n': rng.randrange(0, 14)} for _ in range(rng.randrange(1, 4))]
    elif f == 'bad':
        sc['faults'] = [{'k': 'bad', 'i': rng.randrange(8)}]
    elif f == 'eof':
        sc['faults'] = [{'k': 'eof', 'at': rng.random()}]
    elif f == 'short':
        sc['faults'] = [{'k': 'short', 'n': rng.randrange(0, 12), 'keep': rng.randrange(0, 512)} for _ in range(rng.randrange(1, 3))]
    return sc


class Tool(object):
    """A partitioning tool: keeps primary entries and, per extended partition, an ordered list of logical partitions."""

    def __init__(self, sc, ctx, disk):
        self.sc, self.ctx, self.disk, self.ss = sc, ctx, disk, sc['ss']
        r = rng_for('mbr', sc['seed'])
        self.code = bytes(r.randrange(1, 256) for _ in range(440)) if sc['boot'] else bytes(440)
        self.sig = r.randrange(1 << 32)
        self.prim = [None] * 4
        self.logical = {}
        lba = r.choice([1, 2, 8, 63])
        n = sc['size']
        for i in r.sample(range(4), sc['exts']):
            ln = max(4, (n - 70) // max(1, sc['exts']) - r.randrange(0, 9))
            self.prim[i] = (0, self.chs(r), r.choice(EXT), self.chs(r), lba, ln)
            self.logical[i] = []
            lba += ln
        if sc['exts'] > 1:
            ctx.probe('two-extended')
        self.used = {i: {self.prim[i][4]} for i in self.logical}
        self.write_mbr()
        for i in self.logical:
            self.write_chain(i)
        disk.flush()

    def chs(self, r):
        return bytes(r.randrange(256) for _ in range(3))

    def write_mbr(self):
        b = self.code + struct.pack('<LH', self.sig, 0) + b''.join(ent(p) if p else bytes(16) for p in self.prim) + b'\x55\xaa'
        self.disk.write(0, b)

    def write_chain(self, i):
        """Write the records of one extended partition: the first is at its start, possibly with no partition of its own."""
        base = self.prim[i][4]
        lst = self.logical[i]
        recs = []
        if not lst or lst[0]['lba'] != base:
            recs.append((base, None))
        recs += [(x['lba'], x) for x in lst]
        for j in range(len(recs) - 1, -1, -1):
            lba, x = recs[j]
            b = bytearray(512)
            if x is not None:
                b[446:462] = ent((x['boot'], x['chs'], x['type'], x['chs'], x['off'], x['len']))
            if j + 1 < len(recs):
                nl = recs[j + 1][0]
                ty = (EXT + [5, self.prim[i][2]])[(nl + self.sc['seed']) % 5]
                if ty != 5:
                    self.ctx.probe('other-link-type')
                chs = bytes([nl * 7 % 256, nl % 64, nl % 251])
                b[462:478] = ent((0, chs, ty, chs, nl - base, (recs[j + 1][1]['off'] + recs[j + 1][1]['len']) & 0xffffffff))
            b[510:512] = b'\x55\xaa'
            if x is not None and x['junk']:
                b[:440] = b'J' * 440
                b[478:510] = b'K' * 32      # the last two entries of an extended boot record have no meaning
            self.disk.write(lba * self.ss, bytes(b))
            if self.sc['barrier'] and j:
                self.disk.flush()

    def apply(self, k, seed):
        r = rng_for('op', seed)
        if k == 'flush':
            self.disk.flush()
        elif k == 'prim':
            free = [i for i in range(4) if i not in self.logical]
            if free:
                i = r.choice(free)
                self.prim[i] = (r.choice([0, 0x80]), self.chs(r), r.choice([7, 0xb, 0xc, 0x83, 0xEE, 0xEF, 1]), self.chs(r), r.randrange(1, 1 << 32), r.choice([0, r.randrange(1, 1 << 32), r.randrange(1, 1 << 32), 0xFFFFFFFF])) if r.random() < 0.8 else None
                self.write_mbr()
                if self.prim[i] and r.random() < 0.6:
                    # The partition starts with a boot sector of its own, whose bytes look like partition entries (a nested table).
                    taken = {self.prim[j][4] + d for j in self.logical for d in range(self.prim[j][5])}
                    spot = [l for l in range(1, self.sc['size']) if l not in taken][:200]
                    if spot:
                        lba = r.choice(spot)
                        self.prim[i] = self.prim[i][:4] + (lba, self.prim[i][5])
                        self.write_mbr()
                        b = bytearray(512)
                        for e in range(4):
                            if r.random() < 0.7:
                                b[446 + 16 * e:462 + 16 * e] = ent((0, self.chs(r), r.choice([7, 0x83, 5, 0xF]), self.chs(r), r.randrange(0, 40), r.randrange(1, 1 << 20)))
                        b[510:512] = b'\x55\xaa'
                        self.disk.write(lba * self.ss, bytes(b))
                        self.ctx.probe('nested-table')
        elif k == 'bulk':
            for j in range(r.randrange(20, 60)):
                self.apply('addl', '%s-%s' % (seed, j))
            self.ctx.probe('many-logical')
        elif self.logical:
            i = r.choice(sorted(self.logical))
            base, ln = self.prim[i][4], self.prim[i][5]
            lst = self.logical[i]
            if k == 'addl':
                free = [l for l in (range(base, base + ln) if ln < 300 else r.sample(range(base, base + ln), 40) + [base]) if l not in {x['lba'] for x in lst} and (l + 1) * self.ss <= self.sc['size'] * self.ss]
                if not free or len(lst) > 90:
                    return
                lba = base if base in free and r.random() < 0.6 else r.choice(free)
                x = {'lba': lba, 'off': r.choice([1, 2, 63, 2048]), 'len': r.choice([0, 1, 0xFFFFFFFF] + [r.randrange(1, 1 << 31)] * 7), 'type': r.choice([7, 0xb, 0x83, 0x82, 1]), 'boot': r.choice([0, 0, 0x80]), 'chs': self.chs(r), 'junk': r.random() < 0.2}
                if r.random() < 0.7 or lba == base:
                    lst.append(x)
                    if lba == base:
                        lst.sort(key=lambda y: y['lba'] != base)
                else:
                    lst.insert(r.randrange(1 if lst and lst[0]['lba'] == base else 0, len(lst) + 1), x)
            elif k == 'dell' and lst:
                del lst[r.randrange(len(lst))]
            elif k == 'resize' and lst:
                x = r.choice(lst)
                x['len'] = r.randrange(1, 1 << 31)
                x['type'] = r.choice([7, 0x83])
            self.write_chain(i)


def damage(sc, ctx, image, tool):
    ss = sc['ss']
    recs = [(tool.prim[i][4], i) for i in tool.logical] + [(x['lba'], i) for i in tool.logical for x in tool.logical[i]]
    for k, seed in sc['damage']:
        r = rng_for('dmg', seed)
        if k == 'first':
            ext = [i for i in range(4) if image[446 + i * 16 + 4:446 + i * 16 + 5] in (b'\x05', b'\x0f', b'\x85')]
            if ext:
                i = r.choice(ext)
                v = r.choice([0, 0, 1 << 31, 0xffffffff, sc['size'] - 1])
                image[446 + i * 16 + 8:446 + i * 16 + 12] = struct.pack('<L', v)
                ctx.fault('zero-start' if v == 0 else 'bad-start')
            continue
        if not recs:
            continue
        lba, i = r.choice(recs)
        o = lba * ss
        if o + 512 > len(image):
            continue
        if k == 'zero':
            image[o:o + 512] = bytes(512)
            ctx.fault('zeroed-sector')
        elif k == 'garbage':
            image[o:o + 512] = bytes(r.randrange(256) for _ in range(512))
            ctx.fault('garbage-sector')
        elif k == 'link':
            image[o + 462 + 8:o + 462 + 12] = struct.pack('<L', r.choice([1, sc['size'], 0xffffffff, 0x80000000, r.randrange(sc['size'])]))
            ctx.fault('bad-link')
        elif k == 'loop':
            t, j = r.choice(recs)
            image[o + 462 + 8:o + 462 + 12] = struct.pack('<L', max(0, t - tool.prim[i][4]))
            ctx.fault('link-loop')
        elif k == 'sig':
            image[o + 510:o + 512] = r.choice([b'\0\0', b'\xaa\x55', b'\x55\0'])
            ctx.fault('bad-signature')
        elif k == 'type':
            image[o + 450:o + 451] = bytes([r.choice([0, 0, 5, 0xff])])
            ctx.fault('changed-type')


def ref_parts(img):
    b = bytes(img[0:512])
    out = []
    for i in range(4):
        e = b[446 + i * 16:462 + i * 16]
        if e[4]:
            out.append((e[0], e[1:4], e[4], e[5:8]) + struct.unpack('<LL', e[8:16]))
    return out


def ref_chain(ctx, img, size, ss, apart=False):
    out, seen, n = [], set(), 0
    for p in ref_parts(img):
        if p[2] not in EXT or p[4] == 0:
            continue
        lba = p[4]
        if apart:
            seen = set()
        while lba not in seen:
            seen.add(lba)
            o = lba * ss
            if o + 512 > size or bytes(img[o + 510:o + 512]) != b'\x55\xaa':
                ctx.probe('cut-chain')
                break
            b = bytes(img[o:o + 512])
            n += 1
            if b[450]:
                out.append((b[446], b[450], lba + struct.unpack_from('<L', b, 454)[0], struct.unpack_from('<L', b, 458)[0]))
            else:
                ctx.probe('empty-record')
            nxt = struct.unpack_from('<L', b, 470)[0]
            if nxt == 0:
                break
            lba = p[4] + nxt
        else:
            ctx.probe('loop')
    if n > 1:
        ctx.probe('chain')
    return out, n


def execute(sc, ctx):
    ss = sc['ss']
    disk = SparseDisk(ctx, sc['size'] * ss)
    tool = Tool(sc, ctx, disk)
    for k, seed in sc['ops']:
        tool.apply(k, seed)
    image = disk.crash(sc['crash']['mode'], sc['crash']['seed'])
    damage(sc, ctx, image, tool)
    size = len(image)
    faults = []
    for f in sc['faults']:
        if f['k'] == 'bad':
            recs = sorted({0} | {tool.prim[i][4] for i in tool.logical} | {x['lba'] for i in tool.logical for x in tool.logical[i]})
            lo = recs[f['i'] % len(recs)] * ss
            faults.append({'k': 'bad', 'lo': lo, 'hi': lo + 512})
        elif f['k'] == 'eof':
            size = max(1, int(size * f['at']))
            ctx.fault('early-eof')
        else:
            faults.append(f)
    img = image[0:size] if size < len(image) else image
    vf = SimFile(ctx, img, faults, 'disk')
    outcome = []
    want_p = want_e = None
    n = 0
    if size >= 512:
        want_p = ref_parts(img)
        want_e, n = ref_chain(ctx, img, size, ss)
    if sc['crash']['mode'] == 'none' and not sc['damage'] and size == len(image):
        # What the tool meant, without going through the image.
        live = [(x['boot'], x['type'], x['lba'] + x['off'], x['len']) for i in range(4) if i in tool.logical for x in tool.logical[i]]
        ctx.check(want_p == [p for p in tool.prim if p], 'harness', 'primary partitions')
        if len({x['lba'] for i in tool.logical for x in tool.logical[i]} | {tool.prim[i][4] for i in tool.logical}) == len(live) + sum(1 for i in tool.logical if not tool.logical[i] or tool.logical[i][0]['lba'] != tool.prim[i][4]):
            ctx.check(want_e == live, 'harness', lambda: 'logical partitions %r %r' % (want_e, live))
            ctx.probe('live')

    def reader(name):
        try:
            mbr = PartitionTable.MBR(vf, ss)
        except ValueError:
            ctx.check(size < 2 * ss, 'refused', 'a disk of %d bytes', size)
            ctx.probe('refused')
            return
        ctx.check(size >= 2 * ss, 'made-up-table', 'disk of %d bytes accepted', size)
        for call in sc['calls']:
            fired = vf.n_fired
            try:
                r = mbr.read_mbr() if call == 'mbr' else mbr.read_mbr_partitions() if call == 'parts' else mbr.read_ebr_partitions()
            except OSError as e:
                ctx.check(vf.n_fired > fired, 'unhandled-OSError', lambda: repr(e))
                outcome.append('error')
                yield
                continue
            except ValueError as e:
                ctx.check(vf.n_fired > fired or (call == 'mbr' and bytes(img[510:512]) != b'\x55\xaa'), 'table-refused', lambda: '%s: %r' % (call, e))
                ctx.probe('refused')
                outcome.append('refused')
                yield
                continue
            hit = vf.n_fired > fired
            if call == 'mbr':
                ctx.check(tuple(r) == (sc['boot'], tool.sig), 'wrong-mbr', lambda: repr(r))
            elif call == 'parts':
                ctx.check([tuple(p) for p in r] == want_p, 'wrong-partitions', lambda: '%r instead of %r' % (r, want_p))
            else:
                got = [tuple(p) for p in r]
                if hit:
                    # A record was read incompletely: its chain ends there (and another chain which runs into it goes on).
                    left = ref_chain(ctx, img, size, ss, True)[0]
                    for g in got:
                        ctx.check(g in left, 'made-up-partition', lambda: '%r is not in %r' % (g, want_e))
                        left.remove(g)
                else:
                    ctx.check(got == want_e, 'wrong-partitions', lambda: '%r instead of %r' % (got, want_e))
                    ctx.check(all(isinstance(p, PartitionTable.EBRPartition) for p in r), 'wrong-type')
            outcome.append((call, 'short' if hit else 'ok'))
            yield
    if sc['two']:
        ctx.probe('interleaved')
        Scheduler(ctx, sc['plan']).run({'a': reader('a'), 'b': reader('b')})
    else:
        for _ in reader('a'):
            pass
    ctx.nontrivial = bool(want_p) and (sc['crash']['mode'] != 'none' or bool(sc['damage']) or bool(sc['faults']) or n > 1)
    ctx.state(ss, tuple(p[2] for p in want_p or ()), n, sc['crash']['mode'], tuple(sorted({d[0] for d in sc['damage']})), tuple(sorted({f['k'] for f in faults})), len(want_e or ()))
    ctx.sample = {'sector': ss, 'records': n, 'crash': sc['crash']['mode'], 'damage': [d[0] for d in sc['damage']], 'faults': sc['faults'], 'outcomes': [str(o) for o in outcome]}
