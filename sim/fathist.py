"""Histories of a simulated FAT driver: generation, crash, damage, and the comparison of a listing with the reference."""
import struct
from .core import SparseDisk, SimClock, SimFile, rng_for, pick, wpick, Violation
from .writers.fatsim import FatSim, Geo, fat_date, fat_time, A_DIR, A_VOL
from .oracle.fatmodel import FatRef, when, fdate, short_text

DAMAGE = ['fatval', 'fatloop', 'zero', 'garbage', 'stale', 'lfn-order', 'lfn-sum', 'lfn-null', 'lfn-type', 'attr', 'first', 'date', 'name', 'byte', 'longchain', 'deltail']


def gen_geo(rng):
    t = pick(rng, [12, 12, 16, 32, 32])
    g = {'type': t, 'bps': wpick(rng, [(512, 8), (1024, 1), (2048, 1), (4096, 1)]), 'spc': wpick(rng, [(1, 6), (2, 3), (4, 2), (8, 1)]), 'rsvd': pick(rng, [1, 2, 4]) if t != 32 else pick(rng, [8, 32]),
         'nfats': pick(rng, [1, 2, 2, 2, 3]), 'rootent': pick(rng, [16, 64, 112, 512]), 'base': pick(rng, [0, 0, 512, 4096, 63 * 512, 1 << 20]), 'tailsec': rng.randrange(8), 'fatslack': pick(rng, [0, 0, 0, 1, 3])}
    if t == 12:
        g['clusters'] = wpick(rng, [(rng.randrange(12, 60), 4), (rng.randrange(60, 400), 3), (rng.randrange(3900, 4085), 1), (4084, 0.3)])
    elif t == 16:
        g['clusters'] = wpick(rng, [(rng.randrange(4085, 4200), 4), (rng.randrange(4200, 65525), 1), (65524, 0.3), (4085, 0.3)])
    else:
        g['clusters'] = wpick(rng, [(rng.randrange(12, 60), 3), (rng.randrange(60, 400), 3), (rng.randrange(65525, 140000), 2)])
        g['nomirror'] = rng.random() < 0.3
        g['active'] = rng.randrange(0, g['nfats'])
        g['tot64'] = rng.random() < 0.1
    if rng.random() < 0.15:
        # The table is as long as the clusters need, to the last element.
        per = g['bps'] * 8
        g['fatslack'] = 0
        k = -(-(g['clusters'] + 2) * t // per)
        n = k * per // t - 2
        if {12: 12, 16: 4085, 32: 12}[t] <= n < {12: 4085, 16: 65525, 32: 140000}[t]:
            g['clusters'] = n
    if t == 32:
        g['rootclus'] = pick(rng, [2, 2, 2, 3, 7, min(g['clusters'], 66000), g['clusters'] + 1])
    return g


def gen_ops(rng, tier, content=False):
    ops = []
    for _ in range(rng.randrange(1, 45 if tier == 'quick' else 70)):
        k = wpick(rng, [('file', 6), ('dir', 3), ('fill', 0.6), ('append', 4 if content else 1.5), ('truncate', 2 if content else 0.6), ('delete', 2), ('rmdir', 1.2), ('rename', 1.5), ('label', 0.4), ('bad', 0.6),
                        ('flush', 1.5), ('skew', 0.2)])
        ops.append([k, rng.randrange(1 << 30)])
    return ops


def generate(rng, tier, content=False):
    g = gen_geo(rng)
    sc = {'geo': g, 'opts': {'zero': rng.random() < 0.7, 'firstfit': rng.random() < 0.6, 'eoc': rng.randrange(3), 'scatter': pick(rng, [0, 0.05, 0.3, 0.9]), 'lfn': pick(rng, [0, 0.3, 0.6, 0.9])},
          'ops': gen_ops(rng, tier, content), 'crash': {'mode': wpick(rng, [('none', 5), ('lost', 1), ('prefix', 2), ('reorder', 2)]), 'seed': rng.randrange(1 << 30)},
          'damage': [], 'faults': [], 'scan': rng.random() < 0.2, 'vsize': rng.random() < 0.3, 'two': rng.random() < 0.2, 'plan': [rng.randrange(2) for _ in range(30)]}
    for _ in range(wpick(rng, [(0, 8), (1, 3), (2, 2), (4, 1.5), (8, 0.5)])):
        sc['damage'].append([pick(rng, DAMAGE), rng.randrange(1 << 30)])
    if not content:
        sc['enc'] = wpick(rng, [('ascii', 6), ('cp866', 1), ('cp437', 1), ('cp932', 1), ('latin-1', 1)])
    f = wpick(rng, [('none', 6), ('eio', 1.5), ('bad', 1), ('eof', 1.5)])
    if f == 'eio':
        sc['faults'] = [{'k': 'eio', 'n': rng.randrange(0, 80)} for _ in range(rng.randrange(1, 4))]
    elif f == 'bad':
        sc['faults'] = [{'k': 'bad', 'at': rng.random(), 'n': pick(rng, [1, 1, 4, 16])}]
    elif f == 'eof':
        sc['faults'] = [{'k': 'eof', 'at': rng.random()}]
    return sc


def build(sc, ctx):
    geo = Geo(sc['geo'])
    # a true size needs no memory: only written pages are kept
    disk = SparseDisk(ctx, geo.base + geo.size + 8192)
    clock = SimClock(ctx)
    sim = FatSim(disk, ctx, clock, sc['geo'], sc['opts'])
    sim.run(sc['ops'])
    image = disk.crash(sc['crash']['mode'], sc['crash']['seed'])
    return sim, image


def put_fat(q, image, c, v, high=0):
    """Change an element in all copies of the table."""
    for copy in range(q.nfats):
        f = q.base + q.fat_off + copy * q.fatsz * q.bps
        if q.type == 12:
            w = struct.unpack('<H', image[f + c + c // 2:f + c + c // 2 + 2])[0]
            w = (w & 0xF000 | v) if c % 2 == 0 else (w & 0xF | v << 4)
            image[f + c + c // 2:f + c + c // 2 + 2] = struct.pack('<H', w)
        elif q.type == 16:
            image[f + c * 2:f + c * 2 + 2] = struct.pack('<H', v)
        else:
            image[f + c * 4:f + c * 4 + 4] = struct.pack('<L', v | high)


def deleted_dirs(sim, image):
    """First clusters of deleted directories, from the directories in use."""
    q = sim.geo
    out = []
    for d in [sim.root] + sim.nodes(True):
        for o in sim.regions(d):
            e = bytes(image[q.base + o:q.base + o + 32])
            if e[:1] == b'\xe5' and e[11] & 0x3F != 0x0F and e[11] & 0x18 == 0x10:
                c = struct.unpack_from('<H', e, 26)[0] | (struct.unpack_from('<H', e, 20)[0] << 16 if q.type == 32 else 0)
                if 2 <= c <= q.last:
                    out.append(c)
    return sorted(set(out))


def dir_clusters(sim):
    return [c for d in [sim.root] + sim.nodes(True) if d.first for c in sim.chain(d.first)]


def edge_time(rng, t):
    """A time field with exactly one value at or just outside of an edge."""
    sh, n, vals = rng.choice([(0, 5, [29, 30, 31, 0]), (5, 6, [59, 60, 61, 63, 0]), (11, 5, [23, 24, 25, 31, 0])])
    return t & ~(((1 << n) - 1) << sh) | rng.choice(vals) << sh


def edge_date(rng, d):
    if rng.random() < 0.3:
        return d & 0xFE00 | rng.choice([2 << 5 | 28, 2 << 5 | 29, 2 << 5 | 30, 4 << 5 | 30, 4 << 5 | 31, 12 << 5 | 31, 1 << 5 | 1])
    sh, n, vals = rng.choice([(0, 5, [0, 1, 31]), (5, 4, [0, 1, 12, 13, 15]), (9, 7, [0, 127, 20])])
    return d & ~(((1 << n) - 1) << sh) & 0xFFFF | rng.choice(vals) << sh


def damage(sc, ctx, sim, image):
    q = sim.geo
    for k, seed in sc['damage']:
        rng = rng_for('fatdmg', seed)
        slots = [o for d in [sim.root] + sim.nodes(True) for o in sim.regions(d)]
        if not slots:
            return
        used = [o for o in slots if bytes(image[q.base + o:q.base + o + 1]) != b'\0'] or slots
        o = q.base + rng.choice(used)
        s = o // 512 * 512
        if k in ('fatval', 'fatloop'):
            cs = [c for c in sorted(sim.fat) if c >= 2] or [2]
            dc = dir_clusters(sim)
            c = rng.choice(dc if dc and rng.random() < 0.6 else cs)
            mask = (1 << q.type) - 1 if q.type != 32 else 0x0FFFFFFF
            v = rng.choice([0, 1, mask & ~8, mask, q.last, q.last + 1, rng.randrange(2, q.last + 2), rng.choice(cs)]) if k == 'fatval' else rng.choice([c, rng.choice(cs), rng.choice(dc or cs)])
            v &= mask
            put_fat(q, image, c, v, rng.choice([0, 0, 0xF0000000]))
            ctx.fault('fat-entry' if k == 'fatval' else 'fat-loop')
        elif k == 'longchain':
            # A chain gets longer than any driver would make it: to an end, or back to an element of itself.
            cs = [c for c in sorted(sim.fat) if c >= 2] or [2]
            dc = dir_clusters(sim)
            c = rng.choice(dc if dc and rng.random() < 0.4 else cs)
            n = rng.choice([40, 70, 130, 300])
            path = [c]
            for x in range(n):
                x = 2 + (c + x * rng.choice([1, 1, 2])) % q.clusters
                if x not in path:
                    path.append(x)
            for x, y in zip(path, path[1:]):
                put_fat(q, image, x, y)
            mask = (1 << q.type) - 1 if q.type != 32 else 0x0FFFFFFF
            put_fat(q, image, path[-1], rng.choice([mask, rng.choice(path), path[len(path) // 3], path[0]]))
            ctx.fault('long-chain')
        elif k == 'deltail':
            # What lies at the end of a deleted directory and in the cluster after it.
            l = deleted_dirs(sim, image)
            if not l:
                continue
            c = rng.choice(l)
            p = q.base + q.coff(c) + q.cs
            for x in (-96, -64, -32):
                b = rng.choice([0, 0x41, 0x42, 0xE5]) if rng.random() < 0.4 else 0x51
                image[p + x:p + x + 1] = bytes([b])
            if c < q.last:
                if rng.random() < 0.5:
                    src = q.base + rng.choice(used)
                    image[p:p + 64] = bytes(image[src:src + 64])
                image[p:p + 1] = bytes([rng.choice([0, 0x43, 0x44, 0xE5])])
                if rng.random() < 0.3:
                    image[p + 32:p + 35] = b'.. '
            ctx.fault('deleted-directory-tail')
        elif k == 'zero':
            image[s:s + 512] = bytes(512)
            ctx.fault('zeroed-sector')
        elif k == 'garbage':
            image[s:s + 512] = bytes([rng.randrange(1, 256)]) * 512 if rng.random() < 0.5 else bytes(rng.randrange(256) for _ in range(512))
            ctx.fault('garbage-sector')
        elif k == 'stale':
            t = (q.base + rng.choice(used)) // 512 * 512
            image[s:s + 512] = image[t:t + 512]
            ctx.fault('stale-sector')
        elif k.startswith('lfn'):
            l = [x for x in used if image[q.base + x + 11:q.base + x + 12] == b'\x0f']
            if not l:
                continue
            x = q.base + rng.choice(l)
            if k == 'lfn-order':
                image[x:x + 1] = bytes([rng.choice([0, 0xE5, 1, 2, 0x41, 0x42, 0x40, 0x54, 0x55, 21, rng.randrange(256)])])
            elif k == 'lfn-sum':
                image[x + 13:x + 14] = bytes([rng.randrange(256)])
            elif k == 'lfn-null':
                image[x + 1:x + 3] = b'\0\0'
            else:
                image[x + 12:x + 13] = bytes([rng.choice([0, 1])])
            ctx.fault('long-name-entry')
        elif k == 'attr':
            image[o + 11:o + 12] = bytes([rng.choice([0, 0x10, 0x20, 0x08, 0x18, 0x0F, 0x3F, 0xD0, 0x28, rng.randrange(256)])])
            ctx.fault('attributes')
        elif k == 'first':
            ds = [d.first for d in [sim.root] + sim.nodes(True)]
            v = rng.choice(ds + [0, 1, 2, q.last, q.last + 1, rng.randrange(1 << 16)])
            es = [x.slots[-1] for x in sim.nodes(True)] or [o - q.base]
            o = q.base + rng.choice(es)
            image[o + 26:o + 28] = struct.pack('<H', v & 0xFFFF)
            image[o + 20:o + 22] = struct.pack('<H', v >> 16)
            ctx.fault('directory-cross-link')
        elif k == 'date' and rng.random() < 0.7:
            # a single field is out of range, the other ones are as they were
            e = bytearray(image[o:o + 32])
            i = rng.choice([14, 16, 18, 22, 24, 13])
            if i == 13:
                e[13] = rng.choice([199, 200, 201, 255, 0, 1, 99, 100])
            else:
                v, = struct.unpack_from('<H', e, i)
                struct.pack_into('<H', e, i, edge_time(rng, v) if i in (14, 22) else edge_date(rng, v))
            image[o:o + 32] = bytes(e)
            ctx.fault('timestamp-field')
        elif k == 'date':
            image[o + 13:o + 20] = bytes(rng.choice([0, 0xFF, rng.randrange(256)]) for _ in range(7))
            image[o + 22:o + 26] = bytes(rng.choice([0, 0xFF, rng.randrange(256)]) for _ in range(4))
            ctx.fault('timestamps')
        elif k == 'name':
            p = o + rng.randrange(11)
            image[p:p + 1] = bytes([rng.choice([0, 0xE5, 5, 0x20, 0x2E, 0x61, 0x2F, 0x2B, 0xFF, rng.randrange(256), rng.choice(b'"*+,./:;<=>?[\\]|'), rng.randrange(0x21)])])
            ctx.fault('name-byte')
        elif k == 'byte':
            p = o + rng.randrange(32)
            image[p:p + 1] = bytes([rng.randrange(256)])
            ctx.fault('random-byte')


def faults(sc, sim, image):
    """Place the read faults (positions are fractions of the parts of the volume in use)."""
    q = sim.geo
    top = q.base + q.data_off + (max([c for c in sim.fat if c >= 2 and sim.fat[c]] or [2]) - 1) * q.cs
    out = []
    for f in sc['faults']:
        if f['k'] == 'eio':
            out.append(f)
            continue
        dd = deleted_dirs(sim, image) if f['k'] == 'eof' else []
        if dd and int(f['at'] * 1e5) % 3 == 0:
            # The image ends right after a deleted directory.
            out.append({'k': 'eof', 'at': max(q.base + q.coff(dd[int(f['at'] * 1e3) % len(dd)]) + q.cs + int(f['at'] * 1e6) % 2 * 100, q.base + 512)})
            continue
        if f['at'] < 0.5:
            lo = int(top * f['at'] * 2)
        else:
            cs = dir_clusters(sim) or [2]
            lo = q.base + q.coff(cs[int((f['at'] - 0.5) * 2 * len(cs)) % len(cs)]) + int(f['at'] * 1e6) % q.cs
        if f['k'] == 'bad':
            lo = lo // 512 * 512
            out.append({'k': 'bad', 'lo': lo, 'hi': lo + f['n'] * 512})
        else:
            if int(f['at'] * 1e7) % 2:
                lo = lo // 512 * 512
            out.append({'k': 'eof', 'at': max(lo, q.base + 512)})
    return out


def norm(item):
    """An item of the real listing in the form of the reference."""
    n = type(item).__name__
    if n == 'OrphanLongEntry':
        return ('orphan', item.long_name_partial)
    return {'del': item.is_deleted, 'dir': item.is_directory, 'short': item.short_name, 'raw': item.short_name_raw, 'long': item.long_name, 'atime': item.atime, 'mtime': item.mtime, 'ctime': item.ctime,
            'size': item.size, 'attr': item.attributes, 'nt': item.ntbyte, 'first': item.first_cluster, 'enc': bool(item.is_encrypted)}


def describe(x):
    if isinstance(x, tuple):
        return 'partial name %r' % (x[1],)
    return '%r (%s%s, first cluster %d)' % (x['long'] or x['short'], {True: 'deleted ', False: '', None: 'unknown '}[x['del']], 'directory' if x['dir'] else 'file', x['first'])


def compare(ctx, got, tree, orphans):
    main = [x for x in got if not (x[1] if isinstance(x, tuple) else x['short']).startswith('<Orphan directory ')]
    for i, (a, b) in enumerate(zip(main, tree)):
        if a != b:
            if isinstance(a, dict) and isinstance(b, dict) and (a['short'], a['first']) == (b['short'], b['first']):
                d = [k for k in a if a[k] != b[k]]
                raise Violation('wrong-entry', '%s: %s is %r instead of %r' % (describe(b), d[0], a[d[0]], b[d[0]]))
            raise Violation('wrong-listing', 'item %d is %s instead of %s' % (i, describe(a), describe(b)))
    ctx.check(len(main) >= len(tree), 'entry-lost', lambda: '%s is not listed' % describe(tree[len(main)]))
    ctx.check(len(main) <= len(tree), 'phantom-entry', lambda: '%s is listed' % describe(main[len(tree)]))
    rest = {}
    for x in got:
        p = x[1] if isinstance(x, tuple) else x['short']
        if p.startswith('<Orphan directory '):
            rest.setdefault(int(p[len('<Orphan directory '):].split('>')[0]), []).append(x)
    want = {k: v for k, v in orphans.items() if v}
    ctx.check(rest == want, 'wrong-orphans', lambda: 'orphan directories %r instead of %r' % (sorted((k, len(v)) for k, v in rest.items()), sorted((k, len(v)) for k, v in want.items())))
    if want:
        ctx.probe('orphan-directory')


def live(sim, enc='ascii'):
    """What is in use according to the driver: expected entries by path."""
    out = []

    def entry(x, path):
        st = short_text(x.raw, x.ntb, enc) if not x.attrs & A_VOL else (x.raw.rstrip(b' ').decode(enc, 'replace'), x.raw.rstrip(b' '))
        return {'del': False, 'dir': x.is_dir, 'short': path + '/' + st[0], 'raw': st[1], 'long': None if x.name is None else path + '/' + x.name[:255], 'atime': x.adate.date(),
                'mtime': x.mtime.replace(microsecond=0, second=x.mtime.second // 2 * 2), 'ctime': x.ctime.replace(microsecond=x.tenth % 100 * 10000, second=x.ctime.second),
                'size': x.size, 'attr': x.attrs, 'nt': x.ntb, 'first': x.first, 'enc': bool(x.ntb & 1)}

    def rec(d, path):
        for y in d.dots:
            out.append(entry(y, path))
        for x in d.children:
            e = entry(x, path)
            out.append(e)
            if x.is_dir:
                rec(x, e['long'] or e['short'])
    rec(sim.root, '')
    return out


def check_live(ctx, sim, got, enc='ascii'):
    """Every entry in use is listed as such, and everything else that is listed as in use lies below a deleted directory."""
    pool = {}
    for x in got:
        if isinstance(x, dict):
            pool.setdefault((x['short'], x['first']), []).append(x)
    for e in live(sim, enc):
        c = pool.get((e['short'], e['first']), [])
        ctx.check(e in c, 'live-entry', lambda: '%s in use is %s' % (describe(e), 'not listed' if not c else 'listed as %r instead of %r' % (c[0], e)))
        c.remove(e)
    down = set()
    for x in got:
        if isinstance(x, tuple):
            continue
        p = x['short'].rsplit('/', 1)[0]
        under = p in down or p.startswith('<Orphan')
        if x['dir'] and (x['del'] is not False or under) and not x['short'].endswith(('/.', '/..')):
            down.add(x['long'] or x['short'])
        if x['del'] is False and not under:
            ctx.check(x not in pool.get((x['short'], x['first']), []), 'phantom-live', lambda: '%s is listed as in use' % describe(x))
