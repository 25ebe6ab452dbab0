"""Histories of a simulated exFAT driver: generation, crash, damage."""
import struct
from .core import SparseDisk, SimClock, rng_for, pick, wpick
from .writers.exfatsim import ExFatSim, ExGeo, set_checksum, br_checksum
from .oracle.exfatmodel import zone
from .fathist import compare, describe, edge_time, edge_date   # noqa (shared comparison)

DAMAGE = ['fatval', 'fatloop', 'longchain', 'zero', 'garbage', 'stale', 'type', 'count', 'size', 'first', 'date', 'name', 'byte', 'fixbyte', 'bitmap', 'bmchain', 'boot', 'boot', 'bootboth', 'flags', 'label', 'shortname', 'sectype', 'sectype', 'bmentry', 'orphan', 'orphan', 'orphan', 'orphan', 'bootboth', 'stream']


def gen_geo(rng):
    bps = wpick(rng, [(512, 6), (4096, 2), (1024, 1), (2048, 1)])
    g = {'bps': bps, 'spc': pick(rng, [1, 1, 2, 4, 8]), 'nfats': pick(rng, [1, 1, 1, 2]), 'active': rng.randrange(2), 'otherfirst': rng.random() < 0.5, 'base': pick(rng, [0, 0, 4096, 1 << 20]), 'fatsec': pick(rng, [24, 24, 25, 128]),
         'fatslack': pick(rng, [0, 0, 1]), 'heapgap': pick(rng, [0, 0, 1, 100]), 'tail': pick(rng, [0, 1, 7]), 'bmfrag': rng.random() < 0.3}
    g['clusters'] = wpick(rng, [(rng.randrange(30, 120), 4), (rng.randrange(120, 2100), 2), (rng.randrange(4000, 20000), 2), (rng.randrange(65536, 140000), 1)])
    if rng.random() < 0.15:
        # The table is as long as the clusters need, to the last element.
        g['fatslack'] = 0
        g['clusters'] = -(-(g['clusters'] + 2) * 4 // bps) * bps // 4 - 2
    g['rootclus'] = pick(rng, [4, 4, 5, 9, min(g['clusters'], 1000), g['clusters'] + 1])
    if rng.random() < 0.75:
        # an ordinary volume: the heap is larger than what precedes it
        need = ExGeo(g)
        if need.heap_sec > g['clusters'] * g['spc']:
            g['clusters'] = need.heap_sec // g['spc'] + 40
            g['clusters'] = max(g['clusters'], ExGeo(g).heap_sec // g['spc'] + 1)
    return g


def gen_ops(rng, tier, content=False):
    ops = []
    for _ in range(rng.randrange(1, 45 if tier == 'quick' else 70)):
        k = wpick(rng, [('file', 6), ('dir', 3), ('fill', 0.6), ('append', 4 if content else 1.5), ('truncate', 2 if content else 0.6), ('delete', 2), ('rmdir', 1.5), ('rename', 1.5), ('label', 0.4), ('flush', 1.5), ('skew', 0.2)])
        ops.append([k, rng.randrange(1 << 30)])
    return ops


def generate(rng, tier, content=False):
    sc = {'geo': gen_geo(rng), 'opts': {'zero': rng.random() < 0.7, 'firstfit': rng.random() < 0.6, 'scatter': pick(rng, [0, 0.05, 0.3, 0.9]), 'contig': pick(rng, [0, 0.5, 1]), 'wipefat': rng.random() < 0.5},
          'ops': gen_ops(rng, tier, content), 'crash': {'mode': wpick(rng, [('none', 5), ('lost', 1), ('prefix', 2), ('reorder', 2)]), 'seed': rng.randrange(1 << 30)},
          'damage': [], 'faults': [], 'scan': rng.random() < 0.2, 'vsize': rng.random() < 0.3, 'two': rng.random() < 0.2, 'plan': [rng.randrange(2) for _ in range(30)]}
    for _ in range(wpick(rng, [(0, 8), (1, 3), (2, 2), (4, 1.5), (8, 0.5)])):
        sc['damage'].append([pick(rng, DAMAGE), rng.randrange(1 << 30)])
    f = wpick(rng, [('none', 6), ('eio', 1.5), ('bad', 1), ('eof', 1.5)])
    if f == 'eio':
        sc['faults'] = [{'k': 'eio', 'n': rng.randrange(0, 60)} for _ in range(rng.randrange(1, 4))]
    elif f == 'bad':
        sc['faults'] = [{'k': 'bad', 'at': rng.random(), 'n': pick(rng, [1, 1, 4, 16])}]
    elif f == 'eof':
        sc['faults'] = [{'k': 'eof', 'at': rng.random()}]
    return sc


def build(sc, ctx):
    geo = ExGeo(sc['geo'])
    disk = SparseDisk(ctx, geo.base + geo.size + 8192)
    sim = ExFatSim(disk, ctx, SimClock(ctx), sc['geo'], sc['opts'])
    sim.run(sc['ops'])
    return sim, disk.crash(sc['crash']['mode'], sc['crash']['seed'])


def dir_clusters(sim):
    return [c for d in [sim.root] + sim.nodes(True) for c in sim.chain(d)]


def damage(sc, ctx, sim, image):
    """Returns which boot regions are damaged."""
    q = sim.geo
    hurt = set()
    for k, seed in sc['damage']:
        rng = rng_for('exdmg', seed)
        slots = [o for d in [sim.root] + sim.nodes(True) for o in sim.regions(d)]
        used = [o for o in slots if bytes(image[q.base + o:q.base + o + 1]) != b'\0'] or slots
        o = q.base + rng.choice(used)
        s = o // 512 * 512
        files = [x for x in used if bytes(image[q.base + x:q.base + x + 1]) in (b'\x85', b'\x05')]
        if k in ('fatval', 'fatloop'):
            cs = [c for c in sorted(sim.fat) if c >= 2]
            dc = dir_clusters(sim)
            c = rng.choice(dc if rng.random() < 0.6 else cs)
            v = rng.choice([0, 1, 0xFFFFFFF7, 0xFFFFFFFF, 0xFFFFFFF8, q.last, q.last + 1, rng.choice(cs)]) if k == 'fatval' else rng.choice([c, rng.choice(dc), rng.choice(cs)])
            p = q.base + q.fat_off + c * 4
            image[p:p + 4] = struct.pack('<L', v)
            ctx.fault('fat-entry' if k == 'fatval' else 'fat-loop')
        elif k == 'longchain':
            # A chain gets longer than any driver would make it: to an end, or back to an element of itself.
            cs = [c for c in sorted(sim.fat) if c >= 2]
            c = rng.choice(dir_clusters(sim) if rng.random() < 0.4 else cs)
            path = [c]
            for x in range(rng.choice([40, 70, 130, 300])):
                x = 2 + (c + x * rng.choice([1, 1, 2])) % q.clusters
                if x not in path:
                    path.append(x)
            for x, y in zip(path, path[1:] + [rng.choice([0xFFFFFFFF, rng.choice(path), path[len(path) // 3], path[0]])]):
                p = q.base + q.fat_off + x * 4
                image[p:p + 4] = struct.pack('<L', y)
            ctx.fault('long-chain')
        elif k == 'zero':
            image[s:s + 512] = bytes(512)
            ctx.fault('zeroed-sector')
        elif k == 'garbage':
            image[s:s + 512] = bytes([rng.randrange(1, 256)]) * 512 if rng.random() < 0.5 else bytes(rng.randrange(256) for _ in range(512))
            ctx.fault('garbage-sector')
        elif k == 'stale':
            t = (q.base + rng.choice(used)) // 512 * 512
            image[s:s + 512] = image[t:t + 512]
            ctx.fault('stale-sector')
        elif k == 'type':
            image[o:o + 1] = bytes([rng.choice([0, 0x80, 5, 0x85, 0x40, 0xC0, 0x41, 0xC1, 0x60, 0xE0, 0x21, 0xA1, 0x22, 0x20, 0xA0, 0x83, 0x81, 0x82, rng.randrange(256)])])
            ctx.fault('entry-type')
        elif k == 'byte':
            p = o + rng.randrange(32)
            image[p:p + 1] = bytes([rng.randrange(256)])
            ctx.fault('random-byte')
        elif k == 'label':
            # the label (or an entry in its place) is changed
            p = q.base + (sim.labslot if sim.label is not None else rng.choice(list(sim.regions(sim.root))))
            t = ''.join(rng.choice('ab \u0436') for _ in range(rng.choice([1, 3, 11, 15])))
            how = rng.choice(['bad', 'bad', 'len', 'zero', 'plain', 'gone'])
            if how == 'bad':
                i = rng.randrange(len(t))
                t = t[:i] + chr(rng.choice(list(b'"*/:<>?\\|\x1f\x01\x20!'))) + t[i + 1:]
            raw = bytearray(t.encode('utf-16le').ljust(30, b'x' if rng.random() < 0.3 else b'\0'))
            n = len(t)
            if how == 'len':
                n = rng.choice([0, n - 1, n + 1, 15, 16, 255])
            elif how == 'zero':
                i = rng.randrange(len(t))
                raw[2 * i:2 * i + 2] = b'\0\0'
            image[p:p + 32] = bytes([0x03 if how == 'gone' else 0x83, n]) + bytes(raw)
            ctx.fault('label-changed')
        elif k in ('count', 'size', 'first', 'date', 'name', 'shortname', 'sectype', 'fixbyte', 'stream') and files:
            # a field of a file entry set changes, with the checksum of the set (as buggy drivers leave it) or without it
            p = q.base + rng.choice(files)
            b = bytearray(image[p:p + 32])
            n = b[1] if 2 <= b[1] <= 64 else 2
            b = bytearray(image[p:p + 32 * (n + 1)])
            if k == 'count':
                b[1] = rng.choice([0, 1, 2, n + 1, 64, 65, 255, max(2, n - 1)])
            elif k == 'size':
                struct.pack_into('<Q', b, 32 + 24, rng.choice([0, 1, 100, 511, 513, 700, q.cs, q.cs + 32, q.cs * 2, q.cs * 40, (1 << 63) - 1]))
                if rng.random() < 0.5:
                    b[4] |= 0x10
            elif k == 'first':
                ds = [d.first for d in [sim.root] + sim.nodes(True)]
                struct.pack_into('<L', b, 32 + 20, rng.choice(ds + [0, 1, 2, q.last, q.last + 1, 0xFFFFFFFF, 0xFFFFFFF7]))
                b[4] |= 0x10 * (rng.random() < 0.6)
            elif k == 'date':
                one = rng.random() < 0.7
                if one:
                    # a single field is out of range, the other ones are as they were
                    i = rng.choice([8, 10, 12, 14, 16, 18, 20, 21, 22, 23, 24])
                    if i >= 20:
                        b[i] = rng.choice([199, 200, 201, 255, 0, 1, 99, 100]) if i < 22 else rng.choice([0, 0x7F, 0x80, 0xFF, 0xC0, 0xBF, 0x81, 0xD0, 0xB0, 0x38, 0x39])
                    else:
                        v, = struct.unpack_from('<H', b, i)
                        struct.pack_into('<H', b, i, edge_date(rng, v) if i in (10, 14, 18) else edge_time(rng, v))
                for i in range(8, 25 if not one else 8):
                    if rng.random() < 0.6:
                        b[i] = rng.choice([0, 0xFF, rng.randrange(256)])
            elif k == 'sectype':
                # entries of the set become other ones: a second stream, vendor entries, primary ones
                i = rng.randrange(1, n + 1)
                t = rng.choice([0x40, 0x41, 0x60, 0x61, 0x61, 0x60, 0x42, 0x20, 0x05])
                for j in ([i] if rng.random() < 0.5 else range(max(i, min(3, n)), n + 1)):
                    if 32 * j < len(b):
                        b[32 * j] = t | (b[0] & 0x80 if rng.random() < 0.9 else 0)
                        if t == 0x40 and rng.random() < 0.7:
                            b[32 * j:32 * j + 32] = b[32:64]
            elif k == 'stream':
                # flags of the stream, and the fields for encrypted files
                b[33] = rng.choice([0, 1, 2, 3, 0xFC, 0xFD, 0xFE, 0xFF, b[33]])
                b[34] = rng.choice([0, 1, 16, 255])
                b[38] = rng.choice([0, 1, 2, 255])
            elif k == 'shortname':
                t = rng.choice(['.', '..', '...', '. ', ' ', '.a', 'a.', '\x7f'])
                b[32 + 3] = rng.choice([len(t), len(t), len(t) + 1, 1])
                b[66:66 + 30] = t.encode('utf-16le').ljust(30, b'\0')[:max(0, len(b) - 66)]
            elif k == 'name':
                if rng.random() < 0.4:
                    b[32 + 3] = rng.choice([0, 1, 15, 16, 255, b[32 + 3] - 1 & 255])
                else:
                    i = min(len(b) - 2, 66 + 2 * rng.randrange(3))
                    b[i:i + 2] = rng.choice([b'/\0', b'\0\0', b'.\0', b'\1\0', b'\0\xd8', b'*\0', bytes([rng.choice(b'"*/:<>?\\|')]) + b'\0', bytes([rng.randrange(0x22), 0])])
            else:
                i = rng.randrange(len(b))
                b[i] = rng.randrange(256)
            if rng.random() < 0.7 and len(b) == 32 * (n + 1):
                struct.pack_into('<H', b, 2, set_checksum(b))
            image[p:p + len(b)] = bytes(b)
            ctx.fault('entry-set-' + k)
        elif k == 'bitmap':
            p = q.base + q.coff(sim.bm[0])
            i = p + rng.randrange(min(64, sim.bm_bytes))
            image[i:i + 1] = bytes([rng.choice([0, 0xFF, rng.randrange(256)])])
            ctx.fault('bitmap-bits')
        elif k == 'orphan':
            # a deleted directory whose clusters are in use: another description of it, another head, another size
            gone = []
            for x in files:
                e = bytes(image[q.base + x:q.base + x + 64])
                if e[0] == 5 and e[4] & 0x10 and e[32] == 0x40 and 2 <= struct.unpack_from('<L', e, 52)[0] <= q.last and 2 <= e[1] <= 18:
                    gone.append((q.base + x, struct.unpack_from('<L', e, 52)[0]))
            if gone:
                p, c = rng.choice(gone)
                n = image[p + 1:p + 2][0]
                b = bytearray(image[p:p + 32 * (n + 1)])
                i = q.base + q.coff(sim.bm[0]) + (c - 2) // 8
                if (c - 2) // 8 < q.cs:
                    image[i:i + 1] = bytes([image[i:i + 1][0] | 1 << (c - 2) % 8])
                how = rng.choice(['twin', 'twin', 'head', 'size'])
                if how == 'twin':
                    v, = struct.unpack_from('<L', b, 12)
                    struct.pack_into('<L', b, 12, max(0, min((1 << 32) - 1, rng.choice([v + (1 << 25), v - (1 << 25), v + (1 << 11), v - (1 << 11), 0]))))
                    struct.pack_into('<Q', b, 32 + 24, rng.choice([0, 512, 1024, q.cs, 2 * q.cs, 8 * q.cs]))
                    b[33] ^= rng.choice([0, 2])
                    t = q.base + rng.choice(files)
                    if t // 512 == (t + len(b) - 1) // 512:
                        image[t:t + len(b)] = bytes(b)
                elif how == 'head':
                    h = q.base + q.coff(c)
                    x = image[h:h + 96]
                    for j, v in ((0, [5, 0x85, 0]), (32, [0x40, 0xC0, 0x41]), (64, [0x41, 0xC1, 0x60])):
                        if rng.random() < 0.5 or x[j] == 0:
                            image[h + j:h + j + 1] = bytes([rng.choice([v[0], v[0]] + v)])
                else:
                    struct.pack_into('<Q', b, 32 + 24, rng.choice([511, 513, 512, 600, q.cs - 1, q.cs + 1, q.cs + 32 * 5]))
                    image[p:p + len(b)] = bytes(b)
                ctx.fault('orphan-' + how)
        elif k == 'bmentry':
            # entries of bitmaps in the root directory: other flags, a deleted one, one more
            bms = [q.base + x for x in sim.regions(sim.root) if bytes(image[q.base + x:q.base + x + 1]) in (b'\x81', b'\x01')]
            if bms:
                p = rng.choice(bms)
                e = bytearray(image[p:p + 32])
                how = rng.choice(['flags', 'flags', 'deleted', 'more', 'deleted-more'])
                if how == 'flags':
                    e[1] ^= rng.choice([0xFE, 2, 0x80, 1, 4])
                elif how == 'deleted':
                    e[0] = 1
                else:
                    if how == 'deleted-more':
                        e[0] = 1
                    struct.pack_into('<L', e, 20, rng.choice([0, 1, 2, q.last, q.last + 1]))
                    p = o if rng.random() < 0.5 else q.base + rng.choice(list(sim.regions(sim.root)))
                image[p:p + 32] = bytes(e)
                ctx.fault('bitmap-entry')
        elif k == 'bmchain':
            p = q.base + q.fat_off + rng.choice(sim.bm) * 4
            image[p:p + 4] = struct.pack('<L', rng.choice([0, 1, 0xFFFFFFFF]))
            ctx.fault('bitmap-chain')
        elif k in ('boot', 'bootboth'):
            for region in ((0, 1) if k == 'bootboth' else (rng.choice([0, 0, 0, 1]),)):
                p = q.base + region * 12 * q.bps
                how = rng.choice(['zero', 'byte', 'sum', 'garbage', 'version'])
                if how == 'zero':
                    i = rng.choice([0, 0, 11]) * q.bps
                    image[p + i:p + i + 512] = bytes(512)
                elif how == 'garbage':
                    i = rng.randrange(0, 11 * q.bps) // 512 * 512
                    image[p + i:p + i + 512] = b'\xA7' * 512
                elif how == 'byte':
                    i = rng.choice([3, 64, 72, 80, 84, 88, 92, 96, 105, 108, 109, 110, 120, 300, 511, q.bps + 100, 10 * q.bps + 5])
                    v = image[p + i:p + i + 1][0] ^ rng.choice([1, 2, 0x40, 0xFF])
                    image[p + i:p + i + 1] = bytes([v])
                elif how == 'version':
                    # of a later version of the file system, with a good checksum
                    b = bytearray(image[p:p + 12 * q.bps])
                    b[105] = rng.choice([2, 3, 99])
                    b[11 * q.bps:11 * q.bps + 12] = struct.pack('<L', br_checksum(b, q.bps)) * 3
                    image[p:p + len(b)] = bytes(b)
                else:
                    i = 11 * q.bps + rng.randrange(12)
                    image[p + i:p + i + 1] = bytes([image[p + i:p + i + 1][0] ^ 0x5A])
                hurt.add(region)
            if k == 'bootboth' and rng.random() < 0.5:
                # a region of this volume in a place where only a volume with other sectors keeps its backup
                for region in (0, 1):
                    image[q.base + region * 12 * q.bps:q.base + region * 12 * q.bps + 512] = bytes(512)
                at = q.base + 12 * (512 if q.bps == 4096 or (q.bps != 512 and rng.random() < 0.5) else 4096)
                image[at:at + 12 * q.bps] = bytes(sim.br)
                if at == q.base + 12 * 512:
                    image[q.base:q.base + 512] = bytes(512)
                ctx.fault('misplaced-boot-region')
            ctx.fault('boot-region')
        elif k == 'flags':
            for region in (0, 1):
                p = q.base + region * 12 * q.bps
                image[p + 106:p + 107] = bytes([image[p + 106:p + 107][0] | rng.choice([2, 4, 6])])
                image[p + 112:p + 113] = bytes([rng.randrange(256)])
            ctx.fault('volume-flags')
    # two changes can cancel each other
    out = set()
    for r in hurt:
        p = q.base + r * 12 * q.bps
        b = bytearray(image[p:p + 12 * q.bps])
        w = bytearray(sim.br)
        for i in (106, 107, 112):
            b[i] = w[i] = 0
        i = 11 * q.bps + 12
        if b[:i] == w[:i]:
            continue
        if b[:120] == w[:120] and b[510:512] == w[510:512] and bytes(b[11 * q.bps:i]) == struct.pack('<L', br_checksum(b, q.bps)) * 3:
            continue        # the checksum cannot tell (it is weak), and nothing that matters changed
        out.add(r)
    return out


def faults(sc, sim, image):
    q = sim.geo
    top = q.base + q.coff(max(sim.used) + 1)
    out = []
    for f in sc['faults']:
        if f['k'] == 'eio':
            out.append(f)
            continue
        if f['at'] < 0.5:
            lo = int(top * f['at'] * 2)
        else:
            cs = dir_clusters(sim)
            lo = q.base + q.coff(cs[int((f['at'] - 0.5) * 2 * len(cs)) % len(cs)]) + int(f['at'] * 1e6) % q.cs
        if f['k'] == 'bad':
            lo = lo // 512 * 512
            out.append({'k': 'bad', 'lo': lo, 'hi': lo + f['n'] * 512})
        else:
            if int(f['at'] * 1e7) % 2:
                lo = lo // 512 * 512
            out.append({'k': 'eof', 'at': lo})
    return out


def norm(item):
    n = type(item).__name__
    if n == 'OrphanEntry':
        return ('orphan', item.name_partial)
    if n == 'VolumeLabelEntry':
        return ('label', item.volume_label)
    return {'del': item.is_deleted, 'dir': item.is_directory, 'short': item.name, 'long': None, 'atime': item.atime, 'atz': item.atz, 'mtime': item.mtime, 'mtz': item.mtz, 'ctime': item.ctime, 'ctz': item.ctz,
            'size': item.size, 'valid': item.valid_data_length, 'attr': item.attributes, 'first': item.first_cluster, 'enc': bool(item.is_encrypted), 'nofat': bool(item.no_fat_chain)}


def live(sim):
    out = []

    def cut(t):
        return t.replace(microsecond=t.microsecond // 10000 * 10000)

    def rec(d, path):
        for x in d.children:
            e = {'del': False, 'dir': x.is_dir, 'short': path + '/' + x.name, 'long': None, 'atime': x.times['a'], 'atz': zone(x.tz['a']), 'mtime': cut(x.times['m']), 'mtz': zone(x.tz['m']), 'ctime': cut(x.times['c']), 'ctz': zone(x.tz['c']),
                 'size': x.size, 'valid': x.valid, 'attr': x.attrs, 'first': x.first, 'enc': bool(x.flags & 0x8000), 'nofat': x.nofat}
            out.append(e)
            if x.is_dir:
                rec(x, e['short'])
    rec(sim.root, '')
    return out


def check_live(ctx, sim, got):
    pool = {}
    for x in got:
        if isinstance(x, dict):
            pool.setdefault(x['short'], []).append(x)
    for e in live(sim):
        c = pool.get(e['short'], [])
        ctx.check(e in c, 'live-entry', lambda: '%s in use is %s' % (describe(e), 'not listed' if not c else 'listed as %r instead of %r' % (c[0], e)))
        c.remove(e)
    down = set()
    for x in got:
        if isinstance(x, tuple):
            continue
        p = x['short'].rsplit('/', 1)[0]
        under = p in down or p.startswith('<Orphan')
        if x['dir'] and (x['del'] or under):
            down.add(x['short'])
        if not x['del'] and not under:
            ctx.check(x not in pool.get(x['short'], []), 'phantom-live', lambda: '%s is listed as in use' % describe(x))
    lab = [x[1] for x in got if isinstance(x, tuple) and x[0] == 'label']
    ctx.check(lab == ([sim.label] if sim.label else []), 'wrong-label', lambda: 'labels %r instead of %r' % (lab, sim.label))
