"""C14: reading a GUID partition table: exactly one complete version of the table, from the primary or a backup copy, or a refusal."""
import struct
import uuid
import zlib
from dfir_ntfs import PartitionTable
from ..core import SimFile, SparseDisk, Scheduler, pick, wpick, rng_for

LEVEL = 'exploration'
RUNS = {'quick': 120000, 'thorough': 1500000}
SHRINK = ['damage', 'faults', 'ops', 'calls']
RULE = ('one run = a disk partitioned by a simulated tool (any sector size, entry size and count; additions, deletions, renames, the four parts of the table written in different orders with or without barriers), copied to a larger disk or cut, '
        'a crash with lost, torn or reordered sectors, damaged, misdirected and resealed headers, then a sequence of reads of the header and the partitions with read faults, possibly by two interleaved readers. Non-trivial: a crash, damage or fault, or a backup copy used')
STATE_MEASURE = 'distinct (sector size, entry size, write order, crash mode, damage kinds, fault kinds, location used or refusal, versions present) tuples'
REAL = ['dfir_ntfs.PartitionTable.GPT']
STUB = ['partitioning tool (in this module)', 'write-back disk (SparseDisk)', 'disk image (SimFile)']
ASSUMPTIONS = ['a sector is written atomically', 'a CRC32 collision does not occur by chance']
MUST_HIT = ['crash-prefix', 'crash-reorder', 'torn-write', 'primary', 'backup-recorded', 'backup-last', 'refused', 'enlarged', 'cut', 'zeroed-sector', 'garbage-sector', 'flipped-bit', 'misdirected', 'resealed', 'eio-transient', 'eio-bad-sector',
            'early-eof', 'short-read', 'old-version', 'interleaved', 'empty-table', 'bad-name', 'changed-array']


class Table(object):
    def __init__(self):
        self.entries = {}


def entry_bytes(e, size):
    t, u, a, b, at, name = e
    return (t + u + struct.pack('<QQQ', a, b, at) + name).ljust(size, b'\0')


def header_bytes(ss, hs, my, alt, first, last, guid, elba, n, es, crc, rev=0x10000, sig=b'EFI PART', pad=b''):
    h = bytearray(struct.pack('<8sLLLLQQQQ16sQLLL', sig, rev, hs, 0, 0, my, alt, first, last, guid, elba, n, es, crc))
    h += pad[:hs - 92].ljust(max(0, hs - 92), b'\0')
    struct.pack_into('<L', h, 16, zlib.crc32(bytes(h[:hs])) & 0xffffffff)
    return bytes(h).ljust(ss, b'\0')


def parse_header(img, size, ss, lba):
    """Reference: the header at lba if it is a valid one for that place, with its entry array."""
    off = lba * ss
    if off < 0 or off + ss > size:
        return None
    buf = bytes(img[off:off + ss])
    f = struct.unpack('<8sLLLLQQQQ16sQLLL', buf[:92])
    sig, rev, hs, crc, _, my, alt, first, last, guid, elba, n, es, acrc = f
    if sig != b'EFI PART' or rev == 0 or not 92 <= hs <= ss:
        return None
    if zlib.crc32(buf[:16] + bytes(4) + buf[20:hs]) & 0xffffffff != crc:
        return None
    if my != lba or alt == my or alt == 0 or first < 2 + 16384 // ss or es < 128 or es % 128:
        return None
    if elba < 2 or (elba + 1) * ss >= size or elba * ss + n * es > size:
        return None
    arr = bytes(img[elba * ss:elba * ss + n * es])
    if zlib.crc32(arr) & 0xffffffff != acrc:
        return None
    return {'first': first, 'last': last, 'guid': guid, 'elba': elba, 'n': n, 'es': es, 'crc': acrc, 'arr': arr}


def reference(img, size, ss):
    """(location, header) as the rules say: primary, then the backup recorded in the primary sector, then the last sector."""
    h = parse_header(img, size, ss, 1)
    if h:
        return 0, h
    buf = bytes(img[ss:ss + 40])
    if 2 * ss <= size and buf[:8] == b'EFI PART':
        alt = struct.unpack_from('<Q', buf, 32)[0]
        h = parse_header(img, size, ss, alt) if alt * ss + ss <= size else None
        if h:
            return 2, h
    if size % ss == 0:
        h = parse_header(img, size, ss, size // ss - 1)
        if h:
            return 1, h
    return None


def partitions(h):
    out = []
    for i in range(h['n']):
        b = h['arr'][i * h['es']:i * h['es'] + 128]
        if b[:16] == bytes(16):
            continue
        try:
            name = b[56:128].decode('utf-16le').split('\0')[0]
        except UnicodeDecodeError:
            name = ''
        out.append((uuid.UUID(bytes_le=b[:16]), uuid.UUID(bytes_le=b[16:32])) + struct.unpack_from('<QQQ', b, 32) + (name,))
    return out


def generate(rng, tier):
    ss = pick(rng, [512, 512, 512, 4096, 1024, 2048])
    n = pick(rng, [128, 128, 128, 4, 16, 56, 129, 200, 1, 0])
    es = pick(rng, [128, 128, 128, 256, 512])
    ops = []
    for _ in range(rng.randrange(1, 12)):
        k = wpick(rng, [('add', 6), ('del', 2), ('name', 1.5), ('save', 5), ('flush', 1)])
        ops.append([k, rng.randrange(1 << 30)])
    ops.append(['save', rng.randrange(1 << 30)])
    sc = {'ss': ss, 'n': n, 'es': es, 'hs': pick(rng, [92, 92, 92, 96, 128, 512, 600, 4096]), 'rev': pick(rng, [0x10000, 0x10000, 0x10000, 0x10002, 0x20000, 1]), 'gap': pick(rng, [0, 0, 0, 3, 30]), 'size': rng.randrange(40, 400), 'seed': rng.randrange(1 << 30), 'order': pick(rng, ['backup-first', 'primary-first', 'arrays-first']),
          'barrier': rng.random() < 0.7, 'lastflush': rng.random() < 0.4, 'ops': ops, 'crash': {'mode': pick(rng, ['none', 'none', 'lost', 'prefix', 'prefix', 'reorder', 'reorder']), 'seed': rng.randrange(1 << 30)},
          'enlarge': pick(rng, [0, 0, 0, 0, 1, 7, 100]), 'cut': rng.random() if rng.random() < 0.08 else None, 'damage': [], 'faults': [],
          'calls': [wpick(rng, [('header', 3), ('parts', 3), ('stale', 0.5), ('race', 0.6)]) for _ in range(rng.randrange(1, 7))], 'two': rng.random() < 0.2, 'plan': [rng.randrange(2) for _ in range(12)]}
    for _ in range(wpick(rng, [(0, 3), (1, 4), (2, 2), (3, 1)])):
        sc['damage'].append([pick(rng, ['zero', 'garbage', 'flip', 'flip', 'misdirect', 'reseal', 'reseal', 'stalesig']), pick(rng, ['p', 'p', 'b', 'pa', 'ba']), rng.randrange(1 << 30)])
    f = wpick(rng, [('none', 6), ('eio', 1.5), ('bad', 1), ('eof', 0.7), ('short', 1)])
    if f == 'eio':
        sc['faults'] = [{'k': 'eio', 'n': rng.randrange(0, 10)} for _ in range(rng.randrange(1, 4))]
    elif f == 'bad':
        sc['faults'] = [{'k': 'bad', 'at': pick(rng, ['p', 'b', 'pa', 'ba'])}]
    elif f == 'eof':
        sc['faults'] = [{'k': 'eof', 'at': rng.random()}]
    elif f == 'short':
        sc['faults'] = [{'k': 'short', 'n': rng.randrange(0, 10), 'keep': rng.randrange(0, 600)} for _ in range(rng.randrange(1, 3))]
    return sc


def build(sc, ctx):
    ss, n, es = sc['ss'], sc['n'], sc['es']
    rng = rng_for('gpt', sc['seed'])
    alen = max(16384, n * es)
    asec = (alen + ss - 1) // ss
    total = 2 * asec + 2 * sc['gap'] + 3 + sc['size']
    disk = SparseDisk(ctx, (total + sc['enlarge']) * ss)
    guid = bytes(rng.randrange(256) for _ in range(16))
    pa, ba = 2 + sc['gap'], total - 1 - asec - sc['gap']
    first, last = pa + asec, ba - 1
    geo = {'p': 1, 'b': total - 1, 'pa': pa, 'ba': ba, 'total': total, 'asec': asec}
    hs = min(sc['hs'], ss)
    entries = {}
    versions = []
    pad = bytes(rng.randrange(256) for _ in range(16)) * 250

    def save(flush_between):
        arr = b''.join(entry_bytes(entries[i], es) if i in entries else bytes(es) for i in range(n))
        crc = zlib.crc32(arr) & 0xffffffff
        ph = header_bytes(ss, hs, 1, total - 1, first, last, guid, pa, n, es, crc, rev=sc['rev'], pad=pad)
        bh = header_bytes(ss, hs, total - 1, 1, first, last, guid, ba, n, es, crc, rev=sc['rev'], pad=pad)
        steps = {'backup-first': [(ba, arr), (total - 1, bh), None, (pa, arr), (1, ph)], 'primary-first': [(pa, arr), (1, ph), None, (ba, arr), (total - 1, bh)],
                 'arrays-first': [(pa, arr), (ba, arr), None, (1, ph), (total - 1, bh)]}[sc['order']]
        versions.append(crc)
        for s in steps:
            if s is None:
                if flush_between:
                    disk.flush()
            elif s[1]:
                disk.write(s[0] * ss, s[1])
    save(False)
    disk.flush()
    for i, (k, seed) in enumerate(sc['ops']):
        r = rng_for('op', seed)
        if k == 'add':
            free = [j for j in range(n) if j not in entries]
            if free:
                j = r.choice(free[:3] + free[-1:])
                a = r.randrange(first, last + 1)
                name = ''.join(r.choice('abc XYZ\u0436\u65e5\U0001f600') for _ in range(r.choice([0, 3, 12, 36]))).encode('utf-16le')[:72]
                if r.random() < 0.05:
                    name = b'a\0b\0\x00\xd8' + b'c\0'
                    ctx.probe('bad-name')
                name = name.ljust(72, b'\0')
                if r.random() < 0.1:
                    name = (name[:r.randrange(0, 30) * 2] + b'\0\0' + bytes(r.choice(b'qrs') if not x % 2 else 0 for x in range(72)))[:72]
                entries[j] = (bytes(r.randrange(1, 256) for _ in range(16)), bytes(r.randrange(256) for _ in range(16)), a, r.randrange(a, last + 1), r.choice([0, 0, 1, 4, 1 << 60, (1 << 63) | 7]), name)
                if r.random() < 0.1:
                    entries[j] = (bytes(15) + b'\1',) + entries[j][1:]
        elif k == 'del' and entries:
            del entries[r.choice(sorted(entries))]
        elif k == 'name' and entries:
            j = r.choice(sorted(entries))
            entries[j] = entries[j][:5] + (('n%d' % r.randrange(1000)).encode('utf-16le').ljust(72, b'\0'),)
        elif k == 'save':
            save(sc['barrier'])
            if sc['lastflush'] or i < len(sc['ops']) - 1:
                if r.random() < 0.7 or sc['lastflush']:
                    disk.flush()
        elif k == 'flush':
            disk.flush()
    image = disk.crash(sc['crash']['mode'], sc['crash']['seed'])
    size = len(image)
    if sc['enlarge']:
        ctx.probe('enlarged')
    if sc['cut'] is not None:
        size = max(3 * ss + 32768, int(size * sc['cut']) // ss * ss)
        size = min(size, len(image))
        ctx.probe('cut')
    return image, size, geo, versions


def damage(sc, ctx, image, size, geo):
    ss = sc['ss']
    for k, where, seed in sc['damage']:
        r = rng_for('dmg', seed)
        s = geo[where] + (r.randrange(max(1, min(geo['asec'], (sc['n'] * sc['es'] + ss - 1) // ss))) if where in ('pa', 'ba') else 0)
        off = s * ss
        if off + ss > len(image):
            continue
        if k == 'zero':
            image[off:off + ss] = bytes(ss)
            ctx.fault('zeroed-sector')
        elif k == 'garbage':
            image[off:off + ss] = bytes(r.randrange(256) for _ in range(ss))
            ctx.fault('garbage-sector')
        elif k == 'flip':
            b = bytearray(image[off:off + ss])
            b[r.choice([r.randrange(ss), r.randrange(0, 96), r.randrange(16, 92)])] ^= 1 << r.randrange(8)
            image[off:off + ss] = bytes(b)
            ctx.fault('flipped-bit')
        elif k == 'misdirect':
            src = geo[r.choice(['p', 'b', 'pa'])] * ss
            image[off:off + ss] = bytes(image[src:src + ss])
            ctx.fault('misdirected')
        elif k == 'stalesig':
            image[off:off + 8] = b'EFI PARU'
            ctx.fault('bad-signature')
        elif k == 'reseal':
            off = geo[r.choice(['p', 'p', 'b'])] * ss
            b = bytearray(image[off:off + ss])
            fld, vals = r.choice([((8, '<L'), [0]), ((12, '<L'), [0, 91, 92, ss + 1, 0xffffffff]), ((24, '<Q'), [0, 1, 2, geo['b'], 1 << 62, (1 << 64) - 1]), ((32, '<Q'), [0, 1, geo['b'], geo['b'] - 1, 1 << 55, (1 << 64) - 1]),
                                  ((40, '<Q'), [0, 2, 5, 33, 34]), ((72, '<Q'), [0, 1, 2, geo['ba'], geo['total'] - 2, geo['total'] - 1, geo['total'], 1 << 60, (1 << 64) - 1]),
                                  ((80, '<L'), [0, 1, sc['n'] + 1, 0x1000000, 0xffffffff]), ((84, '<L'), [0, 64, 127, 129, 128, 256, 1 << 20, 0xffffff80]), ((88, '<L'), [0, 1])])
            struct.pack_into(fld[1], b, fld[0], r.choice(vals))
            hs = struct.unpack_from('<L', b, 12)[0]
            b[16:20] = bytes(4)
            struct.pack_into('<L', b, 16, zlib.crc32(bytes(b[:hs])) & 0xffffffff)
            image[off:off + ss] = bytes(b)
            ctx.fault('resealed')


def execute(sc, ctx):
    ss = sc['ss']
    image, size, geo, versions = build(sc, ctx)
    damage(sc, ctx, image, size, geo)
    faults = []
    for f in sc['faults']:
        if f['k'] == 'bad':
            lo = geo[f['at']] * ss
            faults.append({'k': 'bad', 'lo': lo, 'hi': lo + 512})
        elif f['k'] == 'eof':
            size = min(size, max(1, int(size * f['at'])))
            ctx.fault('early-eof')
        else:
            faults.append(f)
    kinds = {f['k'] for f in faults}
    img = bytearray(image[0:size]) if size < len(image) else image
    vf = SimFile(ctx, img, faults, 'disk')
    want = reference(img, size, ss)
    outcome = []
    small = size < 3 * ss + 32768

    def reader(name):
        try:
            gpt = PartitionTable.GPT(vf, ss)
        except ValueError:
            ctx.check(small, 'refused', 'a disk of %d bytes', size)
            ctx.probe('too-small')
            return
        ctx.check(not small, 'made-up-table', 'disk of %d bytes accepted', size)
        held = None
        for call in sc['calls']:
            fired = vf.n_fired
            try:
                h = gpt.read_gpt_header() if call != 'stale' or held is None else held
                if call == 'race':
                    # The array is rewritten between the two calls.
                    ln = h.number_of_partition_entries * h.size_of_partition_entry
                    at = h.partition_entry_lba * ss + (h.first_usable_lba * 31 + len(outcome) * 977) % max(1, ln)
                    if ln:
                        old = bytes(img[at:at + 1])
                        img[at:at + 1] = bytes([old[0] ^ 0x41])
                        try:
                            gpt.read_gpt_partitions(h.partition_entry_lba, h.number_of_partition_entries, h.size_of_partition_entry, h.partition_entry_crc32)
                            ctx.check(False, 'made-up-table', 'partitions of another array than the one of the header')
                        except ValueError:
                            ctx.probe('changed-array')
                        finally:
                            img[at:at + 1] = old
                parts = gpt.read_gpt_partitions(h.partition_entry_lba, h.number_of_partition_entries, h.size_of_partition_entry, h.partition_entry_crc32) if call != 'header' else None
            except OSError as e:
                ctx.check(vf.n_fired > fired, 'unhandled-OSError', lambda: repr(e))
                ctx.probe('read-error-raised')
                outcome.append('error')
                yield
                continue
            except (ValueError, OverflowError) as e:
                # A refusal is right when no copy is valid or what was read was incomplete.
                ctx.check(want is None or vf.n_fired > fired, 'table-not-found', lambda: 'a valid copy exists (location %d) but: %r' % (want[0], e))
                ctx.probe('refused')
                outcome.append('refused')
                yield
                continue
            held = h
            got = (h.first_usable_lba, h.last_usable_lba, h.disk_guid, h.partition_entry_lba, h.number_of_partition_entries, h.size_of_partition_entry, h.partition_entry_crc32)
            if vf.n_fired > fired:
                # Something could not be read: the answer is another valid copy, never anything else.
                cands = [c for c in (parse_header(img, size, ss, l) for l in {1, size // ss - 1, geo['b'], struct.unpack('<Q', bytes(img[ss + 32:ss + 40]))[0]} if l * ss + ss <= size) if c]
                ok = [c for c in cands if got == (c['first'], c['last'], uuid.UUID(bytes_le=c['guid']), c['elba'], c['n'], c['es'], c['crc'])]
                ctx.check(ok, 'made-up-table', lambda: 'header %r is none of the valid copies' % (got,))
                ref = ok[0]
                outcome.append('fallback')
            else:
                ctx.check(want is not None, 'made-up-table', lambda: 'no valid copy exists, reported %r' % (h,))
                loc, ref = want
                w = (ref['first'], ref['last'], uuid.UUID(bytes_le=ref['guid']), ref['elba'], ref['n'], ref['es'], ref['crc'])
                if call != 'stale':
                    ctx.check(got == w, 'wrong-header', lambda: '%r instead of %r' % (got, w))
                    at = {0: 1, 2: None, 1: size // ss - 1}[loc]
                    # Location codes 1 and 2 both name the backup; they coincide when the recorded place is the last sector.
                    ctx.check((h.location == 0) == (loc == 0) and h.location in (0, 1, 2), 'wrong-location', '%d instead of %d', h.location, loc)
                    ctx.probe(['primary', 'backup-last', 'backup-recorded'][loc])
                    outcome.append(loc)
                    if loc:
                        ctx.nontrivial = True
                else:
                    ref = dict(ref, arr=bytes(img[h.partition_entry_lba * ss:h.partition_entry_lba * ss + h.number_of_partition_entries * h.size_of_partition_entry]), n=h.number_of_partition_entries, es=h.size_of_partition_entry)
            if parts is not None:
                wp = partitions(ref)
                ctx.check([tuple(p) for p in parts] == wp, 'wrong-partitions', lambda: '%r instead of %r' % (parts, wp))
                if not wp:
                    ctx.probe('empty-table')
            if ref['crc'] in versions and ref['crc'] != versions[-1]:
                ctx.probe('old-version')
            yield
    if sc['two']:
        ctx.probe('interleaved')
        Scheduler(ctx, sc['plan']).run({'a': reader('a'), 'b': reader('b')})
    else:
        for _ in reader('a'):
            pass
    if sc['crash']['mode'] == 'none' and not sc['damage'] and not faults and not small and sc['cut'] is None and not sc['enlarge'] and not [f for f in sc['faults']]:
        ctx.check(want is not None and want[0] == 0 and want[1]['crc'] == versions[-1], 'harness', 'an undamaged table must be the last one')
    if sc['crash']['mode'] != 'none' or sc['damage'] or sc['faults']:
        ctx.nontrivial = True
    ctx.state(ss, sc['es'], sc['order'], sc['barrier'], sc['crash']['mode'], tuple(sorted({d[0] + d[1] for d in sc['damage']})), tuple(sorted(kinds)), tuple(outcome[:2]), len(set(versions)) > 1)
    ctx.sample = {'sector': ss, 'entries': sc['n'], 'crash': sc['crash']['mode'], 'damage': [d[:2] for d in sc['damage']], 'faults': sc['faults'], 'outcomes': outcome}
