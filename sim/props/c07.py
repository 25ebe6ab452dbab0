"""C07: enumerating a change journal reports every intact record once, in order, exactly; damage costs only what it hit."""
import struct
from dfir_ntfs import USN, MFT
from ..core import SimFile, SimDisk, SimClock, Scheduler, drain, pick, wpick, rng_for
from ..writers.usnsim import UsnSim, UsnRec, PAGE
from ..writers.mftsim import same_time

LEVEL = 'exploration'
RUNS = {'quick': 9000, 'thorough': 200000}
SHRINK = ['damage', 'faults', 'ops']
RULE = ('one run = a change journal written by a simulated NTFS (records of three versions, deallocated front, batches and flushes), a crash with lost or torn sectors, damaged sectors and '
        'record headers, then one or two interleaved enumerations over a plain or a fragmented sparse stream with read faults. Non-trivial: at least one record and one crash, damage or fault')
STATE_MEASURE = 'distinct (versions present, crash mode, damage kinds, fault kind, stream kind, outcome) tuples'
REAL = ['dfir_ntfs.USN: ChangeJournalParser, GetUsnRecord, USN_RECORD_V2_OR_V3, USN_RECORD_V4', 'dfir_ntfs.MFT.FragmentedFile (half of the runs)']
STUB = ['NTFS change journal writer (sim.writers.usnsim)', 'write-back disk (SimDisk)', 'journal file or volume (SimFile)']
ASSUMPTIONS = ['records start at multiples of 8 bytes and fit in one page', 'bytes of a damaged area that happen to form a record header may be reported as a record']
MUST_HIT = ['torn-write', 'lost-write', 'zeroed-sector', 'stale-sector', 'garbage-sector', 'bad-length', 'bad-version', 'eio-transient', 'eio-bad-sector', 'early-eof', 'shrunk-while-read',
            'fragmented', 'interleaved', 'resync', 'v2', 'v3', 'v4', 'sparse-front', 'lone-surrogate', 'other-extents', 'bad-name', 'name-refused']

REASONS = [1, 2, 4, 0x10, 0x20, 0x40, 0x100, 0x200, 0x400, 0x800, 0x1000, 0x2000, 0x4000, 0x8000, 0x10000, 0x80000000, 0x40, 0x2000000]


def generate(rng, tier):
    vers = pick(rng, [[2], [2], [3], [3, 4], [2, 3], [2, 3, 4]])
    cap = pick(rng, [3, 4, 6, 10])
    front = pick(rng, [0, 0, 1, 2, 3, 5, 9])
    ops = []
    for _ in range(rng.randrange(1, 60)):
        k = wpick(rng, [('rec', 12), ('flush', 1.2), ('trim', 0.3), ('skew', 0.2)])
        if k == 'rec':
            nl = wpick(rng, [(rng.randrange(1, 20), 5), (rng.randrange(1, 80), 2), (255, 0.4), (0, 0.2), (1, 0.5)])
            ops.append(['rec', pick(rng, vers), nl, rng.randrange(1 << 30)])
        elif k == 'trim':
            ops.append(['trim', rng.random()])
        else:
            ops.append([k, rng.randrange(1 << 30)])
    sc = {'cap': cap, 'front': front, 'start': pick(rng, [0, 0, 8, 512, 4000]), 'ops': ops, 'tail': pick(rng, [0, 0, 4, 8, 100, 4096, 8192]),
          'crash': {'mode': pick(rng, ['none', 'none', 'lost', 'prefix', 'reorder']), 'seed': rng.randrange(1 << 30)},
          'clip': rng.random() < 0.5, 'frag': rng.random() < 0.4, 'fragseed': rng.randrange(1 << 30), 'two': rng.random() < 0.3, 'plan': [rng.randrange(2) for _ in range(40)], 'damage': [], 'faults': []}
    for _ in range(wpick(rng, [(0, 3), (1, 3), (2, 2), (5, 1)])):
        sc['damage'].append([pick(rng, ['zero', 'stale', 'garbage', 'length', 'version', 'length', 'lost8', 'name']), rng.randrange(1 << 30)])
    f = wpick(rng, [('none', 5), ('eio', 1.5), ('bad', 1), ('eof', 1), ('shrink', 1)])
    size = (cap + front) * PAGE
    if f == 'eio':
        sc['faults'] = [{'k': 'eio', 'n': rng.randrange(0, 60)} for _ in range(rng.randrange(1, 4))]
    elif f == 'bad':
        lo = rng.randrange(0, size) // 512 * 512
        sc['faults'] = [{'k': 'bad', 'lo': lo, 'hi': lo + 512}]
    elif f == 'eof':
        sc['faults'] = [{'k': 'eof', 'at': rng.randrange(0, size)}]
    elif f == 'shrink':
        sc['faults'] = [{'k': 'shrink', 'n': rng.randrange(0, 60), 'at': rng.randrange(0, size)}]
    return sc


def build(sc, ctx):
    size = (sc['cap'] + sc['front']) * PAGE
    disk = SimDisk(ctx, size)
    clock = SimClock(ctx)
    sim = UsnSim(disk, sc['front'] * PAGE + sc['start'])
    for op in sc['ops']:
        if op[0] == 'rec':
            rng = rng_for('rec', op[3])
            clock.advance(rng.randrange(1, 10 ** 8))
            r = UsnRec()
            r.ver = op[1]
            r.minor = rng.choice([0, 0, 0, 1, 7])
            big = 1 << (64 if r.ver == 2 else 128)
            r.ref = (rng.randrange(1, 1 << 16) << 48 | rng.randrange(1 << 32)) if rng.random() < 0.8 else rng.randrange(big)
            r.parent = (rng.randrange(1, 1 << 16) << 48 | rng.randrange(1 << 32)) if rng.random() < 0.8 else rng.randrange(big)
            r.usn = 0
            r.time = clock.now()
            r.reason = 0
            for _ in range(rng.randrange(1, 4)):
                r.reason |= rng.choice(REASONS)
            if rng.random() < 0.1:
                r.reason = rng.getrandbits(32)
            r.source = rng.choice([0, 0, 0, 1, 2, 4, 8, 0x100, 0x103, 0xF, 0x80000008])
            r.sid = rng.randrange(0x100, 0x2000)
            r.attrs = rng.choice([0x20, 0x10, 0x2020, 0x26, 0x80, 0x100000])
            r.name = ''.join(rng.choice('abcdefghijklmnopqrstuvwxyz.ABC_0123\u0436\u65e5\u00e9') for _ in range(op[2]))
            if op[2] and rng.random() < 0.1:
                r.name = r.name[:-1] + rng.choice(['\U0001f600', '\U0001f4a9', ' '])
            if r.ver != 4:
                # More space before the name, and names which are no valid UTF-16.
                r.gap = rng.choice([0, 0, 0, 0, 2, 4, 12])
                r.rawname = r.name.encode('utf-16le')
                if op[2] > 2 and rng.random() < 0.08:
                    k = rng.randrange(op[2]) * 2
                    r.rawname = r.rawname[:k] + rng.choice([b'\x00\xd8', b'\x34\xdc']) + r.rawname[k:]
                    ctx.probe('lone-surrogate')
            r.remaining = rng.choice([0, 0, 3])
            r.esize = rng.choice([16, 16, 16, 16, 8, 24, 32])
            r.extents = [(rng.randrange(1 << 40) & ~0xFFFF | 0x10000, rng.randrange(1, 1 << 24)) if rng.random() < 0.9 else (rng.randrange(-1 << 63, 1 << 63), rng.randrange(-1 << 63, 1 << 63)) for _ in range(rng.randrange(1, 6))]
            r.extra = rng.choice([0, 0, 0, 1, 5])
            if r.esize != 16:
                r.extents = [rng.getrandbits(8 * r.esize).to_bytes(r.esize, 'little') for _ in range(rng.randrange(16 // r.esize + 1, 6))]
                ctx.probe('other-extents')
            if not sim.append(r):
                break
            ctx.probe('v%d' % r.ver)
        elif op[0] == 'flush':
            disk.flush()
        elif op[0] == 'trim':
            disk.flush()
            sim.deallocate(int(sc['front'] * PAGE + (sim.end - sc['front'] * PAGE) * op[1] * 0.5))
        elif op[0] == 'skew':
            clock.jump(rng_for('skew', op[1]).randrange(1, 190000000000000000))
    image = bytearray(disk.crash(sc['crash']['mode'], sc['crash']['seed']))
    if sc['clip']:
        image = image[:max(sim.end, 1)] + bytearray(sc['tail'])
    if sc['front'] * PAGE >= 8192:
        ctx.probe('sparse-front')
    return sim, image


def damage(sc, ctx, sim, image):
    for k, seed in sc['damage']:
        rng = rng_for('dmg', seed)
        recs = [r for r in sim.records if r.pos + len(r.raw) <= len(image)]
        if not recs:
            return
        r = rng.choice(recs)
        s = (r.pos + rng.randrange(len(r.raw))) // 512 * 512
        n = min(512, len(image) - s)
        if k == 'zero':
            image[s:s + n] = bytes(n)
            ctx.fault('zeroed-sector')
        elif k == 'stale':
            q = rng.choice(recs).pos // 512 * 512
            src = bytes(image[q:q + n])
            image[s:s + len(src)] = src
            ctx.fault('stale-sector')
        elif k == 'garbage':
            image[s:s + n] = bytes([rng.randrange(1, 256)]) * n if rng.random() < 0.5 else bytes(rng.randrange(256) for _ in range(n))
            ctx.fault('garbage-sector')
        elif k == 'lost8':
            p = r.pos
            image[p:p + 8] = bytes(8)
            ctx.fault('zeroed-header')
        elif k == 'length':
            struct.pack_into('<L', image, r.pos, rng.choice([0, 1, 4, 7, 8, 16, 56, 61, len(r.raw) + 4, len(r.raw) - 1, 8200, 1 << 16, 0xFFFFFFF8, 0x80000000]))
            ctx.fault('bad-length')
        elif k == 'name':
            if r.ver != 4:
                struct.pack_into('<H', image, r.pos + (56 if r.ver == 2 else 72) + rng.choice([0, 2]), rng.choice([0xFFFE, len(r.raw), len(r.raw) - 2, 4000, 1 << 15]))
                ctx.fault('bad-name')
        elif k == 'version':
            struct.pack_into('<H', image, r.pos + 4, rng.choice([0, 1, 5, 0xFFFF, 0x200]))
            ctx.fault('bad-version')


def plausible(img, p):
    """Can the bytes at p be taken for a record? Returns the record length."""
    if p + 8 > len(img):
        return None
    ln, ver = struct.unpack_from('<LH', img, p)
    least = {2: 62, 3: 78, 4: 80}.get(ver)
    if least is None or ln < least or ln % 8 or ln > 8192 or p + ln > len(img):
        return None
    return ln


REASON_NAMES = {1: 'DATA_OVERWRITE', 2: 'DATA_EXTEND', 4: 'DATA_TRUNCATION', 0x10: 'NAMED_DATA_OVERWRITE', 0x20: 'NAMED_DATA_EXTEND', 0x40: 'NAMED_DATA_TRUNCATION', 0x100: 'FILE_CREATE', 0x200: 'FILE_DELETE', 0x400: 'EA_CHANGE',
                0x800: 'SECURITY_CHANGE', 0x1000: 'RENAME_OLD_NAME', 0x2000: 'RENAME_NEW_NAME', 0x4000: 'INDEXABLE_CHANGE', 0x8000: 'BASIC_INFO_CHANGE', 0x10000: 'HARD_LINK_CHANGE', 0x20000: 'COMPRESSION_CHANGE',
                0x40000: 'ENCRYPTION_CHANGE', 0x80000: 'OBJECT_ID_CHANGE', 0x100000: 'REPARSE_POINT_CHANGE', 0x200000: 'STREAM_CHANGE', 0x400000: 'TRANSACTED_CHANGE', 0x800000: 'INTEGRITY_CHANGE', 0x80000000: 'CLOSE'}
SOURCE_NAMES = {1: 'DATA_MANAGEMENT', 2: 'AUXILIARY_DATA', 4: 'REPLICATION_MANAGEMENT', 8: 'CLIENT_REPLICATION_MANAGEMENT'}


def words(prefix, names, v):
    known = [prefix + names[b] for b in sorted(names) if v & b]
    rest = v & ~sum(names)
    return sorted(known + ([hex(rest)] if rest else []))


def same_intact(ctx, x, r):
    g = sorted(w for w in USN.ResolveReasonCodes(x.get_reason()).split(' | ') if w), sorted(w for w in USN.ResolveSourceCodes(x.get_source_info()).split(' | ') if w)
    w = words('USN_REASON_', REASON_NAMES, r.reason), words('USN_SOURCE_', SOURCE_NAMES, r.source)
    ctx.check(g == w, 'wrong-codes', lambda: 'record at %d: reason and source %r instead of %r' % (r.pos, g, w))
    got = (x.get_major_version(), x.get_minor_version(), x.get_record_length(), x.get_file_reference_number(), x.get_parent_file_reference_number(), x.get_usn(), x.get_reason(), x.get_source_info())
    want = (r.ver, r.minor, len(r.raw), r.ref, r.parent, r.usn, r.reason, r.source)
    ctx.check(got == want, 'wrong-field', lambda: 'record at %d: %r instead of %r' % (r.pos, got, want))
    if r.ver == 4:
        ctx.check(isinstance(x, USN.USN_RECORD_V4), 'wrong-type', 'record at %d', r.pos)
        ctx.check((x.get_remaining_extents(), x.get_number_of_extents(), x.get_extent_size(), list(x.extents())) == (r.remaining, len(r.extents) + r.extra, r.esize, r.extents), 'wrong-extents', 'record at %d', r.pos)
    else:
        ctx.check(isinstance(x, USN.USN_RECORD_V2_OR_V3), 'wrong-type', 'record at %d', r.pos)
        ctx.check((x.get_security_id(), x.get_file_attributes(), x.get_file_name_length(), x.get_file_name()) == (r.sid, r.attrs, len(r.rawname), r.rawname.decode('utf-16le', 'replace')), 'wrong-field', lambda: 'record at %d: %r instead of %r' % (r.pos, x.get_file_name(), r.name))
        ctx.check(same_time(x.get_timestamp(), r.time), 'wrong-time', 'record at %d', r.pos)


def is_at(x, img, p, ln):
    """Does the reported object describe the bytes at p?"""
    ver = struct.unpack_from('<H', img, p + 4)[0]
    if (x.get_record_length(), x.get_major_version()) != (ln, ver):
        return False
    if ver == 2:
        want = struct.unpack_from('<QQQ', img, p + 8) + struct.unpack_from('<LL', img, p + 40)
    else:
        a = struct.unpack_from('<QQQQQ', img, p + 8)
        o = 56 if ver == 3 else 48
        want = (a[1] << 64 | a[0], a[3] << 64 | a[2], a[4]) + struct.unpack_from('<LL', img, p + o)
    return want == (x.get_file_reference_number(), x.get_parent_file_reference_number(), x.get_usn(), x.get_reason(), x.get_source_info())


def check_out(ctx, sim, img, out, upto):
    """Walk the image with the list of written records as the reference. upto: records ending after it need not be reported (the file was cut while it was read)."""
    intact = {r.pos: r for r in sim.records if bytes(img[r.pos:r.pos + len(r.raw)]) == r.raw and len(r.raw) >= {2: 62, 3: 78, 4: 80}[r.ver]}
    i = 0
    p = 0
    n = len(img)
    damaged = False
    while p < n:
        r = intact.get(p)
        if r is not None:
            here = i < len(out) and out[i].get_usn() == r.usn and is_at(out[i], img, p, len(r.raw))
            if p + len(r.raw) > upto and not here:
                p += 8
                continue
            ctx.check(i < len(out), 'record-lost', lambda: 'record at %d of %d not reported (%d reported)' % (p, n, len(out)))
            ctx.check(here, 'record-lost', lambda: 'record at %d expected, reported USN %d' % (p, out[i].get_usn()))
            same_intact(ctx, out[i], r)
            if damaged:
                ctx.probe('resync')
                damaged = False
            i += 1
            p += len(r.raw)
            continue
        ln = plausible(img, p)
        if ln is not None and i < len(out) and is_at(out[i], img, p, ln):
            # What is not in the record is not made up.
            x, ver = out[i], struct.unpack_from('<H', img, p + 4)[0]
            if ver != 4:
                nl, no = struct.unpack_from('<HH', img, p + (56 if ver == 2 else 72))
                try:
                    nm = x.get_file_name()
                except ValueError:
                    ctx.check(no + nl > ln, 'name-refused', lambda: 'record at %d: name of %d bytes at %d of %d' % (p, nl, no, ln))
                    ctx.probe('name-refused')
                else:
                    ctx.check((no + nl <= ln or nl == 0) and nm == bytes(img[p + no:p + no + nl]).decode('utf-16le', 'replace'), 'made-up-name', lambda: 'record at %d: %r' % (p, nm))
            else:
                cnt, es = struct.unpack_from('<HH', img, p + 60)
                if es:
                    ctx.check(len(list(drain(ctx, x.extents(), 70000))) <= min(cnt, (ln - 64) // es), 'made-up-extents', 'record at %d', p)
            i += 1
            p += ln
            ctx.probe('damaged-record-reported')
            damaged = True
            continue
        if img[p:p + 8].strip(b'\0'):
            damaged = True
        p += 8
    ctx.check(i == len(out), 'phantom-record', lambda: 'reported record %d of %d (USN %d) is not in the journal at that place' % (i, len(out), out[i].get_usn()))


def fragment(sc, ctx, image):
    """Lay the journal out as a fragmented, sparse stream of a volume."""
    rng = rng_for('frag', sc['fragseed'])
    cs = rng.choice([512, 1024, 4096])
    n = (len(image) + cs - 1) // cs
    data = bytes(image).ljust(n * cs, b'\xEE')
    free = list(range(1, 2 * n + 8))
    vol = bytearray(b'\xDD' * (cs * (2 * n + 12)))
    runs = []
    i = 0
    pos = 1
    while i < n:
        k = min(n - i, rng.randrange(1, 9))
        chunk = data[i * cs:(i + k) * cs]
        if not chunk.strip(b'\0') and rng.random() < 0.9:
            runs.append((None, k))
        else:
            runs.append((pos, k))
            vol[pos * cs:(pos + k) * cs] = chunk
            pos += k + rng.randrange(0, 2)
        i += k
    order = list(range(len(runs)))
    ctx.probe('fragmented')
    return bytes(vol), runs, cs


def execute(sc, ctx):
    sim, image = build(sc, ctx)
    damage(sc, ctx, sim, image)
    image = bytes(image)
    if not image:
        return
    faults = sc['faults']
    kinds = {f['k'] for f in faults}
    if sc['frag'] and not kinds & {'shrink', 'eof'}:
        vol, runs, cs = fragment(sc, ctx, image)
        vf = SimFile(ctx, vol, faults, 'vol')
        fo = MFT.FragmentedFile(vf, 0, cs, runs, len(image))
    else:
        vf = fo = SimFile(ctx, image, faults, 'usn')
    img = image
    upto = len(image)
    for f in faults:
        if f['k'] == 'eof':
            img = image[:f['at']]
            upto = len(img)
        elif f['k'] == 'shrink':
            upto = min(upto, f['at'])
    for attempt in range(5):
        try:
            p = USN.ChangeJournalParser(fo)
            outs = [[], []]

            def consume(k):
                for x in p.usn_records():
                    outs[k].append(x)
                    ctx.step()
                    if len(outs[k]) > len(image) // 8 + 2:
                        ctx.check(False, 'no-progress', 'more records than fit in the journal')
                    yield
            if sc['two']:
                Scheduler(ctx, sc['plan']).run({'a': consume(0), 'b': consume(1)})
                ctx.probe('interleaved')
            else:
                for _ in consume(0):
                    pass
        except OSError:
            ctx.check(vf.n_fired > 0, 'read-error', 'an I/O error without a fault')
            ctx.probe('io-error')
            ctx.nontrivial = True
            if 'bad' in kinds:
                break
            continue
        if 'bad' in kinds and vf is fo:
            lo = faults[0]['lo']
            ctx.check(lo >= len(image), 'error-hidden', 'a bad sector at %d was not reported', lo)
        check_out(ctx, sim, img, outs[0], upto)
        if sc['two']:
            check_out(ctx, sim, img, outs[1], upto)
        break
    ctx.check_no_writes()
    if sim.records and (sc['crash']['mode'] != 'none' or sc['damage'] or faults):
        ctx.nontrivial = True
    ctx.state(tuple(sorted({r.ver for r in sim.records})), sc['crash']['mode'], tuple(sorted({d[0] for d in sc['damage']})), tuple(sorted(kinds)), sc['frag'], sc['two'], attempt)
    ctx.sample = {'ops': sc['ops'][:4], 'damage': sc['damage'], 'faults': faults, 'crash': sc['crash']}
