"""C18: finding the $MFT in a volume: the stream read through FileSystemParser is exactly the $MFT, however fragmented and wherever it grew, or the volume is refused."""
import io
import struct
from dfir_ntfs import MFT, BootSector
from ..core import SimFile, SparseDisk, SimClock, pick, wpick, rng_for
from .. import mfthist
from ..writers import ntfs
from ..writers.volsim import VolSim

LEVEL = 'exploration'
RUNS = {'quick': 26000, 'thorough': 250000}
SHRINK = ['damage', 'faults', 'reads', 'ops']
RULE = ('one run = a volume (any sector, cluster and record size, any offset in the image) whose $MFT grows run by run, its mapping spilling over into child records listed in a resident or nonresident attribute list, while files are created and removed; '
        'a crash at any point of a growth, damaged boot sector, first record, child record or attribute list, then opening the volume and reading its $MFT with read faults. Non-trivial: a mapping in several records, or a crash, damage or fault')
STATE_MEASURE = 'distinct (sector size, cluster size, record size, runs, records in the mapping, attribute list kind, crash mode, damage kinds, fault kind, outcome) tuples'
REAL = ['dfir_ntfs.BootSector', 'dfir_ntfs.MFT: FileSystemParser, FragmentedFile, FileRecord.get_data_runs, MasterFileTableParser', 'dfir_ntfs.Attributes.AttributeList']
STUB = ['NTFS driver (sim.writers.volsim, mftsim)', 'write-back disk (SparseDisk)', 'volume image (SimFile)']
ASSUMPTIONS = ['growth of the $MFT is ordered: new records, then child records, then the attribute list, then the first record', 'a child record lies in a part of the $MFT described by an earlier one']
MUST_HIT = ['crash-prefix', 'crash-reorder', 'torn-write', 'grown', 'attribute-list', 'attribute-list-nonresident', 'many-children', 'named-stream', 'opened', 'refused', 'boot-damaged', 'first-record-damaged', 'child-damaged', 'list-damaged', 'eio-transient', 'eio-bad-sector', 'early-eof', 'boot-field', 'boot-field-refused', 'offset', 'big-cluster', 'small-cluster', 'stream-read']

DECLARED = (MFT.MasterFileTableException, BootSector.BootSectorException)


def generate(rng, tier):
    bps = pick(rng, [512, 512, 512, 1024, 4096])
    frs = 4096 if bps == 4096 else pick(rng, [1024, 1024, 1024, 4096])
    spc = pick(rng, [1, 2, 4, 8, 8, 16]) if bps < 4096 else pick(rng, [1, 1, 2])
    if rng.random() < 0.03:
        bps, spc = 512, 256
        frs = pick(rng, [1024, 4096])
    cs = bps * spc
    unit = max(1, frs // cs)
    sc = {'bps': bps, 'spc': spc, 'frs': frs, 'off': pick(rng, [0, 0, 512, 1 << 20, 63 * 512]), 'seed': rng.randrange(1 << 30), 'per': pick(rng, [1, 2, 3, 8]), 'alist_nr': rng.random() < 0.4, 'short': rng.random() < 0.1, 'extra': rng.randrange(3),
          'first': max(1, (pick(rng, [26, 40]) * frs + cs - 1) // cs) // unit * unit + unit, 'unit': unit, 'crash': {'mode': wpick(rng, [('none', 3), ('prefix', 2), ('reorder', 3), ('lost', 1)]), 'seed': rng.randrange(1 << 30)}, 'damage': [], 'faults': [],
          'reads': [[rng.random(), pick(rng, [1, 512, 1024, 4096, 5000, 100000])] for _ in range(rng.randrange(1, 8))]}
    sc['fields'] = [[pick(rng, list(FIELDS)), rng.randrange(1 << 30)] for _ in range(wpick(rng, [(0, 1), (1, 4), (3, 2)]))]
    ops = []
    for op in mfthist.gen_history(rng, wpick(rng, [(3, 2), (10, 2), (25, 1)])):
        ops.append(op)
        if rng.random() < (0.4 if cs < 65536 else 0.2):
            ops.append(['grow', rng.randrange(1, 4)])
    sc['ops'] = ops
    for _ in range(wpick(rng, [(0, 4), (1, 3), (2, 1)])):
        sc['damage'].append([pick(rng, ['boot', 'boot', 'first', 'first', 'child', 'child', 'list', 'other']), rng.randrange(1 << 30)])
    f = wpick(rng, [('none', 6), ('eio', 1.5), ('bad', 1.2), ('eof', 1)])
    if f == 'eio':
        sc['faults'] = [{'k': 'eio', 'n': rng.randrange(0, 14)} for _ in range(rng.randrange(1, 3))]
    elif f == 'bad':
        sc['faults'] = [{'k': 'bad', 'at': pick(rng, ['boot', 'first', 'child', 'list', 'any']), 'i': rng.randrange(8)}]
    elif f == 'eof':
        sc['faults'] = [{'k': 'eof', 'at': rng.random()}]
    return sc


def build(sc, ctx):
    rng = rng_for('vol', sc['seed'])
    cs = sc['bps'] * sc['spc']
    need = sc['first'] + sum(op[1] * sc['unit'] for op in sc['ops'] if op[0] == 'grow') + 60
    clusters = need * 3 + rng.randrange(100)
    disk = SparseDisk(ctx, sc['off'] + clusters * cs)
    clock = SimClock(ctx)
    vol = VolSim(ctx, disk, clock, rng, sc['bps'], sc['spc'], sc['off'], clusters, sc['frs'], sc['first'], sc['per'], sc['alist_nr'], sc['short'], sc['extra'])
    for op in sc['ops']:
        ctx.ev('op', op)
        ctx.step()
        if op[0] == 'grow':
            if vol.grow(op[1] * sc['unit']):
                ctx.probe('grown')
        else:
            mfthist.apply_op(vol.sim, op, clock)
    image = disk.crash(sc['crash']['mode'], sc['crash']['seed'])
    return vol, image


def damage(sc, ctx, vol, image):
    boot_bad = False
    frs = sc['frs']
    for k, seed in sc['damage']:
        r = rng_for('dmg', seed)
        if k == 'boot':
            o = sc['off']
            what = r.choice(['zero', 'sig', 'bps', 'spc', 'mft', 'frs'])
            if what == 'zero':
                image[o:o + 512] = bytes(512)
            elif what == 'sig':
                image[o + 3:o + 11] = r.choice([b'MSDOS5.0', b'ntfs    ', b'NTFS   \0'])
            elif what == 'bps':
                image[o + 11:o + 13] = r.choice([b'\0\0', b'\1\2', b'\0\1', b'\0\3'])
            elif what == 'spc':
                image[o + 13:o + 14] = b'\0'
            elif what == 'mft':
                image[o + 48:o + 56] = struct.pack('<Q', r.choice([0, vol.clusters + 5, 1 << 40, (1 << 64) - 1]))
            elif what == 'frs':
                image[o + 64:o + 65] = b'\0'
            boot_bad = True
            ctx.probe('boot-damaged')
            ctx.fault('boot-sector')
            continue
        if k == 'first':
            o = vol.locate(0)
            ctx.probe('first-record-damaged')
        elif k == 'child':
            kids = vol.layouts[-1][1]
            if not kids:
                continue
            o = vol.locate(r.choice(kids)[0])
            ctx.probe('child-damaged')
        elif k == 'list':
            lst = vol.layouts[-1][2]
            if not lst:
                continue
            o = vol.off + lst[0][0] * vol.cs
            j = r.randrange(2)
            if j:
                image[o:o + 512] = bytes(512)
            else:
                # An entry of the list is damaged: a wrong type, length or reference.
                p, v = r.choice([(0, b'\x11'), (4, b'\0\0'), (4, b'\x19\0'), (16, b'\xff\xff\xff'), (32 * 3 + 16, b'\x09\0'), (32 * 3 + 4, b'\0\0')])
                image[o + p:o + p + len(v)] = v
            ctx.probe('list-damaged')
            ctx.fault('attribute-list')
            continue
        else:
            o = vol.locate(r.randrange(1, min(16, vol.sim.nrec)))
        s = o + r.randrange(frs // 512) * 512
        j = r.randrange(3)
        if j == 0:
            image[s:s + 512] = bytes(512)
            ctx.fault('zeroed-sector')
        elif j == 1:
            image[s:s + 512] = bytes(r.randrange(256) for _ in range(512))
            ctx.fault('garbage-sector')
        else:
            image[s + 510:s + 512] = b'\xee\xee'
            ctx.fault('torn-sector')
    return boot_bad


def used_ok(raw, v):
    """Is what counts of record version v what the image holds? (Sectors past the used part may be damaged.)"""
    return raw == v.protected


def expected(sc, vol, image):
    """(runs, size) of the $MFT as the image has it; None: must be refused; 'free': unspecified."""
    frs = sc['frs']
    raw = bytes(image[vol.locate(0):vol.locate(0) + frs])
    for v, kids, lst, parts in reversed(vol.layouts):
        if used_ok(raw, v):
            break
    else:
        return None
    if lst:
        cur = b''.join(bytes(image[vol.off + l * vol.cs:vol.off + (l + c) * vol.cs]) for l, c in lst)
        ent = v.entries
        if cur[:len(ent)] != ent:
            return 'free'
    data0 = next(a for a in v.attrs if a.code == ntfs.T_DATA)
    runs = list(data0.runs)
    size = data0.size
    for k, lo in kids:
        raw = bytes(image[vol.locate(k):vol.locate(k) + frs])
        for kv in reversed(vol.sim.history[k]):
            if used_ok(raw, kv):
                break
        else:
            return None
        d = [a for a in kv.attrs if a.code == ntfs.T_DATA]
        if not d or d[0].lowest != lo:
            return None
        runs += d[0].runs
    return runs, size


def torn_tail(vol, image, frs, n):
    """A record damaged only behind its used part may be accepted or not."""
    hist = vol.sim.history.get(n, [])
    raw = bytes(image[vol.locate(n):vol.locate(n) + frs])
    for v in hist:
        k = (v.first_free + 511) // 512 * 512
        if raw[:k] == v.protected[:k] and raw != v.protected:
            return True
    return False


FIELDS = {'bps': (11, '<H', [0, 256, 512, 1024, 2048, 4096, 8192, 513, 255, 1]), 'spc': (13, '<B', [0, 1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80, 0x81, 0xf4, 0xf0, 0xf8, 0xff]), 'total': (40, '<Q', [0, 1, 1 << 20, 1 << 40, (1 << 64) - 1]),
          'mft': (48, '<Q', [0, 1, 4, 786432, 1 << 33, 1 << 56, (1 << 64) - 1]), 'mirr': (56, '<Q', [0, 1, 2, 1 << 34, (1 << 64) - 1]), 'frs': (64, '<B', [0, 1, 2, 4, 8, 0xf6, 0xf4, 0xff, 0x7f, 0xf5]), 'idx': (68, '<B', [0, 1, 2, 8, 0xf4, 0xf6, 0xff, 0x40]),
          'serial': (72, '<Q', [0, 1, 1 << 63, (1 << 64) - 1, 0x1234567890ABCDEF]), 'code': (0, '<H', [0, 0x52EB, 0x00EB, 0x5200]), 'sig': (510, '<H', [0, 0xAA55, 0x55AA, 0xAA00])}


def boot_reference(b):
    """What the fields of a boot sector mean; None: invalid."""
    bps = struct.unpack_from('<H', b, 11)[0]
    bps = bps if bps >= 512 and bps % 512 == 0 else None
    spc = b[13]
    spc = None if not spc else spc if spc <= 0x80 else 1 << (256 - spc)

    def size(v):
        if v >= 0x80:
            return 1 << (256 - v)
        return v * spc * bps if v and spc and bps else None
    total, mft, mirr = struct.unpack_from('<QQQ', b, 40)
    return {'get_bytes_per_sector': bps, 'get_sectors_per_cluster': spc, 'get_total_number_of_sectors': total or None, 'get_first_mft_cluster': mft or None, 'get_first_mftmirr_cluster': mirr or None, 'get_file_record_segment_size': size(b[64]),
            'get_index_record_size': size(b[68]), 'get_serial_number': struct.unpack_from('<Q', b, 72)[0], 'is_boot_code_present': b[:2] != b'\0\0' and b[510:512] == b'\x55\xaa'}


def check_boot(sc, ctx, vol, image):
    """Every field of the boot sector as it lies in the image, and after single fields were damaged."""
    b = bytearray(image[vol.off:vol.off + max(sc['bps'], 512)])
    for name, seed in sc['fields']:
        r = rng_for('field', seed)
        o, fmt, vals = FIELDS[name]
        struct.pack_into(fmt, b, o, r.choice(vals) if r.random() < 0.9 else r.getrandbits(8 * struct.calcsize(fmt)))
        ctx.probe('boot-field')
    b = bytes(b)
    try:
        bs = BootSector.BootSector(b)
    except BootSector.BootSectorException:
        ctx.check(b[3:11] != b'NTFS    ', 'boot-refused', 'a boot sector of %d bytes', len(b))
        return
    ctx.check(b[3:11] == b'NTFS    ', 'boot-accepted', '')
    for name, want in boot_reference(b).items():
        try:
            got = getattr(bs, name)()
        except BootSector.BootSectorException:
            got = None
            ctx.probe('boot-field-refused')
        ctx.check(got == want, 'wrong-boot-field', lambda: '%s: %r instead of %r' % (name, got, want))
    for n in (511, 0, len(b) + 1, len(b) - 512 + 100):
        try:
            BootSector.BootSector((b + bytes(1))[:n])
            ctx.check(False, 'boot-accepted', 'a boot sector of %d bytes', n)
        except BootSector.BootSectorException:
            pass


def execute(sc, ctx):
    vol, image = build(sc, ctx)
    boot_bad = damage(sc, ctx, vol, image)
    check_boot(sc, ctx, vol, image)
    frs, cs, off = sc['frs'], vol.cs, sc['off']
    faults = []
    for f in sc['faults']:
        if f['k'] == 'bad':
            kids = vol.layouts[-1][1]
            o = {'boot': off, 'first': vol.locate(0), 'child': vol.locate(kids[f['i'] % len(kids)][0]) if kids else vol.locate(0), 'list': vol.off + vol.layouts[-1][2][0][0] * cs if vol.layouts[-1][2] else off,
                 'any': vol.locate(f['i'] * 7 % vol.sim.nrec)}[f['at']]
            faults.append({'k': 'bad', 'lo': o, 'hi': o + 512})
        elif f['k'] == 'eof':
            faults.append({'k': 'eof', 'at': int(off + (len(image) - off) * f['at'])})
        else:
            faults.append(f)
    kinds = {f['k'] for f in faults}
    ctx.probe('offset') if off else None
    ctx.probe('big-cluster' if cs > 4096 else 'small-cluster' if cs < frs else 'cluster')
    want = expected(sc, vol, image)
    loose = any(torn_tail(vol, image, frs, n) for n in [0] + [k for k, _ in vol.layouts[-1][1]])
    version_lost = False
    # The version check ($Volume, record 3) is part of opening an $MFT whose runs have to be collected from other records.
    raw = bytes(image[vol.locate(3):vol.locate(3) + frs])
    if not any(used_ok(raw, v) for v in vol.sim.history.get(3, [])):
        version_lost = True
        ctx.probe('volume-record-damaged')
    if boot_bad:
        want = None
    if want not in (None, 'free') and len(want[0]) and any(len(l[1]) for l in vol.layouts):
        ctx.probe('attribute-list')
        if vol.layouts[-1][2]:
            ctx.probe('attribute-list-nonresident')
        if len(vol.layouts[-1][1]) > 2:
            ctx.probe('many-children')
    vf = SimFile(ctx, image, faults, 'vol')
    outcome = 'none'
    for attempt in range(5):
        fired = vf.n_fired
        try:
            fs = MFT.FileSystemParser(vf, off)
        except OSError as e:
            ctx.check(vf.n_fired > fired, 'unhandled-OSError', lambda: repr(e))
            ctx.probe('read-error-raised')
            outcome = 'error'
            continue
        except DECLARED as e:
            ctx.check(want in (None, 'free') or loose or version_lost or 'eof' in kinds, 'volume-refused', lambda: repr(e))
            ctx.probe('refused')
            outcome = 'refused'
            break
        except OverflowError:
            ctx.check(boot_bad, 'unhandled-OverflowError', '')
            outcome = 'refused'
            break
        except ValueError as e:
            ctx.check('eof' in kinds or boot_bad, 'unhandled-ValueError', lambda: repr(e))
            outcome = 'refused'
            break
        ctx.check(vf.n_fired == fired, 'read-error-hidden', 'a read failed while the volume was opened')
        outcome = 'opened'
        if want == 'free':
            break
        if want is None:
            ctx.check(loose and not boot_bad, 'made-up-volume', lambda: 'opened with runs %r' % (fs.data_runs,))
            break
        runs, size = want
        ctx.probe('opened')
        ctx.check(fs.cluster_size == cs and fs.file_size == size, 'wrong-geometry', '%d %d instead of %d %d', fs.cluster_size, fs.file_size, cs, size)
        stream = b''.join(bytes(image[off + l * cs:off + (l + n) * cs]) for l, n in runs)[:size]
        ctx.check(fs.tell() == 0, 'position', 'the position after opening is %r', fs.tell())
        if attempt == 0 and not faults:
            got = fs.read(777)
            ctx.check(got == stream[:777], 'wrong-stream', 'the first read is not the beginning of the $MFT')
        for at, n in sc['reads'] + [[0, size + 1000]]:
            pos = int(size * at)
            fired = vf.n_fired
            try:
                fs.seek(pos)
                got = fs.read(n)
            except OSError as e:
                ctx.check(vf.n_fired > fired, 'unhandled-OSError', lambda: repr(e))
                continue
            except DECLARED + (ValueError, EOFError) as e:
                ctx.check('eof' in kinds, 'stream-refused', lambda: repr(e))
                continue
            ctx.check(got == stream[pos:pos + n], 'wrong-stream', lambda: 'read of %d at %d: %d bytes' % (n, pos, len(got)))
            ctx.probe('stream-read')
        # The records seen through the volume are those of the extracted $MFT.
        vf.armed = False
        if 'eof' not in kinds:
            res = []
            for f in (fs, io.BytesIO(stream)):
                f.seek(0)
                try:
                    m = MFT.MasterFileTableParser(f)
                    res.append([(x.get_master_file_table_number(), x.get_sequence_number(), len(x.child_frs_list) if hasattr(x, 'child_frs_list') else 0) for x in m.file_records()])
                except MFT.MasterFileTableException as e:
                    res.append(type(e).__name__)
            ctx.check(res[0] == res[1], 'records-differ', lambda: '%r' % (res,))
            if isinstance(res[0], list):
                ctx.probe('records', len(res[0]))
        vf.armed = True
        break
    k = len(vol.layouts[-1][1])
    ctx.nontrivial = k > 0 or sc['crash']['mode'] != 'none' or bool(sc['damage']) or bool(sc['faults'])
    ctx.state(sc['bps'], cs, frs, min(len(vol.runs), 9), k, bool(vol.layouts[-1][2]), sc['crash']['mode'], tuple(sorted({d[0] for d in sc['damage']})), tuple(sorted(kinds)), outcome)
    ctx.sample = {'cluster': cs, 'record': frs, 'runs': len(vol.runs), 'children': k, 'crash': sc['crash']['mode'], 'damage': [d[0] for d in sc['damage']], 'faults': sc['faults'], 'outcome': outcome}
