"""C02: torn file records are never reported as good ones; intact ones are reported exactly."""
from dfir_ntfs import MFT
from ..core import SimFile, Violation, pick, wpick, rng_for
from ..writers import ntfs
from ..writers.mftsim import classify_record
from .. import mfthist
from ..oracle import mftcmp

LEVEL = 'exploration'
RUNS = {'quick': 36000, 'thorough': 600000}
SHRINK = ['ops', 'faults']
RULE = ('one run = a history of create/delete/rename/link/grow operations on a simulated $MFT with a volatile write cache, a crash '
        'that keeps an arbitrary subset of the unflushed sectors, misdirected and stale sectors; every record is then parsed. '
        'Non-trivial: at least one torn record or two versions of a record survived in part')
STATE_MEASURE = 'distinct (record size, classification of the durable record, number of good sectors, in use, base/child, outcome) tuples'
REAL = ['dfir_ntfs.MFT: FileRecordSegment, attribute records, SlackSpace', 'dfir_ntfs.Attributes']
STUB = ['NTFS driver and write-back disk cache (sim.writers.mftsim, sim.core.SimDisk)']
ASSUMPTIONS = ['a sector (512 bytes) is written atomically', 'two versions of a record never carry the same update sequence number (as NTFS guarantees)']
MUST_HIT = ['rec-ok', 'rec-torn', 'rec-tail-torn', 'rec-gone', 'torn-write', 'misdirected-sector', 'stale-sector', 'child-record']


def generate(rng, tier):
    sc = mfthist.gen_scene(rng)
    if rng.random() < 0.5:  # keep a long tail of unflushed writes
        sc['ops'] = [o for o in sc['ops'] if o[0] != 'flush' or rng.random() < 0.3]
    faults = []
    if rng.random() < 0.4:
        for _ in range(rng.randrange(1, 5)):
            faults.append({'k': pick(rng, ['misdirect', 'stale', 'usn', 'sig', 'hdrsig', 'zero']), 'rec': rng.randrange(sc['nrec']), 'sec': rng.randrange(8),
                           'from': rng.randrange(sc['nrec']), 'x': rng.randrange(1 << 16)})
    sc['faults'] = faults
    return sc


def execute(sc, ctx):
    sim, image = mfthist.build(sc, ctx)
    image = bytearray(image)
    size = sc['size']
    nsec = size // 512
    for f in sc['faults']:
        off = f['rec'] % sc['nrec'] * size
        sec = f['sec'] % nsec
        hist = sim.history.get(f['rec'], [])
        if f['k'] == 'misdirect':
            src = f['from'] % sc['nrec'] * size + (f['x'] % nsec) * 512
            if sec == 0:
                continue
            image[off + sec * 512:off + sec * 512 + 512] = image[src:src + 512]
            ctx.fault('misdirected-sector')
        elif f['k'] == 'stale' and len(hist) > 1:
            v = hist[f['x'] % (len(hist) - 1)]
            image[off + sec * 512:off + sec * 512 + 512] = v.protected[sec * 512:sec * 512 + 512]
            ctx.fault('stale-sector')
        elif f['k'] == 'usn':
            image[off + sec * 512 + 510] ^= 1 + f['x'] % 255
            ctx.fault('bit-flip')
        elif f['k'] == 'sig' and hist:
            image[off:off + 4] = pick(rng_for(f['x']), [b'BAAD', b'CHKD'])
            ctx.fault('marked-bad')
        elif f['k'] == 'hdrsig':
            image[off:off + 4] = bytes([f['x'] & 0x7f, 1, 2, 3])
            ctx.fault('bit-flip')
        elif f['k'] == 'zero':
            image[off:off + size] = bytes(size)
            ctx.fault('zeroed-record')
    torn = 0
    for num in range(sc['nrec']):
        hist = sim.history.get(num, [])
        buf = bytes(image[num * size:(num + 1) * size])
        sig = buf[:4]
        cmp_buf = buf
        if sig in (b'BAAD', b'CHKD'):
            cmp_buf = b'FILE' + buf[4:]
        cls, v = classify_record(cmp_buf, hist, size)
        ctx.probe('rec-' + cls)
        try:
            frs = MFT.FileRecordSegment(buf, suggested_mft_number=num)
        except MFT.FileRecordSegmentException as e:
            ctx.check(cls not in ('ok', 'tail-torn'), 'intact-record-rejected', lambda: 'record %d (%s) rejected: %r' % (num, cls, e))
            ctx.state(size, cls, 'rejected')
            torn += cls == 'torn'
            continue
        if cls == 'mixed':
            continue
        if cls in ('gone', 'torn'):
            raise Violation('torn-record-accepted', 'record %d (%s) was accepted: %s' % (num, cls, frs))
        if v.base:
            ctx.probe('child-record')
        if sig != b'FILE':
            ctx.check(frs.is_bad(), 'bad-record-flag', 'record %d marked %r is not reported as bad', num, sig)
            vv = type(v).__new__(type(v))
            vv.__dict__.update(v.__dict__)
            vv.sig = sig
            v = vv
        mftcmp.check_segment(ctx, frs, v, num, sc['short'], slack=cls == 'ok')
        mftcmp.check_names(ctx, MFT.FileRecord(frs, []), v.names(), 'record %d' % num)
        for a in frs.attributes():
            if isinstance(a, MFT.AttributeRecordResident) and a.type_code == ntfs.T_SI:
                mftcmp.check_si(ctx, a.value_decoded(), bytes(a.value), 'record %d' % num)
        # The same record without protection (as found in the log and in memory).
        if cls == 'ok':
            raw = MFT.FileRecordSegment(v.logical if sig == b'FILE' else sig + v.logical[4:], False, num)
            ctx.check([mftcmp.attr_key(a) for a in raw.attributes()] == [a.key() for a in v.attrs], 'attributes', 'unprotected record %d differs', num)
        ctx.state(size, cls, v.in_use, v.base != 0, len(v.attrs), v.first_free // 512)
        torn += cls == 'tail-torn'
    ctx.nontrivial = torn > 0
    ctx.sample = {'nrec': sc['nrec'], 'size': size, 'ops': sc['ops'][:6], 'crash': sc['crash'], 'faults': sc['faults']}
