"""C03: $MFT enumeration is complete: damage to some records hides no other record."""
from collections import Counter
from dfir_ntfs import MFT
from ..core import SimFile, Violation, InjectedIOError, pick, wpick, rng_for, drain
from ..writers import ntfs
from .. import mfthist
from ..oracle import mftcmp
from ..oracle.mftmodel import Model

LEVEL = 'exploration'
RUNS = {'quick': 36000, 'thorough': 500000}
SHRINK = ['ops', 'damage', 'faults']
RULE = ('one run = a history on a simulated $MFT, a crash, damaged records (torn, zeroed, overwritten, marked bad, corrupted inside), then a '
        'full enumeration through a file object that may be truncated or fail. Non-trivial: some record is unusable or a file has child records')
STATE_MEASURE = 'distinct (record size, set of damage kinds, crash mode, read fault kind, any child records, outcome) tuples'
REAL = ['dfir_ntfs.MFT: MasterFileTableParser (first pass, enumeration), FileRecord, FileRecordSegment', 'dfir_ntfs.Attributes']
STUB = ['NTFS driver and write-back disk cache (sim.writers.mftsim, sim.core.SimDisk)', 'acquired $MFT file (SimFile)']
ASSUMPTIONS = ['a child record that is not in use while its base record is in use may or may not be attached',
               'when the first record or the $Volume record is unusable, refusing the whole file is allowed']
MUST_HIT = ['children', 'deleted-with-children', 'rec-torn', 'early-eof', 'eio-transient', 'eio-bad-sector', 'corrupt-inside', 'stale-child', 'refused', 'refused-version']


def generate(rng, tier):
    sc = mfthist.gen_scene(rng)
    dmg = []
    if rng.random() < 0.5:
        for _ in range(rng.randrange(1, 7)):
            dmg.append({'k': pick(rng, ['zero', 'garbage', 'sig', 'usn', 'bad', 'inside', 'ff']), 'rec': rng.randrange(16, sc['nrec']) if rng.random() < 0.93 else rng.randrange(16),
                        'x': rng.randrange(1 << 30)})
    sc['damage'] = dmg
    f = []
    m = wpick(rng, [('none', 5), ('eof', 2), ('eio', 1), ('bad', 0.7)])
    if m == 'eof':
        f.append({'k': 'eof', 'at': rng.randrange(4 * sc['size'], sc['nrec'] * sc['size'])})
    elif m == 'eio':
        f.append({'k': 'eio', 'n': rng.randrange(0, 3 * sc['nrec'])})
    elif m == 'bad':
        lo = rng.randrange(4, sc['nrec']) * sc['size']
        f.append({'k': 'bad', 'lo': lo, 'hi': lo + 512})
    sc['faults'] = f
    if rng.random() < 0.06:
        sc['ver'] = pick(rng, [[1, 2], [2, 0], [2, 1], [3, 0], [4, 1], [0, 0], [3, 2], [3, 255]])
    sc['foreign'] = rng.randrange(1 << 20) if rng.random() < 0.5 else 0
    return sc


def damage(sim, image, sc, ctx):
    """Apply post-crash damage; returns (image, records whose attribute area was corrupted inside)."""
    image = bytearray(image)
    size = sc['size']
    inside = set()
    for d in sc['damage']:
        rec = d['rec'] % sc['nrec']
        off = rec * size
        rng = rng_for('dmg', d['x'])
        if d['k'] == 'zero':
            image[off:off + size] = bytes(size)
            ctx.fault('zeroed-record')
        elif d['k'] == 'ff':
            image[off:off + size] = b'\xff' * size
            ctx.fault('overwritten-record')
        elif d['k'] == 'garbage':
            image[off:off + size] = b'G' + bytes(rng.randrange(256) for _ in range(63)) + b'\x5a' * (size - 64)
            ctx.fault('overwritten-record')
        elif d['k'] == 'sig':
            image[off] ^= 0x20
            ctx.fault('bit-flip')
        elif d['k'] == 'usn':
            image[off + 510] ^= 1 + rng.randrange(255)
            ctx.fault('bit-flip')
        elif d['k'] == 'bad':
            image[off:off + 4] = b'BAAD'
            ctx.fault('marked-bad')
        elif d['k'] == 'inside' and rec >= 12:
            # A corrupt attribute header (invalid record length), the record header and the update sequence array intact.
            if image[off:off + 4] != b'FILE':
                continue
            first = int.from_bytes(image[off + 20:off + 22], 'little')
            if not 48 <= first <= 400:
                continue
            image[off + first + 4:off + first + 8] = (3 + 8 * rng.randrange(5)).to_bytes(4, 'little')
            inside.add(rec)
            ctx.fault('corrupt-inside')
    return bytes(image), inside


def classify(sim, image, inside):
    """Classification of every record, ignoring the inside corruption and the BAAD mark (which keep the record readable)."""
    out = {}
    for num in range(sim.nrec):
        off = num * sim.size
        buf = bytearray(image[off:off + sim.size])
        if len(buf) < sim.size:
            continue
        if bytes(buf[:4]) == b'BAAD':
            buf[:4] = b'FILE'
        if num in inside:
            first = int.from_bytes(buf[20:22], 'little')
            best = ('gone', None)
            for v in reversed(sim.history.get(num, [])):
                b2 = bytearray(buf)
                b2[first + 4:first + 8] = v.protected[first + 4:first + 8]
                c = classify_record(bytes(b2), [v], sim.size)
                if c[1] is not None or c[0] == 'torn':
                    best = c
                    break
            out[num] = best
        else:
            out[num] = classify_record(bytes(buf), sim.history.get(num, []), sim.size)
    return out


from ..writers.mftsim import classify_record  # noqa: E402


def execute(sc, ctx):
    sim, image = mfthist.build(sc, ctx)
    image, inside = damage(sim, image, sc, ctx)
    end = len(image)
    for f in sc['faults']:
        if f['k'] == 'eof':
            end = min(end, f['at'])
    cls = classify(sim, image[:end], inside)
    unknown = {n for n, (c, v) in cls.items() if c == 'mixed'}
    model = Model(cls)
    for c, v in cls.values():
        ctx.probe('rec-' + c)
    old = sim.version[0] != 3 or sim.version[1] < 1
    need = not old and all(n in model.v for n in (0, 3)) and not {0, 3} & inside
    head_ok = image[:4] == b'FILE' and cls.get(3, ('x', None))[1] is not None
    fo = SimFile(ctx, image, sc['faults'], 'mft')
    attempts = 0
    while True:
        attempts += 1
        try:
            parser = MFT.MasterFileTableParser(fo)
            got = {}
            for only in (False, True):
                lst = []
                for i, fr in enumerate(parser.file_records(only)):
                    ctx.step()
                    if sc['foreign']:
                        fo.seek((sc['foreign'] * (i + 1)) % len(image))
                    lst.append(fr)
                    if len(lst) > sc['nrec'] + 5:
                        raise Violation('no-progress', 'more file records than the file can hold')
                got[only] = lst
        except OSError:
            ctx.check(fo.n_fired > 0, 'read-error', 'an I/O error without a fault')
            ctx.probe('io-error')
            if any(f['k'] == 'eio' for f in sc['faults']) and attempts < 4:
                continue    # transient: a retry on the same file object must succeed
            ctx.state(sc['size'], 'io-error')
            return
        except MFT.MasterFileTableException as e:
            ctx.check(not (need and head_ok), 'file-refused', lambda: 'the $MFT was refused: %r' % e)
            ctx.probe('refused-version' if old else 'refused')
            return
        break
    ctx.check(not old, 'version', lambda: 'the $MFT of a volume of the unknown version %d.%d was accepted' % sim.version)
    if sc['faults'] and attempts > 1:
        ctx.probe('retried')
    for only in (False, True):
        want = [n for n in model.bases() if (model.v[n].in_use or not only)]
        have = [fr.get_master_file_table_number() for fr in got[only]]
        have_known = [n for n in have if n not in unknown]
        ctx.check(have_known == want, 'enumeration', lambda: 'in-use only=%s: records %r, expected %r (missing %r, extra %r)' % (
            only, have_known[:40], want[:40], sorted(set(want) - set(have))[:10], sorted((Counter(have) - Counter(want)).keys())[:10]))
        for fr, num in zip(got[only], have):
            if num in unknown:
                continue
            must, may = model.children(num)
            kids = sorted(k.get_master_file_table_number() for k in fr.child_frs_list)
            ctx.check(set(must) <= set(kids) and set(kids) <= set(must) | set(may) | unknown and len(kids) == len(set(kids)), 'children',
                      lambda: 'record %d: child records %r, expected %r (+%r)' % (num, kids, must, may))
            if must:
                ctx.probe('children')
                if not model.v[num].in_use:
                    ctx.probe('deleted-with-children')
            if num in inside or inside & set(kids):
                try:
                    list(fr.attributes())
                except MFT.MasterFileTableException:
                    pass
                continue
            if unknown & set(kids):
                continue
            want_attrs = Counter(a.key() for n in [num] + [k for k in kids] for a in model.v[n].attrs)
            have_attrs = Counter(mftcmp.attr_key(a) for a in fr.attributes())
            ctx.check(have_attrs == want_attrs, 'attributes', lambda: 'record %d (+%r): attributes differ: missing %r, extra %r' % (
                num, kids, mftcmp.brief(list(want_attrs - have_attrs)), mftcmp.brief(list(have_attrs - want_attrs))))
            v = model.v[num]
            ctx.check(fr.get_sequence_number() == v.seq and fr.get_flags() == v.flags and fr.get_logfile_sequence_number() == v.lsn and bool(fr.is_in_use()) == v.in_use,
                      'record-field', 'record %d: header fields', num)
    live = set()
    for num in model.bases():
        live |= set(sum(model.children(num), []))
    if any(k not in live for ks in model.kids.values() for k in ks):
        ctx.probe('stale-child')
    bad = [n for n in range(sc['nrec']) if n not in model.v]
    ctx.nontrivial = bool(bad) or bool(model.kids)
    ctx.state(sc['size'], tuple(sorted({d['k'] for d in sc['damage']})), sc['crash']['mode'], tuple(f['k'] for f in sc['faults']), bool(model.kids))
    ctx.sample = {'nrec': sc['nrec'], 'size': sc['size'], 'ops': sc['ops'][:5], 'crash': sc['crash'], 'damage': sc['damage'], 'faults': sc['faults']}
