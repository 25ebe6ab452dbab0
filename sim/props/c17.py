"""C17: directory index buffers: an intact one is reported exactly with its slack, a torn one never, damage to one hides no other, deleted names are carved."""
import struct
from dfir_ntfs import MFT, Attributes
from ..core import SimFile, SparseDisk, SimClock, Scheduler, pick, wpick, rng_for
from ..writers import ntfs
from ..writers.indxsim import IndexSim, Entry
from ..writers.mftsim import same_time

LEVEL = 'exploration'
RUNS = {'quick': 20000, 'thorough': 240000}
SHRINK = ['damage', 'faults', 'ops']
RULE = ('one run = a fragmented directory index kept by a simulated NTFS (insertion, removal, update of entries, splits; old bytes stay behind the last entry), a crash with lost, torn or reordered sectors, damaged, stale and misdirected sectors, '
        'corrupt headers and entries in buffers with valid sectors, then one or two interleaved enumerations and a carving of the slack with read faults. Non-trivial: at least one entry and one crash, damage or fault')
STATE_MEASURE = 'distinct (buffer size, cluster size, buffers, fragments, crash mode, damage kinds, fault kind, intact and torn buffers, carved names) tuples'
REAL = ['dfir_ntfs.Attributes: IndexAllocation, IndexBuffer, IndexEntry, IndexHeader, IndexRoot, FileName', 'dfir_ntfs.MFT: FragmentedFile, SlackSpace']
STUB = ['NTFS directory index writer (sim.writers.indxsim)', 'write-back disk (SparseDisk)', 'volume (SimFile)']
ASSUMPTIONS = ['512-byte sectors are written atomically and update sequence numbers differ between consecutive versions', 'names carved are those whose times lie between 1998 and 2059', 'the buffer size is known when the first buffer holds any version of its header or buffers are of 4096 bytes']
MUST_HIT = ['crash-prefix', 'crash-reorder', 'torn-write', 'torn-buffer', 'intact-buffer', 'zeroed-sector', 'stale-sector', 'garbage-sector', 'misdirected-buffer', 'corrupt-entry', 'corrupt-header', 'first-buffer-torn', 'first-buffer-zeroed', 'eio-transient', 'eio-bad-sector', 'early-eof', 'interleaved',
            'slack', 'carved', 'partial-name', 'subnode', 'split', 'update', 'index-root', 'fragmented', 'partial-name-checked', 'name-without-parent', 'noise-slash', 'noise-nul', 'noise-empty', 'noise-long', 'noise-odd', 'noise-early', 'noise-late']

CH = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 _-.()\u00e9\u0436\u65e5'

PLAIN = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 _-.()'


def generate(rng, tier):
    bs = wpick(rng, [(4096, 6), (1024, 2), (2048, 2), (8192, 2), (16384, 0.4), (32768, 0.3), (65536, 0.3)])
    nb = pick(rng, [1, 2, 2, 3, 4, 6]) if bs <= 8192 else pick(rng, [1, 2, 3])
    ops = []
    for _ in range(rng.randrange(1, 50)):
        ops.append([wpick(rng, [('ins', 9), ('del', 4), ('upd', 2), ('split', 0.7), ('flush', 1.5)]), rng.randrange(1 << 30)])
    sc = {'bs': bs, 'nb': nb, 'cs': pick(rng, [512, 1024, 4096, 4096]), 'off': pick(rng, [0, 0, 512, 1 << 20]), 'seed': rng.randrange(1 << 30), 'usa': pick(rng, [40, 40, 40, 48]), 'unwritten': rng.random() < 0.15, 'namelen': pick(rng, [12, 40, 255]), 'ops': ops,
          'crash': {'mode': pick(rng, ['none', 'none', 'lost', 'prefix', 'reorder', 'reorder']), 'seed': rng.randrange(1 << 30)}, 'two': rng.random() < 0.3, 'plan': [rng.randrange(2) for _ in range(30)], 'damage': [], 'faults': [], 'lsn0': wpick(rng, [(0x5000, 1), (rng.getrandbits(62), 1), (rng.getrandbits(63) | 1 << 63, 1)])}
    for _ in range(wpick(rng, [(0, 3), (1, 3), (2, 2), (4, 1)])):
        sc['damage'].append([pick(rng, ['zero', 'zerobuf', 'stale', 'garbage', 'misdirect', 'entry', 'entry', 'header', 'usa', 'noise', 'noise']), wpick(rng, [(0, 1), (1, 2)]), rng.randrange(1 << 30)])
    f = wpick(rng, [('none', 6), ('eio', 1.5), ('bad', 1), ('eof', 1)])
    if f == 'eio':
        sc['faults'] = [{'k': 'eio', 'n': rng.randrange(0, 20)} for _ in range(rng.randrange(1, 3))]
    elif f == 'bad':
        sc['faults'] = [{'k': 'bad', 'at': rng.random()}]
    elif f == 'eof':
        sc['faults'] = [{'k': 'eof', 'at': rng.random()}]
    return sc


def make_fn(r, clock, parent, namelen):
    clock.advance(r.randrange(1, 10 ** 9))
    t = [clock.now() - r.randrange(10 ** 13) for _ in range(4)]
    if r.random() < 0.05:
        t[r.randrange(4)] = r.choice([0, 1, 1 << 62])
    n = r.randrange(1, r.choice([9, namelen + 1]))
    name = ''.join(r.choice(CH) for _ in range(n))
    return ntfs.fn_value(parent, t[0], t[1], t[2], t[3], r.randrange(1 << 30), r.randrange(1 << 30), r.choice([0x20, 0x10000000, 0x26, 0x10000010]), name, r.choice([0, 1, 2, 3]))


def build(sc, ctx):
    r = rng_for('indx', sc['seed'])
    cs, bs, nb = sc['cs'], sc['bs'], sc['nb']
    total = (bs * nb + cs - 1) // cs
    runs = []
    lcn = 1
    left = total
    segs = []
    while left:
        n = min(left, r.choice([1, 2, 3, 8, left]))
        lcn += r.choice([0, 1, 5])
        segs.append((lcn, n))
        lcn += n
        left -= n
    order = [l for l, n in segs]
    if r.random() < 0.6:
        r.shuffle(segs)
    runs = segs
    if len(runs) > 1:
        ctx.probe('fragmented')
    disk = SparseDisk(ctx, sc['off'] + (lcn + 2) * cs)
    clock = SimClock(ctx)

    def locate(pos, n):
        out = []
        while n:
            vcn, o = divmod(pos, cs)
            k = min(n, cs - o)
            for l, c in runs:
                if vcn < c:
                    break
                vcn -= c
            out.append((sc['off'] + (l + vcn) * cs + o, k))
            pos += k
            n -= k
        return out
    sim = IndexSim(ctx, disk, clock, bs, nb, locate, min(cs, bs), sc['usa'], sc.get('lsn0', 0x5000))
    parent = ntfs.ref(r.randrange(16, 999), r.randrange(1, 99))
    for i in range(nb):
        if sc['unwritten'] and r.random() < 0.4:
            continue
        sim.node[i] = r.random() < 0.2
        sim.write(i)
    disk.flush()
    for k, seed in sc['ops']:
        q = rng_for('op', seed)
        live = [i for i in range(nb) if sim.versions[i]]
        if k == 'flush':
            disk.flush()
            continue
        if not live:
            break
        i = q.choice(live)
        es = sim.lists[i]
        if k == 'ins':
            vcn = q.randrange(100) if sim.node[i] else None
            if vcn is not None:
                ctx.probe('subnode')
            sim.insert(i, Entry(ntfs.ref(q.randrange(16, 1 << 20), q.randrange(1, 1 << 16)), make_fn(q, clock, parent if q.random() < 0.95 else ntfs.ref(77, 3), sc['namelen']), vcn))
        elif k == 'del' and es:
            sim.remove(i, q.randrange(len(es)))
        elif k == 'upd' and es:
            j = q.randrange(len(es))
            old = es[j].fn
            new = make_fn(q, clock, parent, 4)
            sim.update(i, j, new[:64] + old[64:])
            ctx.probe('update')
        elif k == 'split' and len(es) > 1:
            empty = [x for x in range(nb) if not sim.lists[x] and x != i]
            if empty:
                sim.split(i, empty[0])
                ctx.probe('split')
    image = disk.crash(sc['crash']['mode'], sc['crash']['seed'])
    return sim, image, runs, parent


def get(image, sim, i):
    return b''.join(bytes(image[o:o + n]) for o, n in sim.locate(i * sim.bufsize, sim.bufsize))


def put(image, sim, i, data):
    p = 0
    for o, n in sim.locate(i * sim.bufsize, sim.bufsize):
        image[o:o + n] = data[p:p + n]
        p += n


def unprotect(b):
    """Independent check of an index buffer. Returns the logical bytes or None."""
    if b[:4] != b'INDX':
        return None
    uo, un = struct.unpack_from('<HH', b, 4)
    if uo < 40 or uo > 506 or (un - 1) * 512 != len(b):
        return None
    x = bytearray(b)
    tag = b[uo:uo + 2]
    for i in range(1, un):
        if x[i * 512 - 2:i * 512] != tag:
            return None
        x[i * 512 - 2:i * 512] = b[uo + 2 * i:uo + 2 * i + 2]
    return bytes(x)


def damage(sc, ctx, sim, image):
    """Returns {buffer: what is known about its inside} for buffers corrupted inside."""
    corrupt = {}
    tails = []
    for k, anywhere, seed in sc['damage']:
        r = rng_for('dmg', seed)
        i = r.randrange(sim.nbuf) if anywhere else 0
        b = bytearray(get(image, sim, i))
        s = r.randrange(len(b) // 512) * 512
        if k == 'zero':
            b[s:s + 512] = bytes(512)
            ctx.fault('zeroed-sector')
        elif k == 'zerobuf':
            b = bytearray(len(b))
            ctx.fault('zeroed-buffer')
            if i == 0:
                ctx.probe('first-buffer-zeroed')
        elif k == 'stale':
            if len(sim.versions[i]) > 1:
                v = r.choice(sim.versions[i][:-1])
                b[s:s + 512] = v.protected[s:s + 512]
                ctx.fault('stale-sector')
        elif k == 'garbage':
            b[s:s + 512] = bytes(r.randrange(256) for _ in range(512))
            ctx.fault('garbage-sector')
        elif k == 'misdirect':
            b = bytearray(get(image, sim, r.randrange(sim.nbuf)))
            ctx.fault('misdirected-buffer')
            corrupt.pop(i, None)
        elif k == 'usa':
            struct.pack_into('<H', b, r.choice([4, 6]), r.choice([0, 1, 2, 3, 9, 38, 508, 512, 0xffff]))
            ctx.fault('corrupt-usa')
        elif k == 'noise':
            # Old bytes behind the last entry which are almost a name, or a name without its first bytes.
            x = unprotect(bytes(b))
            if x is None:
                continue
            x = bytearray(x)
            end = 24 + struct.unpack_from('<L', x, 28)[0]
            if end > len(x) - 200:
                continue
            now = 133000000000000000
            t = [now + r.randrange(10 ** 14) for _ in range(4)]
            name = ''.join(r.choice(CH) for _ in range(r.randrange(5, 30)))
            w = r.choice(['slash', 'nul', 'empty', 'early', 'late', 'cut8', 'cut4', 'long', 'odd'])
            if w == 'slash':
                name = name[:3] + '/' + name[3:]
            elif w == 'nul':
                q = r.randrange(len(name) + 1)
                name = name[:q] + '\0' + name[q:]
            elif w in ('early', 'late'):
                t[r.randrange(4)] = 119000000000000000 if w == 'early' else 147000000000000000
            fn = bytearray(ntfs.fn_value(ntfs.ref(r.randrange(1 << 30), 5), t[0], t[1], t[2], t[3], 4096, 100, 0x20, name, r.choice([0, 1, 2, 3])))
            if w == 'empty':
                fn = fn[:66]
                fn[64] = 0
            elif w == 'long':
                fn[64] = 255
            at = len(x) - r.randrange(0, (len(x) - end - len(fn)) // 2 + 1) * 2 - len(fn) if len(x) - end > len(fn) else None
            if w in ('cut8', 'cut4'):
                fn = fn[8 if w == 'cut8' else 4:]
                at = end
            elif w == 'odd' and at is not None:
                at -= 1
            elif w == 'long':
                at = len(x) - len(fn)
            if at is None or at < end or at + len(fn) > len(x):
                continue
            x[at:at + len(fn)] = fn
            corrupt[i] = min(corrupt.get(i, 1 << 30), 1 << 29)
            ctx.fault('noise-' + w)
            uo = struct.unpack_from('<H', x, 4)[0]
            b = bytearray(ntfs.protect(bytes(x), struct.unpack_from('<H', x, uo)[0]))
            if w in ('cut8', 'cut4'):
                tails.append(bytes(fn[0 if w == 'cut8' else 4:]))
        elif k in ('entry', 'header'):
            x = unprotect(bytes(b))
            if x is None:
                continue
            x = bytearray(x)
            first, free = struct.unpack_from('<LL', x, 24)
            if k == 'header':
                which = r.choice([24, 28])
                struct.pack_into('<L', x, which, r.choice([0, 8, 16, len(x) - 24, len(x) - 30, len(x) - 32, len(x), len(x) + 100, 0x7fffffff, 0xffffffff, first + 8, free - 8 & 0xffffffff]))
                corrupt[i] = 0
                ctx.fault('corrupt-header')
            else:
                offs = []
                p = 24 + first
                while p + 16 <= min(24 + free, len(x)):
                    ln, al, fl = struct.unpack_from('<HHH', x, p + 8)
                    if ln < 16 or p + ln > len(x):
                        break
                    offs.append(p)
                    if fl & 2:
                        break
                    p += ntfs.align8(ln)
                if not offs:
                    continue
                j = r.randrange(len(offs))
                o, vals = r.choice([(8, [0, 8, 15, 16, 17, 24, 82, 0xffff, 0xfff8, len(x) - offs[j], len(x) - offs[j] + 8]), (10, [0, 1, 60, 66, 67, 0xffff, len(x)]), (12, [0, 1, 2, 3])])
                v = r.choice(vals)
                if struct.unpack_from('<H', x, offs[j] + o)[0] == v & 0xffff:
                    continue
                struct.pack_into('<H', x, offs[j] + o, v & 0xffff)
                corrupt[i] = min(corrupt.get(i, 1 << 30), j)
                ctx.fault('corrupt-entry')
            uo = struct.unpack_from('<H', x, 4)[0]
            b = bytearray(ntfs.protect(bytes(x), struct.unpack_from('<H', x, uo)[0]))
        put(image, sim, i, bytes(b))
    return corrupt, tails


def entry_key(x):
    return (x.get_file_reference(), bytes(x.get_attribute() or b''), x.get_vcn())


def execute(sc, ctx):
    sim, image, runs, parent = build(sc, ctx)
    corrupt, tails = damage(sc, ctx, sim, image)
    bs, nb = sc['bs'], sc['nb']
    size = bs * nb
    faults = []
    for f in sc['faults']:
        if f['k'] == 'bad':
            off = sim.locate(int(size * f['at']) // 512 * 512, 512)[0][0]
            faults.append({'k': 'bad', 'lo': off, 'hi': off + 512})
        elif f['k'] == 'eof':
            faults.append({'k': 'eof', 'at': sim.locate(int(size * f['at']), 1)[0][0]})
        else:
            faults.append(f)
    kinds = {f['k'] for f in faults}
    vf = SimFile(ctx, image, faults, 'vol')
    # What the image holds.
    bufs = []
    for i in range(nb):
        raw = get(image, sim, i)
        logical = unprotect(raw)
        ver = None
        for v in sim.versions[i]:
            if v.protected == raw:
                ver = v
        bufs.append((raw, logical, ver))
        if logical is None and sim.versions[i]:
            ctx.probe('torn-buffer')
            if i == 0:
                ctx.probe('first-buffer-torn')
    want = [i for i in range(nb) if bufs[i][1] is not None]
    # Can the size of buffers be told? From the header in the first buffer or because it is the usual one.
    un = struct.unpack_from('<H', bufs[0][0], 6)[0]
    known = (un - 1) * 512 == bs or bs == 4096
    # A wrong size in the first buffer that happens to verify (its sectors carry the same number): unspecified.
    stream = b''.join(b[0] for b in bufs)
    misled = any(n2 != bs and 1024 <= n2 <= 119808 and any(unprotect(stream[q * n2:q * n2 + n2]) is not None for q in range(size // n2)) for n2 in ((un - 1) * 512, 4096))
    results = {}

    def reader(name):
        for attempt in range(6):
            fired = vf.n_fired
            out = []
            try:
                ff = MFT.FragmentedFile(vf, sc['off'], sc['cs'], runs, size)
                ia = Attributes.IndexAllocation(ff)
                for b in ia.index_buffers():
                    out.append(b)
                    yield
                    ctx.check(len(out) <= nb, 'no-progress', '%d buffers of %d', len(out), nb)
                slack = ia.get_slack()
            except OSError as e:
                ctx.check(vf.n_fired > fired, 'unhandled-OSError', lambda: repr(e))
                ctx.probe('read-error-raised')
                continue
            except (EOFError, ValueError, MFT.MasterFileTableException) as e:
                ctx.check('eof' in kinds, 'index-refused', lambda: repr(e))
                ctx.probe('read-error-raised')
                return
            ctx.check(sc['two'] or vf.n_fired == fired, 'read-error-hidden', 'a read failed but a listing was returned')
            ctx.check('eof' not in kinds or not known, 'read-error-hidden', 'the volume is cut but a complete listing was returned') if 'eof' in kinds and want and sim.locate(size - 1, 1)[0][0] >= vf.end and known else None
            results[name] = (out, slack)
            return
    if sc['two']:
        ctx.probe('interleaved')
        Scheduler(ctx, sc['plan']).run({'a': reader('a'), 'b': reader('b')})
    else:
        for _ in reader('a'):
            pass
    intact = carved = 0
    for name, (out, slack) in results.items():
        if misled:
            ctx.probe('misled')
            continue
        if not known:
            ctx.check(not out or len(out) == len(want), 'buffer-lost', '%d buffers of %d', len(out), len(want))
            if not out:
                ctx.probe('unknown-size')
                continue
        ctx.check(len(out) == len(want), 'buffer-lost' if len(out) < len(want) else 'made-up-buffer', '%d buffers reported of %d', len(out), len(want))
        wslack = []
        for b, i in zip(out, want):
            raw, logical, ver = bufs[i]
            lsn, block, first, free, avail, flags = struct.unpack_from('<QQLLLB', logical, 8)
            h = b.get_index_header()
            ctx.check((b.get_logfile_sequence_number(), b.get_this_block(), h.get_first_index_entry(), h.get_first_free_byte(), h.get_bytes_available(), h.get_flags()) == (lsn, block, first, free, avail, flags), 'wrong-buffer', 'buffer %d', i)
            got = []
            for x in b.index_entries():
                got.append(x)
                ctx.check(len(got) <= bs // 8, 'no-progress', 'entries of buffer %d', i)
            keys = [entry_key(x) for x in got]
            if ver is not None and i not in corrupt:
                ctx.check(keys == [(e.ref, e.fn, e.vcn) for e in ver.entries], 'wrong-entries', lambda: 'buffer %d: %d entries instead of %d' % (i, len(keys), len(ver.entries)))
                ctx.check(bytes(b.get_slack()) == ver.logical[ver.end:], 'wrong-slack', 'buffer %d', i)
                intact += 1
                ctx.probe('intact-buffer')
                for x, e in zip(got, ver.entries):
                    f = Attributes.FileName(x.get_attribute())
                    w = struct.unpack_from('<QQQQQqqL', e.fn)
                    ctx.check((f.get_parent_directory(), f.get_allocated_length(), f.get_file_size(), f.get_file_attributes(), f.get_flags()) == (w[0], w[5], w[6], w[7], e.fn[65]) and f.get_file_name() == e.fn[66:].decode('utf-16le'), 'wrong-name', 'buffer %d', i)
                    for a, t in ((f.get_ctime(), w[1]), (f.get_mtime(), w[2]), (f.get_etime(), w[3]), (f.get_atime(), w[4])):
                        ctx.check(same_time(a, t), 'wrong-time', 'buffer %d: %r', i, a)
            else:
                # Corrupt inside: what lies before the corrupt entry is exact.
                ref = []
                p = 24 + first
                while p + 16 <= len(logical) and p < 24 + free:
                    r8, ln, al, fl = struct.unpack_from('<QHHH', logical, p)
                    if ln < 16 or al == 0 or fl & 2 or p + ln > len(logical) or 16 + al > ln:
                        break
                    ref.append((r8, logical[p + 16:p + 16 + al], struct.unpack_from('<Q', logical, p + ln - 8)[0] if fl & 1 else None))
                    p += ntfs.align8(ln)
                ctx.check(keys[:len(ref)] == ref, 'wrong-entries', lambda: 'corrupt buffer %d: %d entries, %d expected at least' % (i, len(keys), len(ref)))
                for x in got:
                    a = x.get_attribute()
                    if a is not None and len(a) > 66:
                        Attributes.FileName(a).get_file_name()
            s = logical[24 + free:]
            if len(s) > 8:
                wslack.append(s)
        ctx.check([bytes(s) for s in slack] == wslack, 'wrong-slack', lambda: '%r instead of %r' % ([len(s) for s in slack], [len(s) for s in wslack]))
        if wslack:
            ctx.probe('slack')
        # Carving of the slack.
        limit = sum(len(s) for s in wslack) // 60 + 10
        items = []
        for x in MFT.SlackSpace(slack).carve():
            items.append(x)
            ctx.check(len(items) <= limit, 'no-progress', 'carving')
        both = list(MFT.SlackSpace(slack).carve(True))
        part = [x for x in both if isinstance(x, str)]
        ctx.check([bytes(x.value) for x in both if not isinstance(x, str)] == [bytes(x.value) for x in items], 'wrong-carving', 'partial names change the rest')
        joined = b'\xff\xff'.join(wslack)
        for x in part:
            ctx.probe('partial-name')
            ctx.check(x.encode('utf-16le') in joined, 'made-up-name', lambda: repr(x))
        have = {}
        for x in items:
            n = len(x.get_file_name().encode('utf-16le'))
            v = bytes(x.value[:66 + n])
            have[v] = have.get(v, 0) + 1
            ctx.check(v[8:] in joined, 'made-up-name', lambda: repr(x.get_file_name()))
            nm = x.get_file_name()
            ctx.check(0 < len(nm) <= 255 and '/' not in nm and '\0' not in nm and all(124000000000000000 < t < 146000000000000000 for t in struct.unpack_from('<QQQQ', v, 8)), 'made-up-name', lambda: 'not a name: %r' % nm)
        rest = [v[8:] for v in have]
        for t in tails:
            # A name that lost its parent reference (or a half of it) to the end of the entries.
            if any(c[:len(t)] == t or c[4:4 + len(t)] == t for c in wslack):
                ctx.probe('name-without-parent')
                ctx.check(t in rest, 'name-not-carved', lambda: 'at the start of the slack: %r' % t[58:].decode('utf-16le'))
        for c, chunk in zip(wslack, slack):
            first = next(iter(MFT.SlackSpace(chunk).carve()), None)
            one = [x for x in MFT.SlackSpace(chunk).carve(True) if isinstance(x, str)]
            ctx.check(len(one) <= 1, 'made-up-name', 'several partial names')
            if first is None:
                ctx.check(not one, 'made-up-name', 'a partial name without a name behind it')
                continue
            fn = bytes(first.value[:66 + 2 * first.value[64]])
            p = c.find(fn)
            if p < 10 or p % 2:
                continue
            chars = c[2:p] if p % 2 == 0 else c[1:p]
            u = list(struct.unpack('<%dH' % (len(chars) // 2), chars))
            wide = ''.join(chr(v) if 32 <= v < 127 or v == 9 else '\0' for v in u)
            runs_ = [w for w in wide.split('\0') if len(w) >= 5]
            if not runs_:
                ctx.check(not one, 'made-up-name', lambda: 'partial name %r' % one)
            elif all(v in PLAIN for v in runs_[-1]):
                w = runs_[-1]
                ctx.probe('partial-name-checked')
                ctx.check(one == [w], 'partial-name', lambda: '%r, expected %r' % (one, w))
        for fn in set(sim.every):
            ts = struct.unpack_from('<QQQQ', fn, 8)
            if not all(125100000000000000 < t < 144900000000000000 for t in ts):
                continue
            n = 0
            for s in wslack:
                p = s.find(fn)
                while p >= 0:
                    n += 1 if p % 2 == 0 else 0
                    p = s.find(fn, p + 1)
            if n:
                carved += 1
                ctx.probe('carved')
            ctx.check(have.get(fn, 0) >= n, 'name-not-carved', lambda: '%r is %d times in the slack, carved %d times' % (fn[66:].decode('utf-16le'), n, have.get(fn, 0)))
    # The index root: a small directory, possibly corrupt.
    r = rng_for('root', sc['seed'])
    es = [e for l in sim.lists for e in l][:4]
    val = bytearray(ntfs.index_root_value([e.raw() for e in es] + [ntfs.index_end()], bs, False, clusters=r.choice([1, 8])))
    ir = Attributes.IndexRoot(bytes(val))
    ctx.probe('index-root')
    ctx.check([entry_key(x) for x in ir.index_entries()] == [(e.ref, e.fn, e.vcn) for e in es], 'wrong-root-entries', '')
    ctx.check((ir.get_indexed_attribute_type_code(), ir.get_collation_rule(), ir.get_bytes_per_index_buffer()) == (0x30, 1, bs), 'wrong-root', '')
    for _ in range(2):
        p = r.choice([16, 20, 32 + 8, 32 + 10, 32 + 12])
        struct.pack_into('<H', val, p, r.choice([0, 1, 8, 15, 16, 17, 0xffff, len(val), len(val) - 17, len(val) - 20]))
    n = 0
    for x in Attributes.IndexRoot(bytes(val)).index_entries():
        n += 1
        ctx.check(n <= len(val), 'no-progress', 'index root')
        entry_key(x)
    ctx.nontrivial = (intact > 0 or carved > 0) and (sc['crash']['mode'] != 'none' or bool(sc['damage']) or bool(sc['faults']))
    ctx.state(bs, sc['cs'], nb, len(runs) > 1, sc['crash']['mode'], tuple(sorted({d[0] for d in sc['damage']})), tuple(sorted(kinds)), intact, nb - len(want), min(carved, 5))
    ctx.sample = {'buffer size': bs, 'buffers': nb, 'crash': sc['crash']['mode'], 'damage': [d[:2] for d in sc['damage']], 'faults': sc['faults'], 'intact': intact, 'carved': carved}
