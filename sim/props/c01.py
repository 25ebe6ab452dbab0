"""C01: reads of a file's data stream through its data runs."""
from dfir_ntfs import MFT
from ..core import SimFile, Sparse, Violation, InjectedIOError, HarnessError, pattern, pick, wpick, rng_for
from ..writers import ntfs

LEVEL = 'exploration'
RUNS = {'quick': 14000, 'thorough': 300000}
SHRINK = ['ops', 'faults', 'extents']
RULE = ('one run = one simulated volume with one fragmented (possibly sparse, possibly multi-record) stream and a history of '
        'seek/tell/read calls over several handles sharing the volume object, with read faults; non-trivial: at least two data '
        'runs and one read crossing a run boundary or one fault fired')
STATE_MEASURE = 'distinct (cluster size, run kinds at the read ends, crosses a run boundary, reaches the end, fault outcome) tuples'
REAL = ['dfir_ntfs.MFT: FileRecordSegment, FileRecord, DecodeMappingPairs, FragmentedFile']
STUB = ['volume (SimFile over an in-memory image)', 'NTFS driver that lays out the stream (sim.writers.ntfs)']
ASSUMPTIONS = ['the caller interleaves whole calls (no preemption inside a call)', 'the valid data length equals the file size']
MUST_HIT = ['cross-run-read', 'sparse-read', 'eof-read', 'eio-transient', 'eio-bad-sector', 'early-eof', 'multi-extent', 'lost-extent', 'huge-volume',
            'index-allocation', 'first-extent-elsewhere']


def generate(rng, tier):
    if rng.random() < 0.1:
        return generate_huge(rng)
    sc = generate_small(rng)
    if len(sc['extents']) > 1 and rng.random() < 0.12:
        sc['lost'] = rng.randrange(len(sc['extents']))
        sc['via'] = 'runs'
    return sc


def generate_huge(rng):
    """A volume and a stream as large as the format allows: cluster numbers and run lengths that need up to 8 bytes."""
    cs = pick(rng, [512, 4096, 65536])
    top = wpick(rng, [(1 << 24, 1), (1 << 33, 2), (1 << 40, 2), ((1 << 58) // cs, 1)])
    runs = []
    total = 0
    pos = rng.randrange(1, 64)
    order = []
    for _ in range(rng.randrange(2, 9)):
        n = wpick(rng, [(rng.randrange(1, 5), 3), (rng.randrange(1, 1 << 18), 1), (rng.randrange(1 << 23, 1 << 25), 1), (rng.randrange(1 << 31, 1 << 33), 1)])
        n = min(n, max(1, top // 16))
        if rng.random() < 0.3:
            runs.append([None, n])
        else:
            pos += wpick(rng, [(0, 1), (rng.randrange(0, 300), 2), (rng.randrange(0, top // 10), 4)])
            runs.append([pos, n])
            pos += n
    rng.shuffle(runs)
    total = sum(r[1] for r in runs)
    size = total * cs - wpick(rng, [(0, 1), (rng.randrange(0, cs), 3)])
    edges = [0, size]
    p = 0
    for r in runs:
        p += r[1] * cs
        edges.append(p)
        edges.append(p - r[1] * cs // 2)
    ops = []
    for _ in range(rng.randrange(4, 16)):
        tgt = max(0, pick(rng, edges) + rng.randrange(-2 * cs, 2 * cs))
        ops.append(['seek', 0, tgt, rng.randrange(3)])
        ops.append(['read', 0, wpick(rng, [(rng.randrange(0, 64), 2), (rng.randrange(0, 3 * cs), 3)])])
    ext = []
    i = 0
    while i < len(runs):
        k = rng.randrange(1, 5)
        ext.append(runs[i:i + k])
        i += k
    return {'huge': True, 'cs': cs, 'voff': pick(rng, [0, 63 * 512]), 'vol': pos + 1, 'extents': ext, 'size': size, 'name': None, 'extra': rng.randrange(0, 3), 'order': rng.randrange(1000),
            'frs': 1024, 'ops': ops, 'faults': [], 'nh': 1, 'via': wpick(rng, [('runs', 2), ('merged', 1)]), 'first': rng.randrange(3)}


def generate_small(rng):
    cs = wpick(rng, [(512, 4), (1024, 3), (2048, 1), (4096, 3), (65536, 0.15)])
    nruns = wpick(rng, [(1, 2), (2, 2), (3, 2), (5, 2), (9, 1), (20, 0.6)])
    vol_clusters = wpick(rng, [(60, 3), (200, 3), (900, 1)])
    if cs >= 65536:
        vol_clusters = 40
        nruns = min(nruns, 4)
    runs = []
    used = set()
    for _ in range(nruns):
        n = wpick(rng, [(1, 4), (2, 3), (3, 2), (7, 1), (20, 0.3)])
        if rng.random() < 0.22:
            runs.append([None, n])
            continue
        for _try in range(8):
            lcn = rng.randrange(1, vol_clusters - n)
            if not any(x in used for x in range(lcn, lcn + n)):
                used.update(range(lcn, lcn + n))
                runs.append([lcn, n])
                break
    if not runs:
        runs = [[1, 1]]
    if rng.random() < 0.1 and runs[0][0] is not None:
        runs[0][0] = 0  # $Boot-like: starts with the first cluster of the volume
    total = sum(r[1] for r in runs)
    size = wpick(rng, [(total * cs, 3), (max(0, total * cs - rng.randrange(1, cs + 1)), 4),
                       (rng.randrange(0, total * cs + 1), 2)])
    # Split in extents, each in its own file record segment.
    ext = []
    i = 0
    multi = rng.random() < 0.4
    while i < len(runs):
        k = rng.randrange(1, 4) if multi else 24
        ext.append(runs[i:i + k])
        i += k
    nh = wpick(rng, [(1, 3), (2, 2), (3, 1)])
    ops = []
    edges = [0, size, max(0, size - 1)]
    pos = 0
    for r in runs:
        pos += r[1] * cs
        edges += [pos, max(0, pos - 1), pos + 1]
    for _ in range(rng.randrange(4, 26)):
        h = rng.randrange(nh)
        k = wpick(rng, [('seek', 4), ('read', 6), ('tell', 1), ('badseek', 0.4), ('foreign', 1), ('readall', 0.5)])
        if k == 'seek':
            wh = rng.randrange(3)
            tgt = wpick(rng, [(pick(rng, edges), 3), (rng.randrange(0, size + 2), 2), (size + rng.randrange(0, 3 * cs), 0.5)])
            ops.append(['seek', h, tgt, wh])
        elif k == 'read':
            n = wpick(rng, [(rng.randrange(0, 64), 2), (cs, 1), (rng.randrange(0, 4 * cs), 3), (total * cs + rng.randrange(0, 2 * cs), 0.7)])
            ops.append(['read', h, n])
        elif k == 'readall':
            ops.append(['read', h, pick(rng, [None, -1, -1, -rng.randrange(2, 5000)])])
        elif k == 'foreign':
            ops.append(['foreign', rng.randrange(0, vol_clusters * cs)])
        else:
            ops.append([k, h])
    faults = []
    mode = wpick(rng, [('none', 4), ('eio', 2), ('bad', 2), ('eof', 2), ('short', 1), ('mix', 1)])
    if mode in ('eio', 'mix'):
        for _ in range(rng.randrange(1, 4)):
            faults.append({'k': 'eio', 'n': rng.randrange(0, 40)})
    if mode in ('bad', 'mix'):
        r = pick(rng, runs)
        c = (r[0] or 0) + rng.randrange(r[1])
        faults.append({'k': 'bad', 'c': c, 'n': rng.randrange(1, 3)})
    if mode == 'eof':
        r = pick(rng, runs)
        c = (r[0] or 0) + rng.randrange(r[1])
        faults.append({'k': 'eof', 'c': c, 'part': rng.randrange(0, cs)})
    if mode == 'short':
        for _ in range(rng.randrange(1, 3)):
            faults.append({'k': 'short', 'n': rng.randrange(0, 30), 'keep': rng.randrange(0, cs)})
    return {'cs': cs, 'voff': wpick(rng, [(0, 3), (512, 1), (63 * 512, 1), (1048576 + 512, 0.2)]), 'vol': vol_clusters, 'extents': ext,
            'size': size, 'name': wpick(rng, [(None, 3), ('$J', 1), ('ads:é', 1)]), 'extra': rng.randrange(0, 3), 'order': rng.randrange(1000),
            'frs': wpick(rng, [(1024, 2), (4096, 1)]), 'ops': ops, 'faults': faults, 'nh': nh, 'via': wpick(rng, [('runs', 2), ('merged', 1)]), 'first': rng.randrange(3) if rng.random() < 0.4 else 0,
            'index': rng.random() < 0.15, 'junk': rng.random() < 0.3}


def execute(sc, ctx):
    cs, voff, size = sc['cs'], sc['voff'], sc['size']
    runs = [tuple(r) for e in sc['extents'] for r in e]
    # Reference content.
    ntotal = sum(r[1] for r in runs)
    size = min(size, ntotal * cs)
    if sc.get('huge'):
        ctx.probe('huge-volume')
        vol = Sparse(voff + sc['vol'] * cs)
        for lcn, n in runs:
            if lcn is not None:
                for c in {lcn, lcn + 1, lcn + n // 2, lcn + n - 2, lcn + n - 1}:
                    if lcn <= c < lcn + n:
                        vol[voff + c * cs:voff + (c + 1) * cs] = pattern(c, 64) + pattern(('x', c), cs - 64)
    else:
        vol = bytearray(b'\xEE' * voff) + bytearray(sc['vol'] * cs)
        for c in range(sc['vol']):
            vol[voff + c * cs:voff + (c + 1) * cs] = pattern(c, min(cs, 64)) + pattern(('x', c), max(0, cs - 64))
        vol = bytes(vol)

    def refread(pos, n):
        out = []
        end = min(size, pos + n)
        p = 0
        for lcn, k in runs:
            lo, hi = max(p, pos), min(p + k * cs, end)
            if lo < hi:
                out.append(bytes(hi - lo) if lcn is None else vol[voff + lcn * cs + lo - p:voff + lcn * cs + hi - p])
            p += k * cs
        return b''.join(out)

    # File record segments.
    segs = []
    low = 0
    index = bool(sc.get('index'))
    code = ntfs.T_IALLOC if index else ntfs.T_DATA
    name = '$I30' if index else sc['name']
    first = sc.get('first', 0) % len(sc['extents']) if sc['extents'] else 0   # which record holds the beginning of the stream: not always the base one
    for i, e in enumerate(sc['extents']):
        e = [tuple(r) for r in e]
        a = ntfs.attr_nonresident(code, e, size, cs, name=name, lowest=low, extra=sc['extra'], inst=3, alloc=ntotal * cs)
        decoy = ntfs.attr_nonresident(ntfs.T_DATA, [(1, 1)], 5, cs, name='other', inst=4)
        decoy2 = ntfs.attr_nonresident(ntfs.T_BITMAP if index else ntfs.T_IALLOC, [(2, 1)], 7, cs, name=name or '$I30', inst=5)
        number = 40 + (i - first) % len(sc['extents'])
        base = number == 40
        decoys = [decoy, decoy2] if base else []
        img, _ = ntfs.frs_logical(4096 if len(e) > 25 else sc['frs'], number, 7, 1, sorted([a] + decoys, key=lambda x: x[:4]), base=0 if base else ntfs.ref(40, 7))
        if i != sc.get('lost', -1) or base:
            segs.append((number, MFT.FileRecordSegment(ntfs.protect(img, 0x55 + i))))
        low += sum(c for _, c in e)
    segs = [x for _, x in sorted(segs, key=lambda x: x[0])]
    nseg = len(sc['extents'])
    if first:
        ctx.probe('first-extent-elsewhere')
    if len(segs) > 1:
        ctx.probe('multi-extent')
    kids = segs[1:]
    rng_for('order', sc['order']).shuffle(kids)
    if not segs:
        return
    fr = MFT.FileRecord(segs[0], kids)
    if index:
        ctx.probe('index-allocation')
    if len(segs) < nseg and sc['lost'] != nseg - 1:
        # A record describing a part of the stream that is not its last one is gone.
        ctx.fault('lost-extent')
        ctx.probe('lost-extent')
        try:
            dr = fr.get_data_runs(name, True) if index else fr.get_data_runs(name)
        except MFT.MasterFileTableException:
            ctx.nontrivial = True
            ctx.state('lost', nseg, sc['lost'] == 0)
            return
        raise Violation('gap-accepted', 'the record with extent %d of %d is missing, but data runs are returned: %r' % (sc['lost'], nseg, dr))
    if len(segs) < nseg:
        ctx.fault('lost-extent')
        ctx.probe('lost-extent')
        runs = runs[:len(runs) - len(sc['extents'][-1])]
    known = sum(r[1] for r in runs) * cs
    if sc['via'] == 'runs':
        arg = '' if name is None and sc['order'] % 2 else name
        if arg == '':
            ctx.probe('empty-name')
        dr = fr.get_data_runs(arg, True) if index else fr.get_data_runs(arg)
        ds = fr.get_data_size(arg, True) if index else fr.get_data_size(arg)
        for other in [x for x in (None, 'none', (name or '') + 'x', (name or 'y')[:-1]) if (x or None) != name]:
            ctx.check(fr.get_data_runs(other, index) is None and fr.get_data_size(other, index) is None, 'made-up-stream', 'there is no stream %r', other)
        other = None if index or name is None else ([(2, 1)], 7)
        x = fr.get_data_runs(arg, not index)
        ctx.check((x and [tuple(y) for y in x], fr.get_data_size(arg, not index)) == (other or (None, None)), 'wrong-stream', lambda: 'the stream of the other type: %r instead of %r' % (x, other))
    else:
        got = [a for a in fr.attributes(True) if a.type_code == code and a.name == name]
        ctx.check(len(got) == 1, 'split-attribute', 'merged attributes: %d of one stream', len(got))
        dr, ds = got[0].data_runs, got[0].file_size
    ctx.check(dr is not None and [tuple(x) for x in dr] == runs, 'data-runs', lambda: 'data runs %r, expected %r' % (dr, runs))
    ctx.check(ds == size, 'data-size', 'stream size %r, expected %r', ds, size)

    plan = []
    for f in sc['faults']:
        if f['k'] == 'bad':
            lo = voff + f['c'] * cs
            plan.append({'k': 'bad', 'lo': lo, 'hi': lo + f['n'] * cs})
        elif f['k'] == 'eof':
            plan.append({'k': 'eof', 'at': voff + f['c'] * cs + f['part']})
        else:
            plan.append(f)
    f = SimFile(ctx, vol, plan, 'vol')
    hs = [MFT.FragmentedFile(f, voff, cs, dr, ds) for _ in range(sc['nh'])]
    model = [0] * sc['nh']
    faulty = bool(plan)
    crossings = 0
    bounds = set()
    p = 0
    for lcn, n in runs:
        p += n * cs
        bounds.add(p)
    for op in sc['ops']:
        ctx.ev(op)
        if op[0] == 'foreign':
            f.seek(op[1])
            continue
        h = hs[op[1]]
        cur = model[op[1]]
        if op[0] == 'seek':
            tgt, wh = op[2], op[3]
            arg = tgt if wh == 0 else (tgt - cur if wh == 1 else tgt - size)
            r = h.seek(arg, wh)
            ctx.check(r == tgt, 'seek', 'seek(%d, %d) from %d returned %r, expected %d', arg, wh, cur, r, tgt)
            model[op[1]] = tgt
            ctx.check(h.tell() == tgt, 'tell', 'tell() after seek: %r, expected %r', h.tell(), tgt)
        elif op[0] == 'badseek':
            try:
                h.seek(-1 - cur, 1)
            except (ValueError, OSError):
                pass
            else:
                raise Violation('seek', 'a seek to a negative position succeeded')
            ctx.check(h.tell() == cur, 'tell', 'position %r changed by a failed seek, expected %r', h.tell(), cur)
        elif op[0] == 'tell':
            ctx.check(h.tell() == cur, 'tell', 'tell() %r, expected %r', h.tell(), cur)
        elif op[0] == 'read':
            n = op[2]
            want = refread(cur, size if n is None or n < 0 else n)
            end = cur + len(want)
            gone = cur < size and (size if n is None or n < 0 else min(size, cur + n)) > max(known, cur) and n != 0
            cross = any(cur < b < end for b in bounds)
            crossings += cross
            fired = f.n_fired
            trunc0 = ctx.faults.get('early-eof', 0)
            try:
                got = h.read(n) if n is not None else h.read()
            except (OSError, MFT.MasterFileTableException) as e:
                hit = f.n_fired > fired or ctx.faults.get('early-eof', 0) > trunc0
                ctx.check((faulty and hit) or gone, 'read-error', lambda: 'read(%r) at %d failed without a fault: %r' % (n, cur, e))
                p = h.tell()
                ctx.check(cur <= p <= end, 'position-after-error', 'position %r after a failed read of %r at %r', p, n, cur)
                model[op[1]] = p
                ctx.probe('read-failed')
                ctx.state('err', cs, cross, type(e).__name__)
                continue
            if gone:
                raise Violation('missing-data', 'read(%r) at %d of a stream described up to %d of %d bytes returned %d bytes' % (n, cur, known, size, len(got)))
            if got != want:
                raise Violation('wrong-data', 'read(%r) at %d of a %d-byte stream: %d bytes, expected %d, first difference at %s' % (
                    n, cur, size, len(got), len(want), next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), 'end')))
            ctx.evaluations += 1
            model[op[1]] = end
            ctx.check(h.tell() == end, 'tell', 'tell() after read: %r, expected %r', h.tell(), end)
            if cross:
                ctx.probe('cross-run-read')
            if want and len(want) > cs and want.count(0) >= cs:
                ctx.probe('sparse-read')
            if end == size and n and len(want) < (n if n > 0 else 0):
                ctx.probe('eof-read')
            ctx.state('ok', cs, cross, end == size, len(want) > 0, faulty)
    ctx.nontrivial = len(runs) > 1 and (crossings > 0 or f.n_fired > 0)
    ctx.sample = {'cluster': cs, 'runs': runs[:8], 'size': size, 'ops': sc['ops'][:8], 'faults': sc['faults']}
