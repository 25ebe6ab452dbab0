"""C19: ntfs_parser prints tables (--mft, --usn, --indx, --all-mft) that say exactly what is in the source, or fails visibly."""
import struct
from ..core import SimDisk, SparseDisk, SimFile, SimClock, Sparse, pick, wpick, rng_for
from .. import cli, mfthist, ntfscli
from ..oracle.mftmodel import Model
from ..writers import ntfs
from ..writers.indxsim import IndexSim, Entry
from ..writers.mftsim import res, nonres, classify_record
from ..writers.usnsim import UsnSim, UsnRec
from ..writers.volsim import VolSim
from ..writers.vsssim import VssSim, B
from . import c03

LEVEL = 'exploration'
RUNS = {'quick': 9000, 'thorough': 100000}
SHRINK = ['damage', 'faults', 'ops']
RULE = ('one run = a file system history (files, directories with indexes, a change journal, shadow copies), a crash and damage, then one run of ntfs_parser (--mft, --usn, --indx or --all-mft) on simulated files, with read errors, truncated input, '
        'short writes and a full output disk. Non-trivial: deletions, renames, damage or faults')
STATE_MEASURE = 'distinct (mode, rows by kind, crash mode, damage kinds, fault kinds, outcome) tuples'
REAL = ['ntfs_parser: --mft, --usn, --indx, --all-mft', 'dfir_ntfs.MFT, Attributes, USN, WSL, ShadowCopy, BootSector as the script uses them', 'csv (Python library)']
STUB = ['NTFS driver, change journal writer, shadow copy driver (sim.writers)', 'write-back disks', 'open() of the script: simulated input and output files', 'process exit']
ASSUMPTIONS = ['names in the slack are those whose times lie between 1998 and 2059', 'text files are written through the same buffering the interpreter uses']
MUST_HIT = ['mode-mft', 'mode-usn', 'mode-indx', 'mode-all', 'index-row', 'slack-row', 'wsl', 'usn-row', 'indx-row', 'indx-slack-row', 'other-parent', 'shadow-rows', 'eio-transient', 'eio-bad-sector', 'enospc', 'short-write',
            'early-eof', 'failed-visibly', 'corrupt-value', 'corrupt-inside', 'corrupt-journal-record', 'usn-name-outside', 'twin-attribute', 'two-indexes', 'split-index', 'other-index', 'short-entry', 'nameless', 'corrupt-vss-header', 'partial-row', 'unresolved-usn', 'complete']

REASONS = {0x1: 'DATA_OVERWRITE', 0x2: 'DATA_EXTEND', 0x4: 'DATA_TRUNCATION', 0x10: 'NAMED_DATA_OVERWRITE', 0x20: 'NAMED_DATA_EXTEND', 0x40: 'NAMED_DATA_TRUNCATION', 0x100: 'FILE_CREATE', 0x200: 'FILE_DELETE',
           0x400: 'EA_CHANGE', 0x800: 'SECURITY_CHANGE', 0x1000: 'RENAME_OLD_NAME', 0x2000: 'RENAME_NEW_NAME', 0x4000: 'INDEXABLE_CHANGE', 0x8000: 'BASIC_INFO_CHANGE', 0x10000: 'HARD_LINK_CHANGE',
           0x20000: 'COMPRESSION_CHANGE', 0x40000: 'ENCRYPTION_CHANGE', 0x80000: 'OBJECT_ID_CHANGE', 0x100000: 'REPARSE_POINT_CHANGE', 0x200000: 'STREAM_CHANGE', 0x400000: 'TRANSACTED_CHANGE',
           0x800000: 'INTEGRITY_CHANGE', 0x80000000: 'CLOSE'}
SOURCES = {1: 'DATA_MANAGEMENT', 2: 'AUXILIARY_DATA', 4: 'REPLICATION_MANAGEMENT', 8: 'CLIENT_REPLICATION_MANAGEMENT'}


def codes(v, table, prefix):
    out = [prefix + table[b] for b in sorted(table) if v & b]
    rest = v
    for b in table:
        rest &= ~b
    if rest:
        out.append(hex(rest))
    return ' | '.join(out)


def generate(rng, tier):
    mode = wpick(rng, [('mft', 4), ('usn', 2), ('indx', 3), ('all', 1)])
    sc = mfthist.gen_scene(rng)
    sc['mode'] = mode
    ops = []
    for op in sc['ops']:
        ops.append(op)
        x = rng.random()
        if x < 0.15:
            ops.append(['index', rng.randrange(64), rng.randrange(100)])
        elif x < 0.22:
            ops.append(['ea', rng.randrange(64), rng.randrange(1 << 30)])
        elif x < 0.27:
            ops.append(['objid', rng.randrange(64), rng.randrange(1 << 30)])
        elif x < 0.3 and mode in ('mft', 'all'):
            ops.append(['twin', rng.randrange(64), rng.randrange(1 << 20)])
        elif x < 0.32:
            ops.append(['noname', rng.randrange(64)])
        elif x < 0.4 and mode == 'usn':
            ops.append(['usn', rng.randrange(64), rng.randrange(1 << 30)])
        elif x < 0.5 and mode == 'indx':
            ops.append(['big', rng.randrange(64), rng.randrange(1 << 30)])
        elif x < 0.37 and mode == 'all':
            ops.append(['snap', rng.randrange(1 << 30)])
    sc['ops'] = ops
    dmg = []
    if mode == 'indx' and rng.random() < 0.3:
        for _ in range(rng.randrange(1, 4)):
            dmg.append({'k': pick(rng, ['zero', 'inside', 'inside']), 'rec': rng.randrange(16, 40), 'x': rng.randrange(1 << 30)})
    if mode in ('mft', 'usn') and rng.random() < 0.5:
        for _ in range(rng.randrange(1, 6)):
            dmg.append({'k': pick(rng, ['zero', 'garbage', 'usn', 'bad', 'inside', 'value', 'value', 'value']), 'rec': rng.randrange(16, sc['nrec']), 'x': rng.randrange(1 << 30)})
    sc['damage'] = dmg
    f = []
    m = wpick(rng, [('none', 5), ('eof', 0.8 if mode == 'mft' else 0), ('eio', 1), ('bad', 0.7), ('out', 1.6), ('short', 0.8)])
    if m == 'eof':
        f.append({'k': 'eof', 'at': rng.randrange(16 * sc['size'], sc['nrec'] * sc['size'])})
    elif m == 'eio':
        f.append({'k': 'eio', 'n': rng.randrange(0, 3 * sc['nrec'])})
    elif m == 'bad':
        f.append({'k': 'bad', 'at': rng.random()})
    elif m == 'out':
        f.append({'k': 'out', 'cap': pick(rng, [0, 1, 100, 300, 1000, 4096, 5000, 8192, 10000, 20000, 40000]), 'err': pick(rng, ['enospc', 'enospc', 'eio'])})
    elif m == 'short':
        f.append({'k': 'oshort', 'n': pick(rng, [1, 2, 3])})
    if mode == 'all' and rng.random() < 0.12:
        f, sc['vdmg'] = [], [pick(rng, ['gone', 'guid', 'type', 'ctlgone', 'ctlguid', 'ctltype']), rng.randrange(1 << 20)]
    sc['faults'] = f
    sc['vol'] = {'bps': pick(rng, [512, 512, 1024]), 'spc': pick(rng, [1, 2, 4, 8, 16]), 'off': pick(rng, [0, 0, 512, 1 << 20]), 'per': pick(rng, [2, 4, 8]), 'nr': rng.random() < 0.3, 'seed': rng.randrange(1 << 30)}
    if mode in ('indx', 'all'):
        sc['crash'] = {'mode': 'none', 'seed': 1} if mode == 'all' or rng.random() < 0.5 else sc['crash']
    return sc


# --- --mft and --usn

def value_damage(sc, ctx, sim, image):
    """Overwrite bytes inside attribute values; the record stays readable."""
    hit = {}
    image = bytearray(image)
    for d in sc['damage']:
        if d['k'] != 'value':
            continue
        r = rng_for('val', d['x'])
        num = d['rec'] % sim.nrec
        if num < 16 or num in hit:
            continue
        off = num * sim.size
        buf = bytes(image[off:off + sim.size])
        v = next((v for v in reversed(sim.history.get(num, [])) if v.protected == buf), None)
        if v is None or not v.attrs:
            continue
        pos = struct.unpack_from('<H', buf, 20)[0]
        spots = []
        for a in v.attrs:
            if a.runs is None and len(a.value):
                vo = struct.unpack_from('<H', a.raw, 20)[0]
                spots.append((pos + vo, len(a.value)))
            else:
                if len(a.raw) > 64:
                    spots.append((pos + 64, len(a.raw) - 64))
            pos += len(a.raw)
        if not spots:
            continue
        p, n = r.choice(spots)
        for _ in range(r.randrange(1, 4)):
            at = p + r.randrange(n)
            k = min(r.choice([1, 1, 2, 4, 8, 16]), p + n - at)
            for j in range(at, at + k):
                if j % 512 < 510:
                    image[off + j] = r.choice([0, 0xFF, 0x80, 1, r.randrange(256)])
        hit[num] = v
        ctx.fault('corrupt-value')
    return bytes(image), hit


def make_usn(sc, ctx):
    disk = SimDisk(ctx, 1 << 18)
    usn = UsnSim(disk, 0)

    def on_op(sim, op):
        if op[0] != 'usn':
            return
        r = rng_for('u', op[2])
        nodes = sim.user_nodes() + sim.dead[-4:]
        if not nodes:
            return
        n = nodes[op[1] % len(nodes)]
        x = UsnRec()
        x.ver = r.choice([2, 2, 2, 3, 4])
        x.minor = 0
        x.ref = n.ref() if r.random() < 0.8 else ntfs.ref(r.randrange(sim.nrec + 9), r.randrange(1, 4))
        if n.kids and r.random() < 0.3:
            x.ref = ntfs.ref(n.kids[0], sim.seq[n.kids[0]])
        if x.ver != 2 and r.random() < 0.1:
            x.ref |= r.randrange(1, 1 << 64) << 64
        l = n.links[0] if n.links else {'parent': (5, 5), 'name': '?'}
        x.parent = ntfs.ref(*l['parent'])
        x.usn = 0
        x.time = sim.clock.now()
        x.reason = 0
        for _ in range(r.randrange(0, 4)):
            x.reason |= r.choice(sorted(REASONS) + [0x08000000, 0x8])
        x.source = r.choice([0, 0, 1, 2, 4, 8, 0x10, 3, 0x13, 0xF, 0x103, 0x80000008])
        x.sid, x.attrs, x.remaining = 0x100, 0x20, 0
        x.name = l['name'].encode('utf-16le', 'replace').decode('utf-16le')
        x.extents = [(0x10000, 512)]
        usn.append(x)
    return disk, usn, on_op


# --- --indx

class BigDirs(object):
    """Directories whose names are in index buffers."""

    def __init__(self, ctx, vol, seed):
        self.ctx, self.vol, self.rng = ctx, vol, rng_for('big', seed)
        self.dirs = {}       # num -> IndexSim (with .runs, .seq)
        self.gone = []

    def apply(self, op):
        vol, sim = self.vol, self.vol.sim
        r = rng_for('b', op[2])
        dirs = [n for n in sim.dirs() if n.num not in (11,)]
        d = dirs[op[1] % len(dirs)]
        ix = self.dirs.get((d.num, d.seq))
        bs = 4096
        if ix is None:
            nb = r.randrange(1, 4)
            runs = vol.alloc_runs(max(1, nb * bs // vol.cs) if vol.cs <= bs else nb * bs // vol.cs + 1, r.randrange(1, 4))
            if runs is None:
                return
            nb = sum(n for _, n in runs) * vol.cs // bs

            def locate(pos, n):
                out = []
                while n:
                    vcn, o = divmod(pos, vol.cs)
                    for lcn, c in runs:
                        if vcn < c:
                            break
                        vcn -= c
                    k = min(n, vol.cs - o)
                    out.append((vol.off + (lcn + vcn) * vol.cs + o, k))
                    pos += k
                    n -= k
                return out
            ix = IndexSim(self.ctx, vol.disk, sim.clock, bs, nb, locate, max(512, min(vol.cs, bs)))
            ix.runs = runs
            for i in range(nb):
                if r.random() < 0.5:     # left over from another directory
                    other = r.choice(dirs)
                    for j in range(r.randrange(1, 9)):
                        t = sim.clock.now() + j
                        e = Entry(ntfs.ref(40 + j, 1), ntfs.fn_value(other.ref() if r.random() < 0.7 else ntfs.ref(39, 9), t, t, t + 1, t, 0, 7 * j, 0x20, 'left over %d %d' % (j, r.randrange(1000)), 3))
                        ix.insert(i, e)
                    ix.lists[i] = []
                ix.write(i)
            vol.disk.flush()
            old = d.index
            # Possibly in several parts; possibly with another index beside it (here: on the same clusters).
            cut = r.randrange(1, len(runs)) if len(runs) > 1 and r.random() < 0.6 else len(runs)
            low = sum(c for _, c in runs[:cut])
            alloc = [nonres(ntfs.T_IALLOC, runs[:cut], nb * bs, vol.cs, '$I30', extra=sim.extra, alloc=sum(c for _, c in runs) * vol.cs)]
            if cut < len(runs):
                alloc.append(nonres(ntfs.T_IALLOC, runs[cut:], nb * bs, vol.cs, '$I30', lowest=low, extra=sim.extra))
                self.ctx.probe('split-index')
            if r.random() < 0.3:
                alloc.insert(r.choice([0, len(alloc)]), nonres(ntfs.T_IALLOC, runs, nb * bs, vol.cs, r.choice(['$A', '$O', '$I31']), extra=sim.extra))
                self.ctx.probe('other-index')
            d.index = [res(ntfs.T_IROOT, ntfs.index_root_value([ntfs.index_end(0)], node=True), '$I30')] + alloc + [res(ntfs.T_BITMAP, b'\xff' * 8, '$I30')]
            if not sim.flush_node(d):
                d.index = old
                return
            vol.disk.flush()
            self.dirs[(d.num, d.seq)] = ix
        for _ in range(r.randrange(1, 6)):
            i = r.randrange(ix.nbuf)
            if r.random() < 0.3 and ix.lists[i]:
                ix.remove(i, r.randrange(len(ix.lists[i])))
                continue
            if r.random() < 0.04:       # an entry without a complete name
                self.ctx.probe('short-entry')
                ix.insert(i, Entry(ntfs.ref(r.randrange(99), 1), b'\x41' * r.choice([8, 16, 64, 66])))
                continue
            kids = [(m, l) for m in sim.nodes.values() for l in m.links if l['parent'] == (d.num, d.seq)]
            if kids and r.random() < 0.7:
                m, l = kids[r.randrange(len(kids))]
                fn = ntfs.fn_value(d.ref(), *l['times'], (l['size'] + 7) & ~7, l['size'], l['attrs'], l['name'], l['ns'])
                rf = m.ref()
            else:
                other = r.choice(dirs)
                t = sim.clock.now()
                pr = r.choice([d.ref(), other.ref(), ntfs.ref(other.num, other.seq + 1), ntfs.ref(5, 5), ntfs.ref(4000, 1)])
                fn = ntfs.fn_value(pr, t, t + 1, t + 2, t + 3, 8, r.randrange(1 << 40), r.choice([0x20, 0x10000010]), r.choice(mfthist.NAMES), r.randrange(4))
                rf = ntfs.ref(r.randrange(1 << 30), r.randrange(1, 9))
            ix.insert(i, Entry(rf, fn))


def indx_damage(sc, ctx, vol, big, img, cls):
    """Damage to records that are not directories with index buffers."""
    sim = vol.sim
    keep = {k for k, _ in vol.layouts[-1][1]} | {n for n, _ in big.dirs}
    skip = set()
    img = img.copy()
    for d in sc['damage']:
        num = d['rec'] % sim.nrec
        v = cls.get(num, (None, None))[1]
        if num < 16 or num in keep or v is None or v.base or any(a.code == ntfs.T_IALLOC for w in sim.history.get(num, []) for a in w.attrs):
            continue
        r = rng_for('idmg', d['x'])
        o = sim.locate(num)
        if d['k'] == 'zero':
            img[o:o + sim.size] = bytes(sim.size)
            cls[num] = ('gone', None)
            ctx.fault('zeroed-record')
        else:
            first = struct.unpack('<H', bytes(img[o + 20:o + 22]))[0]
            img[o + first + 4:o + first + 8] = struct.pack('<L', 3 + 8 * r.randrange(5))
            skip.add(num)
            ctx.fault('corrupt-inside')
    return img, skip


def check_indx(ctx, rows, model, vol, big, image, skip):
    R = ntfscli.Rows(ctx, model, vol.sim, skip)
    vol.sim.other_fns = [fn for ix in big.dirs.values() for fn in ix.every if len(fn) > 66]
    i = 0
    pend, owns, srows = [], {}, []

    def path_of(fn):
        p, _, _, _, name = ntfscli.fn_fields(fn)
        return R.under(R.first_paths(owns[p]) if p in owns else R.lookup_paths(p), name)

    def slack_done():
        before = ctx.probes['slack-row']
        R.slack([(r[3], r[2], r[8], r[4:8]) for r in srows], pend, 'directories %r' % sorted(owns.values()), path_of, partial=False)
        ctx.probe('indx-slack-row', ctx.probes['slack-row'] - before)
        pend[:], srows[:] = [], []
        owns.clear()

    for num in model.bases():
        v = model.v[num]
        must, may = model.children(num)
        attrs = [a for x in [v] + [model.v[k] for k in must] for a in x.attrs]
        al = [a for a in attrs if a.code == ntfs.T_IALLOC and a.name == '$I30']
        if not al:
            continue
        if may:
            return False
        if {num} & R.skip:
            return False
        al = [tuple(q) for a in sorted(al, key=lambda a: a.lowest) for q in a.runs]
        ix = next((x for x in big.dirs.values() if [tuple(q) for q in x.runs] == al), None)
        if ix is None:
            ctx.probe('index-part-lost')
            return False
        own = ntfs.ref(num, v.seq)
        bufs = []
        for b in range(ix.nbuf):
            raw = b''.join(bytes(image[o:o + n]) for o, n in ix.locate(b * ix.bufsize, ix.bufsize))
            bv = next((x for x in reversed(ix.versions[b]) if x.protected == raw), None)
            if bv is None:
                ctx.probe('buffer-torn')
                continue
            bufs.append(bv.logical[bv.end:])
            for e in bv.entries:
                if len(e.fn) <= 66:
                    continue
                if pend:
                    slack_done()
                p, ts, sz, fa, name = ntfscli.fn_fields(e.fn)
                ctx.check(i < len(rows) and rows[i][0] == 'Index record', 'index-rows', lambda: 'directory %d: %r expected, got %r' % (num, name, rows[i] if i < len(rows) else None))
                r = rows[i]
                i += 1
                if p == own:
                    ok = R.under(R.first_paths(num), name)
                else:
                    ok = R.under(R.lookup_paths(p), name)
                    ctx.probe('other-parent')
                ctx.check(r[1] == str(e.ref) and r[2] == ('Y' if fa & ntfscli.DIRBIT else 'N') and r[8] == str(sz), 'index-rows', lambda: 'directory %d: %r' % (num, r))
                ctx.check(r[3] in ok if ok is not None else r[3].endswith('/' + name), 'index-path', lambda: 'directory %d: path %r, expected %r (parent %x)' % (num, r[3], ok, p))
                R.times(r, (4, 5, 6, 7), ts, 'directory %d index entry' % num)
                ctx.probe('indx-row')
        j = i
        while j < len(rows) and rows[j][0] == 'Index slack':
            ctx.check(rows[j][1] == '?', 'index-rows', lambda: '%r' % (rows[j],))
            j += 1
        # Slack rows of directories without entries in between cannot be told apart.
        pend += bufs
        owns[own] = num
        srows += rows[i:j]
        i = j
    slack_done()
    ctx.check(i == len(rows), 'made-up-record', lambda: 'unexpected row %r' % (rows[i],))
    return True


# --- --all-mft

class ShadowedDisk(object):
    """The volume under a simulated shadow copy driver; writes reach it block by block when synchronised."""

    def __init__(self, ctx, vss, size):
        self.ctx, self.vss = ctx, vss
        self.img = Sparse(size)
        self.dirty = set()

    def __len__(self):
        return len(self.img)

    def write(self, off, data):
        self.img[off:off + len(data)] = data
        self.dirty.update(range(off // B, (off + len(data) - 1) // B + 1))

    def flush(self):
        pass

    def sync(self):
        for b in sorted(self.dirty):
            if b == 0:
                cur = bytes(self.vss.vol.cache[self.vss.cfg['voff']:self.vss.cfg['voff'] + 0x1E00])
                if cur[:512] != bytes(self.img[0:512]):
                    self.vss.wv(0, bytes(self.img[0:512]))
                    self.vss.barrier()
                continue
            self.vss.used.add(b)
            self.vss.write(b, bytes(self.img[b * B:(b + 1) * B]))
        self.dirty = set()


def model_of(sim, read):
    cls = {}
    for num in range(sim.nrec):
        o = sim.locate(num)
        cls[num] = classify_record(bytes(read(o, sim.size)), sim.history.get(num, []), sim.size)
    return Model(cls)


def volume(sc, ctx):
    """Build the volume for --indx or --all-mft. Returns (image, offset, [(tag, model)], vol, big)."""
    cfg = sc['vol']
    clock = SimClock(ctx)
    rng = rng_for('c19vol', cfg['seed'])
    frs = sc['size']
    bps, spc = cfg['bps'], cfg['spc']
    if sc['mode'] == 'all':
        spc = 4096 // bps
    cs = bps * spc
    unit = max(1, frs // cs)
    first = max(1, (40 * frs + cs - 1) // cs) // unit * unit + unit
    if sc['mode'] == 'indx':
        clusters = (first + 64 * 4096 // cs + 40) * 3
        disk = SparseDisk(ctx, cfg['off'] + clusters * cs)
        vol = VolSim(ctx, disk, clock, rng, bps, spc, cfg['off'], clusters, frs, first, cfg['per'], cfg['nr'], False, sc['extra'])
        big = BigDirs(ctx, vol, cfg['seed'])
        for op in sc['ops']:
            ctx.ev('op', op)
            ctx.step()
            if op[0] == 'big':
                big.apply(op)
            else:
                mfthist.apply_op(vol.sim, op, clock)
                if op[0] == 'tick' and op[1] % 3 == 0:
                    vol.grow(unit)
        disk.flush() if sc['crash']['mode'] == 'none' else None
        image = disk.crash(sc['crash']['mode'], sc['crash']['seed'])
        return image, cfg['off'], vol, big, None
    # Shadow copies: every other block belongs to the file system.
    nblocks = 320
    files = list(range(2, 80)) + list(range(200, 240))
    vcfg = {'nblocks': nblocks, 'files': files, 'cut': 0, 'voff': cfg['off'], 'after': 0, 'seed': cfg['seed'], 'nctl': 1, 'fill_ctl': False, 'shuffle_ctl': False, 'refs': False, 'used_p': 1.0, 'nloc': 3,
            'app': True, 'pad': False, 'rest_unused': False, 'pos0': 1}
    vss = VssSim(ctx, vcfg, False)
    disk = ShadowedDisk(ctx, vss, nblocks * B)
    clusters = nblocks * B // cs

    class Vol(VolSim):
        def extend(self, n):
            if not self.runs:
                self.used.update(c for c in range(clusters) if c * cs // B not in fset or ((c + 1) * cs - 1) // B not in fset)
                self.mirr = 40 * B // cs
                self.used.add(self.mirr)
            return VolSim.extend(self, n)
    fset = set(files)
    vol = Vol(ctx, disk, clock, rng, bps, spc, 0, clusters, frs, first, cfg['per'], cfg['nr'], False, sc['extra'])
    snaps = {}
    disk.sync()
    for op in sc['ops']:
        ctx.ev('op', op)
        ctx.step()
        if op[0] == 'snap':
            disk.sync()
            if len(vss.live()) < 4:
                r = rng_for('guid', op[1])
                vss.snapshot(0x400, bytes(r.randrange(256) for _ in range(16)), r.randrange(1, 10 ** 12))
                snaps[id(vss.live()[-1])] = model_of(vol.sim, lambda o, n: disk.img[o:o + n])
        else:
            mfthist.apply_op(vol.sim, op, clock)
            if op[0] == 'tick':
                vol.grow(unit)
    disk.sync()
    vss.vol.flush()
    models = [('main volume', model_of(vol.sim, lambda o, n: disk.img[o:o + n]))]
    return vss, cfg['off'], vol, None, (models, snaps)


def execute(sc, ctx):
    mode = sc['mode']
    ctx.probe('mode-' + mode)
    kinds = {f['k'] for f in sc['faults']}
    inputs, skip, model, sim = {}, set(), None, None
    usn = big = None
    jbad = set()
    if mode in ('mft', 'usn'):
        if mode == 'usn':
            jdisk, usn, on_op = make_usn(sc, ctx)
        else:
            on_op = None
        sim, image = mfthist.build(sc, ctx, on_op=on_op)
        image, hit = value_damage(sc, ctx, sim, image)
        image, inside = c03.damage(sim, image, sc, ctx)
        end = min([len(image)] + [f['at'] for f in sc['faults'] if f['k'] == 'eof'])
        cls = c03.classify(sim, image[:end], inside)
        for n, v in hit.items():
            # Also damaged otherwise afterwards?
            buf = image[n * sim.size:(n + 1) * sim.size]
            if n in cls and buf[:4] in (b'FILE', b'BAAD') and all(buf[i * 512 - 2:i * 512] == v.protected[i * 512 - 2:i * 512] for i in range(1, sim.size // 512 + 1)):
                cls[n] = ('ok', v)
        skip = set(hit) | inside
        model = Model(cls)
        if any(c == 'mixed' for c, _ in cls.values()) or not all(n in model.v and n not in skip for n in (0, 3, 5)):
            return
        srcs = {'mft': image}
        argv = ['--mft', 'mft', 'out']
        if mode == 'usn':
            jbuf = bytearray(jdisk.read(0, max(usn.end, 8)))
            jr = rng_for('j', sc['vol']['seed'])
            for x in usn.records if jr.random() < 0.4 else ():
                if jr.random() < 0.15:      # a corrupt journal record
                    o, f = jr.choice([(56, '<H'), (58, '<H'), (56, '<H'), (58, '<H'), (32, '<Q'), (8, '<Q'), (16, '<Q')]) if x.ver == 2 else jr.choice([(72, '<H'), (74, '<H'), (8, '<Q'), (16, '<Q')]) if x.ver == 3 else (8, '<Q')
                    struct.pack_into(f, jbuf, x.pos + o, jr.choice([0, 1, 3, 60, 62, 0x100, 0xFFFF]))
                    jbad.add(x.pos)
                    ctx.fault('corrupt-journal-record')
            srcs['j'] = bytes(jbuf)
            argv = ['--usn', 'mft', 'j', 'out']
    else:
        img, off, vol, big, extra = volume(sc, ctx)
        sim = vol.sim
        if mode == 'indx':
            model = model_of(sim, lambda o, n: img[o:o + n])
            if any(c == 'mixed' for c, _ in model.cls.values()) or not all(n in model.v for n in (0, 3, 5)) or model.v[0] is not sim.history[0][-1] or any(k not in model.v for k, _ in vol.layouts[-1][1]):
                return
            img, skip = indx_damage(sc, ctx, vol, big, img, model.cls)
            model = Model(model.cls)
            srcs = {'vol': img}
            argv = ['--indx', 'vol', str(off), 'out']
        else:
            vss = img
            models, snaps = extra
            srcs = {'vol': vss.vol._image()}
            if sc.get('vdmg') is not None:
                # The header or the catalogue of the shadow copies is lost or corrupt (without a header they are off; a lost catalogue must be visible).
                b = srcs['vol'] = srcs['vol'].copy()
                h = off + 7680
                k, x = sc['vdmg']
                if k[:3] == 'ctl':
                    c = struct.unpack('<Q', bytes(b[h + 48:h + 56]))[0]
                    if c == 0:
                        return
                    h = off + c
                if k[-4:] == 'gone':
                    b[h:h + 512] = bytes(512)
                elif k[-4:] == 'guid':
                    b[h + x % 16:h + x % 16 + 1] = bytes([bytes(b[h + x % 16:h + x % 16 + 1])[0] ^ (1 << x % 8)])
                else:
                    b[h + 20:h + 24] = struct.pack('<L', 3 + x % 9)
                ctx.fault('corrupt-vss-header')
            argv = ['--all-mft', 'vol', str(off), 'out']
    files = {}

    def opener(name, faults):
        def f():
            files[name] = SimFile(ctx, srcs[name], faults, name)
            return files[name]
        return f
    plan, fl = {}, []
    target = sorted(srcs)[sc['vol']['seed'] % len(srcs)]
    for f in sc['faults']:
        if f['k'] == 'out':
            plan = {'cap': f['cap'], 'err': f['err']}
        elif f['k'] == 'oshort':
            plan = {'short': f['n']}
        elif f['k'] == 'bad':
            if mode in ('mft', 'usn'):
                lo = int(len(srcs[target]) * f['at']) // 512 * 512
            else:
                lo = off + sim.locate(int(f['at'] * sim.nrec)) - (off if mode == 'indx' else 0)
            fl.append({'k': 'bad', 'lo': lo, 'hi': lo + 512})
        else:
            fl.append(f)
    if any(f['k'] == 'eof' for f in fl):
        target = 'mft'
    vfs = cli.Vfs(ctx, {n: opener(n, fl if n == target else []) for n in srcs}, {'out': plan})
    r = cli.run(ctx, 'ntfs_parser', argv, vfs)
    ctx.check(not ctx.writes, 'evidence-modified', lambda: '%r' % (ctx.writes[:3],))
    fired = sum(f.n_fired for f in files.values())
    out = vfs.written.get('out')
    data = bytes(out.data) if out is not None else b''
    full = None
    if mode == 'all' and sc.get('vdmg') is not None:
        rows = ntfscli.parse(data) or [[]]
        ctx.check(rows[0] == ntfscli.MFT_HEADER, 'row-shape', lambda: 'header %r' % (rows[0],))
        ntfscli.Rows(ctx, models[0][1], sim).check(rows[1:], 'main volume')
        ctx.check(r.error is not None and r.status != 0 or sc['vdmg'][0][:3] != 'ctl' or not vss.live(), 'failure-hidden', 'the shadow copies could not be read and the script ended with status 0')
        ctx.state('all-vdmg', sc['vdmg'][0], len(vss.live()) > 0)
        return
    if fired or (out is not None and out.failed):
        ctx.check(r.status != 0 and r.error is not None, 'failure-hidden', lambda: 'an I/O error occurred and the script ended with status 0 (%d bytes written)' % len(data))
        ctx.check(isinstance(r.error, OSError), 'wrong-failure', lambda: repr(r.error))
        ctx.probe('failed-visibly')
        # What was written is the beginning of the full table.
        vfs2 = cli.Vfs(ctx, {n: opener(n, []) for n in srcs}, {'out': {}})
        r2 = cli.run(ctx, 'ntfs_parser', argv, vfs2)
        full = bytes(vfs2.written['out'].data)
        ctx.check(r2.error is None, 'script-failed', lambda: repr(r2.error))
        ctx.check(full[:len(data)] == data, 'garbled-output', 'the output before the failure is not the beginning of the table')
        outcome = 'failed'
        data = full
    else:
        ctx.check(r.error is None and r.status == 0, 'script-failed', lambda: '%r (status %r)' % (r.error, r.status))
        outcome = 'complete'
        ctx.probe('complete')
    rows = ntfscli.parse(data)
    ctx.check(rows is not None and len(rows) > 0, 'row-shape', 'no rows')
    kindsn = {}
    for x in rows[1:]:
        kindsn[x[0].split(' ')[0]] = kindsn.get(x[0].split(' ')[0], 0) + 1
    if mode == 'mft':
        ctx.check(rows[0] == ntfscli.MFT_HEADER, 'row-shape', lambda: 'header %r' % (rows[0],))
        ntfscli.Rows(ctx, model, sim, skip).check(rows[1:], None)
    elif mode == 'usn':
        ctx.check(rows[0] == ntfscli.USN_HEADER, 'row-shape', lambda: 'header %r' % (rows[0],))
        R = ntfscli.Rows(ctx, model, sim, skip)
        recs = []
        for x in usn.records:
            if x.pos in jbad:       # everything but the corrupt field is as recorded
                y = UsnRec()
                y.__dict__.update(x.__dict__)
                q = x.pos
                if x.ver == 2:
                    y.ref, y.parent = struct.unpack_from('<QQ', jbuf, q + 8)
                    y.time, nl, no = struct.unpack_from('<Q', jbuf, q + 32)[0], *struct.unpack_from('<HH', jbuf, q + 56)
                else:
                    y.ref, y.parent = (int.from_bytes(jbuf[q + o:q + o + 16], 'little') for o in (8, 24))
                    nl, no = struct.unpack_from('<HH', jbuf, q + 72) if x.ver == 3 else (0, 0)
                if x.ver < 4:
                    end = q + struct.unpack_from('<L', jbuf, q)[0]
                    raw = bytes(jbuf[min(q + no, end):min(q + no + nl, end)])
                    y.name = raw.decode('utf-16le', 'replace') if len(raw) == nl else ''
                    if len(raw) != nl:
                        ctx.probe('usn-name-outside')
                x = y
            recs.append(x)
        ctx.check(len(rows) - 1 == len(recs), 'usn-rows', lambda: '%d rows, %d records' % (len(rows) - 1, len(recs)))
        for row, x in zip(rows[1:], recs):
            name = x.name if x.ver < 4 else ''
            ctx.check(row[:5] == [str(x.usn), codes(x.source, SOURCES, 'USN_SOURCE_'), codes(x.reason, REASONS, 'USN_REASON_'), str(x.ref), str(x.parent)] and row[6] == name, 'usn-rows', lambda: '%r' % (row,))
            ctx.check(row[5] == '' if x.ver == 4 else ntfscli.ts_ok(row[5], x.time), 'timestamps', lambda: 'USN %d: %r' % (x.usn, row[5]))
            ok = R.lookup_paths(x.ref)
            if ok is not None:
                ctx.check(row[7] in (ok or ['']), 'usn-path', lambda: 'USN %d: path %r, expected %r' % (x.usn, row[7], ok))
                ctx.probe('usn-row' if ok else 'unresolved-usn')
        kindsn = {'usn': len(rows)}
    elif mode == 'indx':
        ctx.check(rows[0] == ntfscli.INDX_HEADER, 'row-shape', lambda: 'header %r' % (rows[0],))
        check_indx(ctx, rows[1:], model, vol, big, img, skip)
    else:
        ctx.check(rows[0] == ntfscli.MFT_HEADER, 'row-shape', lambda: 'header %r' % (rows[0],))
        live = vss.live()
        todo = list(models)
        parts = []
        for x in rows[1:]:
            tag = x[0].split(' (', 1)[1][:-1] if ' (' in x[0] else ''
            if not parts or parts[-1][0] != tag:
                parts.append((tag, []))
            parts[-1][1].append(x)
        want = {'main volume': models[0][1]}
        for s in live:
            want['shadow copy %d' % s.pos] = snaps[id(s)]
        ctx.check(parts and parts[0][0] == 'main volume' and sorted(t for t, _ in parts) == sorted(want), 'sources', lambda: 'sources %r, expected %r' % ([t for t, _ in parts], sorted(want)))
        for tag, rr in parts:
            ntfscli.Rows(ctx, want[tag], sim).check(rr, tag)
            if tag != 'main volume':
                ctx.probe('shadow-rows')
        kindsn['shadows'] = len(live)
    ctx.nontrivial = any(o[0] in ('delete', 'rename', 'link', 'big', 'snap') for o in sc['ops']) or bool(sc['damage']) or bool(sc['faults'])
    ctx.state(mode, tuple(sorted((k, min(n, 40)) for k, n in kindsn.items())), sc['crash']['mode'], tuple(sorted({d['k'] for d in sc['damage']})), tuple(sorted(kinds)), outcome)
    ctx.sample = {'mode': mode, 'rows': len(rows), 'ops': len(sc['ops']), 'crash': sc['crash']['mode'], 'damage': [d['k'] for d in sc['damage']], 'faults': sc['faults'], 'outcome': outcome}
