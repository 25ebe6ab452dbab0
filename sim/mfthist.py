"""Histories of file system operations on a simulated $MFT (shared by several properties)."""
import struct
import uuid
from .core import SimDisk, SimClock, pick, wpick, rng_for
from .writers import ntfs
from .writers.mftsim import MftSim, Node, res, nonres

NAMES = ['a', 'b', 'README', 'report.txt', 'New Folder', 'x' * 40, 'data.bin', 'Кириллица', 'naïve.TXT', 'long file name with spaces.docx',
         'tmp', 'TMP2', '日本語ファイル', 'z\u0100\u3000q\uac00', 'emoji-\U0001F600.md', 'back\\slash', 'z' * 120, 'A.b.C', 'setup.exe', 'f00', 'f01', 'f02', 'f03',
         'f04', 'f05', 'f06', 'f07', 'q' * 200, "quote'n\"x", '$Data', 'last', 'comma, name', 'line\nbreak', 'cr\rhere', 'half\ud83dpair']
ADS = ['Zone.Identifier', 'stream', 'ads-Ω', 's' * 60, 'tail ', 'nul\0', ' ', '\0']


def gen_history(rng, n, clock_faults=True, flush_p=0.25):
    ops = []
    bias = wpick(rng, [('mix', 3), ('churn', 2), ('dirs', 1), ('big', 1.2), ('links', 1)])
    w = {'create': 6, 'delete': 2.5, 'rename': 2, 'link': 1, 'setdata': 2, 'ads': 0.8, 'objid': 0.5, 'ea': 0.2, 'touch': 1, 'tick': 1, 'stray': 0.3, 'fill': 0.5, 'flags': 0.3}
    if bias == 'churn':
        w.update(delete=5, create=6)
    elif bias == 'big':
        w.update(setdata=5, ads=3, link=2)
    elif bias == 'links':
        w.update(link=6, rename=4)
    items = list(w.items())
    for _ in range(n):
        k = wpick(rng, items)
        nm = rng.randrange(len(NAMES))
        if k == 'create':
            ops.append(['create', rng.randrange(64), nm, 1 if rng.random() < (0.7 if bias == 'dirs' else 0.35) else 0, rng.randrange(1, 4) if rng.random() < 0.3 else 0,
                        wpick(rng, [(0, 2), (rng.randrange(1, 200), 3), (rng.randrange(200, 600), 1)])])
        elif k in ('rename', 'link'):
            ops.append([k, rng.randrange(64), rng.randrange(64), nm, rng.randrange(4)])
        elif k == 'setdata':
            if rng.random() < 0.4:
                ops.append([k, rng.randrange(64), 'R', rng.randrange(0, 700)])
            else:
                nr = wpick(rng, [(1, 3), (4, 2), (14, 1), (40, 0.7), (90, 0.3)])
                ops.append([k, rng.randrange(64), 'N', nr, rng.randrange(1 << 30)])
        elif k == 'ads':
            ops.append([k, rng.randrange(64), rng.randrange(len(ADS)), rng.randrange(0, 300)] + ([wpick(rng, [(1, 3), (4, 2), (14, 2), (40, 1)]), rng.randrange(1 << 30)] if rng.random() < 0.4 else []))
        elif k == 'stray':
            ops.append([k, rng.randrange(64), rng.randrange(8), rng.randrange(4)])
        elif k == 'fill':
            ops.append([k, rng.randrange(64), wpick(rng, [(0, 2), (rng.randrange(1, 8), 1), (8, 1), (rng.randrange(9, 40), 1)])])
        elif k == 'flags':
            ops.append([k, rng.randrange(64), pick(rng, [0, 4, 8, 12])])
        elif k in ('objid', 'ea'):
            ops.append([k, rng.randrange(64), rng.randrange(1 << 30)])
        elif k == 'tick':
            ops.append(['tick', rng.randrange(1, 36000000000)])
        else:
            ops.append([k, rng.randrange(64)])
        if rng.random() < flush_p:
            ops.append(['flush'])
        if clock_faults and rng.random() < 0.02:
            ops.append(['jump', wpick(rng, [(0, 1), (rng.randrange(1, 1 << 40), 1), (rng.randrange(125000000000000000, 145000000000000000), 3),
                                            ((1 << 63) - 200, 0.7)])])
    return ops


def gen_scene(rng, n_ops=None):
    nrec = wpick(rng, [(24, 2), (40, 3), (70, 1)])
    fmt_seq = {}
    if rng.random() < 0.35:
        for i in range(16, nrec):
            if rng.random() < 0.4:
                fmt_seq[str(i)] = pick(rng, [0xFFFD, 0xFFFE, 0xFFFF, 0, 2, 9])
    n = n_ops or wpick(rng, [(6, 2), (15, 3), (35, 2), (70, 0.7)])
    ops = gen_history(rng, n)
    if rng.random() < 0.06:
        # Large files come and go when most sequence numbers are about to wrap.
        fmt_seq = {str(i): 0xFFFF for i in range(16, nrec) if rng.random() < 0.8}
        for _ in range(rng.randrange(1, 4)):
            i = rng.randrange(64)
            ops.append(['setdata', i, 'N', 90, rng.randrange(1 << 30)])
            if rng.random() < 0.6:
                ops.append(['delete', i])
    return {'nrec': nrec, 'size': wpick(rng, [(1024, 3), (4096, 1)]), 'short': 1 if rng.random() < 0.15 else 0, 'extra': rng.randrange(3),
            'cluster': pick(rng, [512, 1024, 4096]), 'never_used': 0 if rng.random() < 0.2 else 1, 'fmt_seq': fmt_seq, 'lsn0': wpick(rng, [(0x100000, 3), (rng.randrange(1 << 40, 1 << 62), 1), (rng.randrange(1 << 63, (1 << 64) - (1 << 20)), 1)]),
            'ops': ops, 'crash': {'mode': wpick(rng, [('none', 3), ('prefix', 3), ('reorder', 3), ('lost', 1)]), 'seed': rng.randrange(1 << 30)}}


def apply_op(sim, op, clock):
    k = op[0]
    users = sim.user_nodes()
    dirs = sim.dirs()

    def dsel(x):
        return dirs[x % len(dirs)]

    def usel(x):
        return users[x % len(users)] if users else None

    if k == 'create':
        nm = NAMES[op[2] % len(NAMES)]
        short = ('%s~%d' % (''.join(ch for ch in nm.upper() if ch.isascii() and ch.isalnum())[:6] or 'F', 1 + op[2] % 9)) if op[4] else None
        return sim.op_create(dsel(op[1]), nm, bool(op[3]), short, min(op[5], sim.size - 700 if sim.size > 1024 else 420), order=op[4] or 1)
    if k == 'flush':
        sim.disk.flush()
        return
    if k == 'tick':
        clock.advance(op[1])
        return
    if k == 'jump':
        clock.jump(op[1])
        return
    if k == 'index':
        # The directory's index is rewritten: a small one in the record itself.
        d = dsel(op[1])
        ents, left = [], sim.size // 3
        for m in sorted(sim.nodes.values(), key=lambda m: m.num):
            for l in m.links:
                if l['parent'] == (d.num, d.seq) and m is not d:
                    fn = ntfs.fn_value(ntfs.ref(*l['parent']), *l['times'], (l['size'] + 7) & ~7, l['size'], l['attrs'], l['name'], l['ns'])
                    e = ntfs.index_entry(m.ref(), fn)
                    if len(e) <= left:
                        left -= len(e)
                        ents.append((m.ref(), fn, e))
        if op[2] % 3 == 0:
            ents = ents[:op[2] % 5]
        a = res(ntfs.T_IROOT, ntfs.index_root_value([e for _, _, e in ents] + [ntfs.index_end()]), '$I30')
        old = d.index
        d.index = [a]
        if op[2] % 4 == 1:
            # An index of something else beside it.
            e = struct.pack('<HHLHHHHLL', 24, 16, 0, 40, 4, 0, 0, 0x100, 0) + bytes(16)
            d.index.insert(op[2] % 8 // 4, res(ntfs.T_IROOT, ntfs.index_root_value([e, ntfs.index_end()], code=0), '$A' if op[2] % 8 < 4 else '$SII'))
            sim.ctx.probe('two-indexes')
        if not sim.flush_node(d):
            d.index = old
            return
        if not hasattr(sim, 'index_of'):
            sim.index_of = {}
        sim.index_of[bytes(a.value)] = [(r, f) for r, f, _ in ents]
        return
    n = usel(op[1])
    if n is None:
        return
    if k == 'stray':
        # A leftover child record of another incarnation of the file (or of a file with another number).
        if len(sim.free) < 3:
            return
        num = sim.free.pop(-1)
        seq = [n.seq ^ 0x8000, n.seq ^ 0x100, n.seq ^ 1, (n.seq + 1) & 0xFFFF, (n.seq - 1) & 0xFFFF, n.seq ^ 0x80, 0, n.seq][op[2]]
        bnum = n.num if op[2] != 7 else n.num ^ (1 << 32 if op[3] & 1 else 1 << 16)
        sim.put(num, max(1, sim.seq.get(num, 1)), 1 if op[3] < 3 else 0, ntfs.ref(bnum, seq), [res(0x80, b'stray' * 9, 'stray')])
        sim.ctx.probe('stray-child')
        return
    clock.advance(1234567)
    if k == 'delete':
        return sim.op_delete(n)
    if k == 'rename':
        return sim.op_rename(n, dsel(op[2]), NAMES[op[3] % len(NAMES)], op[4])
    if k == 'link':
        return sim.op_hardlink(n, dsel(op[2]), NAMES[op[3] % len(NAMES)])
    if k == 'touch':
        def f(n):
            t = clock.now()
            n.times = [n.times[0], t, t + 1, t + 2]
            n.usn += 64
        return sim.op_update(n, f)
    if k == 'objid':
        g = uuid.UUID(fields=(op[2], 0x1234, 0x11ee, 0x80, 0x11, op[2] * 7 % (1 << 48)))
        return sim.op_update(n, lambda n: setattr(n, 'objid', g.bytes_le))
    if k == 'ea':
        x = op[2]
        secs = [1400000000 + x % 1000, 1500000000, 1600000000]
        if x % 7 == 0:
            secs[x % 3] = [1 << 63, (1 << 64) - 1, 1 << 40, 0][x // 7 % 4]
        v = struct.pack('<HHLLLLLLLQQQ', 0, 1 if x % 9 else 2, 0o100644, 1000, 1000, 0, x % 999999999, 1000, 2000, *secs)
        items = [(b'LXATTRB', 0, v)]
        if x % 5 == 0:
            items.insert(0, (b'$KERNEL.PURGE', 0x80, b'p' * (x % 40)))
        elif x % 5 == 1:
            items.append((b'LXXATTR', 0, bytes(x % 20)))
        if x % 11 == 0:
            # Something that looks like it, and one that does not decode, before it.
            items.insert(len(items) if x % 3 else 0, (b'LXATTRC', 0, v[:32] + struct.pack('<QQQ', 1, 2, 3)))
            items.insert(0, (b'LXATTRB', 0, struct.pack('<HH', 0, 9) + v[4:] if x % 2 else v[:-1]))
        return sim.op_update(n, lambda n: setattr(n, 'ea', ntfs.ea_value(items)))
    if k == 'twin':
        # Attributes of a type that a file has once (a damaged or a foreign file system): the first one counts.
        x = op[2]
        t = clock.now()
        tw = []
        if x & 1:
            tw.append(res(ntfs.T_SI, ntfs.si_value(t - 5, t - 6, t - 7, t - 8, 0x21, x), inst=40))
        if x & 2:
            tw.append(res(ntfs.T_OBJID, uuid.UUID(fields=(x, 0x4321, 0x11ed, 0x80, 0x12, x * 5 % (1 << 48))).bytes_le))
        if x & 4:
            tw.append(res(ntfs.T_EA, ntfs.ea_value([(b'LXATTRB', 0, struct.pack('<HHLLLLLLLQQQ', 0, 1, 0o100600, 7, 7, 0, 5, 6000, 7000, 1300000000, 1300000001, 1300000002))])))
        if x & 8:
            tw.append(nonres(ntfs.T_DATA, [(x % 9999 + 1, 3)], 2 * sim.cluster + x % sim.cluster, sim.cluster, extra=sim.extra))
        n.si_len = 48 if x & 16 else 72
        sim.ctx.probe('twin-attribute')
        return sim.op_update(n, lambda n: setattr(n, 'twins', tw))
    if k == 'noname':
        # A record whose names were lost.
        old, n.nameless = n.nameless, not n.nameless
        if not sim.flush_node(n):
            n.nameless = old
        elif n.nameless:
            sim.ctx.probe('nameless')
        return
    if k == 'flags':
        n.xflags = op[2]
        return sim.flush_node(n)
    if n.is_dir:
        return
    if k == 'fill':
        return sim.op_fill(n, op[2])
    if k == 'setdata':
        if op[2] == 'R':
            sz = min(op[3], 700)
            return sim.op_update(n, lambda n: setattr(n, 'data', ('R', b'e' * sz)))
        rng = rng_for('runs', op[4])
        runs = []
        for _ in range(op[3]):
            runs.append((None if rng.random() < 0.15 else rng.randrange(1, 1 << 20), rng.randrange(1, 300)))
        total = sum(r[1] for r in runs) * sim.cluster
        size = total - rng.randrange(0, sim.cluster)
        return sim.op_update(n, lambda n: setattr(n, 'data', ('N', runs, size)))
    if k == 'ads':
        nm = ADS[op[2]]
        d = ('R', b's' * op[3])
        if len(op) > 4:
            rng = rng_for('runs', op[5])
            runs = [(None if rng.random() < 0.15 else rng.randrange(1, 1 << 20), rng.randrange(1, 300)) for _ in range(op[4])]
            d = ('N', runs, sum(r[1] for r in runs) * sim.cluster - rng.randrange(0, sim.cluster))

        def f(n):
            n.ads = [x for x in n.ads if x[0] != nm] + [(nm, d)]
            if d[0] == 'N':
                sim.ctx.probe('ads-nonresident')
        return sim.op_update(n, f)


def build(sc, ctx, locate=None, disk=None, mft_runs=None, on_op=None):
    """Format a volume, run the history, crash. Returns (sim, durable image of the disk)."""
    if disk is None:
        disk = SimDisk(ctx, sc['nrec'] * sc['size'])
    clock = SimClock(ctx)
    sim = MftSim(ctx, disk, clock, sc['nrec'], sc['size'], sc['cluster'], locate=locate, short=bool(sc['short']), extra=sc['extra'],
                 fmt_seq={int(k): v for k, v in sc['fmt_seq'].items()}, lsn0=sc.get('lsn0', 0x100000))
    sim.version = tuple(sc.get('ver', (3, 1)))
    sim.format(mft_runs=mft_runs, never_used=bool(sc['never_used']))
    for op in sc['ops']:
        ctx.ev('op', op)
        ctx.step()
        apply_op(sim, op, clock)
        if on_op is not None:
            on_op(sim, op)
    image = disk.crash(sc['crash']['mode'], sc['crash']['seed'])
    return sim, image
