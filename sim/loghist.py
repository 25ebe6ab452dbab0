"""Histories for the simulated log file service."""
import struct
from .core import pick, wpick, rng_for, pattern
from .writers import logsim, ntfs
from .writers.logsim import RES_OPS, NONRES_OPS, OPEN_ATTR, OAT_DUMP, AN_DUMP


def gen_scene(rng, tier):
    ver = wpick(rng, [(11, 5), (20, 5), (30, 0.5)])
    inf = rng.randrange(3, 12)
    total = (34 if ver != 11 else 4) + inf
    bits = (total * 4096 - 1).bit_length() - 3
    cfg = {'ver': ver, 'inf': inf, 'seqbits': 64 - bits - rng.randrange(0, 5), 'seq0': pick(rng, [1, 2, 3, 1000, 1 << 20]), 'cluster': pick(rng, [4096, 4096, 512, 65536, 2048]),
           'major': pick(rng, [0, 1, 1, 2]), 'client_seq': pick(rng, [0, 0, 0x10000]), 'stale': rng.random() < 0.5, 'oldest': pick(rng, [0, 0, 3, 10]), 'usn0': pick(rng, [1, 0xFFF0]), 'dax': rng.random() < 0.1, 'hdrlen': pick(rng, [48, 48, 48, 56, 64]), 'data': pick(rng, [64, 64, 64, 72, 80]), 'sig': pick(rng, ['RSTR', 'RSTR', 'RSTR', 'CHKD']), 'slot0': pick(rng, [0, 0, 27, 30, 31]),
           'clr': rng.random() < 0.4, 'tables': rng.random() < 0.6}
    size = pick(rng, ['small', 'mixed', 'mixed', 'big'])
    n = rng.randrange(5, 90 if size != 'big' else 40)
    pf = pick(rng, [0.02, 0.1, 0.3])
    ops = []
    if rng.random() < 0.85:
        ops.append(['ckpt'])
    for _ in range(n):
        k = wpick(rng, [('rec', 10), ('open', 1), ('ckpt', 0.5), ('dump', 0.4), ('oatdump', 0.2), ('andump', 0.2), ('client', 0.06)])
        if k == 'rec':
            m = size if size != 'mixed' else pick(rng, ['small', 'small', 'small', 'big'])
            a = rng.randrange(0, 200) if m == 'small' else rng.randrange(0, 3000)
            if m == 'big' and rng.random() < 0.3:
                a = rng.randrange(3000, min(3 * 4032, (inf - 2) * 4032 - 300) if inf > 3 else 4000)
            if rng.random() < 0.1:
                a = -1           # fill the page exactly
            ops.append(['rec', a, rng.randrange(0, 100), rng.randrange(4), rng.randrange(1 << 30)])
        elif k == 'open':
            ops.append(['open', rng.randrange(6), rng.randrange(1 << 30)])
        else:
            ops.append([k])
        if rng.random() < pf:
            ops.append(['flush'])
        if rng.random() < 0.05:
            ops.append(['bulk'])
    sc = {'cfg': cfg, 'ops': ops, 'crash_at': rng.randrange(2, 10 + len(ops)) if rng.random() < 0.7 else -1,
          'crash': {'mode': pick(rng, ['none', 'lost', 'prefix', 'prefix', 'reorder', 'reorder']), 'seed': rng.randrange(1 << 30)}}
    if sc['crash_at'] < 0 and rng.random() < 0.6:
        sc['ops'].append(['flush'])
    return sc


def oat_entry(ver, ref, code=0xA0, ib=4096, lsn=0):
    if ver == 0:
        b = bytearray(44)
        struct.pack_into('<LLQQ', b, 0, 0xFFFFFFFF, 0, ref, lsn)
        struct.pack_into('<L', b, 28, code)
        struct.pack_into('<L', b, 40, ib)
    else:
        b = bytearray(40)
        struct.pack_into('<LLLLQQ', b, 0, 0xFFFFFFFF, ib, code, 0, ref, lsn)
    return bytes(b)


def build(sc, ctx, on_op=None, refs=()):
    """on_op(sim, op, live): for operations other than those of gen_scene."""
    cfg = dict(sc['cfg'])
    cfg['crash_at'] = sc['crash_at'] if sc['crash_at'] >= 2 else -1
    sim = logsim.LogSim(ctx, cfg)
    live = {}
    t = None
    k = 0
    crashed = False
    try:
        for op in sc['ops']:
            ctx.ev('op', op[0])
            if op[0] == 'rec':
                rng = rng_for('rec', op[4])
                a = op[1]
                undo_len = op[2]
                nl = rng.randrange(0, 4)
                if a == -1:
                    # exactly to the end of the page, or leaving less than a record header
                    room = logsim.PAGE - sim.off - sim.hdr - 32 - 8 * nl
                    a = max(0, room - rng.choice([0, 8, 40, 48]))
                    undo_len = 0
                a = min(a, (cfg['inf'] - 2) * 4032)
                redo = pattern(('redo', op[4], k), a)
                undo = pattern(('undo', op[4], k), undo_len)
                if rng.random() < 0.5:
                    rop, uop = rng.choice(RES_OPS), rng.choice(RES_OPS)
                elif rng.random() < 0.2:
                    rop, uop = rng.choice(NONRES_OPS + (0, 1)), rng.choice(RES_OPS)
                elif rng.random() < 0.9:
                    rop, uop = rng.choice(NONRES_OPS), rng.choice(NONRES_OPS + (0,))
                else:
                    rop, uop = 0x1B, 1
                idx = rng.choice(sorted(live)) if live and rng.random() < 0.8 else 24 + 44 * rng.randrange(8)
                sim.record(redo, undo, rop, uop, target=idx, vcn=rng.randrange(1 << rng.choice([4, 20, 40])), blk=rng.randrange(8), lcns=[rng.randrange(1 << 40) for _ in range(nl)],
                           attr_off=rng.randrange(400), rec_off=rng.randrange(400), tbs=rng.choice([0, 2, 2, 8, 1]), txn=op[3] * 40, same=rng.choice([False] * 8 + [True, (a + 1) // 2]) if a > 0 else False, link=rng.random() < 0.8)
            elif op[0] == 'open':
                idx = 24 + 44 * op[1]
                name = ('$I30', '', '$J', 'st\u044f', '$I30', '', '$J', '$Jx')[op[2] % 8]
                ref = ntfs.ref(op[2] % 100000, op[2] % 65535 + 1)
                if refs and op[2] % 5 < 4:
                    ref = refs[op[2] // 5 % len(refs)]
                live[idx] = (ref, name)
                sim.record(oat_entry(cfg['major'], ref, (0xA0, 0x80, 0xB0)[op[2] % 3], (4096, 0)[op[2] % 2], op[2] * 8), name.encode('utf-16le'), OPEN_ATTR, 0, target=idx, info={'open': (ref, name), 'entry': ((0xA0, 0x80, 0xB0)[op[2] % 3], (4096, 0)[op[2] % 2], op[2] * 8)})
            elif op[0] in ('dump', 'oatdump', 'andump'):
                # The table of opened attributes, then the names of those which have one; other records may be in between.
                if op[0] != 'andump' and live:
                    b = bytearray(max(live) + 44)
                    names = bytearray()
                    t = {}
                    for i in sorted(live):
                        e = oat_entry(cfg['major'], live[i][0])
                        b[i:i + len(e)] = e
                        n = live[i][1].encode('utf-16le')
                        t[i] = live[i] if n else (live[i][0], None)       # attributes without a name are not in the table of names
                        if n:
                            names += struct.pack('<HH', i, len(n)) + n + b'\0\0'
                    sim.record(bytes(b), b'', OAT_DUMP, 0, info={'table': t})
                if op[0] != 'oatdump' and t is not None:
                    sim.record(bytes(names) + bytes(4), b'', AN_DUMP, 0, info={'table': t})
                    t = None
            elif op[0] == 'client':
                sim.new_client()
                live.clear()
                t = None
            elif op[0] == 'ckpt':
                sim.checkpoint()
            elif op[0] == 'flush':
                sim.flush()
            elif op[0] == 'bulk' and sim.v2:
                sim.bulk()
            elif on_op is not None:
                on_op(sim, op, live)
            k += 1
    except logsim.Crash:
        crashed = True
        ctx.probe('crash-in-write')
    if crashed:
        image = sim.crash(sc['crash']['mode'], sc['crash']['seed'])
    else:
        image = sim.crash('none' if sc['crash']['mode'] == 'none' else 'lost', 0)
    return sim, image
