"""Histories for the simulated shadow copy driver, and the shared reading side of C08 and C09."""
import struct
import uuid
from .core import SimFile, Scheduler, Violation, pick, wpick, rng_for
from .writers.vsssim import VssSim, B, content
from .writers.mftsim import same_time
from dfir_ntfs import ShadowCopy

DMG = ['guid', 'type', 'ring', 'ring', 'ring', 'cutchain']


def generate(rng, tier, two):
    big = rng.random() < 0.15
    if big:
        nblocks = rng.randrange(130050, 270000)
        files = sorted({rng.randrange(300, nblocks) for _ in range(rng.randrange(3, 10))} | {130047, 130048} | ({nblocks - 1} if rng.random() < 0.5 else set()))
    else:
        nblocks = rng.randrange(300, 420)
        pool = list(range(1, nblocks))
        rng.shuffle(pool)
        files = sorted(pool[:rng.randrange(4, 26)] + ([nblocks - 1] if rng.random() < 0.5 else []))
        files = sorted(set(files))
    cfg = {'nblocks': nblocks, 'files': files, 'cut': pick(rng, [0, 0, 512, 4096, 8192, 15872]), 'voff': pick(rng, [0, 0, 512, 63 * 512, 1 << 20]), 'after': pick(rng, [0, 0, 16384, 20000]),
           'seed': rng.randrange(1 << 30), 'nctl': pick(rng, [1, 1, 2, 3]), 'fill_ctl': rng.random() < 0.3, 'shuffle_ctl': rng.random() < 0.5, 'refs': rng.random() < 0.1,
           'used_p': pick(rng, [0.4, 0.7, 0.9]), 'nloc': pick(rng, [1, 3, 20, 680]), 'app': rng.random() < 0.7, 'pad': rng.random() < 0.5, 'rest_unused': rng.random() < 0.5,
           'pos0': pick(rng, [1, 1, 7, 0xFFFF]), 'n0': rng.randrange(280, nblocks - 1) if rng.random() < 0.2 else 0}
    if two:
        cfg.update({'soff': pick(rng, [0, 512, 1 << 20]), 'snblocks': rng.randrange(300, 400), 'nctl2': pick(rng, [1, 2]), 'noise': rng.randrange(0, 4)})
    n = len(files)
    ops = []

    def fsop():
        k = wpick(rng, [('w', 8), ('mv', 4), ('free', 2), ('restore', 0.6)] + ([('grow', 0.8)] if cfg['n0'] else []))
        if k == 'w':
            return ['w', rng.randrange(n), rng.randrange(1 << 31), pick(rng, [0, 0, 0, 8, 0x10, 0x20, 0x40, 0x80, 0x18])]
        if k == 'mv':
            return ['mv', rng.randrange(1 << 20), rng.randrange(1 << 20), rng.random() < 0.5, rng.random() < 0.35]
        return [k, rng.randrange(n)]

    def vsop():
        k = wpick(rng, [('snap', 3), ('del', 0.7), ('ovl', 1.5), ('fill', 0.8)])
        if k == 'snap':
            return ['snap', pick(rng, [0x400, 0x400, 0x480, 0x80, 0]), rng.randrange(1 << 30)]
        if k == 'ovl':
            return ['ovl', rng.randrange(8), rng.randrange(n), pick(rng, [rng.randrange(1 << 32), 1, 1 << 31, 0xFFFFFFFF, 0x0000FF00]), rng.randrange(1 << 31)]
        if k == 'fill':
            return ['fill', pick(rng, [1, 5, 300, 505, 506, 507, 508])]
        return ['del']
    for _ in range(rng.randrange(0, 6)):
        ops.append(fsop())
    ops.append(['snap', pick(rng, [0x400, 0x400, 0]), rng.randrange(1 << 30)])
    for _ in range(rng.randrange(3, 45)):
        op = fsop() if rng.random() < 0.75 else vsop()
        if rng.random() < 0.05:
            op = ['crash', op, rng.randrange(0, 4), pick(rng, ['none', 'lost', 'prefix', 'reorder']), rng.randrange(1 << 30)]
        ops.append(op)
    sc = {'cfg': cfg, 'ops': ops, 'vsize': pick(rng, ['none', 'exact', 'exact', 'less']), 'less': rng.random(), 'plan': [rng.randrange(8) for _ in range(60)],
          'par': pick(rng, [1, 2, 3]), 'qseed': rng.randrange(1 << 30), 'faults': [], 'damage': [], 'reselect': rng.random() < 0.2}
    f = wpick(rng, [('none', 6), ('eio', 2), ('bad', 1), ('eof', 1), ('short', 1), ('dmg', 2.5)])
    if f == 'eio':
        sc['faults'] = [{'k': 'eio', 'n': rng.randrange(0, 400)} for _ in range(rng.randrange(1, 4))]
    elif f == 'bad':
        sc['faults'] = [{'k': 'badblock', 'i': rng.randrange(n), 's': rng.randrange(32)}]
    elif f == 'eof':
        sc['faults'] = [{'k': 'eof', 'at': rng.randrange(0, nblocks * B)}]
    elif f == 'short':
        sc['faults'] = [{'k': 'short', 'n': rng.randrange(0, 600), 'keep': rng.randrange(0, 511)} for _ in range(rng.randrange(1, 3))]
    elif f == 'dmg':
        sc['damage'] = [[pick(rng, ['table', 'table', 'bitmap', 'prev', 'loc', 'ctl', 'app']), pick(rng, DMG), rng.randrange(8), rng.randrange(1 << 30)]]
    return sc


def run_ops(sc, ctx, two):
    sim = VssSim(ctx, sc['cfg'], two)
    files = sim.files

    def do(op):
        k = op[0]
        if k == 'w':
            b = files[op[1] % len(files)]
            s = sim.newest()
            if op[2] % 4 == 0 and s is not None and s.fwd:
                b = sorted(s.fwd)[op[1] % len(s.fwd)]
            sim.write(b, content(op[2], b), op[3])
        elif k == 'mv':
            s = sim.newest()
            src = sorted(sim.used)
            if op[4] and s is not None and s.fwd:
                src = sorted(x for x in s.fwd if x in sim.used) or src
            dst = [b for b in files if b not in sim.used and b < sim.nblocks]
            if src and dst:
                sim.move(src[op[1] % len(src)], dst[op[2] % len(dst)], op[3])
        elif k == 'free':
            sim.used.discard(files[op[1] % len(files)])
        elif k == 'restore':
            s = sim.newest()
            c = sorted({o for o, x in s.entries if x == 'reg'}) if s is not None else []
            if c:
                sim.restore(c[op[1] % len(c)])
        elif k == 'grow':
            sim.grow()
        elif k == 'snap':
            if len(sim.live()) < 6:
                r = rng_for('guid', op[2])
                sim.snapshot(op[1], bytes(r.randrange(256) for _ in range(16)), r.randrange(1, 10 ** 12))
        elif k == 'del':
            sim.delete_oldest()
        elif k == 'ovl':
            lv = sim.live()
            if lv:
                sim.overlay(lv[op[1] % len(lv)], files[op[2] % len(files)], op[3], op[4])
        elif k == 'fill':
            sim.filler(op[1])
        elif k == 'crash':
            sim.crash(lambda: do(op[1]), op[2], {'mode': op[3], 'seed': op[4]})
    for op in sc['ops']:
        do(op)
        ctx.ev('op', op[0])
    sim.vol.flush()
    if two:
        sim.sto.flush()
    return sim


def damage(sc, ctx, sim, sto_img, vol_img):
    """Damage one metadata block. Returns (set of snapshots whose selection must fail, set of snapshots not to be compared, control blocks damaged)."""
    must, skip, ctl = set(), set(), False
    for what, kind, i, seed in sc['damage']:
        lv = sim.live()
        if not lv:
            continue
        s = lv[i % len(lv)]
        rng = rng_for('dmg', seed)
        if what == 'ctl':
            chain, img, base = sim.ctl_v, vol_img, sim.voff
        else:
            chain, img, base = s.meta.get(what), sto_img, sim.soff
        if not chain:
            continue
        j = rng.randrange(len(chain))
        p = base + chain[j] * B
        older = set(lv[:lv.index(s) + 1])
        if kind == 'guid':
            img[p + 3:p + 4] = bytes([img[p + 3:p + 4][0] ^ 0xFF])
        elif kind == 'type':
            img[p + 20:p + 24] = struct.pack('<L', rng.choice([0, 1, 7, 9]))
        elif kind == 'ring':
            if what == 'app':
                continue
            last = base + chain[-1] * B
            img[last + 40:last + 48] = struct.pack('<Q', chain[rng.randrange(len(chain))] * B)
            ctx.fault('damage-ring-' + what)
            if what == 'loc':
                s.locs_unsure = True
            continue
        elif kind == 'cutchain':
            img[p + 32:p + 40] = struct.pack('<Q', 0x7777 * B)
            ctx.fault('damage-own-offset')
            if what == 'ctl':
                ctl = True
            skip |= older if what in ('table', 'bitmap', 'prev') else set()
            if what in ('loc', 'app'):
                s.locs_unsure = True
            continue
        ctx.fault('damage-' + kind + '-' + what)
        if what == 'ctl':
            ctl = True
        else:
            must |= older
    return must, skip, ctl


def make_parser(sim, files, vsize, two):
    if two:
        return ShadowCopy.ShadowParserTwoVolumes(files[0], files[1], sim.voff, vsize, sim.soff)
    return ShadowCopy.ShadowParser(files[0], sim.voff, vsize)


def refused(ctx, fn, exc, what):
    try:
        fn()
    except exc as e:
        # "not found" would be taken for the end of the stack
        ctx.check(not isinstance(e, ShadowCopy.ShadowCopyNotFoundException), what, lambda: 'raised %s' % type(e).__name__)
        return
    ctx.check(False, what, 'not refused')


def edges(sc, ctx, sim, two, vsize):
    """Volumes without shadow copies, of another kind, or with a broken catalog are told apart."""
    rng = rng_for('edge', sc['qseed'])
    k = pick(rng, ['none', 'virgin', 'nosb', 'sbfield', 'sig', 'mismatch', 'no3', 'twice', 'tiny', 'badoff', 'unselected'])
    if k == 'none':
        return
    vimg = sim.vol.durable.copy()
    simg = sim.sto.durable.copy() if two else vimg
    # (image, start) of the start block to be changed
    img, at = pick(rng, [(vimg, sim.voff), (simg, sim.soff)])
    files = lambda: [SimFile(ctx, vimg, [], 'vol'), SimFile(ctx, simg, [], 'sto')]
    make = lambda: make_parser(sim, files(), vsize, two)
    lv = sim.live()
    if k == 'virgin':
        vimg[sim.voff + 7680 + 48:sim.voff + 7680 + 56] = bytes(8)
        p = make()
        ctx.check(list(p.shadows()) == [], 'phantom-shadow', 'no control blocks, but a shadow copy is listed')
        for g in [x.pos for x in lv[:1]] + [uuid.UUID(bytes_le=x.guid) for x in lv[:1] if not two] + [1]:
            if not two:
                try:
                    p.select_shadow(g)
                except ShadowCopy.ShadowCopyNotFoundException:
                    continue
                ctx.check(False, 'phantom-shadow', 'no control blocks, but a shadow copy was selected')
    elif k == 'nosb':
        img[at + 7680:at + 7680 + 128] = bytes(128)
        refused(ctx, make, ShadowCopy.ShadowCopiesDisabledException, 'disabled')
    elif k == 'sbfield':
        o = pick(rng, [0, 15, 20, 24, 32, 40])
        img[at + 7680 + o:at + 7680 + o + 1] = bytes([img[at + 7680 + o:at + 7680 + o + 1][0] ^ 0x55])
        refused(ctx, make, ShadowCopy.ShadowCopiesDisabledException, 'disabled')
    elif k == 'sig':
        img[at:at + 512] = pick(rng, [bytes(512), b'\xEB\x58\x90MSDOS5.0'.ljust(512, b'\0'), b'\0\0\0NTFZ'.ljust(512, b'\0'), b'NTFS'.ljust(512, b'\0')])
        refused(ctx, make, ShadowCopy.InvalidVolume, 'unsupported-volume')
    elif k == 'unselected':
        # nothing can be read before a shadow copy is selected
        p = make()
        ops = [lambda: p.read(512), lambda: p.seek(0), lambda: p.tell(), lambda: p.read()]
        for o in ops:
            refused(ctx, o, ValueError, 'nothing-selected')
        if lv:
            s = pick(rng, lv)
            p.select_shadow(s.pos)
            n = s.size if vsize is None else min(s.size, vsize)
            ctx.check(p.tell() == 0 and p.seek(0, 2) == n and p.tell() == n and p.read(10) == b'', 'end', lambda: 'the end of the shadow copy is at %d instead of %d' % (p.seek(0, 2), n))
            for o in (lambda: p.seek(-1), lambda: p.seek(0, 3), lambda: p.seek(-n - 1, 2)):
                refused(ctx, o, ValueError, 'bad-seek')
            ctx.check(p.tell() == n, 'position', lambda: 'a refused seek moved to %d' % p.tell())
    elif k == 'badoff':
        vimg[sim.voff + 7680 + 48:sim.voff + 7680 + 56] = struct.pack('<Q', pick(rng, [1, 512, B - 1, B + 512]))
        refused(ctx, make, ShadowCopy.StartBlockException, 'bad-offset')
    elif k == 'tiny':
        f = SimFile(ctx, bytes(vimg[sim.voff:sim.voff + pick(rng, [3, 512, 7680, 8191])]), [], 'tiny')
        try:
            ShadowCopy.ShadowParserTwoVolumes(f, files()[1], 0, None, sim.soff) if two else ShadowCopy.ShadowParser(f, 0, None)
        except (ShadowCopy.ShadowCopyException, ShadowCopy.InvalidVolume):
            ctx.evaluations += 1
        else:
            ctx.check(False, 'disabled', 'a volume without a start block was accepted')
    elif k == 'mismatch':
        if two:
            p = ShadowCopy.ShadowParser(files()[0], sim.voff, vsize)
            got = sorted((x.stack_position, x.store_guid.bytes_le) for x in p.shadows())
            ctx.check(got == sorted((x.pos, x.guid) for x in lv), 'shadows-list', 'listing without the second volume')
            for x in lv[:1]:
                refused(ctx, lambda: p.select_shadow(x.pos), NotImplementedError, 'wrong-parser')
        else:
            f = files()
            refused(ctx, lambda: ShadowCopy.ShadowParserTwoVolumes(f[0], f[1], sim.voff, vsize, sim.voff), NotImplementedError, 'wrong-parser')
    elif k in ('no3', 'twice') and lv:
        s = pick(rng, lv)
        if k == 'no3':
            p = sim.soff + s.slot3[0] * B + s.slot3[1]
            simg[p:p + 4] = struct.pack('<L', 1)
        elif len(sim.slots_v) > 1 and len(sim.slots_s) > 1:
            # two items of each kind with the same GUID
            a, b = (sim.slots_v[-1], sim.slots_s[-1]) if two else (sim.slots_v[-1], sim.slots_v[-2])
            for im, base, src, dst in ((vimg, sim.voff, s.slot2, a), (simg, sim.soff, s.slot3, b)):
                x = base + src[0] * B + src[1]
                y = base + dst[0] * B + dst[1]
                im[y:y + 0x80] = bytes(im[x:x + 0x80])
        else:
            return
        p = make()
        for g in (uuid.UUID(bytes_le=s.guid), s.pos):
            refused(ctx, lambda: p.select_shadow(g), ShadowCopy.ShadowCopyException, 'ambiguous-shadow')
    ctx.probe('edge-' + k)


def execute(sc, ctx, two):
    sim = run_ops(sc, ctx, two)
    vimg = sim.vol.durable.copy()
    simg = sim.sto.durable.copy() if two else vimg
    must, skip, ctl = damage(sc, ctx, sim, simg, vimg)
    kinds = {f['k'] for f in sc['faults']}
    faults = []
    for f in sc['faults']:
        if f['k'] == 'badblock':
            lo = sim.voff + sim.files[f['i'] % len(sim.files)] * B + f['s'] * 512
            faults.append({'k': 'bad', 'lo': lo, 'hi': lo + 512})
        elif f['k'] == 'eof':
            faults.append({'k': 'eof', 'at': sim.voff + f['at']})
        else:
            faults.append(f)
    vf = SimFile(ctx, vimg, faults, 'vol')
    fl = [vf, SimFile(ctx, simg, [f for f in faults if f['k'] in ('eio', 'short')], 'sto')] if two else [vf]
    if sc['vsize'] == 'none':
        vsize = None
    elif sc['vsize'] == 'exact':
        vsize = sim.size
    else:
        vsize = max(B, int(sim.size * sc['less']) // 512 * 512)
        # the part of the volume cut off held nothing a snapshot still needs
        if vsize % B and sim.cfg.get('n0') or any((d + 1) * B > vsize for s in sim.live() for d in s.targets):
            vsize = sim.size
    lv = sim.live()

    def end_of(s):
        return s.size if vsize is None else min(vsize, s.size)
    exp = {}

    def expect(s, b):
        k = (s.pos, b)
        if k not in exp:
            exp[k] = sim.expected(s, b)
        return exp[k]

    def want(s, pos, n):
        """Expected sectors for [pos, pos+n): list of (offset in result, length, bytes or None)."""
        out = []
        q = pos
        stop = min(pos + n, end_of(s))
        while q < stop:
            b = q // B
            i = q % B // 512
            e = min(stop, b * B + (i + 1) * 512)
            d = expect(s, b)[i] if b in fset else None
            out.append((q - pos, e - q, None if d is None else d[q - b * B - i * 512:e - b * B - i * 512]))
            q = e
        return out

    fset = set(sim.files)
    fired = lambda: any(f.n_fired for f in fl)

    def compare(s, pos, n, got, where):
        end = end_of(s)
        stop = max(0, min(pos + n, end) - pos)
        ctx.check(len(got) <= stop, 'read-past-end', lambda: 'snapshot %d: %d bytes at %d (%s), %d are there (volume size %d)' % (s.pos, len(got), pos, where, stop, end))
        if len(got) < stop:
            ctx.check(kinds & {'short', 'eof'}, 'short-read', lambda: 'snapshot %d: %d of %d bytes at %d (%s)' % (s.pos, len(got), stop, pos, where))
            ctx.probe('short-result')
        for o, ln, d in want(s, pos, n):
            if d is None or o >= len(got):
                continue
            g = got[o:o + ln]
            ctx.check(g == d[:len(g)], 'wrong-data', lambda: 'snapshot %d, block %d sector %d (%s): %r instead of %r, entries %r, flags %#x, unused %r/%r, %d live snapshots'
                      % (s.pos, (pos + o) // B, (pos + o) % B // 512, where, g[:32], d[:32], [x for x in s.entries][:8], s.flags, (pos + o) // B in s.unused, (pos + o) // B in s.eff_unused, len(lv)))

    def reader(s, seed):
        rng = rng_for('q', sc['qseed'], seed)
        p = make_parser(sim, fl, vsize, two)
        yield
        infos = list(p.shadows())
        ctx.check(len(infos) == len(lv), 'shadows-list', lambda: '%d listed, %d live' % (len(infos), len(lv)))
        ctx.check({x.store_guid.bytes_le for x in infos} == {x.guid for x in lv}, 'shadows-list', 'GUIDs')
        for x in infos:
            t = [y for y in lv if y.guid == x.store_guid.bytes_le][0]
            ctx.check(x.stack_position == t.pos and x.volume_size == t.size and same_time(x.timestamp, t.time), 'shadows-list', lambda: 'snapshot %d: %r' % (t.pos, x))
        if s is None:
            for bad in (sim.next_pos + 3, uuid.UUID(int=5)):
                try:
                    p.select_shadow(bad)
                except ShadowCopy.ShadowCopyNotFoundException:
                    ctx.evaluations += 1
                    continue
                ctx.check(False, 'phantom-shadow', 'an unknown shadow copy was selected: %r', bad)
            for t in sim.snaps:
                if t.dead and not ctl:
                    try:
                        p.select_shadow(uuid.UUID(bytes_le=t.guid))
                    except ShadowCopy.ShadowCopyException:
                        ctx.probe('dead-refused')
                        continue
                    ctx.check(False, 'phantom-shadow', 'a deleted shadow copy was selected: %d', t.pos)
            return
        if sc['reselect'] and len(lv) > 1:
            other = pick(rng, [x for x in lv if x is not s])
            try:
                p.select_shadow(other.pos)
            except ShadowCopy.ShadowCopyException:
                ctx.check(other in must or kinds & {'eof', 'short'}, 'selection-failed', 'snapshot %d', other.pos)
            yield
        try:
            p.select_shadow(s.pos if rng.random() < 0.5 else uuid.UUID(bytes_le=s.guid))
        except (ShadowCopy.ShadowCopyException, OSError) as e:
            # whatever was selected before must not be mixed with this one
            ctx.probe('failed-selection')
            try:
                for b in sim.files:
                    if b * B + 512 <= (end_of(other) if sc['reselect'] and len(lv) > 1 else end_of(s)):
                        p.seek(b * B)
                        got = p.read(512)
                        ok = False
                        if sc['reselect'] and len(lv) > 1:
                            d = expect(other, b)[0]
                            ok = d is None or got == d[:len(got)] or other in skip
                        ctx.check(ok, 'mixed-selection', lambda: 'snapshot %d was not selected (%s), but block %d reads as %r' % (s.pos, e, b, got[:32]))
            except (ValueError, OSError):
                pass
            raise e
        end = end_of(s)
        ctx.check(p.tell() == 0, 'tell', 'not at the start after selecting a shadow copy')
        ctx.check(s not in must, 'damage-not-reported', 'snapshot %d was selected although a metadata block it needs is damaged', s.pos)
        yield
        if s in skip:
            ctx.probe('not-compared')
            p.seek(sim.files[0] * B)
            p.read(B)
            return
        sb = p.start_block
        g = [sb.get_max_diff_area_size(), sb.get_application_flags(), sb.get_free_space_precopy_percentage(), sb.get_hot_blocks_precopy_percentage(), sb.get_hot_blocks_days(), sb.get_protection_flags()]
        ctx.check(g == sim.fields and sb.get_volume_guid().bytes_le == sim.vguid and sb.get_storage_guid().bytes_le == sim.sguid, 'start-block', lambda: '%r, expected %r' % (g, sim.fields))
        i2, i3 = p.current_cbi2, p.current_cbi3
        g = ((i3.get_diff_area_block_offset(), i3.get_application_information_block_offset(), i3.get_location_description_block_offset(), i3.get_bitmap_offset(), i3.get_file_reference(),
              i3.get_allocation_size(), i3.get_previous_bitmap_offset(), i3.get_unknown_80()), (i2.get_snapshot_priority(), i2.get_volume_size(), i2.get_stack_position(), i2.get_flags(), i2.get_unknown_56()))
        ctx.check(g == (s.item3, s.item2) and i3.get_store_guid().bytes_le == i2.get_store_guid().bytes_le == s.guid and same_time(i2.get_timestamp(), s.time), 'catalog-item', lambda: '%r, expected %r' % (g, (s.item3, s.item2)))
        if not getattr(s, 'locs_unsure', False):
            ctx.check(p.current_application_information == s.app, 'wrong-application-information', 'snapshot %d', s.pos)
            ctx.check([tuple(x) for x in p.current_location_description_items] == s.locs, 'wrong-location-items', lambda: 'snapshot %d: %d items' % (s.pos, len(p.current_location_description_items)))
        order = list(sim.files)
        rng.shuffle(order)
        for b in order:
            if b * B >= end:
                ctx.check(p.seek(b * B) == b * B, 'seek', 'beyond the end')
                ctx.check(p.read(100) == b'', 'read-past-end', 'data after the end of the volume')
                continue
            k = rng.randrange(6)
            if k == 0:
                delta, n = rng.randrange(-700, B), rng.randrange(0, 3 * B)
            elif k == 1:
                delta, n = rng.randrange(0, B), rng.randrange(0, 600)
            else:
                delta, n = 0, B
            pos = max(0, b * B + delta)
            w = rng.randrange(3)
            if w == 0:
                r = p.seek(pos)
            elif w == 1:
                p.seek(0)
                r = p.seek(pos, 1)
            else:
                r = p.seek(pos - end, 2)
            ctx.check(r == pos and p.tell() == pos, 'seek', lambda: 'seek returned %r instead of %d' % (r, pos))
            if rng.random() < 0.1:
                try:
                    p.seek(-1)
                    ctx.check(False, 'seek', 'a negative position was accepted')
                except ValueError:
                    ctx.check(p.tell() == pos, 'seek', 'the position changed')
            yield
            first = p.read(n)
            compare(s, pos, n, first, 'read(%d)' % n)
            ctx.check(p.tell() == pos + len(first), 'tell', lambda: '%d after reading %d bytes at %d' % (p.tell(), len(first), pos))
            yield
            if rng.random() < 0.3:
                m = rng.randrange(1, 2 * B)
                at = p.tell()
                compare(s, at, m, p.read(m), 'next read(%d)' % m)
        if not two and rng.random() < 0.3:
            b = pick(rng, order)
            if (b + 1) * B <= end:
                p.seek(b * B)
                got = p.read(B, True)
                for i, d in enumerate(expect(s, b)):
                    g = got[i * 512:(i + 1) * 512]
                    if d is None or len(g) < 512:
                        continue
                    if g[:8] == b'ORIGINAL':
                        g = sim.cur[b][i * 512:(i + 1) * 512]
                    elif g[:8] == b'EMPTY   ':
                        g = bytes(512)
                    ctx.check(g == d, 'wrong-data-debug-fill', 'snapshot %d block %d sector %d', s.pos, b, i)
        tailpos = max(0, end - rng.randrange(0, 3 * B))
        p.seek(tailpos)
        compare(s, tailpos, end - tailpos, p.read(), 'read to the end')
        ctx.check(p.read(10) == b'' or kinds & {'short', 'eof'}, 'read-past-end', 'data after the end')

    def task(s, name):
        for attempt in range(6):
            before = sum(f.n_fired for f in fl)
            try:
                for x in reader(s, '%s-%s' % (name, attempt)):
                    yield x
                return
            except OSError:
                ctx.check(sum(f.n_fired for f in fl) > before or two and fired(), 'read-error', 'an I/O error without a fault')
                ctx.probe('io-error')
                if 'badblock' in kinds:
                    return
            except ShadowCopy.ShadowCopyException as e:
                if s in must or ctl or kinds & {'eof'}:
                    ctx.probe('damage-reported')
                    return
                ctx.check('short' in kinds and fired(), 'unexpected-failure', lambda: 'snapshot %s: %s %s' % (s and s.pos, type(e).__name__, e))
            except ShadowCopy.InvalidVolume as e:
                ctx.check(kinds & {'eof', 'short'}, 'unexpected-failure', lambda: '%s' % e)
                return
    targets = lv[-4:] + ([None] if rng_for('none', sc['qseed']).random() < 0.3 else [])
    par = sc['par']
    if ctl and any(d[1] == 'cutchain' for d in sc['damage']):
        # the catalog ends early: nothing is promised but termination
        try:
            p = make_parser(sim, fl, vsize, two)
            for x in list(p.shadows()):
                try:
                    p.select_shadow(x.store_guid)
                except ShadowCopy.ShadowCopyException:
                    pass
        except ShadowCopy.ShadowCopyException:
            pass
    else:
        for i in range(0, len(targets), par):
            grp = targets[i:i + par]
            Scheduler(ctx, sc['plan'][i:]).run({'s%d' % j: task(t, 's%d' % (i + j)) for j, t in enumerate(grp)})
            if len(grp) > 1:
                ctx.probe('interleaved')
    if not sc['damage']:
        edges(sc, ctx, sim, two, vsize)
    ctx.check_no_writes()
    if lv and sum(len(s.entries) for s in lv):
        ctx.nontrivial = True
    for s in lv:
        for o, k in s.entries:
            ctx.probe('entry-' + k)
    if len(lv) > 1:
        ctx.probe('stacked')
    if sc['cfg']['cut']:
        ctx.probe('unaligned-volume-size')
    ctx.state(len(lv), tuple(sorted({(k, o in s.eff_unused) for s in lv for o, k in s.entries})), tuple(sorted(kinds)), tuple(d[:2] for d in sc['damage']), sc['vsize'], len(sim.snaps) - len(lv), par)
    ctx.sample = {'ops': sc['ops'][:6], 'damage': sc['damage'], 'faults': sc['faults']}
