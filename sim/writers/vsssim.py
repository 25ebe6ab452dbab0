"""Simulated volume shadow copy driver: a volume of 16 KB blocks, snapshots, copy-on-write into the newest store, block moves
(forwarders), writes to a snapshot itself (overlays), control blocks, chained tables and bitmaps; every store update is ordered by
barriers on a write-back disk, so that a crash at any point keeps every snapshot readable.

The store lives on the same volume, or on a second one (two=True)."""
import struct
from ..core import SparseDisk, HarnessError, rng_for

B = 0x4000
GUID = b'\x6B\x87\x08\x38\x76\xC1\x48\x4E\xB7\xAE\x04\x04\x6E\x6C\xC7\x52'
PER_BITMAP = (B - 0x80) * 8
PER_TABLE = (B - 0x80) // 32
PER_LOC = (B - 0x80) // 24
PER_CTL = (B - 0x80) // 0x80


def head(typ, off1, own, nxt):
    return (GUID + struct.pack('<LLQQQ', 1, typ, off1, own, nxt)).ljust(0x80, b'\0')


def content(tag, blk):
    """16 KB whose every 16 bytes name the write and the sector they belong to."""
    return b''.join((b'%08x%05x%03x' % (tag & 0xffffffff, blk & 0xfffff, i)) * 32 for i in range(32))


class PowerCut(Exception):
    pass


class Snapshot(object):
    def __init__(self):
        self.overlays = {}  # block -> {sector: bytes}
        self.saved = set()  # blocks recorded (copied or forwarded)
        self.fwd = {}       # live forward target -> origin
        self.entries = []   # (resolved original block, kind) for the oracle: kind in 'reg', 'fwd', 'ovl'
        self.dead = False
        self.targets = set()


class VssSim(object):
    def __init__(self, ctx, cfg, two=False):
        self.ctx = ctx
        self.two = two
        self.cfg = cfg
        self.maxblocks = cfg['nblocks']
        self.maxsize = self.maxblocks * B - cfg['cut']
        # A volume extended later starts with fewer blocks.
        self.nblocks = cfg.get('n0') or self.maxblocks
        self.size = min(self.nblocks * B, self.maxsize)
        self.voff = cfg['voff']
        rng = rng_for('vss', cfg['seed'])
        self.vol = SparseDisk(ctx, self.voff + self.maxblocks * B + cfg['after'])
        self.files = cfg['files']          # blocks the file system ever uses
        if two:
            self.soff = cfg['soff']
            self.sto = SparseDisk(ctx, self.soff + cfg['snblocks'] * B)
            lo, hi = 1, cfg['snblocks']
        else:
            self.soff = self.voff
            self.sto = self.vol
            lo, hi = 1, self.nblocks - (1 if cfg['cut'] else 0)
        taken = set() if two else set(self.files)
        # blocks of the diff areas, in the order they are handed out
        pool = [b for b in range(lo, min(hi, lo + 260)) if b not in taken]
        if hi > 3000:
            for _ in range(200):
                b = rng.randrange(lo, hi)
                if b not in taken:
                    pool.append(b)
        pool = list(dict.fromkeys(pool))
        rng.shuffle(pool)
        self.pool = pool
        self.store_blocks = set(pool) if not two else set()
        self.vguid = bytes(rng.randrange(256) for _ in range(16))
        self.sguid = bytes(rng.randrange(256) for _ in range(16)) if two else self.vguid
        self.snaps = []
        self.next_pos = cfg.get('pos0', 1)
        self.clock = 131000000000000000
        self.cur = {}
        self.used = set()
        self.countdown = None
        self.fill_ctl = cfg['fill_ctl']
        self._format(rng)

    # -- disk helpers
    def wv(self, blk, data, at=0):
        self.vol.write(self.voff + blk * B + at, data)

    def ws(self, blk, data, at=0):
        self.sto.write(self.soff + blk * B + at, data)

    def barrier(self):
        """End of a phase: everything written so far is durable, unless the power fails in this phase."""
        if self.countdown is not None:
            if self.countdown == 0:
                raise PowerCut()
            self.countdown -= 1
        self.vol.flush()
        if self.two:
            self.sto.flush()

    def alloc(self):
        if not self.pool:
            return None
        return self.pool.pop()

    def _format(self, rng):
        cfg = self.cfg
        first = bytearray(8192)
        first[0:7] = b'\xEB\x52\x90' + (b'ReFS' if cfg['refs'] else b'NTFS')
        nctl = cfg['nctl']
        if self.two:
            # the control blocks of the volume itself lie outside of the blocks the file system uses
            free = [b for b in range(1, min(self.nblocks - 1, 400)) if b not in set(self.files)]
            rng.shuffle(free)
            self.ctl_v = [free.pop() for _ in range(nctl)]
            self.vol_meta = set(self.ctl_v)
        else:
            self.ctl_v = [self.alloc() for _ in range(nctl)]
            self.vol_meta = set()
        self.fields = [1 << 40 | rng.randrange(1 << 40), rng.randrange(1 << 64), rng.randrange(1 << 64), rng.randrange(1 << 64), rng.randrange(1 << 32), rng.randrange(1 << 32)]
        sb = GUID + struct.pack('<LLQQQ', 1, 1, 7680, 7680, 0) + struct.pack('<QQ', self.ctl_v[0] * B, self.fields[0]) + self.vguid + self.sguid + struct.pack('<QQQLL', *self.fields[1:])
        first[7680:7680 + len(sb)] = sb
        self.wv(0, bytes(first))
        if self.voff:
            self.vol.write(0, b'\x5A' * min(self.voff, 512))
        if self.cfg['after'] or self.cfg['cut']:
            self.vol.write(self.voff + self.maxsize, b'\xA5' * (len(self.vol) - self.voff - self.maxsize))
        self.slots_v = self._ctl(self.ctl_v, self.wv, rng)
        if self.two:
            self.ctl_s = [self.alloc() for _ in range(cfg['nctl2'])]
            sfirst = bytearray(8192)
            sfirst[0:7] = b'\xEB\x52\x90NTFS'
            sb = GUID + struct.pack('<LLQQQ', 1, 1, 7680, 7680, 0) + struct.pack('<QQ', self.ctl_s[0] * B, 1 << 40) + self.sguid + self.sguid
            sfirst[7680:7680 + len(sb)] = sb
            self.ws(0, bytes(sfirst))
            self.slots_s = self._ctl(self.ctl_s, self.ws, rng)
            # diff areas of other volumes kept on the same storage volume
            for _ in range(cfg['noise']):
                if len(self.slots_s) > 4:
                    blk, at = self.slots_s.pop()
                    self.ws(blk, struct.pack('<LLQ', 3, 0, rng.randrange(1, 50) * B) + bytes(rng.randrange(256) for _ in range(16)) + bytes(96), at)
        else:
            self.slots_s = self.slots_v
        for b in self.files:
            self.cur[b] = content(b, b)
            self._volwrite(b, self.cur[b])
            if rng.random() < cfg['used_p'] and b < self.nblocks:
                self.used.add(b)
        self.vol.flush()
        if self.two:
            self.sto.flush()

    def _ctl(self, blocks, w, rng):
        """Write empty control blocks; returns the free item slots in the order they are used."""
        slots = []
        for i, blk in enumerate(blocks):
            nxt = blocks[i + 1] * B if i + 1 < len(blocks) else 0
            data = bytearray(head(2, i * B, blk * B, nxt).ljust(B, b'\0'))
            n = PER_CTL if self.fill_ctl else rng.randrange(14, 60)
            for j in range(n):
                struct.pack_into('<L', data, 0x80 + j * 0x80, 1)
                slots.append((blk, 0x80 + j * 0x80))
            w(blk, bytes(data))
        if self.cfg['shuffle_ctl']:
            rng.shuffle(slots)
        else:
            slots.reverse()
        return slots

    def _volwrite(self, b, data):
        end = min((b + 1) * B, self.maxsize) - b * B
        self.wv(b, data[:end])

    # -- views
    def newest(self):
        for s in reversed(self.snaps):
            if not s.dead:
                return s
        return None

    def live(self):
        return [s for s in self.snaps if not s.dead]

    def readback(self):
        for b in self.files:
            end = min((b + 1) * B, self.maxsize) - b * B
            self.cur[b] = bytes(self.vol.cache[self.voff + b * B:self.voff + b * B + end]).ljust(B, b'\0')

    # -- diff area tables
    def _entry(self, s, orig, in_store, data_off, flags, mask, apply):
        """Append a table entry to store s: one atomic sector write, made durable before anything depends on it."""
        if s.n >= PER_TABLE:
            blk = self.alloc()
            if blk is None:
                return False
            self.ws(blk, head(3, len(s.tables) * B, blk * B, 0).ljust(B, b'\0'))
            self.barrier()
            last = s.tables[-1]
            try:
                self.ws(last, struct.pack('<Q', blk * B), 40)
                self.barrier()
            except PowerCut:
                self.after_cut()
                if struct.unpack('<Q', self.sto.durable[self.soff + last * B + 40:self.soff + last * B + 48])[0] == blk * B:
                    s.tables.append(blk)
                    s.n = 0
                raise
            s.tables.append(blk)
            s.n = 0
            self.ctx.probe('table-chained')
        e = struct.pack('<QQQLL', orig, in_store, data_off, flags, mask)
        at = 0x80 + s.n * 32
        tb = s.tables[-1]
        try:
            self.ws(tb, e, at)
            self.barrier()
        except PowerCut:
            self.after_cut()
            p = self.soff + tb * B + at
            if self.sto.durable[p:p + 32] == e:
                s.n += 1
                apply()
            raise
        s.n += 1
        apply()
        return True

    def after_cut(self):
        """The power failed in the current phase."""
        if self.countdown is None:
            return
        self.countdown = None
        c = self.crashspec
        self.vol.crash(c['mode'], c['seed'])
        if self.two:
            self.sto.crash(c['mode'], c['seed'] + 1)

    # -- operations
    def write(self, b, data, flags=0):
        """The file system writes block b."""
        s = self.newest()
        end = min((b + 1) * B, self.maxsize) - b * B
        data = data[:end].ljust(B, b'\0')
        if s is not None and b < s.nblocks and (b in s.fwd or (b not in s.eff_unused and b not in s.saved)):
            blk = self.alloc()
            if blk is None:
                return False
            self.ws(blk, self.cur[b])
            self.barrier()
            if b in s.fwd:
                def apply():
                    o = s.fwd.pop(b)
                    s.entries.append((o, 'reg'))
                    self.ctx.probe('cow-of-forward-target')
            else:
                def apply():
                    s.saved.add(b)
                    s.entries.append((b, 'reg'))
            if not self._entry(s, b * B, s.alloc_off(), blk * B, flags, 0, apply):
                return False
            self.ctx.probe('cow')
        self._volwrite(b, data)
        self.barrier()
        self.cur[b] = data
        self.used.add(b)
        return True

    def move(self, a, d, wide):
        """The file system moves block a to d (defragmentation)."""
        s = self.newest()
        if a == d or a not in self.used or d in self.used or (self.cfg['cut'] and self.maxblocks - 1 in (a, d)):
            return False
        if s is None or a >= s.nblocks or d >= s.nblocks or not (d in s.eff_unused or d in s.saved) or d in s.fwd or d == s.fwd.get(a) or not (a in s.fwd or (a not in s.eff_unused and a not in s.saved)):
            if not self.write(d, self.cur[a]):
                return False
            self.used.discard(a)
            return True
        self._volwrite(d, self.cur[a])
        self.barrier()
        self.cur[d] = self.cur[a]
        self.used.add(d)

        def apply():
            if a in s.fwd:
                o = s.fwd.pop(a)
                self.ctx.probe('move-chained')
            else:
                o = a
                s.saved.add(a)
            s.fwd[d] = o
            s.targets.add(d)
            s.entries.append((o, 'fwd'))
        if not self._entry(s, a * B, d * B, d * B if wide else 0, 1, 0, apply):
            return False
        self.used.discard(a)
        self.ctx.probe('move')
        return True

    def restore(self, b):
        """The copy of a block is kept elsewhere from now on: an entry forwarding the block to itself replaces the regular one."""
        s = self.newest()
        if s is None or b >= s.nblocks or b not in s.saved or (b, 'reg') not in s.entries or b in s.fwd or b in s.fwd.values():
            return False
        blk = self.alloc()
        if blk is None:
            return False
        self.ws(blk, s.frozen[b])
        self.barrier()

        def apply():
            s.entries.append((b, 'self'))
            self.ctx.probe('copy-replaced')
        return self._entry(s, b * B, b * B, blk * B, 1, 0, apply)

    def grow(self):
        """The volume is extended."""
        if self.nblocks < self.maxblocks:
            self.nblocks, self.size = self.maxblocks, self.maxsize
            self.ctx.probe('extended')

    def filler(self, n):
        """Entries to be ignored."""
        s = self.newest()
        if s is None:
            return
        for i in range(min(n, PER_TABLE - s.n)):
            e = struct.pack('<QQQLL', (i % max(1, self.nblocks)) * B, 0, (i + 1) * B, 4 | (i & 0xf8), 0)
            self.ws(s.tables[-1], e, 0x80 + s.n * 32)
            s.n += 1
        self.barrier_nocut()
        self.ctx.probe('ignored-entries')

    def barrier_nocut(self):
        self.vol.flush()
        if self.two:
            self.sto.flush()

    def overlay(self, s, b, mask, tag):
        """Somebody writes to the snapshot itself."""
        if b >= s.nblocks:
            return
        blk = self.alloc()
        if blk is None:
            return
        data = content(tag, b)
        junk = content(tag ^ 0x55555555, b)
        raw = b''.join((data if mask >> i & 1 else junk)[i * 512:(i + 1) * 512] for i in range(32))
        self.ws(blk, raw)
        self.barrier()

        def apply():
            o = s.overlays.setdefault(b, {})
            for i in range(32):
                if mask >> i & 1:
                    o[i] = data[i * 512:(i + 1) * 512]
            s.entries.append((b, 'ovl'))
        self._entry(s, b * B, s.alloc_off(), blk * B, 2, mask, apply)
        self.ctx.probe('overlay')

    def snapshot(self, flags, guid, tick):
        """Create a snapshot of the current state."""
        need = 6
        if len(self.pool) < need + 40 or len(self.slots_v) < 3 or len(self.slots_s) < 3:
            return None
        prev = self.newest()
        s = Snapshot()
        s.pos = self.next_pos
        self.clock += tick
        self.ctx.sim_time += tick
        s.time = self.clock
        s.guid = guid
        s.flags = flags
        s.size = self.size
        s.nblocks = self.nblocks
        s.frozen = {b: self.cur[b] for b in self.files}
        s.unused = self._unused()
        s.prev_unused = None
        if prev is not None:
            s.prev_unused = {b for b in prev.eff_unused if b < prev.nblocks and b not in prev.fwd} | {b for b in self.files if b >= prev.nblocks}
        s.eff_unused = s.unused & s.prev_unused if s.prev_unused is not None else set(s.unused)
        s.used_then = set(self.used)
        cnt = [0]

        def alloc_off():
            cnt[0] += 1
            return cnt[0] * B
        s.alloc_off = alloc_off
        s.tables = [self.alloc()]
        s.n = 0
        self.ws(s.tables[0], head(3, 0, s.tables[0] * B, 0).ljust(B, b'\0'))
        s.meta = {'table': s.tables}
        bm = self._bitmap(s, 'bitmap', s.unused)
        pb = self._bitmap(s, 'prev', s.prev_unused) if s.prev_unused is not None else 0
        s.locs = [((i * 7 + s.pos + 1) * B, i * B, B * (1 + i % 3)) for i in range(self.cfg['nloc'])]
        loc = self._locs(s, s.locs)
        s.app = b''
        ai = 0
        if self.cfg['app']:
            ai = self.alloc()
            s.app = content(s.pos, 77)[:B - 0x80]
            self.ws(ai, head(4, 0, ai * B, 0) + s.app)
            s.meta['app'] = [ai]
            ai *= B
        self.barrier()
        r = rng_for('item', self.cfg['seed'], s.pos, s.time)
        s.item3 = (s.tables[0] * B, ai, loc, bm, r.randrange(1 << 64), r.randrange(1 << 50) * 512, pb, r.randrange(1 << 32))
        s.item2 = (r.randrange(256), s.size, s.pos, s.flags, r.randrange(1 << 16))
        i3 = struct.pack('<LLQ', 3, 0, s.tables[0] * B) + guid + struct.pack('<QQQQQQL', *s.item3[1:])
        i2 = struct.pack('<LLQ', 2, s.item2[0], s.size) + guid + struct.pack('<QQQH', s.pos, s.flags, s.time, s.item2[4])
        s.slot3 = self.slots_s.pop()
        s.slot2 = self.slots_v.pop()
        self.ws(s.slot3[0], i3.ljust(0x80, b'\0'), s.slot3[1])
        self.barrier()
        try:
            self.wv(s.slot2[0], i2.ljust(0x80, b'\0'), s.slot2[1])
            self.barrier()
        except PowerCut:
            self.after_cut()
            p = self.voff + s.slot2[0] * B + s.slot2[1]
            if struct.unpack('<L', self.vol.durable[p:p + 4])[0] == 2:
                self.snaps.append(s)
                self.next_pos += 1
            raise
        self.snaps.append(s)
        self.next_pos += 1
        self.ctx.probe('snapshot')
        return s

    def delete_oldest(self):
        """Delete the oldest snapshot: its item in the catalog first, its diff area later."""
        lv = self.live()
        if not lv:
            return
        s = lv[0]
        try:
            self.wv(s.slot2[0], struct.pack('<L', 1), s.slot2[1])
            self.barrier()
        except PowerCut:
            self.after_cut()
            p = self.voff + s.slot2[0] * B + s.slot2[1]
            s.dead = struct.unpack('<L', self.vol.durable[p:p + 4])[0] == 1
            raise
        s.dead = True
        self.ws(s.slot3[0], struct.pack('<L', 1), s.slot3[1])
        self.barrier()
        self.slots_v.append(s.slot2)
        self.slots_s.append(s.slot3)
        self.pool = s.tables[::-1] + self.pool
        self.ctx.probe('deleted')

    def _unused(self):
        """Blocks the file system does not use (only blocks of interest are enumerated on big volumes)."""
        return {b for b in self.files if b not in self.used}

    def _bitmap(self, s, name, unused):
        """Write a bitmap chain; blocks outside of the files are unused on big volumes, and marked as used on small ones."""
        nbits = (self.nblocks + 7) // 8 * 8
        fill = 0xFF if self.cfg['rest_unused'] else 0
        bm = bytearray([fill]) * (nbits // 8)
        for b in self.files:
            if b >= self.nblocks:
                continue
            if b in unused:
                bm[b >> 3] |= 1 << (b & 7)
            else:
                bm[b >> 3] &= ~(1 << (b & 7)) & 0xff
        chunks = [bytes(bm[i:i + B - 0x80]) for i in range(0, len(bm), B - 0x80)]
        blocks = [self.alloc() for _ in chunks]
        s.meta[name] = blocks
        for i, (blk, c) in enumerate(zip(blocks, chunks)):
            nxt = blocks[i + 1] * B if i + 1 < len(blocks) else 0
            pad = b'\xCC' if self.cfg['pad'] else b'\0'
            self.ws(blk, head(6, i * B, blk * B, nxt) + c.ljust(B - 0x80, pad))
        if len(chunks) > 1:
            self.ctx.probe('bitmap-chained')
        return blocks[0] * B

    def _locs(self, s, locs):
        chunks = [locs[i:i + PER_LOC] for i in range(0, len(locs), PER_LOC)] or [[]]
        blocks = [self.alloc() for _ in chunks]
        s.meta['loc'] = blocks
        for i, (blk, c) in enumerate(zip(blocks, chunks)):
            nxt = blocks[i + 1] * B if i + 1 < len(blocks) else 0
            self.ws(blk, (head(5, i * B, blk * B, nxt) + b''.join(struct.pack('<QQQ', *x) for x in c)).ljust(B, b'\0'))
        return blocks[0] * B

    def crash(self, op, phase, spec):
        """Run op() with a power cut in its phase-th phase; the driver state afterwards is what the disks say."""
        self.countdown = phase
        self.crashspec = spec
        try:
            op()
        except PowerCut:
            self.after_cut()
            self.ctx.probe('crash-inside-update')
            self.readback()
        self.countdown = None

    # -- oracle
    def expected(self, s, b):
        """32 sectors of block b as snapshot s must show them: bytes, or None where nothing is promised."""
        out = [None] * 32
        end = min((b + 1) * B, self.size) - b * B
        if b not in s.eff_unused or b in s.used_then:
            for i in range(32):
                out[i] = s.frozen[b][i * 512:(i + 1) * 512]
        else:
            lv = self.live()
            newer = lv[lv.index(s) + 1:]
            touched = any(o == b and k != 'ovl' for n in newer for o, k in n.entries)
            own = any(o == b and k != 'ovl' for o, k in s.entries)
            if not touched and not own and s.flags & 0x400:
                out = [bytes(512)] * 32
            elif not newer and not own:
                out = [self.cur[b][i * 512:(i + 1) * 512] for i in range(32)]
        for i, d in s.overlays.get(b, {}).items():
            out[i] = d
        return out
