"""A simulated FAT12/16/32 driver: formats a volume and applies file operations to a write-back disk, with one in-memory tree as the truth about what is in use."""
import struct
from datetime import datetime, timedelta
from ..core import pattern, rng_for

EOC = {12: 0xFFF, 16: 0xFFFF, 32: 0x0FFFFFFF}
EOCS = {12: [0xFF8, 0xFFF, 0xFFE], 16: [0xFFF8, 0xFFFF], 32: [0x0FFFFFF8, 0x0FFFFFFF]}
BAD = {12: 0xFF7, 16: 0xFFF7, 32: 0x0FFFFFF7}
A_RO, A_HID, A_SYS, A_VOL, A_DIR, A_ARC = 1, 2, 4, 8, 0x10, 0x20


class NoSpace(Exception):
    pass


def fat_date(t):
    return (t.year - 1980) << 9 | t.month << 5 | t.day


def fat_time(t):
    return t.hour << 11 | t.minute << 5 | t.second // 2


def checksum(raw):
    s = 0
    for c in raw:
        s = ((s & 1) << 7 | s >> 1) + c & 0xFF
    return s


class Geo(object):
    """Geometry of the volume."""

    def __init__(self, g):
        self.type = g['type']
        self.bps = g['bps']
        self.spc = g['spc']
        self.rsvd = g['rsvd']
        self.nfats = g['nfats']
        self.rootent = g['rootent'] if self.type != 32 else 0
        self.clusters = g['clusters']
        self.active = g.get('active', 0)
        self.nomirror = g.get('nomirror', False) and self.type == 32
        self.base = g.get('base', 0)
        self.cs = self.bps * self.spc
        bits = {12: 12, 16: 16, 32: 32}[self.type]
        need = ((self.clusters + 2) * bits + 7) // 8
        self.fatsz = (need + self.bps - 1) // self.bps + g.get('fatslack', 0)
        self.rootsecs = (self.rootent * 32 + self.bps - 1) // self.bps
        self.fat_off = self.rsvd * self.bps
        self.root_off = (self.rsvd + self.nfats * self.fatsz) * self.bps
        self.data_off = self.root_off + self.rootsecs * self.bps
        self.totsec = self.data_off // self.bps + self.clusters * self.spc + g.get('tailsec', 0) % self.spc
        self.size = self.totsec * self.bps
        self.rootclus = g.get('rootclus', 2)
        self.last = self.clusters + 1

    def coff(self, c):
        return self.data_off + (c - 2) * self.cs


class Node(object):
    def __init__(self):
        self.name = None     # long name
        self.raw = b''       # 11 bytes
        self.attrs = 0
        self.ntb = 0
        self.first = 0
        self.size = 0
        self.ctime = self.mtime = self.adate = None
        self.tenth = 0
        self.slots = []      # byte offsets (in the volume) of its 32-byte entries, the short one last
        self.children = []
        self.parent = None
        self.tag = None
        self.content = b''
        self.dots = []       # the two dot entries (fields frozen when written)

    @property
    def is_dir(self):
        return bool(self.attrs & A_DIR)


class FatSim(object):
    def __init__(self, disk, ctx, clock, g, opts):
        self.disk = disk
        self.ctx = ctx
        self.clock = clock
        self.geo = Geo(g)
        self.opts = opts        # zero: zero new directory clusters; firstfit: reuse free entries; eoc: index of the end mark
        self.fat = {}
        self.root = Node()
        self.root.attrs = A_DIR
        self.label = None
        self.hint = 2
        self.ended = {}         # directory node -> offset index of the end mark (embedded driver)
        self.n = 0
        self.format(g)

    # low-level writes: whole sectors, through the write-back cache
    def put(self, off, data):
        b = self.geo.base
        s = self.disk.sector
        off += b
        lo = off // s * s
        hi = -(-(off + len(data)) // s) * s
        buf = bytearray(self.disk.read(lo, hi - lo))
        buf[off - lo:off - lo + len(data)] = data
        self.disk.write(lo, bytes(buf))

    def get(self, off, n):
        return self.disk.read(self.geo.base + off, n)

    def format(self, g):
        q = self.geo
        bs = bytearray(512)
        bs[0:3] = b'\xeb\x3c\x90'
        bs[3:11] = b'SIMFAT  '
        tot16 = q.totsec if (q.totsec < 65536 and q.type != 32) else 0
        tot32 = 0 if tot16 else q.totsec
        tot64 = None
        if q.type == 32 and g.get('tot64'):
            tot64, tot32 = q.totsec, 0
        struct.pack_into('<HBHBHHBHHHLL', bs, 11, q.bps, q.spc if q.spc < 256 else 0, q.rsvd, q.nfats, q.rootent, tot16, 0xF8, q.fatsz if q.type != 32 else 0, 63, 255, 0, tot32)
        if q.type == 32:
            struct.pack_into('<LHHLHH', bs, 36, q.fatsz, (0x80 | q.active) if q.nomirror else 0, 0, q.rootclus, 1, 6)
            bs[64] = 0x80
            bs[66] = 0x29
            struct.pack_into('<L', bs, 67, 0x1234ABCD)
            bs[71:82] = b'NO NAME    '
            bs[82:90] = b'FAT32   '
            if tot64 is not None:
                struct.pack_into('<Q', bs, 82, tot64)
        else:
            bs[36] = 0x80
            bs[38] = 0x29
            struct.pack_into('<L', bs, 39, 0x1234ABCD)
            bs[43:54] = b'NO NAME    '
            bs[54:62] = b'FAT%d   ' % q.type
        bs[510:512] = b'\x55\xaa'
        self.put(0, bytes(bs))
        self.setfat(0, EOC[q.type] & ~0xFF | 0xF8)
        self.setfat(1, EOC[q.type])
        if q.type == 32:
            self.setfat(q.rootclus, EOC[32])
            self.root.first = q.rootclus
            self.put(q.coff(q.rootclus), bytes(q.cs))
        self.disk.flush()

    def setfat(self, c, v):
        q = self.geo
        self.fat[c] = v
        copies = range(q.nfats)
        if q.nomirror:
            copies = [q.active]
        for k in copies:
            off = q.fat_off + k * q.fatsz * q.bps
            if q.type == 32:
                old = struct.unpack('<L', self.get(off + c * 4, 4))[0]
                self.put(off + c * 4, struct.pack('<L', old & 0xF0000000 | v))
            elif q.type == 16:
                self.put(off + c * 2, struct.pack('<H', v))
            else:
                o = off + c + c // 2
                w = struct.unpack('<H', self.get(o, 2))[0]
                w = (w & 0xF000 | v) if c % 2 == 0 else (w & 0x000F | v << 4)
                self.put(o, struct.pack('<H', w))

    def alloc(self, rng, prev=None):
        """One free cluster, chosen by the allocation policy, linked after prev."""
        q = self.geo
        if rng.random() < self.opts['scatter']:
            self.hint = rng.randrange(2, q.last + 1)
        for i in range(min(q.clusters, 5000)):
            c = 2 + (self.hint - 2 + i) % q.clusters
            if not self.fat.get(c):
                break
        else:
            raise NoSpace()
        self.hint = c + 1 if c < q.last else 2
        self.setfat(c, EOCS[q.type][self.opts['eoc'] % len(EOCS[q.type])])
        if prev is not None:
            self.setfat(prev, c)
        return c

    def chain(self, first):
        out = []
        c = first
        while c and c not in out and 2 <= c <= self.geo.last:
            out.append(c)
            c = self.fat.get(c, 0)
            if c >= BAD[self.geo.type]:
                break
        return out

    def free(self, first):
        for c in self.chain(first):
            self.setfat(c, 0)

    # directories
    def regions(self, d):
        """Offsets of the 32-byte slots of a directory, in order."""
        q = self.geo
        if d is self.root and q.type != 32:
            return [q.root_off + i * 32 for i in range(q.rootent)]
        return [q.coff(c) + i for c in self.chain(d.first) for i in range(0, q.cs, 32)]

    def grow(self, d, rng):
        if d is self.root and self.geo.type != 32:
            raise NoSpace()
        ch = self.chain(d.first)
        c = self.alloc(rng, ch[-1])
        if self.opts['zero']:
            self.put(self.geo.coff(c), bytes(self.geo.cs))
        else:
            self.put(self.geo.coff(c), b'\0' * 32)
            self.ctx.probe('remnant-cluster')

    def find_slots(self, d, n, rng):
        for _ in range(40):
            slots = self.regions(d)
            run = []
            for i, off in enumerate(slots):
                b = self.get(off, 1)[0]
                if b == 0:
                    # end mark: everything from here on is free
                    if len(slots) - i + len(run) >= n:
                        take = run + slots[i:i + n - len(run)]
                        nxt = i + n - len(run)
                        if not self.opts['zero'] and nxt < len(slots):
                            self.put(slots[nxt], b'\0' * 32)
                        return take
                    break
                if b == 0xE5 and self.opts['firstfit']:
                    run.append(off)
                    if len(run) == n:
                        self.ctx.probe('slot-reused')
                        return run
                else:
                    run = []
            # no room: every free slot after the end mark becomes a deleted one, and the directory is extended
            ends = [i for i, off in enumerate(slots) if self.get(off, 1)[0] == 0]
            self.grow(d, rng)
            if ends:
                for off in slots[ends[0]:]:
                    self.put(off, b'\xe5')
        raise NoSpace()

    def short_entry(self, x):
        return struct.pack('<11sBBBHHHHHHHL', x.raw, x.attrs, x.ntb, x.tenth, fat_time(x.ctime), fat_date(x.ctime), fat_date(x.adate), (x.first >> 16) if self.geo.type == 32 else 0,
                           fat_time(x.mtime), fat_date(x.mtime), x.first & 0xFFFF, x.size)

    def long_entries(self, x):
        if x.name is None:
            return []
        u = x.name.encode('utf-16le', 'surrogatepass')
        n = len(u) // 2
        k = (n + 12) // 13
        if n % 13:
            u += b'\0\0' + b'\xff\xff' * (k * 13 - n - 1)
        ck = checksum(x.raw)
        out = []
        for i in range(k, 0, -1):
            p = u[(i - 1) * 26:i * 26]
            out.append(struct.pack('<B10sBBB12sH4s', i | (0x40 if i == k else 0), p[:10], 0x0F, 0, ck, p[10:22], 0, p[22:]))
        return out

    def link(self, d, x, rng):
        les = self.long_entries(x)
        x.slots = self.find_slots(d, len(les) + 1, rng)
        for off, e in zip(x.slots, les + [self.short_entry(x)]):
            self.put(off, e)
        d.children.append(x)
        x.parent = d

    def unlink(self, x, mark=0xE5, short_only=False):
        for off in (x.slots[-1:] if short_only else x.slots):
            self.put(off, bytes([mark]))
        x.parent.children.remove(x)

    def update(self, x):
        self.put(x.slots[-1], self.short_entry(x))

    def now(self):
        return datetime(1601, 1, 1) + timedelta(microseconds=self.clock.now() // 10)

    def stamp(self, x, rng, create=False):
        t = self.now()
        if t.year < 1980 or t.year > 2107:
            t = datetime(1980, 1, 1)
        x.mtime = t
        x.adate = t
        if rng.random() < 0.25:
            # a copy keeps the time of the original; the date of an access is that of another day
            x.mtime = t.replace(year=rng.randrange(1980, 2108), month=rng.randrange(1, 13), day=rng.randrange(1, 29), hour=rng.randrange(24), minute=rng.randrange(60), second=rng.randrange(60))
            x.adate = t.replace(year=rng.randrange(1980, 2108), month=rng.randrange(1, 13), day=rng.randrange(1, 29))
        if create:
            x.ctime = t
            x.tenth = (t.second % 2) * 100 + t.microsecond // 10000

    def make_dots(self, d):
        dots = []
        for raw, first in ((b'.          ', d.first), (b'..         ', 0 if d.parent is self.root else d.parent.first)):
            y = Node()
            y.raw, y.attrs, y.first = raw, A_DIR, first
            y.ctime, y.mtime, y.adate, y.tenth = d.ctime, d.mtime, d.adate, d.tenth
            dots.append(y)
        base = self.geo.coff(d.first)
        if self.opts['zero']:
            self.put(base, bytes(self.geo.cs))
        elif self.geo.cs > 64:
            self.put(base + 64, b'\0' * 32)
            self.ctx.probe('remnant-cluster')
        for i, y in enumerate(dots):
            y.slots = [base + 32 * i]
            self.put(base + 32 * i, self.short_entry(y))
        d.dots = dots

    # the operations
    def nodes(self, dirs=None):
        out = []

        def rec(d):
            for x in d.children:
                if dirs is None or x.is_dir == dirs:
                    out.append(x)
                if x.is_dir:
                    rec(x)
        rec(self.root)
        return out

    def new_name(self, d, rng, kind):
        used = {x.raw for x in d.children}
        while True:
            self.n += 1
            alphabet = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-~!'
            b = ''.join(rng.choice(alphabet) for _ in range(rng.randrange(1, 9))).encode()
            e = ''.join(rng.choice(alphabet) for _ in range(rng.choice([0, 0, 1, 3, 3]))).encode()
            if rng.random() < 0.15:
                i = rng.randrange(len(b))
                b = b[:i] + bytes([rng.choice([0x80, 0x99, 0xC5, 0xFF, 0x05 if i == 0 else 0x8E])]) + b[i + 1:]
            raw = b.ljust(8) + e.ljust(3)
            if raw not in used and raw[0] not in (0, 0xE5):
                break
        ln = None
        if rng.random() < self.opts['lfn']:
            n = rng.choice([1, 5, 12, 13, 14, 25, 26, 27, 40, 80, 130, 255, 255, rng.randrange(246, 261)]) if rng.random() < 0.6 else rng.randrange(1, 60)
            ln = ''.join(rng.choice('abcdefghij klmnop.qrstuvwxyzABC\u0436\u65e5\u00e9-_+\u0100\u3000\uac00\uff21') for _ in range(n))
            if rng.random() < 0.08 and n > 2:
                ln = ln[:-2] + '\U0001f600'
            if ln.strip('. ') == '':
                ln = 'x' + ln[1:]
        ntb = 0
        if ln is None and rng.random() < 0.2:
            ntb = rng.choice([8, 0x10, 0x18])
        if kind == 'file' and rng.random() < 0.06:
            ntb |= rng.choice([1, 3, 0x25, 0xE5, 2, 1 | rng.randrange(256)])
        return raw, ln, ntb

    def op_create(self, rng, d=None, kind='file'):
        dirs = [self.root] + self.nodes(True)
        d = d or rng.choice(dirs)
        x = Node()
        x.raw, x.name, x.ntb = self.new_name(d, rng, kind)
        x.attrs = (A_DIR if kind == 'dir' else rng.choice([A_ARC, A_ARC, 0, A_RO | A_ARC, A_HID | A_SYS]))
        self.stamp(x, rng, True)
        x.parent = d
        self.n += 1
        x.tag = self.n
        if kind == 'dir':
            x.first = self.alloc(rng)
            self.make_dots(x)
        self.link(d, x, rng)
        if kind == 'file':
            n = rng.choice([0, 1, self.geo.cs - 1, self.geo.cs, self.geo.cs + 1, rng.randrange(1, 5 * self.geo.cs)])
            if n:
                self.op_append(rng, x, n)
        return x

    def op_append(self, rng, x, n=None):
        q = self.geo
        n = n or rng.randrange(1, 3 * q.cs)
        if x.size + n > 40 * q.cs:
            return
        data = pattern(('fat', x.tag, x.size), n)
        ch = self.chain(x.first) if x.first else []
        old = len(ch)
        end = x.size + n
        try:
            while len(ch) * q.cs < end:
                c = self.alloc(rng, ch[-1] if ch else None)
                self.put(q.coff(c), pattern(('slack', c, self.n), q.cs))
                ch.append(c)
        except NoSpace:
            if old:
                self.setfat(ch[old - 1], EOC[q.type])
            for c in ch[old:]:
                self.setfat(c, 0)
            raise
        x.first = ch[0]
        x.content = x.content + data
        pos = x.size
        i = 0
        while i < n:
            c = ch[(pos + i) // q.cs]
            o = (pos + i) % q.cs
            m = min(n - i, q.cs - o)
            self.put(q.coff(c) + o, data[i:i + m])
            i += m
        x.size = end
        self.stamp(x, rng)
        self.update(x)

    def op_truncate(self, rng, x):
        q = self.geo
        n = rng.randrange(0, x.size + 1)
        ch = self.chain(x.first) if x.first else []
        keep = -(-n // q.cs)
        if keep == 0:
            x.first = 0
        else:
            self.setfat(ch[keep - 1], EOC[q.type])
        for c in ch[keep:]:
            self.setfat(c, 0)
        x.content = x.content[:n]
        x.size = n
        self.stamp(x, rng)
        self.update(x)

    def op_delete(self, rng, x, style=None):
        style = style or rng.choice(['plain', 'plain', 'plain', 'nolfn', 'keepchain', 'quick'])
        mark = 0xE5

        def sub(y):
            for z in list(y.children):
                if style != 'quick':
                    self.unlink(z, mark, style == 'nolfn')
                if z.is_dir:
                    sub(z)
                self.free(z.first)
        if x.is_dir:
            sub(x)
        self.unlink(x, mark, style == 'nolfn')
        if style == 'keepchain':
            self.ctx.probe('unlinked-open')
        else:
            self.free(x.first)
        self.ctx.probe('deleted-dir' if x.is_dir else 'deleted-file')

    def op_rename(self, rng, x):
        dirs = [self.root] + [d for d in self.nodes(True)]

        def inside(d):
            while d is not None:
                if d is x:
                    return True
                d = d.parent
            return False
        dirs = [d for d in dirs if not inside(d)]
        d = rng.choice(dirs)
        old_parent, slots = x.parent, x.slots
        raw, name, ntb = self.new_name(d, rng, 'dir' if x.is_dir else 'file')
        old = (x.raw, x.name, x.ntb)
        x.raw, x.name, x.ntb = raw, name, ntb
        try:
            self.link(d, x, rng)
        except NoSpace:
            x.raw, x.name, x.ntb = old
            x.slots, x.parent = slots, old_parent
            raise
        for off in slots:
            self.put(off, b'\xe5')
        old_parent.children.remove(x)
        if x.is_dir and x.dots:
            y = x.dots[1]
            y.first = 0 if d is self.root else d.first
            self.put(y.slots[0], self.short_entry(y))
        self.ctx.probe('renamed')

    def op_label(self, rng):
        if self.label is None:
            x = Node()
            x.raw = ''.join(rng.choice('ABCXYZ 019') for _ in range(10)).encode() + b'Q'
            if x.raw[:1] == b' ':
                x.raw = b'L' + x.raw[1:]
            x.attrs = A_VOL
            self.stamp(x, rng, True)
            x.adate = x.mtime
            self.link(self.root, x, rng)
            self.label = x
        else:
            self.label.mtime = self.now() if 1980 <= self.now().year <= 2107 else self.label.mtime
            self.update(self.label)

    def op_badclus(self, rng):
        c = rng.randrange(2, self.geo.last + 1)
        if not self.fat.get(c):
            self.setfat(c, BAD[self.geo.type])

    def run(self, ops):
        for k, seed in ops:
            rng = rng_for('fatop', seed)
            self.clock.advance(rng.randrange(1, 10 ** 10))
            files = self.nodes(False)
            files = [f for f in files if not f.attrs & A_VOL]
            dirs = self.nodes(True)
            try:
                if k == 'file':
                    self.op_create(rng, kind='file')
                elif k == 'dir':
                    self.op_create(rng, kind='dir')
                elif k == 'fill':
                    d = rng.choice([self.root] + dirs)
                    for _ in range(rng.randrange(3, 12)):
                        self.op_create(rng, d, 'file' if rng.random() < 0.9 else 'dir')
                elif k == 'append' and files:
                    self.op_append(rng, rng.choice(files))
                elif k == 'truncate' and files:
                    self.op_truncate(rng, rng.choice(files))
                elif k == 'delete' and files:
                    self.op_delete(rng, rng.choice(files))
                elif k == 'rmdir' and dirs:
                    self.op_delete(rng, rng.choice(dirs))
                elif k == 'rename' and files + dirs:
                    self.op_rename(rng, rng.choice(files + dirs))
                elif k == 'label':
                    self.op_label(rng)
                elif k == 'bad':
                    self.op_badclus(rng)
                elif k == 'flush':
                    self.disk.flush()
                elif k == 'skew':
                    self.clock.jump(rng.randrange(119600000000000000, 159900000000000000))
            except NoSpace:
                self.ctx.fault('disk-full')
                self.full = True
            self.ctx.step()
