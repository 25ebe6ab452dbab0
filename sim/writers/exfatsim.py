"""A simulated exFAT driver: formats a volume (main and backup boot region, bitmap, FAT, root) and applies file operations to a write-back disk."""
import struct
from datetime import datetime, timedelta
from ..core import pattern, rng_for
from .fatsim import fat_date, fat_time, NoSpace

EOC = 0xFFFFFFFF
BAD = 0xFFFFFFF7
A_RO, A_HID, A_SYS, A_DIR, A_ARC = 1, 2, 4, 0x10, 0x20


class ExGeo(object):
    def __init__(self, g):
        self.bps = g['bps']
        self.spc = g['spc']
        self.nfats = g['nfats']
        self.active = g.get('active', 0) if self.nfats == 2 else 0
        self.clusters = g['clusters']
        self.base = g['base']
        self.cs = self.bps * self.spc
        self.fat_sec = g['fatsec']
        need = -(-(self.clusters + 2) * 4 // self.bps)
        self.fatsz = need + g.get('fatslack', 0)
        self.heap_sec = self.fat_sec + self.fatsz * self.nfats + g.get('heapgap', 0)
        self.totsec = self.heap_sec + self.clusters * self.spc + g.get('tail', 0)
        least = -(-(1 << 20) // self.bps)
        if self.totsec < least:
            self.totsec = least
        self.size = self.totsec * self.bps
        self.last = self.clusters + 1
        self.rootclus = g.get('rootclus', 4)
        self.fat_off = (self.fat_sec + (self.fatsz if self.active else 0)) * self.bps
        self.data_off = self.heap_sec * self.bps

    def coff(self, c):
        return self.data_off + (c - 2) * self.cs


def br_checksum(buf, bps):
    s = 0
    for i in range(bps * 11):
        if i in (106, 107, 112):
            continue
        s = ((s & 1) << 31 | s >> 1) + buf[i] & 0xFFFFFFFF
    return s


def set_checksum(buf):
    s = 0
    for i, c in enumerate(buf):
        if i in (2, 3):
            continue
        s = ((s & 1) << 15 | s >> 1) + c & 0xFFFF
    return s


class Node(object):
    def __init__(self):
        self.name = ''
        self.attrs = 0
        self.flags = 0           # data flags (encryption)
        self.first = 0
        self.size = 0
        self.valid = 0
        self.nofat = False
        self.times = {}          # 'c', 'm', 'a' -> datetime
        self.tz = {'c': 0, 'm': 0, 'a': 0}
        self.slots = []
        self.children = []
        self.parent = None
        self.tag = None
        self.content = b''
        self.vendor = 0

    @property
    def is_dir(self):
        return bool(self.attrs & A_DIR)


_br_cache = {}


class ExFatSim(object):
    def __init__(self, disk, ctx, clock, g, opts):
        self.disk = disk
        self.ctx = ctx
        self.clock = clock
        self.geo = ExGeo(g)
        self.opts = opts
        self.fat = {}
        self.used = set()
        self.hint = 2
        self.n = 0
        self.label = None
        self.root = Node()
        self.root.attrs = A_DIR
        self.format(g)

    def put(self, off, data):
        off += self.geo.base
        s = self.disk.sector
        lo = off // s * s
        hi = -(-(off + len(data)) // s) * s
        buf = bytearray(self.disk.read(lo, hi - lo))
        buf[off - lo:off - lo + len(data)] = data
        self.disk.write(lo, bytes(buf))

    def get(self, off, n):
        return self.disk.read(self.geo.base + off, n)

    def format(self, g):
        q = self.geo
        b = q.bps
        br = bytearray(12 * b)
        br[0:3] = b'\xeb\x76\x90'
        br[3:11] = b'EXFAT   '
        struct.pack_into('<QQLLLLLLBBHBBBBB', br, 64, q.base // b, q.totsec, q.fat_sec, q.fatsz, q.heap_sec, q.clusters, q.rootclus, 0x55667788, 0, 1, q.active, b.bit_length() - 1, q.spc.bit_length() - 1, q.nfats, 0x80, 0xFF)
        br[510:512] = b'\x55\xaa'
        for i in range(1, 9):
            br[i * b + b - 4:i * b + b] = b'\0\0\x55\xaa'
        s = br_checksum(br, b)
        br[11 * b:12 * b] = struct.pack('<L', s) * (b // 4)
        self.put(0, bytes(br))
        self.put(12 * b, bytes(br))
        self.br = bytes(br)
        self.setfat(0, 0xFFFFFFF8)
        self.setfat(1, EOC)
        # bitmap, up-case table, root
        self.bm_bytes = -(-q.clusters // 8)
        need = max(1, -(-self.bm_bytes // q.cs))
        free = [c for c in range(2, q.last + 1) if c != q.rootclus]
        bm = free[:need]
        up = free[need]
        if g.get('bmfrag') and len(free) > 3 * need + 2:
            bm = free[:2 * need:2]
            up = free[2 * need + 1]
        self.bm = bm
        for i, c in enumerate(bm):
            self.setfat(c, bm[i + 1] if i + 1 < len(bm) else EOC)
            self.put(q.coff(c), bytes(q.cs))
        for c in bm:
            self.mark(c, True)
        self.setfat(up, EOC)
        self.mark(up, True)
        self.put(q.coff(up), b'\0\0\1\0')
        self.setfat(q.rootclus, EOC)
        self.mark(q.rootclus, True)
        self.put(q.coff(q.rootclus), bytes(q.cs))
        self.root.first = q.rootclus
        base = q.coff(q.rootclus)
        es = [struct.pack('<BB18xLQ', 0x81, q.active, bm[0], self.bm_bytes), struct.pack('<BBH L12x L Q'.replace(' ', ''), 0x82, 0, 0, 0x1234, up, 4)]
        if q.nfats == 2:
            # the other bitmap of a volume with two FATs
            other = struct.pack('<BB18xLQ', 0x81, 1 - q.active, bm[0], self.bm_bytes)
            es = [other, es[0], es[1]] if g.get('otherfirst') else [es[0], other, es[1]]
        for i, e in enumerate(es):
            self.put(base + 32 * i, e)
        self.disk.flush()

    def setfat(self, c, v):
        self.fat[c] = v
        self.put(self.geo.fat_off + c * 4, struct.pack('<L', v))

    def mark(self, c, on):
        i = c - 2
        q = self.geo
        o = q.coff(self.bm[i // 8 // q.cs]) + i // 8 % q.cs
        v = self.get(o, 1)[0]
        v = v | 1 << i % 8 if on else v & ~(1 << i % 8)
        self.put(o, bytes([v]))
        (self.used.add if on else self.used.discard)(c)

    def alloc(self, rng, after=None):
        """One free cluster (the one after 'after' when possible)."""
        q = self.geo
        if after is not None and rng.random() >= self.opts['scatter'] and after + 1 <= q.last and after + 1 not in self.used:
            c = after + 1
        else:
            if rng.random() < self.opts['scatter']:
                self.hint = rng.randrange(2, q.last + 1)
            for i in range(min(q.clusters, 5000)):
                c = 2 + (self.hint - 2 + i) % q.clusters
                if c not in self.used:
                    break
            else:
                raise NoSpace()
            self.hint = c + 1 if c < q.last else 2
        self.mark(c, True)
        return c

    def chain(self, x):
        """Clusters of a node."""
        q = self.geo
        if not x.first:
            return []
        if x.nofat:
            return list(range(x.first, x.first + -(-x.size // q.cs)))
        out = []
        c = x.first
        while 2 <= c <= q.last and c not in out:
            out.append(c)
            c = self.fat.get(c, 0)
        return out

    def extend(self, x, rng, n):
        """Append n clusters to a node; converts a contiguous allocation to a FAT chain when the next cluster is not adjacent."""
        ch = self.chain(x)
        old = list(ch)
        new = []
        try:
            for _ in range(n):
                new.append(self.alloc(rng, (ch + new)[-1] if ch + new else None))
        except NoSpace:
            for c in new:
                self.mark(c, False)
            raise
        al = ch + new
        contig = all(b == a + 1 for a, b in zip(al, al[1:]))
        was = x.nofat
        if x is self.root:
            want = False
        elif not ch:
            want = contig and rng.random() < self.opts['contig']
        else:
            want = x.nofat and contig
        if not want:
            start = 0 if (was or not old) else len(old) - 1
            for i in range(start, len(al)):
                self.setfat(al[i], al[i + 1] if i + 1 < len(al) else EOC)
            if was:
                self.ctx.probe('converted-to-chain')
        else:
            self.ctx.probe('contiguous')
        x.nofat = want
        x.first = al[0]
        return al

    def free(self, x):
        ch = self.chain(x)
        for c in ch:
            self.mark(c, False)
            if not x.nofat and self.opts['wipefat']:
                self.setfat(c, 0)

    def regions(self, d):
        q = self.geo
        return [q.coff(c) + i for c in self.chain(d) for i in range(0, q.cs, 32)]

    def find_slots(self, d, n, rng):
        for _ in range(40):
            slots = self.regions(d)
            run = []
            for i, off in enumerate(slots):
                b = self.get(off, 1)[0]
                if b == 0:
                    if len(slots) - i + len(run) >= n:
                        take = run + slots[i:i + n - len(run)]
                        nxt = i + n - len(run)
                        if not self.opts['zero'] and nxt < len(slots):
                            self.put(slots[nxt], b'\0')
                        return take
                    break
                if not b & 0x80 and self.opts['firstfit']:
                    run.append(off)
                    if len(run) == n:
                        self.ctx.probe('slot-reused')
                        return run
                else:
                    run = []
            ends = [i for i, off in enumerate(slots) if self.get(off, 1)[0] == 0]
            al = self.extend(d, rng, 1)
            d.size = len(al) * self.geo.cs
            if self.opts['zero']:
                self.put(self.geo.coff(al[-1]), bytes(self.geo.cs))
            else:
                self.put(self.geo.coff(al[-1]), b'\0')
            if d is not self.root:
                d.valid = d.size
                self.update(d)
            if ends:
                for off in slots[ends[0]:]:
                    self.put(off, b'\x05')       # unused entry
        raise NoSpace()

    def entry_set(self, x):
        u = x.name.encode('utf-16le', 'surrogatepass')
        k = -(-len(u) // 30)
        t = x.times

        def stamp(a):
            return fat_time(t[a]) | fat_date(t[a]) << 16

        def ms(a):
            return (t[a].second % 2) * 100 + t[a].microsecond // 10000
        out = [struct.pack('<BBHHHLLLBBBBB7x', 0x85, 1 + k + x.vendor, 0, x.attrs, x.flags, stamp('c'), stamp('m'), stamp('a'), ms('c'), ms('m'), x.tz['c'], x.tz['m'], x.tz['a'])]
        out.append(struct.pack('<BBBBHHQLLQ', 0xC0, 1 | (2 if x.nofat else 0), 0, len(u) // 2, 0x4242, 0, x.valid, 0, x.first, x.size))
        u = u.ljust(30 * k, b'\0')
        for i in range(k):
            out.append(struct.pack('<BB30s', 0xC1, 0, u[i * 30:i * 30 + 30]))
        for i in range(x.vendor):
            out.append(struct.pack('<BB16s14s', 0xE0, 0, b'vendorvendorvend', b'x' * 14))
        b = bytearray(b''.join(out))
        struct.pack_into('<H', b, 2, set_checksum(b))
        return bytes(b)

    def update(self, x):
        b = self.entry_set(x)
        for i, off in enumerate(x.slots):
            self.put(off, b[i * 32:i * 32 + 32])

    def link(self, d, x, rng):
        n = len(self.entry_set(x)) // 32
        x.slots = self.find_slots(d, n, rng)
        self.update(x)
        d.children.append(x)
        x.parent = d

    def wipe(self, slots):
        for off in slots:
            self.put(off, bytes([self.get(off, 1)[0] & 0x7F]))

    def now(self):
        t = datetime(1601, 1, 1) + timedelta(microseconds=self.clock.now() // 10)
        return t if 1980 <= t.year <= 2107 else datetime(1980, 1, 1)

    def nodes(self, dirs=None):
        out = []

        def rec(d):
            for x in d.children:
                if dirs is None or x.is_dir == dirs:
                    out.append(x)
                if x.is_dir:
                    rec(x)
        rec(self.root)
        return out

    def new_name(self, d, rng):
        used = {x.name for x in d.children}
        while True:
            n = rng.choice([1, 5, 14, 15, 16, 29, 30, 31, 45, 100, 255]) if rng.random() < 0.5 else rng.randrange(1, 40)
            ln = ''.join(rng.choice('abcdefghij klmnop.qrstuvwxyzABC\u0436\u65e5\u00e9-_+\u0100\u3000\uac00\uff21') for _ in range(n))
            if n > 3 and rng.random() < 0.08:
                ln = ln[:-2] + '\U0001f600'
            if ln not in used and ln.strip('.'):
                return ln

    def op_create(self, rng, d=None, kind='file'):
        d = d or rng.choice([self.root] + self.nodes(True))
        x = Node()
        x.name = self.new_name(d, rng)
        x.attrs = A_DIR | rng.choice([0, 0, 8]) if kind == 'dir' else rng.choice([A_ARC, A_ARC, 0, A_RO | A_ARC, A_HID | A_SYS])
        x.flags = 0x8000 if rng.random() < 0.05 else 0
        x.vendor = rng.choice([0] * 9 + [1, 2])
        tz = rng.choice([0, 0x80, 0x8C, 0xF0, 0xE4, 0x97, 0xC1])
        x.tz = {'c': tz, 'm': tz, 'a': tz}
        t = self.now()
        x.times = {'c': t, 'm': t, 'a': t.replace(microsecond=0, second=t.second // 2 * 2)}
        if rng.random() < 0.25:
            # a copy keeps the time of the original, an access is at another time; the time zone was another one then
            for k in 'ma':
                x.times[k] = t.replace(year=rng.randrange(1980, 2108), month=rng.randrange(1, 13), day=rng.randrange(1, 29), hour=rng.randrange(24), minute=rng.randrange(60), second=rng.randrange(30) * 2,
                                       microsecond=0 if k == 'a' else t.microsecond)
                x.tz[k] = rng.choice([0, 0x80, 0x8C, 0xF0, 0xE4, 0x97, 0xC1, 0xB8, 0xD0])
        self.n += 1
        x.tag = self.n
        x.parent = d
        if kind == 'dir' and rng.random() < 0.97:
            x.nofat = False
            al = self.extend(x, rng, 1)
            x.size = x.valid = self.geo.cs
            self.put(self.geo.coff(al[0]), bytes(self.geo.cs) if self.opts['zero'] else b'\0' * 32)
        try:
            self.link(d, x, rng)
        except NoSpace:
            self.free(x)
            raise
        if kind == 'file':
            n = rng.choice([0, 1, self.geo.cs - 1, self.geo.cs, self.geo.cs + 1, rng.randrange(1, 5 * self.geo.cs)])
            if n:
                self.op_append(rng, x, n)
        return x

    def op_append(self, rng, x, n=None):
        q = self.geo
        n = n or rng.randrange(1, 3 * q.cs)
        if x.size + n > 40 * q.cs or x.valid != x.size:
            return
        data = pattern(('exfat', x.tag, x.size), n)
        ch = self.chain(x)
        need = -(-(x.size + n) // q.cs) - len(ch)
        if need > 0:
            ch = self.extend(x, rng, need)
            for c in ch[-need:]:
                self.put(q.coff(c), pattern(('slack', c, self.n), q.cs))
        pos = x.size
        i = 0
        while i < n:
            o = (pos + i) % q.cs
            m = min(n - i, q.cs - o)
            self.put(q.coff(ch[(pos + i) // q.cs]) + o, data[i:i + m])
            i += m
        x.content += data
        x.size += n
        x.valid = x.size
        if rng.random() < 0.1:
            x.valid = rng.randrange(0, x.size + 1)
        x.times['m'] = self.now()
        self.update(x)

    def op_truncate(self, rng, x):
        q = self.geo
        n = rng.randrange(0, x.size + 1)
        ch = self.chain(x)
        keep = -(-n // q.cs)
        for c in ch[keep:]:
            self.mark(c, False)
            if not x.nofat and self.opts['wipefat']:
                self.setfat(c, 0)
        if keep == 0:
            x.first = 0
            x.nofat = False
        elif not x.nofat:
            self.setfat(ch[keep - 1], EOC)
        x.size = n
        x.valid = n
        x.content = x.content[:n]
        x.times['m'] = self.now()
        self.update(x)

    def op_delete(self, rng, x, style=None):
        style = style or rng.choice(['plain', 'plain', 'plain', 'open', 'quick'])

        def sub(y):
            for z in list(y.children):
                if style != 'quick':
                    self.wipe(z.slots)
                if z.is_dir:
                    sub(z)
                self.free(z)
        if x.is_dir:
            sub(x)
        self.wipe(x.slots)
        x.parent.children.remove(x)
        if style == 'open':
            self.ctx.probe('unlinked-open')
        else:
            self.free(x)
        self.ctx.probe('deleted-dir' if x.is_dir else 'deleted-file')

    def op_rename(self, rng, x):
        def inside(d):
            while d is not None:
                if d is x:
                    return True
                d = d.parent
            return False
        d = rng.choice([d for d in [self.root] + self.nodes(True) if not inside(d)])
        op, slots, name = x.parent, x.slots, x.name
        x.name = self.new_name(d, rng)
        try:
            self.link(d, x, rng)
        except NoSpace:
            x.name, x.slots, x.parent = name, slots, op
            raise
        self.wipe(slots)
        op.children.remove(x)
        self.ctx.probe('renamed')

    def op_label(self, rng):
        text = ''.join(rng.choice('ABC xyz01\u00e9\u0100\u3000') for _ in range(rng.choice([0, 1, 11, 15])))
        if text == '' and self.label is None:
            return
        if self.label is None:
            s = self.find_slots(self.root, 1, rng)
            self.labslot = s[0]
        self.label = text
        self.put(self.labslot, struct.pack('<BB22s8x', 0x83, len(text), text.encode('utf-16le')[:22]) if len(text) <= 11 else struct.pack('<BB30s', 0x83, len(text), text.encode('utf-16le')))

    def run(self, ops):
        for k, seed in ops:
            rng = rng_for('exop', seed)
            self.clock.advance(rng.randrange(1, 10 ** 10))
            files = self.nodes(False)
            dirs = self.nodes(True)
            try:
                if k == 'file':
                    self.op_create(rng, kind='file')
                elif k == 'dir':
                    self.op_create(rng, kind='dir')
                elif k == 'fill':
                    d = rng.choice([self.root] + dirs)
                    for _ in range(rng.randrange(3, 12)):
                        self.op_create(rng, d, 'file' if rng.random() < 0.9 else 'dir')
                elif k == 'append' and files:
                    self.op_append(rng, rng.choice(files))
                elif k == 'truncate' and files:
                    self.op_truncate(rng, rng.choice(files))
                elif k == 'delete' and files:
                    self.op_delete(rng, rng.choice(files))
                elif k == 'rmdir' and dirs:
                    self.op_delete(rng, rng.choice(dirs))
                elif k == 'rename' and files + dirs:
                    self.op_rename(rng, rng.choice(files + dirs))
                elif k == 'label':
                    self.op_label(rng)
                elif k == 'flush':
                    self.disk.flush()
                elif k == 'skew':
                    self.clock.jump(rng.randrange(119600000000000000, 159900000000000000))
            except NoSpace:
                self.ctx.fault('disk-full')
            self.ctx.step()
