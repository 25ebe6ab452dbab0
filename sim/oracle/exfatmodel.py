"""Reference reader for exFAT volumes over an in-memory image: boot region selection, chains, listing."""
import struct
from datetime import datetime, timedelta
from .fatmodel import NoData, Refused, TooBig

BAD = 0xFFFFFFF7
EOC = 0xFFFFFFFF
NAMEBAD = set('"*/:<>?\\|') | {chr(i) for i in range(32)}


def stamp(v, ms=0):
    t, d = v & 0xFFFF, v >> 16
    if (t & 31) > 29:
        return None
    try:
        return datetime(1980 + (d >> 9), d >> 5 & 15, d & 31, t >> 11, t >> 5 & 63, (t & 31) * 2) + timedelta(milliseconds=10 * (ms if ms <= 199 else 0))
    except ValueError:
        return None


def zone(v):
    if not v & 0x80:
        return None
    v &= 0x7F
    return v if v < 64 else v - 128


def setsum(b):
    s = 0
    for i, c in enumerate(b):
        if i not in (2, 3):
            s = ((s & 1) << 15 | s >> 1) + c & 0xFFFF
    return s


def text(u):
    for i in range(0, len(u), 2):
        if u[i:i + 2] == b'\0\0':
            u = u[:i]
            break
    return u.decode('utf-16le', 'replace')


def name_of(parts, n):
    t = text(b''.join(parts))
    if not t:
        return None
    if n is not None and len(t) > n:
        return t[:n]
    if set(t) & NAMEBAD or t in ('.', '..'):
        return None
    return t


def file_set(b, p):
    """A file entry set at p: (dict, number of entries) or None."""
    e = b[p:p + 32]
    n = e[1]
    if n < 2 or n > 64 or p + 32 + 32 * n > len(b):
        return None
    used = bool(e[0] & 0x80)
    sec = [b[p + 32 * (i + 1):p + 32 * (i + 2)] for i in range(n)]
    ck, attr, flags, c, m, a, c10, m10, cz, mz, az = struct.unpack('<HHHLLLBBBBB', e[2:25])
    if used and ck != setsum(b[p:p + 32 * (n + 1)]):
        return None
    for i, s in enumerate(sec):
        if not s[0] & 0x40 or (used and not s[0] & 0x80):
            return None
        k = s[0] & 0x7F
        if (i == 0) != (k == 0x40) or (i == 1 and k != 0x41):
            return None
    if not sec[0][1] & 1:
        return None
    nofat = bool(sec[0][1] & 2)
    nl = sec[0][3]
    valid, first, size = struct.unpack('<QxxxxLQ', sec[0][8:32])
    if nl == 0:
        return None
    kinds = [s[0] & 0x7F for s in sec]
    names = [s[2:] for s in sec if s[0] & 0x7F == 0x41]
    if len(names) > min(-(-nl // 15), 17):
        return None
    vend = [i for i, k in enumerate(kinds) if k in (0x60, 0x61)]
    if vend and any(k not in (0x60, 0x61) for k in kinds[vend[0]:]):
        return None
    nm = name_of(names, nl)
    if nm is None:
        return None
    return {'del': not used, 'dir': bool(attr & 0x10), 'short': nm, 'long': None, 'atime': stamp(a), 'atz': zone(az), 'mtime': stamp(m, m10), 'mtz': zone(mz), 'ctime': stamp(c, c10), 'ctz': zone(cz), 'size': size,
            'valid': valid, 'attr': attr, 'first': first, 'enc': bool(flags & 0x8000), 'nofat': nofat}, n + 1


def entries(b, root):
    """(items, refused): items are dicts, ('orphan', name), ('label', text), ('bitmap', id, first, size)."""
    out = []
    labels = bitmaps = 0
    p = 0
    while p < len(b):
        t = b[p]
        if t == 0:
            break
        if t == 0x80:
            return out, root
        used, k = bool(t & 0x80), t & 0x7F
        if not t & 0x40:
            if not root and used and k in (1, 2, 3):
                break
            if k == 5:
                r = file_set(b, p)
                if r is not None:
                    out.append(r[0])
                    p += 32 * r[1]
                    continue
            elif root and used and k == 3:
                labels += 1
                if labels > 1 or b[p + 1] > 15:
                    return out, True
                if b[p + 1]:
                    l = text(b[p + 2:p + 2 + 2 * b[p + 1]])
                    if not l or set(l) & NAMEBAD:
                        return out, True
                    out.append(('label', l))
            elif root and used and k == 1:
                bitmaps += 1
                if bitmaps > 2:
                    return out, True
                out.append(('bitmap', b[p + 1] & 1) + struct.unpack('<LQ', b[p + 20:p + 32]))
        elif k == 0x41:
            parts = []
            while p + 32 * len(parts) < len(b) and len(parts) < 17:
                e = b[p + 32 * len(parts):p + 32 * len(parts) + 32]
                if e[0] != t or e[1] != 0:
                    break
                parts.append(e[2:])
                if e[30:] == b'\0\0':
                    break
            nm = name_of(parts, None) if parts else None
            if nm is not None:
                out.append(('orphan', nm))
                p += 32 * len(parts)
                continue
        p += 32
    return out, False


class ExFatRef(object):
    def __init__(self, img, geo, end=None, volume_size=None):
        self.img = img
        self.g = geo
        self.end = len(img) if end is None else min(end, len(img))
        self.vsize = volume_size
        self.refused = None
        # the active FAT is the one the boot region in use selects; the simulated driver never switches it
        self.fat_off = geo.base + geo.fat_off
        try:
            rb = self.data(geo.rootclus)
        except NoData:
            raise Refused('root chain')
        self.rootbuf = rb
        self.bitmap = None
        items, ref = entries(rb, True)
        for x in items:
            if isinstance(x, tuple) and x[0] == 'bitmap' and x[1] == geo.active:
                try:
                    self.bitmap = self.data(x[2])
                except NoData:
                    raise Refused('bitmap chain')
                break
        else:
            raise Refused('no bitmap')

    def rd(self, off, n):
        return bytes(self.img[off:min(off + n, self.end)]) if off < self.end else b''

    def elem(self, c):
        if c > self.g.last or c * 4 + 4 > self.g.fatsz * self.g.bps:
            return None
        b = self.rd(self.fat_off + c * 4, 4)
        return int.from_bytes(b, 'little') if len(b) == 4 else None

    def chain(self, first):
        if first in (0, 1):
            return []
        if first == BAD:
            raise NoData('bad first cluster')
        out, seen = [first], {first}
        while True:
            v = self.elem(out[-1])
            if v is None:
                raise NoData('chain leaves the table')
            if v in seen or v in (0, 1, EOC):
                return out
            if v == BAD:
                return out + [None]
            out.append(v)
            seen.add(v)

    def data(self, first, size=None, nofat=False):
        cs = self.g.cs
        if nofat:
            n = -(-size // cs) if first >= 2 else 0
            ch = range(first, min(first + n, self.g.last + 1))
        else:
            ch = self.chain(first)
        out = []
        have = 0
        for c in ch:
            if size is not None and have >= size:
                break
            if c is None:
                b = bytes(cs)
            else:
                o = self.g.coff(c)
                if self.vsize is not None and o + cs > self.vsize:
                    raise NoData('beyond the volume')
                b = self.rd(self.g.base + o, cs)
                if len(b) != cs:
                    raise NoData('cut cluster')
            out.append(b)
            have += cs
            if have > 1 << 24:
                raise TooBig()
        r = b''.join(out)
        return r if size is None else r[:size]

    def allocated(self, c):
        """None: no such cluster. A cluster the (damaged) bitmap does not cover counts as free."""
        if c < 2 or c > self.g.last:
            return None
        i = (c - 2) // 8
        return i < len(self.bitmap) and bool(self.bitmap[i] >> (c - 2) % 8 & 1)

    def walk(self, limit=20000, scan=False):
        visited, realloc = set(), {}
        state = {'refused': False}

        def rec(buf, path, above, out, root=False):
            items, ref = entries(buf[:len(buf) // 512 * 512], root)
            for e in items:
                if len(out) > limit:
                    raise TooBig()
                if isinstance(e, tuple):
                    if e[0] == 'orphan':
                        out.append(('orphan', path + '/' + e[1]))
                    elif e[0] == 'label':
                        out.append(e)
                    continue
                c = e['first']
                if e['dir'] and c and c in above:
                    continue
                r = dict(e)
                r['short'] = path + '/' + e['short']
                out.append(r)
                al = self.allocated(c)
                if al is None or not e['dir']:
                    continue
                if e['del'] and al and not scan:
                    old = realloc.get(c)
                    if old is None or (e['mtime'] is not None and (old[0] is None or e['mtime'] > old[0])):
                        realloc[c] = (e['mtime'], e['size'], e['nofat'])
                    continue
                visited.add(c)
                try:
                    b = self.data(c, e['size'], e['nofat'])
                except NoData:
                    continue
                if b:
                    rec(b, path + '/' + e['short'], above | {c}, out)
            if ref:
                state['refused'] = True

        tree = []
        rec(self.rootbuf, '', {self.g.rootclus}, tree, True)
        if state['refused']:
            return tree, {}, True
        orphans = {}
        todo = {c: v for c, v in realloc.items() if c not in visited}
        for c, (_, size, nofat) in sorted(todo.items()):
            try:
                b = self.data(c, size, nofat)
            except NoData:
                continue
            if len(b) < 512 or (b[0], b[32], b[64]) != (5, 0x40, 0x41):
                continue
            out = []
            rec(b, '<Orphan directory %d>' % c, set(), out)
            orphans[c] = out
        # entries found in one orphan directory can be a newer description of another one: the result then depends on the order, which is free
        if any(realloc[c] != todo[c] for c in todo):
            raise TooBig()
        return tree, orphans, False
