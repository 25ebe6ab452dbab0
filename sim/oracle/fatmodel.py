"""Reference reader for FAT12/16/32 volumes: what a listing and a chain must be for a given image (any damage included).

Written from the format and the documented rules of the listing, over an in-memory image. Raises Refused where the volume cannot be listed at all.
"""
import struct
from datetime import date, datetime, timedelta

BADV = {12: 0xFF7, 16: 0xFFF7, 32: 0x0FFFFFF7}
FORBID = set(range(0x20)) | set(b'"*,./:;<=>?[\\]|')


class Refused(Exception):
    pass


class NoData(Exception):
    """The data of a chain cannot be produced."""


class TooBig(Exception):
    pass


def when(dv, tv, tenth=0):
    d = fdate(dv)
    s, m, h = (tv & 31) * 2, tv >> 5 & 63, tv >> 11
    if d is None or s > 58 or m > 59 or h > 23:
        return None
    return datetime(d.year, d.month, d.day, h, m, s) + timedelta(milliseconds=10 * (tenth if tenth <= 199 else 0))


def fdate(v):
    try:
        return date(1980 + (v >> 9), v >> 5 & 15, v & 31)
    except ValueError:
        return None


def csum(raw):
    s = 0
    for c in raw:
        s = ((s << 7 | s >> 1) & 0xFF) + c & 0xFF
    return s


def long_text(parts):
    """parts: the 26-byte pieces in the order in which they lie on disk (last piece of the name first)."""
    u = b''.join(reversed(parts))
    for i in range(0, len(u), 2):
        if u[i:i + 2] == b'\0\0':
            u = u[:i]
            break
    t = u.decode('utf-16le', 'replace')
    return t[:255] or None


def short_text(raw, nt, enc='ascii'):
    """(decoded name, raw name) or None when this cannot be a short name."""
    if raw not in (b'.          ', b'..         '):
        a = raw[0]
        if a == 0x20 or 0x61 <= a <= 0x7A or (a in FORBID and a not in (0, 5)):
            return None
        if any(c in FORBID or 0x61 <= c <= 0x7A for c in raw[1:]):
            return None
    if raw[0] in (0, 0xE5):
        raw = b'_' + raw[1:]
    elif raw[0] == 5:
        raw = b'\xE5' + raw[1:]
    b, e = raw[:8].rstrip(b' '), raw[8:].rstrip(b' ')
    bt, et = b.decode(enc, 'replace'), e.decode(enc, 'replace')
    if nt & 8:
        bt = bt.lower()
    if nt & 16:
        et = et.lower()
    return (bt + '.' + et, b + b'.' + e) if e else (bt, b)


def label_text(raw, enc='ascii'):
    if raw[0] in (0, 0xE5):
        raw = b'_' + raw[1:]
    elif raw[0] == 5:
        raw = b'\xE5' + raw[1:]
    if any(c in (0, 10, 13) for c in raw):
        return None, raw
    r = raw.rstrip(b' ')
    return (r.decode(enc, 'replace'), r), raw


def entries(buf, fat32, enc='ascii'):
    """Entries of a directory: ('orphan', name) or a dict."""
    out = []
    parts = []
    prev = None          # (order byte, checksum) of the last long entry kept
    ended = False

    def orphan(parts):
        t = long_text(parts) if parts else None
        if t is not None:
            out.append(('orphan', t))

    for p in range(0, len(buf), 32):
        e = buf[p:p + 32]
        attr = e[11] & 0x3F
        if e[0] == 0:
            ended = True
        if attr == 0x0F:
            if e[12]:
                continue
            o, ck = e[0], e[13]
            gone = o in (0, 0xE5)
            starts = gone or (o & 0x40 and 1 <= o - 0x40 <= 20)
            if prev is None:
                ok = starts
            elif gone != (prev[0] in (0, 0xE5)) or ck != prev[1]:
                ok = False
            elif gone:
                ok = True
            else:
                ok = not o & 0x40 and 1 <= o <= 20 and (prev[0] & ~0x40) == o + 1
            if not ok:
                orphan(parts)
                parts, prev = [], None
                if not starts:
                    continue
            parts.append(e[1:11] + e[14:26] + e[28:32])
            prev = (o, ck)
            continue
        gone = e[0] in (0, 0xE5)
        raw = e[:11]
        if attr & 0x18 == 0x08:
            nm, raw = label_text(raw, enc)
        else:
            nm = short_text(raw, e[12], enc)
        ln = None
        if gone:
            ln = long_text(parts) if parts else None
        elif prev is not None and prev[1] == csum(raw) and (prev[0] & ~0x40) == 1:
            ln = long_text(parts)
        else:
            orphan(parts)
        parts, prev = [], None
        if nm is None or attr & 0x18 == 0x18 or e == b'\xE5' * 32 or e == bytes(32):
            if ln is not None:
                out.append(('orphan', ln))
            continue
        tenth, ct, cd, ad, hi, mt, md, lo, size = struct.unpack('<BHHHHHHHL', e[13:32])
        out.append({'del': True if gone else (None if ended else False), 'dir': attr & 0x18 == 0x10, 'short': nm[0], 'raw': nm[1], 'long': ln, 'atime': fdate(ad), 'mtime': when(md, mt),
                    'ctime': when(cd, ct, tenth), 'size': size, 'attr': attr, 'nt': e[12], 'first': (hi << 16 if fat32 else 0) | lo, 'enc': bool(e[12] & 1)})
    orphan(parts)
    return out


class FatRef(object):
    def __init__(self, img, geo, end=None, volume_size=None, enc='ascii'):
        """img: the image; geo: the geometry the boot sector gives; end: where the image ends (truncated)."""
        self.img = img
        self.g = geo
        self.end = len(img) if end is None else min(end, len(img))
        self.vsize = volume_size
        self.enc = enc
        self.bufs = []
        self.fat_off = geo.base + geo.fat_off + (geo.fatsz * geo.bps * geo.active if geo.nomirror and geo.active < geo.nfats else 0)

    def rd(self, off, n):
        return bytes(self.img[off:min(off + n, self.end)]) if off < self.end else b''

    def elem(self, c):
        """Value of a FAT element, None when there is none."""
        t = self.g.type
        o = {12: c + c // 2, 16: c * 2, 32: c * 4}[t]
        n = 4 if t == 32 else 2
        if c > self.g.last or o + n > self.g.fatsz * self.g.bps:
            return None
        b = self.rd(self.fat_off + o, n)
        if len(b) != n:
            return None
        v = int.from_bytes(b, 'little')
        if t == 32:
            return v & 0x0FFFFFFF
        if t == 16:
            return v
        return v >> 4 if c % 2 else v & 0xFFF

    def chain(self, first):
        bad = BADV[self.g.type]
        if first in (0, 1):
            return []
        if first == bad:
            raise NoData('bad first cluster')
        out = [first]
        seen = {first}
        while True:
            v = self.elem(out[-1])
            if v is None:
                raise NoData('chain leaves the table')
            if v in seen or v > bad or v in (0, 1):
                return out
            if v == bad:
                out.append(None)
                return out
            out.append(v)
            seen.add(v)

    def data(self, first, size=None):
        out = []
        have = 0
        cs = self.g.cs
        for c in self.chain(first):
            if size is not None and have >= size:
                break
            if c is None:
                b = bytes(cs)
            else:
                o = self.g.coff(c)
                if self.vsize is not None and o + cs > self.vsize:
                    raise NoData('beyond the volume')
                b = self.rd(self.g.base + o, cs)
                if len(b) != cs:
                    raise NoData('cut cluster')
            out.append(b)
            have += cs
        r = b''.join(out)
        return r if size is None else r[:size]

    def walk(self, limit=20000, scan=False):
        """(items of the tree in order, {first cluster of an orphan directory: items})"""
        g = self.g
        visited = set()
        realloc = set()

        def rec(buf, path, above, out):
            self.bufs.append(buf)
            for e in entries(buf, g.type == 32, self.enc):
                if len(out) > limit:
                    raise TooBig()
                if isinstance(e, tuple):
                    out.append(('orphan', path + ('' if path.endswith('/') else '/') + e[1]))
                    continue
                sub = e['dir'] and e['short'] not in ('.', '..')
                if sub and e['first'] and e['first'] in above:
                    continue
                pre = path + ('' if path.endswith('/') else '/')
                r = dict(e)
                r['short'] = pre + e['short']
                r['long'] = None if e['long'] is None else pre + e['long']
                out.append(r)
                if not sub:
                    continue
                c = e['first']
                v = self.elem(c)
                if v is None:
                    continue
                if e['del'] and v and not scan:
                    realloc.add(c)
                    continue
                visited.add(c)
                try:
                    ch = self.chain(c)
                    b = self.data(c)
                except NoData:
                    continue
                if not b or (e['del'] and b[33:35] != b'. ' and not scan):
                    continue
                if e['del'] and len(ch) == 1 and self.elem(c + 1) == 0:
                    try:
                        x = self.data(c + 1)
                        if b[-96] and b[-64] and b[-32] and x[0] and x[33:35] != b'. ':
                            b += x
                    except NoData:
                        pass
                rec(b, path + '/' + (e['long'] if e['long'] is not None else e['short']), above | ({c} if c else set()), out)

        if g.type == 32:
            try:
                buf = self.data(g.rootclus)
            except NoData:
                raise Refused('root chain')
            above = {g.rootclus}
            visited.add(g.rootclus)
        else:
            buf = self.rd(g.base + g.root_off, g.rootent * 32)
            if len(buf) != g.rootent * 32:
                raise Refused('cut root')
            above = set()
        tree = []
        rec(buf, '', above, tree)
        orphans = {}
        for c in sorted(realloc - visited):
            try:
                b = self.data(c)
            except NoData:
                continue
            if len(b) < 512 or b[32:35] != b'.. ' or b[0:2] != b'. ':
                continue
            out = []
            rec(b, '<Orphan directory %d>' % c, set(), out)
            orphans[c] = out
        return tree, orphans
