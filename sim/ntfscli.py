"""What ntfs_parser must print: rows computed from the reference model of an $MFT, independent of the code under test."""
import csv
import datetime
import io
import struct
import uuid
from collections import Counter
from .writers import ntfs
from .writers.mftsim import same_time

MFT_HEADER = ['Source', 'MFT reference number', 'Is in use', 'Is directory', 'Log file sequence number', 'Path', '$SI M timestamp', '$SI A timestamp', '$SI C timestamp', '$SI E timestamp',
              '$SI USN value', '$FN M timestamp', '$FN A timestamp', '$FN C timestamp', '$FN E timestamp', '$OBJID timestamp', 'File size', 'ADS list', 'WSL M timestamp', 'WSL A timestamp', 'WSL CH timestamp']
INDX_HEADER = ['Source', 'MFT reference number', 'Is directory', 'Path', '$FN M timestamp', '$FN A timestamp', '$FN C timestamp', '$FN E timestamp', 'File size']
USN_HEADER = ['USN value', 'Source', 'Reason', 'MFT reference number', 'Parent MFT reference number', 'Timestamp', 'File name', 'File path (from $MFT)']
DIRBIT = 0x10000000
PARTIAL = '<Unknown, likely the same as above>/<Can be partially overwritten or start with a wrong character>'
EPOCH = datetime.datetime(1601, 1, 1)


def parse(data):
    """Rows of a CSV file (excel dialect), or None when it does not decode."""
    try:
        text = bytes(data).decode('utf-8')
    except UnicodeDecodeError:
        return None
    return list(csv.reader(io.StringIO(text, newline='')))


def when(text):
    if text == 'N/A':
        return None
    return datetime.datetime.strptime(text, '%Y-%m-%d %H:%M:%S.%f')


def ts_ok(text, filetime):
    try:
        got = when(text)
    except ValueError:
        return False
    return same_time(got, filetime)


def unix_ok(text, secs, ns):
    try:
        got = when(text)
    except ValueError:
        return False
    try:
        want = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=secs, microseconds=ns // 1000)
    except OverflowError:
        return got is None
    return got is not None and abs((got - want).total_seconds()) <= 2.5e-6


def guid_time_ok(text, raw):
    g = uuid.UUID(bytes_le=bytes(raw[:16])) if len(raw) >= 16 else None
    if g is None or g.version != 1:
        return text == ''
    want = datetime.datetime(1582, 10, 15) + datetime.timedelta(microseconds=g.time // 10)
    try:
        got = when(text)
    except ValueError:
        return False
    return got is not None and abs((got - want).total_seconds()) <= 2e-5


def fn_fields(fn):
    p, c, m, e, a, al, sz, fa = struct.unpack_from('<QQQQQqqL', fn, 0)
    return p, (m, a, c, e), sz, fa, fn[66:66 + 2 * fn[64]].decode('utf-16le', 'replace')


def find_lxattrb(values):
    """The first usable LXATTRB extended attribute."""
    for v in values:
        pos = 0
        while pos + 8 < len(v):
            nxt, fl, nl, vl = struct.unpack_from('<LBBH', v, pos)
            name = v[pos + 8:pos + 8 + nl]
            val = v[pos + 9 + nl:pos + 9 + nl + vl]
            if name == b'LXATTRB' and len(val) == 56 and val[:4] == b'\0\0\1\0':
                ns = struct.unpack_from('<LLL', val, 20)
                s = struct.unpack_from('<QQQ', val, 32)
                return [(s[1], ns[1]), (s[0], ns[0]), (s[2], ns[2])]   # M, A, CH
            if nxt == 0:
                break
            pos += nxt
    return None


class Rows(object):
    """Checks the rows for one $MFT against its model. skip: records about which nothing exact is said."""

    def __init__(self, ctx, model, sim, skip=()):
        self.ctx, self.model, self.sim = ctx, model, sim
        self.index_of = getattr(sim, 'index_of', {})
        self.skip = set(skip)

    def vague(self, num):
        must, may = self.model.children(num)
        return bool(may) or num in self.skip or bool(self.skip & set(must))

    def vague_path(self, reference):
        """Does the way up from here touch a record about which nothing exact is said?"""
        seen = set()
        cur = reference
        while True:
            r = self.model.resolve(cur)
            if r is None or r in seen or r == 5:
                return False
            seen.add(r)
            if self.vague(r):
                return True
            p, amb = self.model.preferred(r)
            if p is None:
                return False
            cur = p[1]

    def first_paths(self, num):
        """The possible values of the first path of a record (None: not said); [] when it has no name."""
        must, may = self.model.children(num)
        if self.vague(num):
            return None
        want = self.model.paths(num, must)
        if any(w[1] for w in want) or any(self.vague_path(w[2][0]) for w in want):
            return None
        lng = [w[0] for w in want if w[2][2] in (0, 1, 3)]
        return lng or [w[0] for w in want]

    def lookup_paths(self, reference):
        """First path of what a reference points to: list, [] (nothing there) or None (not said)."""
        num, seq = reference & 0xFFFFFFFFFFFF, reference >> 48
        v = self.model.v.get(num)
        if v is None or v.eff_seq != seq:
            return []
        if v.base:
            num = self.model.resolve(v.base)
            if num is None:
                return []
            kids, opt = self.model.children(num)
        return self.first_paths(num)

    def under(self, dirs, name):
        if dirs is None:
            return None
        if not dirs:
            return ['<Unknown>/' + name]
        return ['/'.join(['' if d == '/.' else d, name]) for d in dirs]

    def times(self, row, cols, want, what):
        self.ctx.check(all(ts_ok(row[c], w) for c, w in zip(cols, want)), 'timestamps', lambda: '%s: %r' % (what, [row[c] for c in cols]))

    def check(self, rows, tag):
        """rows: the rows of this $MFT without the header."""
        ctx, model = self.ctx, self.model
        src = (lambda s: s if not tag else '%s (%s)' % (s, tag))
        groups = []
        for r in rows:
            ctx.check(len(r) == 21, 'row-shape', lambda: 'row of %d columns: %r' % (len(r), r))
            if r[0] == src('File record') and (not groups or groups[-1][0] != r[1] or groups[-1][2]):
                groups.append([r[1], [r], False])
            else:
                ctx.check(bool(groups), 'row-order', lambda: 'row %r before any file record' % (r,))
                if r[0] != src('File record'):
                    groups[-1][2] = True
                groups[-1][1].append(r)
        gi = 0
        for num in model.bases():
            v = model.v[num]
            key = str(ntfs.ref(num, v.seq))
            got = groups[gi] if gi < len(groups) else None
            must, may = model.children(num)
            if self.skip & set([num] + must + may):
                if got is not None and got[0] == key:
                    gi += 1
                continue
            ctx.check(got is not None and got[0] == key, 'record-missing', lambda: 'record %d (%s) expected, got %r' % (num, key, got and got[0]))
            gi += 1
            if self.vague(num):
                continue
            self.record(num, v, got[1], src)
        ctx.check(gi == len(groups), 'made-up-record', lambda: 'unexpected record %r' % (groups[gi][1][0][:6],))

    def record(self, num, v, rows, src):
        ctx, model = self.ctx, self.model
        must, _ = model.children(num)
        attrs = list(v.attrs)
        for k in must:
            attrs += model.v[k].attrs
        what = 'record %d' % num
        i = 0
        while i < len(rows) and rows[i][0] == src('File record'):
            i += 1
        recs, rest = rows[:i], rows[i:]
        want = model.paths(num, must)
        ctx.check(len(recs) == max(1, len(want)), 'paths', lambda: '%s: %d rows instead of %d' % (what, len(recs), max(1, len(want))))
        si = next((a.value for a in attrs if a.code == ntfs.T_SI and a.runs is None), None)
        oid = next((a.value for a in attrs if a.code == ntfs.T_OBJID and a.runs is None), None)
        data = next((a for a in attrs if a.code == ntfs.T_DATA and not a.name and a.lowest == 0), None)
        size = '?' if data is None else str(len(data.value) if data.runs is None else data.size)
        ads = ' '.join(sorted({a.name for a in attrs if a.code == ntfs.T_DATA and a.name}))
        wsl = find_lxattrb([a.value for a in attrs if a.code == ntfs.T_EA and a.runs is None])
        left = list(want)
        for r in recs:
            ctx.check(r[2] == ('Y' if v.in_use else 'N') and r[3] == ('Y' if v.is_dir else 'N') and r[4] == str(v.lsn), 'record-field', lambda: '%s: %r' % (what, r[:5]))
            if si is None:
                ctx.check(r[6:11] == [''] * 5, 'record-field', lambda: '%s: values of an absent attribute: %r' % (what, r[6:11]))
            else:
                c, m, e, a = struct.unpack_from('<QQQQ', si, 0)
                self.times(r, (6, 7, 8, 9), (m, a, c, e), what + ' $STANDARD_INFORMATION')
                usn = str(struct.unpack_from('<Q', si, 64)[0]) if len(si) >= 72 else ''
                ctx.check(r[10] == usn, 'record-field', lambda: '%s: USN %r, expected %r' % (what, r[10], usn))
            ctx.check(r[15] == '' if oid is None else guid_time_ok(r[15], oid), 'record-field', lambda: '%s: object ID time %r' % (what, r[15]))
            ctx.check(r[16] == size, 'record-field', lambda: '%s: size %r, expected %r' % (what, r[16], size))
            ctx.check(r[17] == ads, 'record-field', lambda: '%s: streams %r, expected %r' % (what, r[17], ads))
            if wsl is None:
                ctx.check(r[18:21] == [''] * 3, 'record-field', lambda: '%s: WSL times %r' % (what, r[18:21]))
            else:
                ctx.check(all(unix_ok(t, *w) for t, w in zip(r[18:21], wsl)), 'record-field', lambda: '%s: WSL times %r, expected %r' % (what, r[18:21], wsl))
                ctx.probe('wsl')
            if not want:
                ctx.check(r[5] == '' and r[11:15] == [''] * 4, 'paths', lambda: '%s: path %r of a file without a name' % (what, r[5]))
                continue
            hit = None
            for w in left:
                c, m, e, a = w[2][3]
                loose = w[1] or self.vague_path(w[2][0])
                if (r[5] == w[0] or loose and r[5].endswith('/' + w[2][1])) and all(ts_ok(r[11 + j], t) for j, t in enumerate((m, a, c, e))):
                    hit = w
                    break
            ctx.check(hit is not None, 'paths', lambda: '%s: row %r, expected one of %r' % (what, r[5:6] + r[11:15], [w[0] for w in left]))
            left.remove(hit)
        if want and any(w[2][2] in (0, 1, 3) for w in want):
            ctx.check(any(recs[0][5].endswith('/' + w[2][1]) for w in want if w[2][2] in (0, 1, 3)), 'paths', lambda: '%s: the first path %r uses a short name' % (what, recs[0][5]))
        # The index root.
        ents = []
        if v.is_dir:
            for a in attrs:
                if a.code == ntfs.T_IROOT and a.runs is None and a.value[:4] == b'\x30\0\0\0':
                    ents = self.index_of.get(bytes(a.value), [])
                    break
        i = 0
        while i < len(rest) and rest[i][0] == src('Index record'):
            i += 1
        idx, rest = rest[:i], rest[i:]
        ctx.check(len(idx) == len(ents), 'index-rows', lambda: '%s: %d index rows, expected %d' % (what, len(idx), len(ents)))
        for r, (rf, fn) in zip(idx, ents):
            p, ts, sz, fa, name = fn_fields(fn)
            ok = self.under(self.first_paths(num), name)
            ctx.check(r[1] == str(rf) and r[2] == '?' and r[3] == ('Y' if fa & DIRBIT else 'N') and r[16] == str(sz), 'index-rows', lambda: '%s: %r' % (what, r))
            ctx.check(r[5] in ok if ok is not None else r[5].endswith('/' + name), 'index-rows', lambda: '%s: path %r, expected %r' % (what, r[5], ok))
            self.times(r, (11, 12, 13, 14), ts, what + ' index entry')
            ctx.probe('index-row')
        # Slack.
        ctx.check(all(r[0] == src('Slack') for r in rest), 'row-order', lambda: '%s: %r' % (what, [r[0] for r in rest]))
        if any(model.cls[k][0] != 'ok' for k in [num] + must):
            return          # a torn tail: the slack is of several versions
        bufs = [w.logical[w.slack_off:] for w in [v] + [model.v[k] for k in must]]
        self.slack([(r[5], r[3], r[16], r[11:15]) for r in rest if r[0] == src('Slack')], bufs, what, lambda fn: self.under(self.lookup_paths(fn_fields(fn)[0]), fn_fields(fn)[4]))

    def known_names(self):
        if not hasattr(self, '_known'):
            s = set()
            for hist in self.sim.history.values():
                for v in hist:
                    for a in v.attrs:
                        if a.code == ntfs.T_FN and a.runs is None:
                            s.add(bytes(a.value))
            for ents in self.index_of.values():
                for _, fn in ents:
                    s.add(bytes(fn))
            for fn in getattr(self.sim, 'other_fns', ()):
                s.add(bytes(fn))
            self._known = sorted(s)
        return self._known

    def partial(self, rows, bufs, known, what):
        """The readable rest of a name before the first complete one."""
        ctx = self.ctx
        got, must, may = Counter(), Counter(), 0
        for r in rows:
            ctx.check(r[0].startswith(PARTIAL) and tuple([r[1], r[2]] + list(r[3])) == ('?',) * 6, 'partial-name', lambda: '%s: %r' % (what, r))
            got[r[0][len(PARTIAL):]] += 1
        for b in bufs:
            first = None
            for pos in range(len(b) % 2, len(b) - 31, 2):
                if all(125000000000000000 <= t <= 145000000000000000 for t in struct.unpack_from('<QQQQ', b, pos)):
                    first = pos - 8
                    break
            if first is None:
                continue
            if len(b) % 2 or not any(b.startswith(fn, first) for fn in known if first >= 0):
                may += 1
                continue
            if first < 10:
                continue
            u = struct.unpack_from('<%dH' % (first // 2 - 1), b, 2)
            runs = [w for w in ''.join(chr(v) if 32 <= v < 127 or v == 9 else '\0' for v in u).split('\0') if len(w) >= 5]
            if not runs:
                continue
            if all(v.isalnum() or v in ' _-.()' for v in runs[-1]):
                must[runs[-1]] += 1
            else:
                may += 1
        ctx.check(all(got[k] >= n for k, n in must.items()), 'partial-name', lambda: '%s: %r, expected %r' % (what, sorted(got.elements()), sorted(must.elements())))
        ctx.check(sum(got.values()) <= sum(must.values()) + may, 'made-up-slack', lambda: '%s: partial names %r, expected %r' % (what, sorted(got.elements()), sorted(must.elements())))
        if must:
            ctx.probe('partial-row', sum(must.values()))

    def slack(self, rows, bufs, what, path_of, partial=True):
        """Every name completely in the slack is reported, and nothing that is not there."""
        ctx = self.ctx
        full = [r for r in rows if '<Can be partially overwritten' not in r[0]]
        for r in full:
            name = r[0].split('/')[-1]
            raw = name.encode('utf-16le', 'surrogatepass')
            if '\ufffd' in name:
                continue
            ctx.check(any(raw in b for b in bufs), 'made-up-slack', lambda: '%s: %r is not in the slack' % (what, name))
        need = Counter()
        info = {}
        for b in bufs:
            for fn in self.known_names():
                p = b.find(fn)
                while p != -1:
                    if p % 2 == len(b) % 2:
                        _, ts, sz, fa, name = fn_fields(fn)
                        if all(125000000000000000 <= t <= 145000000000000000 for t in ts) and 0 < len(name) and '/' not in name and '\0' not in name:
                            need[fn] += 1
                    p = b.find(fn, p + 2)
        if partial:
            self.partial([r for r in rows if '<Can be partially overwritten' in r[0]], bufs, set(need), what)
        taken = [False] * len(full)
        for fn, n in sorted(need.items()):
            _, ts, sz, fa, name = fn_fields(fn)
            ok = path_of(fn)
            for _ in range(n):
                hit = None
                for j, r in enumerate(full):
                    if not taken[j] and (r[0] in ok if ok is not None else r[0].endswith('/' + name)) and r[1] == ('Y' if fa & DIRBIT else 'N') and r[2] == str(sz) and all(ts_ok(t, w) for t, w in zip(r[3], ts)):
                        hit = j
                        break
                ctx.check(hit is not None, 'slack-missing', lambda: '%s: %r (%r) not reported, slack rows %r' % (what, name, ok, [r[0] for r in full]))
                taken[hit] = True
                ctx.probe('slack-row')
