"""C16: enumerating a MoveTable (tracking.log): every move notification in the file, exactly as recorded, in file order, whatever a crash left."""
import datetime
import struct
import uuid
from dfir_ntfs import MoveTable
from ..core import SimFile, SparseDisk, SimClock, Scheduler, pick, wpick, rng_for
from ..writers.mftsim import same_time

LEVEL = 'exploration'
RUNS = {'quick': 64000, 'thorough': 700000}
SHRINK = ['damage', 'faults', 'ops']
RULE = ('one run = a MoveTable kept by a simulated link tracking service (moves appended to a circular list of entries, extension of the file, clearing after the moves were sent, header and footer updates), a crash with lost or reordered sectors, '
        'damaged sectors and entries, then one or two interleaved enumerations with read faults. Non-trivial: at least one entry and one crash, damage or fault')
STATE_MEASURE = 'distinct (sector size, size guessed or given, sectors, crash mode, damage kinds, fault kind, entries reported, outcome) tuples'
REAL = ['dfir_ntfs.MoveTable: MoveTableParser, Header, LogSector, LogSectorFooter, LogEntry']
STUB = ['link tracking service (in this module)', 'write-back disk (SparseDisk)', 'tracking.log (SimFile)']
ASSUMPTIONS = ['a sector is written atomically', 'an entry of an unknown type is skipped or ends the enumeration with an error', 'the sector size is guessed only when the first log sector was initialised']
MUST_HIT = ['crash-prefix', 'crash-reorder', 'lost-write', 'moves', 'extended', 'cleared', 'wrapped', 'zeroed-sector', 'garbage-sector', 'bad-type', 'stale-sector', 'guessed', 'eio-transient', 'eio-bad-sector', 'early-eof', 'shrunk-while-read', 'interleaved', 'unknown-type', 'bad-header',
            'machine-id-ambiguous', 'guid-time']

SIG = bytes.fromhex('eca74366feefd111b2ae00c04fb9386d')


def generate(rng, tier):
    ss = pick(rng, [512, 512, 4096])
    ops = []
    for _ in range(rng.randrange(1, 40)):
        ops.append([wpick(rng, [('move', 8), ('extend', 0.7), ('clear', 0.4), ('flush', 1.5), ('header', 0.7), ('skew', 0.2)]), rng.randrange(1 << 30)])
    sc = {'ss': ss, 'sectors': pick(rng, [1, 2, 3, 6]), 'given': rng.random() < 0.5, 'seed': rng.randrange(1 << 30), 'ops': ops, 'crash': {'mode': pick(rng, ['none', 'none', 'lost', 'prefix', 'reorder']), 'seed': rng.randrange(1 << 30)},
          'tail': pick(rng, [0, 0, 1, 124, 500, 511]), 'two': rng.random() < 0.3, 'plan': [rng.randrange(2) for _ in range(30)], 'level': pick(rng, ['entries', 'entries', 'sectors']), 'damage': [], 'faults': []}
    for _ in range(wpick(rng, [(0, 3), (1, 3), (2, 2), (4, 1)])):
        sc['damage'].append([pick(rng, ['zero', 'garbage', 'type', 'stale', 'header', 'unuse']), rng.randrange(1 << 30)])
    f = wpick(rng, [('none', 5), ('eio', 1.5), ('bad', 1), ('eof', 1), ('shrink', 1)])
    if f == 'eio':
        sc['faults'] = [{'k': 'eio', 'n': rng.randrange(0, 12)} for _ in range(rng.randrange(1, 3))]
    elif f == 'bad':
        sc['faults'] = [{'k': 'bad', 'i': rng.randrange(8)}]
    elif f == 'eof':
        sc['faults'] = [{'k': 'eof', 'at': rng.random()}]
    elif f == 'shrink':
        sc['faults'] = [{'k': 'shrink', 'n': rng.randrange(0, 10), 'at': rng.random()}]
    return sc


def guid1(r, t):
    """A version 1 UUID (raw, little endian) for 100 ns ticks since 1582."""
    return uuid.UUID(fields=(t & 0xffffffff, (t >> 32) & 0xffff, (t >> 48) & 0xfff | 0x1000, 0x80 | r.randrange(64), r.randrange(256), r.randrange(1 << 48))).bytes_le


class Service(object):
    MAX = 12

    def __init__(self, sc, ctx):
        self.ctx, self.ss, self.sc = ctx, sc['ss'], sc
        self.disk = SparseDisk(ctx, (self.MAX + 1) * self.ss)
        self.clock = SimClock(ctx)
        self.per = (self.ss - 16) // 124
        self.secs = sc['sectors']
        r = self.r = rng_for('mt', sc['seed'])
        self.machine = r.choice([b'desktop-rd341ha', b'PC', b'', b'ABCDEFGHIJKLMNOP', bytes([0x8f, 0x8a, 0x31]), bytes([0x81, 0x31])])
        self.volume = bytes(r.randrange(256) for _ in range(16))
        self.state = tuple(r.randrange(1 << 32) for _ in range(9))
        self.flags = 0
        self.entries = []
        self.cur = 0
        self.init(0, self.secs)
        self.header()
        self.disk.flush()

    def init(self, a, b):
        n = b * self.per
        for i in range(a * self.per, n):
            self.entries.append(self.blank(i, n))
        self.relink()
        for s in range(a, b):
            self.put(s)

    def relink(self):
        n = len(self.entries)
        for i, e in enumerate(self.entries):
            e['next'], e['prev'] = (i + 1) % n, (i - 1) % n

    def blank(self, i, n):
        return {'next': (i + 1) % n, 'prev': (i - 1) % n, 'type': 1, 'index': i, 'u16': 0, 'body': bytes(96), 'stamp': 0, 'u120': 0}

    def raw(self, e):
        return struct.pack('<LLLLL', e['next'], e['prev'], e['type'], e['index'], e['u16']) + e['body'] + struct.pack('<LL', e['stamp'], e['u120'])

    def put(self, s):
        b = b''.join(self.raw(e) for e in self.entries[s * self.per:(s + 1) * self.per])
        b = b.ljust(self.ss - 16, b'\0') + struct.pack('<LL', 0, self.cur % max(1, len(self.entries))) + bytes(8)
        self.disk.write((s + 1) * self.ss, b)

    def header(self):
        b = SIG + struct.pack('<LLL', 0x10000, self.flags, 0) + struct.pack('<LLL', 0, len(self.entries), (self.secs + 1) * self.ss) + self.machine.ljust(16, b'\0') + self.volume + struct.pack('<QQQ', 1, self.clock.now(), 3) + struct.pack('<9L', *self.state)
        self.hdr = b
        self.disk.write(0, b.ljust(self.ss, b'\0'))

    def apply(self, k, seed):
        r = rng_for('op', seed)
        self.clock.advance(r.randrange(1, 10 ** 12))
        if k == 'move':
            i = self.cur % len(self.entries)
            if self.cur >= len(self.entries):
                self.ctx.probe('wrapped')
            mach = r.choice([b'server-1', b'desktop-rd341ha', b'', b'0123456789abcdef', b'0123456789abcde', b'a\0zzz', bytes([0x8f, 0x8a, 0x20, 0x31]), bytes([0x81, 0xe0])])
            if mach and mach[0] > 0x7f:
                self.ctx.probe('machine-id-ambiguous')

            def g():
                if r.random() < 0.5:
                    self.ctx.probe('guid-time')
                    return guid1(r, (self.clock.now() + 0x146BF33E42C000) & ((1 << 60) - 1))
                return bytes(r.randrange(256) for _ in range(16))
            body = g() + g() + g() + mach.ljust(16, b'\0') + g() + g()
            e = self.entries[i]
            e.update(type=2, u16=r.choice([0, 0, 1]), body=body, stamp=self.clock.now() >> 32, u120=r.choice([0, 0, 9]))
            self.cur += 1
            self.put(i // self.per)
            self.ctx.probe('moves')
        elif k == 'extend' and self.secs < self.MAX:
            n = min(self.MAX, self.secs + r.choice([1, 2, 4]))
            old, self.secs = self.secs, n
            self.init(old, n)
            for s in range(old):
                if r.random() < 0.5 or s in (0, old - 1):
                    self.put(s)
            self.header()
            self.ctx.probe('extended')
        elif k == 'clear':
            for e in self.entries:
                if e['type'] == 2 and r.random() < 0.7:
                    e['type'] = 1
                    if r.random() < 0.5:
                        e['body'] = bytes(96)
            for s in range(self.secs):
                self.put(s)
            self.ctx.probe('cleared')
        elif k == 'flush':
            self.disk.flush()
        elif k == 'header':
            self.flags = r.choice([0, 1, 1, 2, 3, 0x80000001, 0xFE])
            self.state = tuple(r.randrange(1 << 32) for _ in range(9))
            self.header()
        elif k == 'skew':
            self.clock.jump(r.randrange(1 << 56))


def damage(sc, ctx, image, svc):
    ss = sc['ss']
    for k, seed in sc['damage']:
        r = rng_for('dmg', seed)
        s = r.randrange(1, svc.secs + 1)
        if k in ('zero', 'garbage', 'stale') and not sc['given'] and s == 1:
            s = svc.secs
            if s == 1:
                continue
        o = s * ss
        if k == 'zero':
            image[o:o + ss] = bytes(ss)
            ctx.fault('zeroed-sector')
        elif k == 'garbage':
            image[o:o + ss] = bytes(r.randrange(256) for _ in range(ss))
            ctx.fault('garbage-sector')
        elif k == 'stale':
            t = r.randrange(1, svc.secs + 1) * ss
            image[o:o + ss] = bytes(image[t:t + ss])
            ctx.fault('stale-sector')
        elif k == 'type':
            p = o + r.randrange(svc.per) * 124 + 8
            image[p:p + 4] = struct.pack('<L', r.choice([0, 3, 0x200, 0xffffffff]))
            ctx.fault('bad-type')
        elif k == 'unuse':
            p = o + r.randrange(svc.per) * 124 + 8
            image[p:p + 4] = struct.pack('<L', 1)
            ctx.fault('unused-mark')
        elif k == 'header':
            image[0:16] = bytes(16) if r.random() < 0.5 else SIG[:15] + b'\0'
            ctx.fault('bad-header')


def decode(b):
    b = b.split(b'\0')[0]
    a = b.decode('cp866')
    try:
        c = b.decode('cp1252')
    except UnicodeDecodeError:
        return a
    return a if a == c else '"%s" (cp-866), "%s" (windows-1252)' % (a, c)


def guid_time(b):
    u = uuid.UUID(bytes_le=b)
    return u.time - 0x146BF33E42C000 if u.version == 1 else None


def close(got, ticks):
    # The parser computes with floating point numbers: times thousands of years away are off by some microseconds.
    return got is not None and abs((got - datetime.datetime(1601, 1, 1)) - datetime.timedelta(microseconds=ticks // 10)) < datetime.timedelta(microseconds=40)


def same(x, raw):
    return (x.get_next_log_entry_index(), x.get_previous_log_entry_index(), x.get_log_entry_type(), x.get_log_entry_index()) == struct.unpack_from('<4L', raw) and x.get_object_id().bytes_le == raw[20:36]


def compare(ctx, x, raw, where):
    nx, pv, ty, ix, u16 = struct.unpack_from('<5L', raw)
    got = (x.get_next_log_entry_index(), x.get_previous_log_entry_index(), x.get_log_entry_type(), x.get_log_entry_index(), x.get_unknown_16(), x.get_unknown_120())
    ctx.check(got == (nx, pv, ty, ix, u16, struct.unpack_from('<L', raw, 120)[0]), 'wrong-entry', lambda: '%s: %r' % (where, got))
    g = [raw[20 + 16 * i:36 + 16 * i] for i in range(3)] + [raw[84:100], raw[100:116]]
    ids = [x.get_object_id()] + list(x.get_droid()) + list(x.get_birth_droid())
    ctx.check([u.bytes_le for u in ids] == g, 'wrong-entry', lambda: '%s: identifiers %r' % (where, ids))
    m = raw[68:84]
    ctx.check(x.get_machine_id_raw() == m.split(b'\0')[0] and x.get_machine_id() == decode(m), 'wrong-entry', lambda: '%s: machine ID %r' % (where, x.get_machine_id()))
    st = struct.unpack_from('<L', raw, 116)[0] << 32
    a, b = x.get_timestamp()
    ctx.check(same_time(a, st) and same_time(b, st | 0xffffffff), 'wrong-time', lambda: '%s: %r %r' % (where, a, b))
    for got_t, want in zip(x.get_guid_timestamps(), (guid_time(g[0]), guid_time(g[2]), guid_time(g[4]))):
        if want is None:
            ctx.check(got_t is None, 'wrong-time', lambda: '%s: %r for a GUID without a time' % (where, got_t))
        elif want >= 0:
            ctx.check(close(got_t, want), 'wrong-time', lambda: '%s: GUID time %r' % (where, got_t))


def execute(sc, ctx):
    ss = sc['ss']
    svc = Service(sc, ctx)
    for k, seed in sc['ops']:
        svc.apply(k, seed)
    image = svc.disk.crash(sc['crash']['mode'], sc['crash']['seed'])
    damage(sc, ctx, image, svc)
    size = (svc.secs + 1) * ss
    img = image[0:size] + (b'\xa5' * min(sc['tail'], ss - 1))
    size = len(img)
    faults = []
    for f in sc['faults']:
        if f['k'] == 'bad':
            lo = f['i'] % (svc.secs + 1) * ss
            faults.append({'k': 'bad', 'lo': lo, 'hi': lo + 512})
        elif f['k'] in ('eof', 'shrink'):
            at = int(size * f['at'])
            if int(f['at'] * 1000) % 3 == 0:
                at = at // 512 * 512        # a whole number of small sectors
            at = max(530 if not sc['given'] else 0, at)
            faults.append(dict(f, at=at))
        else:
            faults.append(f)
    kinds = {f['k'] for f in faults}
    end = min([f['at'] for f in faults if f['k'] == 'eof'] + [size])
    upto = min([f['at'] for f in faults if f['k'] in ('eof', 'shrink')] + [size])
    if sc['crash']['mode'] == 'none' and not sc['damage']:
        # What the service meant, without going through the image (the chain links of sectors not rewritten on extension may be old).
        for s in range(svc.secs):
            for j in range(svc.per):
                want = svc.raw(svc.entries[s * svc.per + j])
                ctx.check(bytes(img[(s + 1) * ss + j * 124 + 8:(s + 1) * ss + j * 124 + 124]) == want[8:], 'harness', 'entry')
    vf = SimFile(ctx, img, faults, 'tracking')
    parser = None
    for _ in range(4):
        try:
            parser = MoveTable.MoveTableParser(vf, ss) if sc['given'] else MoveTable.MoveTableParser(vf)
            break
        except OSError:
            ctx.probe('read-error-raised')
    if parser is None:
        return
    if not sc['given']:
        ctx.probe('guessed')
        ctx.check(parser.sector_size == ss, 'wrong-sector-size', '%d instead of %d', parser.sector_size, ss)
    # The header.
    fired = vf.n_fired
    hok = bytes(img[:16]) == SIG and end >= ss
    try:
        h = parser.get_header()
    except OSError as e:
        ctx.check(vf.n_fired > fired, 'unhandled-OSError', lambda: repr(e))
        ctx.probe('read-error-raised')
    except ValueError as e:
        ctx.check(not hok or vf.end < ss, 'header-refused', lambda: repr(e))
    else:
        ctx.check(bytes(img[:16]) == SIG and end >= 512, 'made-up-header', '')
        e = h.get_extended_header()
        raw = bytes(img[:132])
        ctx.check((h.get_unknown_16(), h.get_flags(), h.get_unknown_24()) + tuple(h.get_expansion_data()) == struct.unpack_from('<6L', raw, 16), 'wrong-header', '')
        ctx.check(h.is_log_flushed() == bool(raw[20] & 1), 'wrong-header', 'flushed')
        ctx.check((e.machine_id, e.volume_object_id.bytes_le) == (decode(raw[40:56]), raw[56:72]) and tuple(e[2:]) == struct.unpack_from('<QQQ9L', raw, 72), 'wrong-header', lambda: repr(e))
    results = {}

    def reader(name):
        for attempt in range(5):
            out = []
            fired = vf.n_fired
            try:
                if sc['level'] == 'entries':
                    for x in parser.log_entries():
                        out.append(x)
                        yield
                        ctx.check(len(out) <= svc.MAX * svc.per, 'no-progress', '%d entries', len(out))
                else:
                    n = 0
                    for s in parser.log_sectors():
                        yield
                        n += 1
                        ctx.check(n <= svc.MAX, 'no-progress', '%d sectors', n)
                        f = s.get_footer()
                        b = bytes(img[n * ss:(n + 1) * ss])
                        ctx.check((f.get_lowest_log_entry_index_present(), f.get_next_log_entry_index()) == struct.unpack_from('<LL', b, ss - 16) and f.get_unused() == b[-8:], 'wrong-footer', 'sector %d', n)
                        try:
                            for x in s.log_entries():
                                out.append(x)
                        except NotImplementedError:
                            ctx.probe('unknown-type')
                            out.append(None)
            except OSError as e:
                ctx.check(vf.n_fired > fired, 'unhandled-OSError', lambda: repr(e))
                ctx.probe('read-error-raised')
                continue
            except NotImplementedError:
                ctx.probe('unknown-type')
                out.append(None)
            results.setdefault(name, []).append(out)
            return
    if sc['two']:
        ctx.probe('interleaved')
        Scheduler(ctx, sc['plan']).run({'a': reader('a'), 'b': reader('b')})
    else:
        for _ in reader('a'):
            pass
    total = 0
    for name, lst in results.items():
        out = lst[0]
        i = 0
        done = False
        for s in range(1, end // ss):
            if done:
                break
            must = (s + 1) * ss <= upto
            for j in range(svc.per):
                raw = bytes(img[s * ss + j * 124:s * ss + j * 124 + 124])
                ty = struct.unpack_from('<L', raw, 8)[0]
                where = 'sector %d entry %d' % (s, j)
                if ty == 2 or (ty == 1 and sc['level'] == 'sectors'):
                    if not must and (i >= len(out) or out[i] is None or not same(out[i], raw)):
                        done = True
                        break
                    ctx.check(i < len(out), 'entry-lost', lambda: '%s not reported' % where)
                    ctx.check(out[i] is not None, 'entry-lost', lambda: '%s: the enumeration failed before it' % where)
                    compare(ctx, out[i], raw, where)
                    i += 1
                    total += 1
                elif ty != 1:
                    if i < len(out) and out[i] is None:
                        i += 1
                        if sc['level'] == 'entries':
                            done = True
                        break
        ctx.check(i == len(out), 'made-up-entry', lambda: '%d more entries than the file has' % (len(out) - i))
    ctx.nontrivial = total > 0 and (sc['crash']['mode'] != 'none' or bool(sc['damage']) or bool(sc['faults']))
    ctx.state(ss, sc['given'], svc.secs, sc['crash']['mode'], tuple(sorted({d[0] for d in sc['damage']})), tuple(sorted(kinds)), min(total, 12), sc['level'])
    ctx.sample = {'sector': ss, 'sectors': svc.secs, 'crash': sc['crash']['mode'], 'damage': [d[0] for d in sc['damage']], 'faults': sc['faults'], 'entries': total}
