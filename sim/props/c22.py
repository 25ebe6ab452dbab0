"""C22: carving file control blocks from a memory image: every complete one reported exactly, nothing made up, refused when the layout cannot be told."""
import csv
import datetime
import io
import struct
from dfir_ntfs import MFT
from ..core import SimFile, SimClock, Scheduler, pick, wpick, rng_for
from .. import cli

LEVEL = 'exploration'
RUNS = {'quick': 9000, 'thorough': 150000}
SHRINK = ['faults', 'ops']
RULE = ('one run = a simulated memory manager and file system (file control blocks allocated, updated, freed, overwritten, pages reused, blocks of another layout, stray signatures and timestamps), whose memory is acquired page by page while it goes on running, '
        'then carved through the library (one or two interleaved enumerations, repeated after an error) or ntfs_parser --mem, with read errors, a cut image and a full output disk. Non-trivial: blocks found or the image refused')
STATE_MEASURE = 'distinct (layout, pages, blocks found, how it was read, fault kinds, outcome) tuples'
REAL = ['dfir_ntfs.MFT.MetadataCarver', 'ntfs_parser: --mem']
STUB = ['memory manager and NTFS driver (sim)', 'acquisition tool (sim)', 'image file (SimFile)', 'open() of the script', 'process exit']
ASSUMPTIONS = ['a page of memory is acquired atomically', 'file control blocks lie within one page', 'timestamps lie between 1990 and 2028']
MUST_HIT = ['smeared', 'found', 'refused-few', 'refused-mixed', 'other-layout', 'remnant', 'overwritten', 'stray-signature', 'crossing-page', 'short-last-page', 'tiny-last-page', 'interleaved', 'again', 'script', 'eio-transient', 'eio-bad-sector', 'early-eof',
            'enospc', 'short-write', 'failed-visibly', 'edge-timestamp']

LO, HI = 123000000000000000, 135000000000000000
SIG = b'\x02\x07'
EPOCH = datetime.datetime(1601, 1, 1)


def generate(rng, tier):
    d = 2 * rng.randrange(8, 72)
    sc = {'pages': wpick(rng, [(rng.randrange(1, 6), 2), (rng.randrange(6, 30), 4), (rng.randrange(30, 60), 1)]), 'dup': d, 'real': pick(rng, [d + 56, d + 64, d + 56 + 2 * rng.randrange(0, max(1, (208 - d - 56) // 2))]), 'fill': rng.randrange(3), 'align': pick(rng, [2, 8, 16, 16]),
          'tail': wpick(rng, [(0, 3), (rng.randrange(1, 512), 1), (rng.randrange(512, 4096), 2)]), 'start': pick(rng, [131000000000000000, 133000000000000000, LO, HI - 1000]), 'mode': wpick(rng, [('one', 3), ('two', 2), ('again', 2), ('script', 3)]),
          'plan': [rng.randrange(2) for _ in range(30)], 'ops': [], 'faults': []}
    sc['real'] = min(sc['real'], 206)
    n = wpick(rng, [(rng.randrange(5, 40), 1), (rng.randrange(25, 60), 3), (rng.randrange(60, 260), 3)])
    other = pick(rng, [0, 0, 0, 1, 4, 10])
    for i in range(n):
        sc['ops'].append([wpick(rng, [('alloc', 10), ('touch', 1.5), ('free', 1), ('over', 0.7), ('sig', 0.8), ('stamps', 0.3), ('other', other * 0.5), ('page', 0.3), ('cross', 0.3)]), rng.randrange(1 << 30)])
    if rng.random() < 0.6:
        k = rng.randrange(max(1, len(sc['ops'])))
        for i in range(sc['pages']):
            sc['ops'].insert(min(len(sc['ops']), k + i * max(1, (n - k) // sc['pages'])), ['acquire', 0])
    m = wpick(rng, [('none', 5), ('eio', 1.2), ('bad', 1), ('eof', 1), ('out', 1.2 if sc['mode'] == 'script' else 0)])
    if m == 'eio':
        sc['faults'] = [{'k': 'eio', 'n': rng.randrange(0, 60)} for _ in range(rng.randrange(1, 3))]
    elif m == 'bad':
        sc['faults'] = [{'k': 'bad', 'at': rng.random()}]
    elif m == 'eof':
        sc['faults'] = [{'k': 'eof', 'at': rng.random()}]
    elif m == 'out':
        sc['faults'] = [pick(rng, [{'k': 'out', 'cap': pick(rng, [0, 50, 500, 4096, 9000]), 'err': pick(rng, ['enospc', 'eio'])}, {'k': 'oshort', 'n': pick(rng, [1, 2, 3])}])]
    return sc


class Memory(object):
    def __init__(self, sc, ctx):
        self.sc, self.ctx = sc, ctx
        self.clock = SimClock(ctx, sc['start'])
        self.mem = bytearray(4096 * sc['pages'] + sc['tail'])
        if sc['fill']:
            self.mem[:] = (b'\xcd' if sc['fill'] == 1 else bytes(range(1, 254, 3))) * len(self.mem)
            del self.mem[4096 * sc['pages'] + sc['tail']:]
        self.got = bytearray()
        self.blocks = []      # live ones: (offset, reference)
        self.taken = []       # ranges in use
        self.size = sc['real'] + 8
        self.ops = 0

    def now(self):
        self.clock.advance(10000019)
        t = min(max(self.clock.now(), LO), HI)
        if t in (LO, HI):
            self.ctx.probe('edge-timestamp')
        return t

    def room(self, rng, n):
        for _ in range(8):
            p = rng.randrange(-(-len(self.mem) // 4096)) * 4096
            top = min(4096, len(self.mem) - p)
            if top < n:
                continue
            o = p + rng.randrange(0, top - n + 1) // self.sc['align'] * self.sc['align']
            if rng.random() < 0.1:
                o = p + (top - n) // 2 * 2
            if not any(a < o + n and o < b for a, b in self.taken):
                return o

    def block(self, rng, d, a):
        b = bytearray(rng.choice([b'\0', b'\x11', b'\xf7'])) * (a + 8)
        b[:2] = SIG
        struct.pack_into('<H', b, 2, rng.randrange(1 << 16))
        struct.pack_into('<Q', b, 8, rng.randrange(1, 60000) << 48 | rng.randrange(1 << 20))
        t = [self.now() - rng.choice([0, 0, rng.randrange(1 << 40)]) for _ in range(5)]
        t = [min(max(x, LO), HI) for x in t]
        struct.pack_into('<QQQQ', b, d, *t[:4])
        struct.pack_into('<QQ', b, d + 32, rng.randrange(1 << 30), rng.randrange(1 << 30))
        struct.pack_into('<Q', b, a, t[4])
        return b

    def put(self, o, b):
        self.mem[o:o + len(b)] = b

    def apply(self, k, seed):
        sc, ctx = self.sc, self.ctx
        rng = rng_for('mem', seed)
        self.ops += 1
        d, a = sc['dup'], sc['real']
        if k == 'acquire':
            if len(self.got) < len(self.mem):
                p = len(self.got)
                self.got += self.mem[p:p + 4096]
                ctx.fault('smeared')
        elif k == 'alloc':
            o = self.room(rng, self.size)
            if o is None:
                ctx.probe('memory-full')
                return
            self.put(o, self.block(rng, d, a))
            self.blocks.append(o)
            self.taken.append((o, o + self.size))
        elif k == 'other':
            # a block of another version of the driver, or a stale one
            d2 = 2 * rng.randrange(8, 72)
            a2 = min(206, d2 + 56 + 2 * rng.randrange(0, 20))
            o = self.room(rng, a2 + 8)
            if o is not None:
                self.put(o, self.block(rng, d2, a2))
                self.taken.append((o, o + a2 + 8))
                ctx.fault('other-layout')
        elif k == 'cross':
            # not complete within a page
            p = rng.randrange(sc['pages']) * 4096
            cut = rng.randrange(2, self.size) // 2 * 2
            o = p + 4096 - cut
            if not any(x < p + 4096 and o < y for x, y in self.taken):
                self.mem[o:p + 4096] = self.block(rng, d, a)[:cut]
                self.taken.append((o, p + 4096))
                ctx.fault('crossing-page')
        elif k in ('touch', 'free', 'over') and self.blocks:
            o = rng.choice(self.blocks)
            if k == 'touch':
                struct.pack_into('<Q', self.mem, o + rng.choice([d, d + 8, d + 16, d + 24, a]), self.now())
                return
            self.blocks.remove(o)
            if k == 'free':
                ctx.fault('remnant')       # stays as it is
            else:
                i = rng.randrange(0, self.size // 2) * 2
                n = rng.choice([2, 8, 16, self.size])
                self.put(o + i, rng.choice([b'\0', b'\xff', b'\x02\x07'])[:2] * (min(n, self.size - i) // 2) if rng.random() < 0.5 else bytes(min(n, self.size - i)))
                self.taken = [x for x in self.taken if x[0] != o]
                ctx.fault('overwritten')
        elif k == 'sig':
            o = self.room(rng, 2)
            if o is not None:
                self.put(o, SIG if rng.random() < 0.7 else SIG * 3)
                ctx.fault('stray-signature')
        elif k == 'stamps':
            o = self.room(rng, 64)
            if o is not None:
                self.put(o, struct.pack('<QQQQQQQQ', *[self.now() for _ in range(8)]))
                ctx.fault('stray-timestamps')
        elif k == 'page':
            p = rng.randrange(sc['pages']) * 4096
            self.mem[p:p + 4096] = bytes(4096)
            self.blocks = [o for o in self.blocks if o // 4096 != p // 4096]
            self.taken = [x for x in self.taken if x[0] // 4096 != p // 4096]
            ctx.fault('page-reused')

    def finish(self):
        self.got += self.mem[len(self.got):]
        return bytes(self.got)


def valid(x):
    return LO <= x <= HI


def at(page, o, n):
    b = page[o:o + 8 * n]
    if len(b) == 8 * n:
        t = struct.unpack('<%dQ' % n, b)
        if all(valid(x) for x in t):
            return t


def scan(img, dup=None, real=None):
    """Candidates in the order of the image: (position, layout, reference, times)."""
    out = []
    for p in range(0, len(img), 4096):
        page = img[p:p + 4096]
        if len(page) < 512:
            break
        o = page.find(SIG)
        while o >= 0:
            step = 1
            if o % 2 == 0:
                for d in (range(0, 144, 2) if dup is None else (dup,)):
                    t = at(page, o + d, 4)
                    if t:
                        for a in (range(d + 56, 208, 2) if real is None else (real,)):
                            r = at(page, o + a, 1)
                            if r:
                                out.append((p + o, d, a, struct.unpack_from('<Q', page, o + 8)[0], t + r))
                                step = a + 8
                                break
                        break
            o = page.find(SIG, o + step)
    return out


def expect(img):
    """('refused-few' | 'refused-mixed' | None when it is a tie, [])  or ('found', blocks)"""
    c = scan(img)[:100]
    if len(c) < 25:
        return 'refused-few', []
    best = []
    for i in (1, 2):
        n = {}
        for x in c:
            n[x[i]] = n.get(x[i], 0) + 1
        m = max(n.values())
        w = [k for k in n if n[k] == m]
        best.append((m, w))
    if any(m < 20 for m, _ in best):
        return 'refused-mixed', []
    if any(len(w) > 1 for _, w in best):
        return None, []
    return 'found', scan(img, best[0][1][0], best[1][1][0])


def same(dt, t):
    if not isinstance(dt, datetime.datetime):
        return False
    return abs((dt - EPOCH) // datetime.timedelta(microseconds=1) - t // 10) <= 2


def verify(ctx, got, want):
    ctx.check(len(got) == len(want), 'wrong-count', lambda: '%d file control blocks reported, %d are in the image' % (len(got), len(want)))
    for g, (p, d, a, ref, t) in zip(got, want):
        ctx.evaluations += 1
        ctx.check(g.positions == (p, d, a) and g.possible_file_reference == ref, 'wrong-block', lambda: '%r, reference %d instead of %r, reference %d' % (g.positions, g.possible_file_reference, (p, d, a), ref))
        ctx.check(same(g.ctime, t[0]) and same(g.mtime, t[1]) and same(g.etime, t[2]) and same(g.atime, t[3]) and same(g.atime_real, t[4]), 'wrong-timestamps', lambda: '%r instead of %r' % (g, t))


def parse_ts(s):
    try:
        return datetime.datetime.strptime(s, '%Y-%m-%d %H:%M:%S.%f' if '.' in s else '%Y-%m-%d %H:%M:%S')
    except ValueError:
        return None


def run_script(sc, ctx, image, faults, state, want):
    plan = {}
    for f in sc['faults']:
        if f['k'] == 'out':
            plan = {'cap': f['cap'], 'err': f['err']}
        elif f['k'] == 'oshort':
            plan = {'short': f['n']}
    files = []

    def opener(fl):
        def f():
            files.append(SimFile(ctx, image, fl, 'mem'))
            return files[-1]
        return f
    ctx.probe('script')
    vfs = cli.Vfs(ctx, {'mem': opener(faults)}, {'out': plan})
    r = cli.run(ctx, 'ntfs_parser', ['--mem', 'mem', 'out'], vfs)
    out = vfs.written.get('out')
    data = bytes(out.data) if out is not None else b''
    if sum(f.n_fired for f in files) or (out is not None and out.failed):
        ctx.check(r.status != 0 and r.error is not None, 'failure-hidden', lambda: 'an I/O error occurred and the script ended with status 0 (%d bytes written)' % len(data))
        ctx.check(isinstance(r.error, OSError) or state != 'found' and isinstance(r.error, ValueError), 'wrong-failure', lambda: repr(r.error))
        ctx.probe('failed-visibly')
        vfs = cli.Vfs(ctx, {'mem': opener([f for f in faults if f['k'] == 'eof'])}, {'out': {}})
        r = cli.run(ctx, 'ntfs_parser', ['--mem', 'mem', 'out'], vfs)
        full = bytes(vfs.written['out'].data)
        ctx.check(full[:len(data)] == data, 'garbled-output', 'the output before the failure is not the beginning of the table')
        data = full
    rows = list(csv.reader(io.StringIO(data.decode('utf-8'), newline='')))
    ctx.check(rows[:1] == [['Possible MFT reference number', 'M timestamp', 'A timestamp', 'C timestamp', 'E timestamp', 'A timestamp (real)']], 'wrong-header', lambda: repr(rows[:1]))
    if state != 'found':
        ctx.check(isinstance(r.error, ValueError) and r.status != 0 and len(rows) == 1, 'not-refused', lambda: '%r, %d rows' % (r.error, len(rows)))
        return
    ctx.check(r.error is None and r.status == 0, 'script-failed', lambda: repr(r.error))
    ctx.check(len(rows) == len(want) + 1, 'wrong-count', lambda: '%d rows, %d blocks in the image' % (len(rows) - 1, len(want)))
    for g, (p, d, a, ref, t) in zip(rows[1:], want):
        ctx.check(len(g) == 6 and g[0] == str(ref) and all(same(parse_ts(x), t[i]) for x, i in zip(g[1:], (1, 3, 0, 2, 4))), 'wrong-row', lambda: '%r instead of reference %d, %r' % (g, ref, t))


def execute(sc, ctx):
    m = Memory(sc, ctx)
    for k, seed in sc['ops']:
        m.apply(k, seed)
    image = m.finish()
    faults = []
    for f in sc['faults']:
        if f['k'] == 'eio':
            faults.append(f)
        elif f['k'] == 'bad':
            lo = int(len(image) * f['at']) // 512 * 512
            faults.append({'k': 'bad', 'lo': lo, 'hi': lo + 512})
        elif f['k'] == 'eof':
            faults.append({'k': 'eof', 'at': int(len(image) * f['at'])})
    end = min([f['at'] for f in faults if f['k'] == 'eof'] + [len(image)])
    if end % 4096:
        ctx.probe('short-last-page' if end % 4096 >= 512 else 'tiny-last-page')
    state, want = expect(image[:end])
    if state is None:
        return
    ctx.probe(state)
    kinds = {f['k'] for f in sc['faults']}
    if sc['mode'] == 'script':
        run_script(sc, ctx, image, faults, state, want)
    else:
        vf = SimFile(ctx, image, faults, 'mem')
        carver = None
        done = 0
        for attempt in range(6):
            fired = vf.n_fired
            outs = [[], []]
            try:
                if carver is None:
                    carver = MFT.MetadataCarver(vf)

                def consume(k):
                    for x in carver.carve_fcb_timestamps():
                        outs[k].append(x)
                        ctx.step()
                        ctx.check(len(outs[k]) <= len(want) + 5, 'made-up', 'more blocks than the image holds')
                        yield
                if sc['mode'] == 'two' and state == 'found':
                    Scheduler(ctx, sc['plan']).run({'a': consume(0), 'b': consume(1)})
                    ctx.probe('interleaved')
                else:
                    for _ in consume(0):
                        pass
            except OSError:
                ctx.check(vf.n_fired > fired, 'read-error', 'an I/O error without a fault')
                ctx.nontrivial = True
                if 'bad' in kinds:
                    break
                continue
            except ValueError as e:
                ctx.check(state != 'found' and not outs[0], 'refused', lambda: '%d file control blocks in the image, but: %r' % (len(want), e))
                ctx.nontrivial = True
                done += 1
            else:
                ctx.check(vf.n_fired == fired, 'error-hidden', 'a read failed, but the enumeration did not')
                ctx.check(state == 'found', 'not-refused', lambda: '%d blocks from an image that does not tell the layout' % len(outs[0]))
                verify(ctx, outs[0], want)
                if sc['mode'] == 'two':
                    verify(ctx, outs[1], want)
                done += 1
            if sc['mode'] != 'again' or done == 2:
                break
            ctx.probe('again')
    ctx.check_no_writes()
    if want:
        ctx.nontrivial = True
    ctx.state(sc['dup'], sc['real'], sc['pages'] // 4, len(want) // 8, sc['mode'], tuple(sorted(kinds)), state)
    ctx.sample = {'layout': [sc['dup'], sc['real']], 'pages': sc['pages'], 'ops': sc['ops'][:4], 'mode': sc['mode'], 'faults': sc['faults'], 'blocks': len(want), 'outcome': state}
