"""Simulator core: PRNG, clock, simulated disk and file objects, fault plans, run context, budgets.

Every source of nondeterminism the properties depend on goes through this module:
  * choices          -> Rng (derived from VERIF_SEED, the property id and the run number only)
  * time             -> SimClock (the only clock the simulated writers read; the code under test reads none)
  * durable storage  -> SimDisk (write-back cache with barriers, crash, lost/torn/reordered sectors)
  * input streams    -> SimFile (the only file object the code under test sees; injects EIO, EOF, bad sectors)
  * output streams   -> SimOut (short/failed writes, full disk)
  * scheduling       -> Scheduler (steps cooperating consumers one call at a time)
"""
import hashlib
import io
import errno
import random
import zlib
from collections import Counter


class Violation(Exception):
    """A property does not hold in this run."""

    def __init__(self, kind, detail=''):
        super().__init__('%s: %s' % (kind, detail))
        self.kind = kind
        self.detail = detail


class HarnessError(Exception):
    """The harness itself is wrong (never reported as a violation)."""


class StepBudgetExceeded(BaseException):
    """Raised inside the code under test when it used up its step budget (a BaseException, so that it is not swallowed)."""


class CpuBudgetExceeded(BaseException):
    """Raised (from a CPU-time alarm) inside the code under test when it makes no I/O but does not finish."""


class InjectedIOError(OSError):
    """The I/O error the simulator injects."""


def rng_for(*path):
    h = hashlib.sha256('/'.join(str(p) for p in path).encode()).digest()
    return random.Random(int.from_bytes(h[:16], 'big'))


class Ctx(object):
    """State of one simulated run: event log, fault/probe counters, states reached."""

    def __init__(self, keep_events=False, step_budget=2000000):
        self.faults = Counter()
        self.probes = Counter()
        self.states = set()
        self.evaluations = 0
        self.sim_time = 0
        self.steps = 0
        self.step_budget = step_budget
        self._h = hashlib.sha1()
        self.n_events = 0
        self.events = [] if keep_events else None
        self.writes = []
        self.nontrivial = False
        self.sample = None

    def ev(self, *a):
        s = repr(a)
        self._h.update(s.encode('utf-8', 'surrogatepass'))
        self.n_events += 1
        if self.events is not None and len(self.events) < 4000:
            self.events.append(s[:400])

    def digest(self):
        return self._h.hexdigest()

    def fault(self, kind, n=1):
        self.faults[kind] += n
        self.ev('fault', kind)

    def probe(self, name, n=1):
        self.probes[name] += n

    def state(self, *sig):
        self.states.add(zlib.crc32(repr(sig).encode()) & 0xffffffff)

    def step(self, n=1):
        self.steps += n
        if self.steps > self.step_budget:
            raise StepBudgetExceeded('step budget of %d used up' % self.step_budget)

    def check(self, cond, kind, detail='', *fmt):
        """One oracle evaluation."""
        self.evaluations += 1
        if not cond:
            if callable(detail):
                detail = detail()
            raise Violation(kind, detail % fmt if fmt else detail)

    def check_no_writes(self):
        self.evaluations += 1
        if self.writes:
            raise Violation('evidence-modified', 'input was written to: %r' % (self.writes[:3],))


class SimClock(object):
    """Simulated FILETIME clock (100 ns ticks). Jumps and skew are faults."""

    def __init__(self, ctx, start=131000000000000000):
        self.ctx = ctx
        self.t = start

    def advance(self, ticks):
        self.t += ticks
        self.ctx.sim_time += abs(ticks)

    def now(self):
        return self.t

    def jump(self, to):
        self.ctx.fault('clock-jump')
        self.t = to


class SimDisk(object):
    """Sector device with a volatile write-back cache. Writes are durable only after flush(); a crash keeps an arbitrary
    subset of the sectors written since the last flush (in write order per sector)."""

    def __init__(self, ctx, size, sector=512, fill=0):
        self.ctx = ctx
        self.sector = sector
        self.durable = bytearray([fill]) * size
        self.cache = bytearray(self.durable)
        self.pending = []  # (offset, data)
        self.n_writes = 0

    def __len__(self):
        return len(self.durable)

    def write(self, off, data):
        if off < 0 or off + len(data) > len(self.cache):
            raise HarnessError('write outside of the simulated disk: %d+%d > %d' % (off, len(data), len(self.cache)))
        self.cache[off:off + len(data)] = data
        self.pending.append((off, bytes(data)))
        self.n_writes += 1
        self.ctx.ev('w', off, len(data), zlib.crc32(data))

    def read(self, off, n):
        return bytes(self.cache[off:off + n])

    def flush(self):
        for off, data in self.pending:
            self.durable[off:off + len(data)] = data
        self.pending = []

    def crash(self, mode, seed):
        """Lose power now. mode: 'none' (everything pending survives), 'lost' (nothing pending survives), 'prefix' (a
        prefix of the pending writes survives, the last one possibly torn), 'reorder' (any subset of the pending
        sectors survives). Returns the durable image."""
        rng = rng_for('crash', seed)
        s = self.sector
        self.ctx.fault('crash-' + mode)
        if mode == 'none':
            self.flush()
        elif mode == 'lost':
            if self.pending:
                self.ctx.fault('lost-write', len(self.pending))
        elif mode == 'prefix':
            n = rng.randrange(len(self.pending) + 1) if self.pending else 0
            for i, (off, data) in enumerate(self.pending[:n + 1]):
                if i < n:
                    self.durable[off:off + len(data)] = data
                else:
                    keep = rng.randrange(0, (len(data) + s - 1) // s + 1) * s
                    keep = min(keep, len(data))
                    if 0 < keep < len(data):
                        self.ctx.fault('torn-write')
                    self.durable[off:off + keep] = data[:keep]
            if n < len(self.pending):
                self.ctx.fault('lost-write', len(self.pending) - n)
        elif mode == 'reorder':
            for off, data in self.pending:
                kept = 0
                pos = 0
                while pos < len(data):
                    end = min(len(data), ((off + pos) // s + 1) * s - off)
                    if rng.random() < 0.5:
                        self.durable[off + pos:off + end] = data[pos:end]
                        kept += 1
                    pos = end
                if kept * s < len(data):
                    self.ctx.fault('torn-write' if kept else 'lost-write')
        else:
            raise HarnessError(mode)
        self.pending = []
        self.cache = self._copy()
        return self._image()

    def _copy(self):
        return bytearray(self.durable)

    def _image(self):
        return bytes(self.durable)


class Sparse(object):
    """A sparse byte array (slices only): pages that were never written read as zeros."""
    PAGE = 0x4000

    def __init__(self, size, pages=None):
        self.size = size
        self.pages = dict(pages) if pages else {}

    def __len__(self):
        return self.size

    def copy(self):
        return Sparse(self.size, self.pages)

    def __getitem__(self, sl):
        a, b, _ = sl.indices(self.size)
        P = self.PAGE
        if a >= b:
            return b''
        i = a // P
        if (b - 1) // P == i:
            pg = self.pages.get(i)
            return bytes(b - a) if pg is None else pg[a - i * P:b - i * P]
        out = []
        pos = a
        while pos < b:
            i = pos // P
            e = min(b, (i + 1) * P)
            pg = self.pages.get(i)
            out.append(bytes(e - pos) if pg is None else pg[pos - i * P:e - i * P])
            pos = e
        return b''.join(out)

    def __setitem__(self, sl, data):
        a, b, _ = sl.indices(self.size)
        if b - a != len(data):
            raise HarnessError('sparse write of %d bytes to %d:%d' % (len(data), a, b))
        P = self.PAGE
        pos = a
        while pos < b:
            i = pos // P
            e = min(b, (i + 1) * P)
            part = bytes(data[pos - a:e - a])
            if e - pos != P:
                pg = self.pages.get(i) or bytes(P)
                part = pg[:pos - i * P] + part + pg[e - i * P:]
            self.pages[i] = part
            pos = e


class SparseDisk(SimDisk):
    """A SimDisk of any size: only written pages take memory."""

    def __init__(self, ctx, size, sector=512):
        self.ctx = ctx
        self.sector = sector
        self.durable = Sparse(size)
        self.cache = Sparse(size)
        self.pending = []
        self.n_writes = 0

    def _copy(self):
        return self.durable.copy()

    def _image(self):
        return self.durable.copy()


class SimFile(io.RawIOBase):
    """The file object handed to the code under test: read-only, seekable, over an in-memory image, with a fault plan.

    Fault plan entries (dicts):
      {'k': 'eio', 'n': i}             the i-th read call fails once with EIO
      {'k': 'bad', 'lo': a, 'hi': b}   every read touching [a, b) fails with EIO (bad sectors)
      {'k': 'eof', 'at': a}            the image ends at offset a (truncated acquisition)
      {'k': 'short', 'n': i, 'keep': j} the i-th read call returns at most j bytes of what it should
      {'k': 'shrink', 'n': i, 'at': a} from the i-th read call on the file ends at offset a (cut short while it is being read)
    """

    def __init__(self, ctx, data, faults=(), name='f'):
        io.RawIOBase.__init__(self)
        self.ctx = ctx
        self.img = data
        self.pos_ = 0
        self.n_reads = 0
        self.n_fired = 0
        self.name_ = name
        self.armed = True
        self.end = len(data)
        self.eio = {}
        self.short = {}
        self.bad = []
        self.shrink = {}
        for f in faults:
            if f['k'] == 'eio':
                self.eio[f['n']] = f
            elif f['k'] == 'bad':
                self.bad.append((f['lo'], f['hi']))
            elif f['k'] == 'eof':
                if f['at'] < self.end:
                    self.end = f['at']
            elif f['k'] == 'short':
                self.short[f['n']] = f['keep']
            elif f['k'] == 'shrink':
                self.shrink[f['n']] = f['at']
        self.eof_fault = self.end < len(data)

    def readable(self):
        return True

    def seekable(self):
        return True

    def writable(self):
        return False

    def seek(self, off, whence=0):
        self.ctx.step()
        if whence == 0:
            p = off
        elif whence == 1:
            p = self.pos_ + off
        else:
            p = self.end + off
        if not isinstance(p, int):
            raise TypeError('seek offset is not an integer')
        if p < 0:
            raise OSError(errno.EINVAL, 'negative seek position')
        if p > 0x7fffffffffffffff:
            raise OverflowError('seek position too large')
        self.pos_ = p
        return p

    def tell(self):
        return self.pos_

    def read(self, size=-1):
        ctx = self.ctx
        n = self.n_reads
        self.n_reads += 1
        if size is None or size < 0:
            size = max(0, self.end - self.pos_)
        elif size > 1 << 35:
            # What a real file does: it allocates a buffer of the requested size first.
            if size > 0x7fffffffffffffff:
                raise OverflowError("cannot fit 'int' into an index-sized integer")
            raise MemoryError()
        ctx.step(1 + (size >> 16))
        if n in self.shrink and self.shrink[n] < self.end:
            self.end = self.shrink[n]
            self.eof_fault = True
            ctx.fault('shrunk-while-read')
        pos = self.pos_
        end = min(pos + size, self.end)
        if self.armed:
            if n in self.eio:
                self.n_fired += 1
                ctx.fault('eio-transient')
                raise InjectedIOError(errno.EIO, 'simulated I/O error')
            for lo, hi in self.bad:
                if pos < hi and end > lo:
                    self.n_fired += 1
                    ctx.fault('eio-bad-sector')
                    raise InjectedIOError(errno.EIO, 'simulated bad sector')
        if end <= pos:
            if self.eof_fault and size and pos < len(self.img):
                ctx.fault('early-eof')
            ctx.ev('r', self.name_, pos, size, 0)
            return b''
        if self.eof_fault and pos + size > self.end:
            ctx.fault('early-eof')
        if self.armed and n in self.short and end - pos > self.short[n]:
            self.n_fired += 1
            ctx.fault('short-read')
            end = pos + self.short[n]
        self.pos_ = end
        ctx.ev('r', self.name_, pos, size, end - pos)
        return bytes(self.img[pos:end])

    def readall(self):
        return self.read(-1)

    def readinto(self, b):
        data = self.read(len(b))
        b[:len(data)] = data
        return len(data)

    def read1(self, size=-1):
        return self.read(size)

    def write(self, data):
        self.ctx.writes.append((self.name_, self.pos_, len(data)))
        raise io.UnsupportedOperation('write to evidence')

    def truncate(self, size=None):
        self.ctx.writes.append((self.name_, 'truncate', size))
        raise io.UnsupportedOperation('truncate of evidence')


class Scheduler(object):
    """Steps cooperating tasks (generators) one step at a time; the schedule is a list of integers in the scenario
    (task index modulo the number of live tasks); when it runs out, tasks run round-robin."""

    def __init__(self, ctx, plan):
        self.ctx = ctx
        self.plan = plan

    def run(self, tasks):
        live = list(tasks.items())
        i = 0
        switches = 0
        last = None
        while live:
            k = self.plan[i] if i < len(self.plan) else i
            i += 1
            j = k % len(live)
            name, gen = live[j]
            self.ctx.step()
            self.ctx.ev('sched', name)
            if last is not None and last != name:
                switches += 1
            last = name
            try:
                next(gen)
            except StopIteration:
                live.pop(j)
        self.ctx.probe('context-switches', switches)
        self.ctx.state('sched', tuple(x % 4 for x in self.plan[:12]))
        return switches


def pick(rng, items):
    return items[rng.randrange(len(items))]


def wpick(rng, pairs):
    tot = sum(w for _, w in pairs)
    x = rng.random() * tot
    for v, w in pairs:
        x -= w
        if x < 0:
            return v
    return pairs[-1][0]


def pattern(tag, n):
    """n bytes that identify their origin: every 16-byte unit holds (tag, position), so each read is attributable."""
    out = bytearray()
    i = 0
    t = zlib.crc32(repr(tag).encode())
    while len(out) < n:
        out += b'%08x%08x' % (t, i)
        i += 1
    return bytes(out[:n])


def drain(ctx, gen, limit, kind='no-progress'):
    """Exhaust a generator of the code under test; more than limit items is a violation of bounded progress."""
    out = []
    for x in gen:
        out.append(x)
        ctx.step()
        if len(out) > limit:
            raise Violation(kind, 'more than %d items produced' % limit)
    return out
