"""C10: a mounted shadow copy is a read-only file with exactly the bytes of the snapshot."""
import datetime
import errno
import os
import re
import struct
from .. import vsshist, cli, fuse
from ..core import SimFile, Scheduler, pick, wpick, rng_for
from ..writers.vsssim import B

LEVEL = 'exploration'
RUNS = {'quick': 16000, 'thorough': 200000}
SHRINK = ['faults', 'reqs', 'ops']
RULE = ('one run = a volume with a history of writes, moves and snapshots (one or two volumes), then vsc_mount runs on it: a mount serving an interleaved sequence of requests of several simulated clients '
        '(lookup, getattr, open, read, readdir, every kind of modification), with read faults, or a listing. Non-trivial: at least one read or listing was answered')
STATE_MEASURE = 'distinct (mode, request kinds served, error kinds, fault kinds, live snapshots) tuples'
REAL = ['vsc_mount (whole script)', 'dfir_ntfs.ShadowCopy']
STUB = ['FUSE library and kernel (sim.fuse)', 'shadow copy driver (sim.writers.vsssim)', 'volume files (SimFile)']
ASSUMPTIONS = ['requests are served one at a time (vsc_mount asks for one worker)']
MUST_HIT = ['mount', 'mount-two', 'altfill', 'pattern-shown', 'list', 'read', 'modify-refused', 'eio-transient', 'eio-bad-sector', 'read-after-error', 'not-found', 'interleaved', 'list-disabled', 'list-no-volume', 'list-lost-catalogue', 'fuse-loop-failed', 'usage']

class LoopError(OSError):
    pass


MODS = ['create', 'fsync', 'fsyncdir', 'link', 'mkdir', 'mknod', 'rename', 'rmdir', 'setattr', 'symlink', 'unlink', 'write', 'openw']


def generate(rng, tier):
    mode = wpick(rng, [('--mount', 4), ('--mount-two', 3), ('--mount-altfill', 1.5), ('--list', 1.5)])
    sc = vsshist.generate(rng, tier, mode == '--mount-two')
    sc['mode'] = mode
    sc['damage'] = []
    n = len(sc['cfg']['files'])
    reqs = []
    for _ in range(rng.randrange(3, 40)):
        k = wpick(rng, [('read', 10), ('getattr', 1), ('lookup', 1), ('readdir', 1), ('mod', 2), ('badfh', 0.5), ('open', 0.5), ('end', 1), ('statfs', 0.3), ('access', 0.3)])
        if k == 'read':
            reqs.append(['read', rng.randrange(n), pick(rng, [0, 0, 512, rng.randrange(0, B), -rng.randrange(0, 4096)]), pick(rng, [4096, 4096, B, 2 * B, 131072, rng.randrange(0, 70000)])])
        elif k == 'mod':
            reqs.append(['mod', pick(rng, MODS)])
        else:
            reqs.append([k, rng.randrange(1 << 20)])
    sc['reqs'] = reqs
    sc['clients'] = pick(rng, [1, 2, 3])
    sc['which'] = rng.random()
    sc['absent'] = rng.random() < 0.06
    sc['usage'] = pick(rng, ['point', 'image', 'number', 'count', 'mode']) if rng.random() < 0.04 else None
    sc['lostconn'] = rng.random() < 0.06
    sc['disabled'] = rng.random() < 0.1 and mode == '--list'
    sc['lost'] = pick(rng, ['volume', 'catalogue']) if mode == '--list' and rng.random() < 0.25 else None
    f = wpick(rng, [('none', 5), ('eio', 3), ('bad', 2)])
    sc['faults'] = []
    if f == 'eio':
        sc['faults'] = [{'k': 'eio', 'n': rng.randrange(0, 500)} for _ in range(rng.randrange(1, 4))]
    elif f == 'bad':
        sc['faults'] = [{'k': 'badblock', 'i': rng.randrange(n), 's': rng.randrange(32)}]
    return sc


def execute(sc, ctx):
    mode = sc['mode']
    two = mode == '--mount-two'
    sim = vsshist.run_ops(sc, ctx, two)
    vimg = sim.vol.durable.copy()
    if sc['disabled']:
        vimg[sim.voff + 7680:sim.voff + 7696] = bytes(16)
    if sc.get('lost') == 'volume':
        vimg[sim.voff + 3:sim.voff + 11] = b'NOTAFSYS'
        ctx.fault('lost-boot-sector')
    elif sc.get('lost') == 'catalogue':
        c = struct.unpack('<Q', bytes(vimg[sim.voff + 7728:sim.voff + 7736]))[0]
        if c:
            vimg[sim.voff + c:sim.voff + c + 512] = bytes(512)
            ctx.fault('lost-catalogue')
    faults = []
    for f in sc['faults']:
        if f['k'] == 'badblock':
            lo = sim.voff + sim.files[f['i'] % len(sim.files)] * B + f['s'] * 512
            faults.append({'k': 'bad', 'lo': lo, 'hi': lo + 512})
        else:
            faults.append(f)
    made = []

    def opener(img, fl, name):
        def op():
            f = SimFile(ctx, img, fl, name)
            made.append(f)
            return f
        return op
    inputs = {'vol.raw': opener(vimg, faults, 'vol')}
    if two:
        inputs['sto.raw'] = opener(sim.sto.durable.copy(), [f for f in faults if f['k'] == 'eio'], 'sto')
    lv = sim.live()
    vfs = cli.Vfs(ctx, inputs)
    fired = lambda: sum(f.n_fired for f in made)
    if mode == '--list':
        return check_list(sc, ctx, sim, vfs, lv, fired)
    if not lv or sc['absent']:
        pos = sim.next_pos + 2
        s = None
    else:
        s = lv[int(sc['which'] * len(lv)) % len(lv)]
        pos = s.pos
    served = set()
    errors = set()
    exp = {}

    def want(a, b):
        out = []
        q = a
        while q < b:
            blk = q // B
            i = q % B // 512
            e = min(b, blk * B + (i + 1) * 512)
            d = None
            if blk in fset:
                if blk not in exp:
                    exp[blk] = sim.expected(s, blk)
                d = exp[blk][i]
            out.append((q - a, e - q, None if d is None else d[q - blk * B - i * 512:e - blk * B - i * 512], blk, i))
            q = e
        return out
    fset = set(sim.files)
    alt = mode == '--mount-altfill'
    untouched = set(fset)
    for q in sim.snaps:
        untouched -= q.saved | q.targets | set(q.overlays) | set(q.fwd) | set(q.fwd.values()) | {e[0] for e in q.entries}

    def ferr(fn, *codes):
        """A request that must be refused with one of these errors."""
        try:
            fn()
        except fuse.FUSEError as e:
            ctx.check(e.errno in codes, 'wrong-errno', lambda: '%s instead of %r' % (errno.errorcode.get(e.errno, e.errno), [errno.errorcode[c] for c in codes]))
            return
        ctx.check(False, 'request-accepted', 'a request was not refused')

    def pick_name(x):
        return [b'x%d' % x, b'IMAGE.RAW', b'image', b'image.raw.1', b''][x % 5]

    def attr_ok(a):
        ctx.check(a.st_size == s.size and a.st_ino == 2 and a.st_mode & 0o170000 == 0o100000 and a.st_blocks == (s.size + 511) // 512, 'wrong-attributes', lambda: 'size %d instead of %d' % (a.st_size, s.size))

    def client(ops, reqs):
        fh = ops.open(2, os.O_RDONLY, None)
        yield
        bad = False
        for r in reqs:
            k = r[0]
            served.add(k)
            if k in ('read', 'end'):
                if k == 'read':
                    off = max(0, sim.files[r[1] % len(sim.files)] * B + r[2])
                    n = r[3]
                else:
                    off = max(0, s.size - r[1] % (2 * B)) + (r[1] % 3) * B
                    n = 1 + r[1] % 50000
                before = fired()
                try:
                    got = ops.read(fh, off, n)
                except fuse.FUSEError as e:
                    ctx.check(fired() > before and e.errno == errno.EIO, 'read-error', lambda: 'a read failed with %s without a fault' % errno.errorcode.get(e.errno))
                    errors.add(e.errno)
                    bad = True
                    yield
                    continue
                except OSError as e:
                    ctx.check(False, 'mount-lost', 'a media error ended the mount: %s', e)
                if bad:
                    ctx.probe('read-after-error')
                ctx.probe('read')
                ctx.nontrivial = True
                ln = max(0, min(n, s.size - off))
                ctx.check(len(got) == ln, 'wrong-length', lambda: '%d bytes instead of %d at %d (size %d)' % (len(got), ln, off, s.size))
                for o, l, d, blk, i in want(off, off + ln):
                    g = got[o:o + l]
                    if d is None:
                        continue
                    if alt:
                        x = (off + o) % 512
                        ok = [d]
                        if sim.cur[blk][i * 512 + x:i * 512 + x + l] == d:
                            ok.append((b'ORIGINAL        ' * 32)[x:x + l])
                        if d == bytes(l):
                            ok.append((b'EMPTY           ' * 32)[x:x + l])
                        # a block no store says anything about is read in place (or marked as unused): the pattern must show it
                        if blk in untouched:
                            ok.pop(0)
                            ctx.probe('pattern-shown')
                            ctx.check(g in ok, 'no-pattern', lambda: 'block %d sector %d: %r' % (blk, i, g[:24]))
                        if g in ok:
                            g = d
                    ctx.check(g == d, 'wrong-data', lambda: 'block %d sector %d: %r instead of %r' % (blk, i, g[:24], d[:24]))
            elif k == 'getattr':
                attr_ok(ops.getattr(2, None))
                ctx.check(ops.getattr(1, None).st_mode & 0o170000 == 0o040000, 'wrong-attributes', 'root')
                ferr(lambda: ops.getattr(3 + r[1], None), errno.EBADF, errno.ENOENT)
            elif k == 'lookup':
                attr_ok(ops.lookup(1, b'image.raw', None))
                ferr(lambda: ops.lookup(1, pick_name(r[1]), None), errno.ENOENT)
                ferr(lambda: ops.lookup(2, b'image.raw', None), errno.ENOENT, errno.ENOTDIR)
            elif k == 'readdir':
                dh = ops.opendir(1, None)
                ent = list(ops.readdir(dh, 0))
                ctx.check(len(ent) == 1 and ent[0][0] == b'image.raw', 'wrong-listing', repr(ent))
                attr_ok(ent[0][1])
                ctx.check(list(ops.readdir(dh, ent[0][2])) == [], 'wrong-listing', 'entries after the last one')
                ferr(lambda: list(ops.readdir(fh, 0)), errno.EBADF)
                ops.releasedir(dh)
            elif k == 'badfh':
                ferr(lambda: ops.read(fh + 5 + r[1], 0, 512), errno.EBADF)
                ferr(lambda: ops.opendir(2, None), errno.ENOENT, errno.ENOTDIR)
                ferr(lambda: ops.open(9, os.O_RDONLY, None), errno.ENOENT)
            elif k == 'open':
                ops.release(ops.open(2, os.O_RDONLY, None))
            elif k == 'access':
                for i in (1, 2):
                    ctx.check(ops.access(i, os.R_OK, None), 'access-denied', 'inode %d', i)
            elif k == 'statfs':
                ops.statfs(None)
            elif k == 'mod':
                ro = (errno.EROFS, errno.ENOSYS, errno.EPERM, errno.EACCES)
                m = r[1]
                args = {'create': (1, b'f', 0o644, os.O_CREAT, None), 'fsync': (fh, False), 'fsyncdir': (1, False), 'link': (2, 1, b'l', None), 'mkdir': (1, b'd', 0o755, None), 'mknod': (1, b'n', 0o644, 0, None),
                        'rename': (1, b'image.raw', 1, b'y', None), 'rmdir': (1, b'd', None), 'setattr': (2, fuse.EntryAttributes(), None, fh, None), 'symlink': (1, b's', b't', None), 'unlink': (1, b'image.raw', None),
                        'write': (fh, 0, b'x' * 10)}
                if m == 'openw':
                    for fl in (os.O_WRONLY, os.O_RDWR, os.O_RDWR | os.O_APPEND, os.O_RDONLY | os.O_APPEND):
                        ferr(lambda: ops.open(2, fl, None), *ro)
                else:
                    ferr(lambda: getattr(ops, m)(*args[m]), *ro)
                ctx.probe('modify-refused')
            yield
        ops.release(fh)

    def kernel(ops):
        ctx.check(s is not None, 'phantom-shadow', 'an unknown shadow copy was mounted')
        k = sc['clients']
        Scheduler(ctx, sc['plan']).run({'c%d' % i: client(ops, sc['reqs'][i::k]) for i in range(k)})
        if k > 1:
            ctx.probe('interleaved')
        if sc.get('lostconn'):
            ctx.fault('fuse-loop-failed')
            raise LoopError(19, 'the FUSE session failed')
    m = fuse.module(kernel)
    if two:
        argv = [mode, 'vol.raw', 'sto.raw', str(sim.voff), str(sim.soff), str(pos), '/tmp']
        ctx.probe('mount-two')
    else:
        argv = [mode, 'vol.raw', str(sim.voff), str(pos), '/tmp']
        ctx.probe('altfill' if alt else 'mount')
    u = sc.get('usage')
    if u:
        # A command that cannot be carried out: nothing is mounted, nothing is kept open.
        if u == 'point':
            argv[-1] = pick(rng_for('c10', pos), ['/nonexistent', '/dev/null', ''])
        elif u == 'image':
            argv[2 if two and pos % 2 else 1] = 'absent.raw'
        elif u == 'number':
            argv[-2] = 'x'
        elif u == 'count':
            argv.pop()
        else:
            argv[0] = '--mount-three'
        res = cli.run(ctx, 'vsc_mount', argv, vfs, {'llfuse': m})
        reraise(res)
        ctx.check(m.state['ops'] is None, 'phantom-mount', lambda: '%r was mounted' % (argv,))
        ctx.check(res.status != 0 or u not in ('point', 'image'), 'failure-hidden', lambda: '%r: the exit status is 0' % (argv,))
        ctx.check(res.status == 0 or u not in ('point', 'image') or res.error is None or s is None, 'no-message', lambda: repr(res.error))
        ctx.check(res.out + res.err != '' or res.error is not None, 'no-message', lambda: repr(argv))
        ctx.check_no_writes()
        ctx.probe('usage')
        ctx.nontrivial = True
        return
    res = cli.run(ctx, 'vsc_mount', argv, vfs, {'llfuse': m})
    reraise(res)
    if sc.get('lostconn') and isinstance(res.error, LoopError):
        ctx.check(res.status != 0, 'failure-hidden', 'the exit status is 0 although the mount failed')
        ctx.check(not m.state['mounted'], 'not-unmounted', 'the mount failed, but it is still there')
        ctx.check(all(f.closed for f in made), 'not-closed', 'the volume file is still open')
        ctx.check_no_writes()
        return
    if s is None:
        ctx.check(not m.state['mounted'] and m.state['ops'] is None, 'phantom-shadow', 'mounted')
        ctx.check(res.status != 0, 'failure-hidden', 'the exit status is 0 although nothing was mounted')
        ctx.probe('not-found')
        ctx.nontrivial = True
    elif m.state['ops'] is None:
        ctx.check(fired(), 'not-mounted', lambda: 'status %r, %r %s' % (res.status, res.error, res.err))
        ctx.check(res.status != 0, 'failure-hidden', 'the exit status is 0 although nothing was mounted')
    else:
        ctx.check(res.error is None and res.status == 0, 'mount-ended', lambda: repr(res.error))
        ctx.check(not m.state['mounted'], 'not-unmounted', '')
        ctx.check(all(f.closed for f in made), 'not-closed', 'the volume file is still open')
    ctx.check_no_writes()
    ctx.state(mode, tuple(sorted(served)), tuple(sorted(errors)), tuple(sorted({f['k'] for f in sc['faults']})), len(lv))
    ctx.sample = {'mode': mode, 'reqs': sc['reqs'][:5], 'faults': sc['faults']}


def reraise(res):
    """A violation found inside the simulated kernel."""
    from ..core import Violation, HarnessError
    if isinstance(res.error, (Violation, HarnessError)):
        raise res.error


def check_list(sc, ctx, sim, vfs, lv, fired):
    res = cli.run(ctx, 'vsc_mount', ['--list', 'vol.raw', str(sim.voff)], vfs, {'llfuse': fuse.module(None)})
    reraise(res)
    ctx.probe('list')
    ctx.nontrivial = True
    lines = res.out.splitlines()
    if sc.get('lost') == 'catalogue' and not sc['disabled']:
        # The header says that there are shadow copies: a list without them must not look complete.
        ctx.check(not lv or res.status != 0, 'failure-hidden', lambda: repr(lines))
        ctx.probe('list-lost-catalogue')
        return
    if res.status != 0:
        ctx.check(fired(), 'list-failed', lambda: repr(res.error))
        return
    if sc.get('lost') == 'volume':
        ctx.check(lines == ['Not a valid volume'], 'wrong-list', lambda: repr(lines))
        ctx.probe('list-no-volume')
        return
    if sc['disabled']:
        ctx.check(lines == ['Shadow copies are disabled'], 'wrong-list', lambda: repr(lines))
        ctx.probe('list-disabled')
        return
    got = [re.match(r'^ *Stack position: (\d+), timestamp \(UTC\): (\S+ \S+)$', x) for x in lines[1:]]
    ctx.check(lines[:1] == ['Shadow copies are enabled'] and all(got), 'wrong-list', lambda: repr(lines))
    ctx.check(sorted(int(m.group(1)) for m in got) == [s.pos for s in lv], 'wrong-list', lambda: '%r instead of %r' % (lines, [s.pos for s in lv]))
    for m in got:
        t = [s.time for s in lv if s.pos == int(m.group(1))][0]
        d = datetime.datetime.strptime(m.group(2), '%Y-%m-%d %H:%M:%S.%f' if '.' in m.group(2) else '%Y-%m-%d %H:%M:%S')
        ctx.check(vsshist.same_time(d, t), 'wrong-list', lambda: '%r for the time %d' % (m.group(0), t))
    ctx.state('list', len(lv))
