"""C20: the text reports of ntfs_parser (--log, --move) say what was recorded, one damaged record hides no other, failures are visible."""
import struct
import uuid
from ..core import SimFile, pick, wpick, rng_for
from .. import cli, mfthist, loghist, ntfscli, logreport
from ..logreport import SEP, Path, match, Mismatch, opname, dump
from ..oracle.mftmodel import Model
from ..oracle.logmodel import LogModel
from . import c03, c16

LEVEL = 'exploration'
RUNS = {'quick': 12000, 'thorough': 120000}
SHRINK = ['damage', 'faults', 'lops', 'ops']
RULE = ('one run = an $MFT history, a history of log records about it (created, changed and deleted file records, attributes, index entries, journal records, opened attributes, checkpoints), some of them corrupt, a crash, then ntfs_parser --log (or a MoveTable and --move) '
        'on simulated files with read errors, short writes and a full output disk. Non-trivial: a resolved or decoded record, a corrupt record or a fault')
STATE_MEASURE = 'distinct (log version, kinds of records reported, crash mode, corrupt records, fault kinds, outcome) tuples'
REAL = ['ntfs_parser: --log, --move', 'dfir_ntfs.LogFile, MFT, Attributes, USN, MoveTable as the script uses them']
STUB = ['NTFS driver, log file service, link tracking service (sim)', 'write-back disks', 'open() of the script: simulated input and output files', 'process exit']
ASSUMPTIONS = ['text files are written through the same buffering the interpreter uses', 'what the report must contain for a recovered log is the reference model of C05']
MUST_HIT = ['target-by-reference', 'log-init', 'log-create', 'log-uncreate', 'log-writeend', 'log-resident', 'log-index', 'log-unindex', 'log-dup', 'log-usn', 'log-dealloc', 'log-plain', 'log-nonres', 'exact-block', 'decoded', 'target-number', 'target-reference',
            'target-path', 'corrupt-record', 'patched-record', 'corrupt-open', 'corrupt-dump', 'deleted-list', 'eio-transient', 'eio-bad-sector', 'enospc', 'short-write', 'failed-visibly', 'complete', 'restart-block', 'partial-record', 'move-block', 'move-refused', 'move-unknown-type']


def faults(rng, names):
    m = wpick(rng, [('none', 5), ('eio', 1.2), ('bad', 1), ('out', 1.2), ('short', 0.6)])
    if m == 'eio':
        return [{'k': 'eio', 'n': rng.randrange(0, 20) if rng.random() < 0.5 else rng.randrange(0, 300), 'f': pick(rng, names)}]
    if m == 'bad':
        return [{'k': 'bad', 'at': rng.random(), 'f': pick(rng, names)}]
    if m == 'out':
        return [{'k': 'out', 'cap': pick(rng, [0, 1, 100, 1000, 4096, 5000, 20000, 60000]), 'err': pick(rng, ['enospc', 'enospc', 'eio'])}]
    if m == 'short':
        return [{'k': 'oshort', 'n': pick(rng, [1, 2, 3])}]
    return []


def generate(rng, tier):
    if rng.random() < 0.2:
        sc = c16.generate(rng, tier)
        sc.update(mode='move', given=False, faults=faults(rng, ['mt']))
        sc['lops'] = []
        return sc
    sc = mfthist.gen_scene(rng, wpick(rng, [(6, 2), (15, 3), (30, 1)]))
    lg = loghist.gen_scene(rng, tier)
    sc['lcfg'] = lg['cfg']
    sc['lcfg']['cluster'] = pick(rng, [4096, 4096, 512, 65536, 2048])
    sc['lcfg']['tables'] = rng.random() < 0.7
    sc['lcfg']['minor'] = rng.randrange(2)
    sc['lcrash_at'], sc['lcrash'] = lg['crash_at'], lg['crash']
    if rng.random() < 0.4:
        sc['lcrash_at'] = -1
    bad = pick(rng, [0, 0, 0.1, 0.3])
    ops = []
    for op in lg['ops']:
        if op[0] == 'rec' and rng.random() < 0.85:
            if bad and rng.random() < 0.05:
                ops.append(['sem', pick(rng, ['badopen', 'baddump']), rng.randrange(1 << 30), 0])
            else:
                ops.append(['sem', pick(rng, logreport.KINDS), rng.randrange(1 << 30), int(rng.random() < bad)])
        else:
            ops.append(op)
            if op[0] == 'open' and rng.random() < 0.4:
                op[2] = op[2] // 4 * 4 + 2      # $J
    if sc['lcrash_at'] < 0:
        ops.append(['flush'])
    sc['lops'] = ops
    sc['damage'] = []
    if rng.random() < 0.3:
        for _ in range(rng.randrange(1, 4)):
            sc['damage'].append({'k': pick(rng, ['zero', 'garbage', 'usn', 'inside']), 'rec': rng.randrange(16, sc['nrec']), 'x': rng.randrange(1 << 30)})
    sc['faults'] = faults(rng, ['log', 'mft'])
    sc['mode'] = 'log'
    return sc


def expected(res, rec, full):
    """Specification of the block of a record (see logreport.match), its number for the list of deletions."""
    i = rec.info
    head = ['LSN: %d' % rec.lsn, 'Transaction ID: %d' % rec.txn, 'Log record, redo operation: %s, undo operation: %s' % (opname(i['redo_op']), opname(i['undo_op']))]
    t, off = res.target(rec, full)
    if not full or i.get('patched'):
        return (head if full else []) + ['*'], t
    out = head
    if t is None:
        out.append('*')
    elif t[0] == 'num':
        out += ['Target (file number): %d' % t[1], Path('Target path (from $MFT, likely wrong if the file was deleted later): ', number=t[1])]
    elif t[0] == 'ref':
        out += ['Target (file reference number): %d' % t[1], 'Target (attribute name): %s' % ('-' if t[2] is None else t[2]), Path('Target path (from $MFT): ', t[1])]
    else:
        out.append('Unknown target, target attribute: %d' % i['target'])
    if off == 'no':
        out.append('Unknown offset in target')
    elif off is None:
        out.append('*')
    else:
        out.append('Offset in target: %d' % off)
    if i['lcns']:
        out.append('LCN(s): ' + ' '.join(str(x) for x in i['lcns']))
    out += ['Redo data:'] + dump(i['redo']) + ['', 'Undo data:'] + dump(i['undo']) + ['']
    if 'dec' in i:
        if i['dec'] is None or i.get('j') and t is None:
            out.append('*')
        elif not i.get('j') or t[0] == 'ref' and t[2] == '$J':
            out += i['dec']
    elif i['redo_op'] <= 0x14 or i['undo_op'] <= 0x14:
        out.append('*')
    return out, t


def check_report(ctx, text, lsim, lmodel, R):
    ctx.check(text == '' or text.endswith(SEP), 'report-cut', lambda: 'the report ends with %r' % text[-40:])
    blocks = text.split(SEP)[:-1]
    dele = None
    if blocks and blocks[-1].startswith('Files and directories with these MFT numbers were deleted (in this order):\n'):
        dele = blocks.pop().split('\n')[1].split(' ')
        ctx.probe('deleted-list')
    recs = []
    for b in blocks:
        first = b.split('\n')[0]
        ctx.check(first.startswith('LSN: ') and first[5:].isdigit(), 'block-shape', lambda: 'block %r' % b[:60])
        lsn = int(first[5:])
        r = lsim.by_lsn.get(lsn)
        ctx.check(r is not None and lmodel.may(r), 'made-up-record', lambda: 'LSN %d is not in the log' % lsn)
        recs.append(r)
    lsns = [r.lsn for r in recs]
    ctx.check(all(a < b for a, b in zip(lsns, lsns[1:])), 'block-order', lambda: 'LSNs %r' % lsns[:20])
    for lsn in sorted(lmodel.must() - set(lsns)):
        r = lsim.by_lsn[lsn]
        ctx.check(not lmodel.whole(r) or r.info.get('patched'), 'record-lost', lambda: 'LSN %d (%s) is not in the report of %d records' % (lsn, r.info.get('kind', ''), len(recs)))

    def paths(p):
        if p.num is not None:
            v = R.model.v.get(p.num)
            if v is None:
                return [] if p.num not in R.skip else None
            if v.base:
                return None if p.num in R.skip else R.lookup_paths(ntfs_ref(p.num, v.eff_seq))
            got = R.first_paths(p.num)
        else:
            if (p.ref & 0xFFFFFFFFFFFF) in R.skip:
                return None
            got = R.lookup_paths(p.ref)
            if got and p.label.startswith('Target'):
                ctx.probe('target-by-reference')
        if got:
            ctx.probe('target-path')
        return got
    res = logreport.Resolver(lsim, lmodel, recs)
    want = []
    for r, b in zip(recs, blocks):
        full = lmodel.whole(r)
        ctx.evaluations += 1
        if r.rtype == 2:
            spec = ['LSN: %d' % r.lsn]
            if full:
                t = r.info['tables']
                spec += ['Restart area, version: %d.%d' % (lsim.cfg['major'], lsim.cfg['minor']), ' Start of checkpoint LSN: %d' % r.info['start'], ' Tables (LSN and length):', ' * Open attribute table: %d %d' % (t[0], t[4]),
                         ' * Attribute names: %d %d' % (t[1], t[5]), ' * Dirty page table: %d %d' % (t[2], t[6]), ' * Transaction table: %d %d' % (t[3], t[7])]
                ctx.probe('restart-block')
            else:
                spec.append('*')
        else:
            spec, t = expected(res, r, full)
            if r.info['redo_op'] == 3:
                want.append((None if t is None else str(t[1]), full and not r.info.get('patched')))
            ctx.probe('partial-record' if not full else 'patched-record' if r.info.get('patched') else 'corrupt-record' if r.info.get('bad') else 'exact-block')
            if full and r.info.get('badopen'):
                ctx.probe('corrupt-open')
            if full and r.info.get('baddump'):
                ctx.probe('corrupt-dump')
            if full and r.info.get('dec') and '*' not in spec:
                ctx.probe('decoded')
            if t is not None and t[0] in ('num', 'ref'):
                ctx.probe('target-number' if t[0] == 'num' else 'target-reference')
        try:
            match(b.split('\n'), spec, paths)
        except Mismatch as e:
            ctx.check(False, 'block-content', 'LSN %d (%s): %s' % (r.lsn, r.info.get('kind', r.rtype), e))
    # Deletions, in order; those of records not completely there are optional.
    reach = {0}
    for num, must in want:
        reach = {j + 1 for j in reach if dele is not None and j < len(dele) and (num is None or dele[j] == num)} | (set() if must else reach)
    ctx.check((len(dele) if dele is not None else 0) in reach, 'deleted-list', lambda: 'deleted records %r, expected %r' % (dele, want))
    return recs


def ntfs_ref(num, seq):
    return seq << 48 | num


class GuidTime(logreport.Ts):
    def ok(self, line):
        if not line.startswith(self.label):
            return False
        x, t = line[len(self.label):], c16.guid_time(self.t)
        if t is None:
            return x == 'N/A'
        try:
            return t < 0 or c16.close(ntfscli.when(x), t)
        except ValueError:
            return False


class Range(logreport.Ts):
    def ok(self, line):
        x = line[len(self.label):].split(' - ')
        return line.startswith(self.label) and len(x) == 2 and ntfscli.ts_ok(x[0], self.t) and ntfscli.ts_ok(x[1], self.t | 0xffffffff)


def execute_move(sc, ctx):
    svc = c16.Service(sc, ctx)
    for k, seed in sc['ops']:
        svc.apply(k, seed)
    image = svc.disk.crash(sc['crash']['mode'], sc['crash']['seed'])
    c16.damage(sc, ctx, image, svc)
    ss = sc['ss']
    img = bytes(image[0:(svc.secs + 1) * ss]) + (b'\xa5' * min(sc['tail'], ss - 1))
    want, types = [], set()
    for s in range(1, svc.secs + 1):
        for j in range(svc.per):
            raw = img[s * ss + j * 124:s * ss + j * 124 + 124]
            ty = struct.unpack_from('<L', raw, 8)[0]
            if ty == 2:
                want.append((raw, bool(types - {1, 2})))
            types.add(ty)
    hok = img[:16] == c16.SIG
    visible = (NotImplementedError,) if types - {1, 2} else ()
    outcome, text = run_faulty(ctx, sc, {'mt': img}, ['--move', 'mt', 'out'], visible if hok else (ValueError,))
    text = text.decode('utf-8')
    blocks = text.split(SEP)
    ctx.check(blocks[-1] == '', 'report-cut', lambda: repr(text[-40:]))
    blocks.pop()
    if not hok:
        ctx.check(not blocks and outcome != 'complete', 'made-up-header', lambda: repr(text[:60]))
        ctx.probe('move-refused')
        return
    U = lambda b: uuid.UUID(bytes_le=bytes(b))
    specs = [['File header:', ' * Machine ID: ' + c16.decode(img[40:56]), ' * Volume object ID: %s' % U(img[56:72])]]
    for raw, _ in want:
        g = [raw[20 + 16 * i:36 + 16 * i] for i in range(3)] + [raw[84:100], raw[100:116]]
        specs.append(['Object ID: %s' % U(g[0]), '', 'Domain-relative object ID, volume: %s' % U(g[1]), 'Domain-relative object ID, file: %s' % U(g[2]), '', 'Machine ID: ' + c16.decode(raw[68:84]), '',
                      'Birth domain-relative object ID, volume: %s' % U(g[3]), 'Birth domain-relative object ID, file: %s' % U(g[4]), '', 'GUID timestamps:', GuidTime(' * Object ID: ', g[0]),
                      GuidTime(' * Domain-relative object ID, file: ', g[2]), GuidTime(' * Birth domain-relative object ID, file: ', g[4]), '', Range('Timestamp (range): ', struct.unpack_from('<L', raw, 116)[0] << 32)])
    need = 1 + sum(1 for w in want if not w[1])      # those before an entry of an unknown type
    ctx.check(need <= len(blocks) <= len(specs), 'move-lost', lambda: '%d entries reported, %d recorded' % (len(blocks) - 1, len(want)))
    for b, spec in zip(blocks, specs):
        ctx.evaluations += 1
        try:
            match(b.split('\n'), spec, None)
        except Mismatch as e:
            ctx.check(False, 'block-content', str(e))
        ctx.probe('move-block')
    if outcome == 'unsupported':
        ctx.probe('move-unknown-type')
    ctx.nontrivial = bool(want)
    ctx.state('move', ss, svc.secs, sc['crash']['mode'], tuple(sorted({d[0] for d in sc['damage']})), tuple(sorted({f['k'] for f in sc['faults']})), outcome, min(len(want), 12))
    ctx.sample = {'mode': 'move', 'entries': len(want), 'outcome': outcome, 'faults': sc['faults']}


def targets(sim):
    """References of files whose attributes may be opened: those in use, those which are gone, those whose record was used again."""
    out = []
    for n in sorted(sim.seq):
        q = sim.seq[n]
        out += [ntfs_ref(n, q), ntfs_ref(n, (q - 1) & 0xFFFF), ntfs_ref(n, (q + 1) & 0xFFFF)]
    live = [sim.nodes[n].ref() for n in sorted(sim.nodes)]
    return out + live * (1 + 2 * len(out) // max(1, len(live)))


def execute(sc, ctx):
    if sc['mode'] == 'move':
        return execute_move(sc, ctx)
    sim, image = mfthist.build(sc, ctx)
    image, inside = c03.damage(sim, image, sc, ctx)
    cls = c03.classify(sim, image, inside)
    model = Model(cls)
    if any(c == 'mixed' for c, _ in cls.values()) or not all(n in model.v and n not in inside for n in (0, 3, 5)):
        return
    lsc = {'cfg': dict(sc['lcfg']), 'ops': sc['lops'], 'crash_at': sc['lcrash_at'], 'crash': sc['lcrash']}
    lsim, log = loghist.build(lsc, ctx, lambda s, op, live: logreport.log(sim, s, live, op[1], op[2], op[3]) if op[0] == 'sem' else None, targets(sim))
    lmodel = LogModel(lsim, log)
    if not any(x is not None for x in lmodel.restarts):
        return
    srcs = {'mft': image, 'log': log}
    argv = ['--log', 'mft', 'log', 'out']
    outcome = run_faulty(ctx, sc, srcs, argv)
    text = outcome[1].decode('utf-8')
    R = ntfscli.Rows(ctx, model, sim, inside)
    recs = check_report(ctx, text, lsim, lmodel, R)
    kinds = {f['k'] for f in sc['faults']}
    ctx.nontrivial = bool(recs)
    ctx.state(sc['lcfg']['ver'], tuple(sorted({r.info.get('kind', '') for r in recs if r.info})), sc['lcrash']['mode'] if sc['lcrash_at'] > 0 else '', any(r.info and r.info.get('bad') for r in recs), tuple(sorted(kinds)), outcome[0])
    ctx.sample = {'records': len(recs), 'ops': sc['lops'][:5], 'crash': sc['lcrash'], 'faults': sc['faults'], 'outcome': outcome[0]}


def run_faulty(ctx, sc, srcs, argv, visible=()):
    """Run the script with the faults of the scenario. Returns (outcome, complete output)."""
    files = {}

    def opener(name, faults):
        def f():
            files[name] = SimFile(ctx, srcs[name], faults, name)
            return files[name]
        return f
    plan, fl = {}, {n: [] for n in srcs}
    for f in sc['faults']:
        if f['k'] == 'out':
            plan = {'cap': f['cap'], 'err': f['err']}
        elif f['k'] == 'oshort':
            plan = {'short': f['n']}
        elif f['k'] == 'bad':
            lo = int(len(srcs[f['f']]) * f['at']) // 512 * 512
            fl[f['f']].append({'k': 'bad', 'lo': lo, 'hi': lo + 512})
        else:
            fl[f['f']].append({'k': 'eio', 'n': f['n']})
    vfs = cli.Vfs(ctx, {n: opener(n, fl[n]) for n in srcs}, {'out': plan})
    r = cli.run(ctx, 'ntfs_parser', argv, vfs)
    ctx.check(not ctx.writes, 'evidence-modified', lambda: '%r' % (ctx.writes[:3],))
    fired = sum(f.n_fired for f in files.values())
    out = vfs.written.get('out')
    data = bytes(out.data) if out is not None else b''
    if fired or (out is not None and out.failed):
        ctx.check(r.status != 0 and r.error is not None, 'failure-hidden', lambda: 'an I/O error occurred and the script ended with status 0 (%d bytes written)' % len(data))
        ctx.check(isinstance(r.error, (OSError,) + tuple(visible)), 'wrong-failure', lambda: repr(r.error))
        ctx.probe('failed-visibly')
        vfs2 = cli.Vfs(ctx, {n: opener(n, []) for n in srcs}, {'out': {}})
        r2 = cli.run(ctx, 'ntfs_parser', argv, vfs2)
        full = bytes(vfs2.written['out'].data)
        ctx.check(r2.error is None or isinstance(r2.error, visible), 'script-failed', lambda: repr(r2.error))
        ctx.check(full[:len(data)] == data, 'garbled-output', 'the output before the failure is not the beginning of the report')
        return 'failed', full
    if r.error is not None and isinstance(r.error, visible):
        return 'unsupported', data
    ctx.check(r.error is None and r.status == 0, 'script-failed', lambda: '%r (status %r)' % (r.error, r.status))
    ctx.probe('complete')
    return 'complete', data
