"""C21: the CSV file of fat_parser lists what FAT and exFAT volumes hold, and a run that cannot finish fails visibly."""
import csv
import io
from datetime import date, datetime
from dfir_ntfs.addons import FAT, exFAT
from ..core import SimFile, pick, wpick
from ..oracle.fatmodel import FatRef, Refused, TooBig
from ..oracle.exfatmodel import ExFatRef
from .. import cli, fathist, exfathist

LEVEL = 'exploration'
RUNS = {'quick': 15000, 'thorough': 150000}
SHRINK = ['damage', 'faults', 'ops']
RULE = ('one run = a FAT12, 16, 32 or exFAT volume used by a simulated driver, a crash with lost, torn or reordered sectors, damage, then fat_parser on the image (at an offset, possibly cut) with read errors, short writes and a full output disk. '
        'Non-trivial: at least one row and a deletion, crash, damage or fault')
STATE_MEASURE = 'distinct (file system, cluster size, crash mode, damage kinds, fault kinds, outcome, number of rows) tuples'
REAL = ['fat_parser', 'dfir_ntfs.addons.FAT and exFAT as the script uses them']
STUB = ['FAT and exFAT drivers (sim)', 'write-back disk', 'open() of the script: simulated input and output files', 'process exit']
ASSUMPTIONS = ['what a listing must contain is the reference readers of C11 and C12', 'the order of orphan directories is free', 'text files are written through the same buffering the interpreter uses']
MUST_HIT = ['fat12', 'fat16', 'fat32', 'exfat', 'deleted-row', 'unknown-state-row', 'partial-name', 'volume-label', 'second-label', 'long-name', 'no-timestamp', 'time-zone', 'encrypted', 'odd-name', 'orphan-directory', 'backup-used', 'refused', 'early-eof',
            'eio-transient', 'eio-bad-sector', 'enospc', 'short-write', 'failed-visibly', 'complete', 'usage']

FAT_HEAD = ['Is deleted', 'Is directory', 'Path', 'M timestamp', 'A timestamp', 'C/CH timestamp', 'File size', 'Is encrypted', 'Short name (Python bytes)']
EX_HEAD = ['Is deleted', 'Is directory', 'Path', 'M timestamp', 'A timestamp', 'C timestamp', 'M/A/C TZ (minutes)', 'File size', 'Is encrypted']


def generate(rng, tier):
    ex = rng.random() < 0.45
    sc = (exfathist if ex else fathist).generate(rng, tier)
    for k in ('scan', 'vsize', 'two', 'plan'):
        sc.pop(k)
    sc['fs'] = 'exfat' if ex else 'fat'
    sc['arg'] = wpick(rng, [('ok', 60), ('few', 0.5), ('text', 0.5)])
    if rng.random() < 0.25:
        sc['faults'] = [f for f in sc['faults'] if f['k'] == 'eof']
        if rng.random() < 0.7:
            sc['faults'].append({'k': 'out', 'cap': pick(rng, [0, 1, 50, 500, 1000, 4096, 5000, 9000, 20000]), 'err': pick(rng, ['enospc', 'enospc', 'eio'])})
        else:
            sc['faults'].append({'k': 'oshort', 'n': pick(rng, [1, 2, 3])})
    return sc


def yn(v):
    return '?' if v is None else 'Y' if v else 'N'


def ts(t):
    if t is None:
        return 'N/A'
    if isinstance(t, datetime):
        return '%04d-%02d-%02d %02d:%02d:%02d.%06d' % (t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond)
    return '%04d-%02d-%02d' % (t.year, t.month, t.day)


def tz(z):
    return '?' if z is None else '0' if z == 0 else '%+d' % (z * 15)


def row_of(e, ex, label, ctx):
    """The row of an item; label: no volume label was seen so far."""
    if isinstance(e, tuple):
        if e[0] == 'label':
            ctx.probe('volume-label')
            return ['N', 'N', e[1] + ' (Volume Label)', '?', '?', '?', '?/?/?', '0', 'N']
        ctx.probe('partial-name')
        return ['?', '?', e[1] + ' (Partial Name)', '?', '?', '?'] + (['?/?/?'] if ex else []) + ['?', '?'] + ([] if ex else ['?'])
    path = e['short'] if e['long'] is None else e['long']
    if not ex and not e['del'] and e['attr'] & 0x18 == 0x08:
        if label:
            path = e['short'] + ' (Volume Label)'
            ctx.probe('volume-label')
        else:
            ctx.probe('second-label')
    if e['del'] is not False:
        ctx.probe('deleted-row' if e['del'] else 'unknown-state-row')
    if e['long'] is not None:
        ctx.probe('long-name')
    if e['enc']:
        ctx.probe('encrypted')
    if e['mtime'] is None:
        ctx.probe('no-timestamp')
    if set(path) & set('",\r\n\ufffd') or not path.isascii():
        ctx.probe('odd-name')
    r = [yn(e['del']), yn(e['dir']), path, ts(e['mtime']), ts(e['atime']), ts(e['ctime'])]
    if ex:
        r.append('/'.join(tz(e[k]) for k in ('mtz', 'atz', 'ctz')))
        if e['mtz']:
            ctx.probe('time-zone')
    return r + [str(e['size']), yn(e['enc'])] + ([] if ex else [str(e['raw'])])


def compare(ctx, rows, tree, orphans, ex):
    """Every row is the item it must be: the tree in order, then the orphan directories, each in order."""
    its = {k: list(v) for k, v in orphans.items() if v}
    label = True
    for i, r in enumerate(rows):
        if i < len(tree):
            e = tree[i]
        else:
            k = r[2][18:].split('>')[0] if r[2].startswith('<Orphan directory ') else ''
            c = int(k) if k.isdigit() else None
            ctx.check(bool(its.get(c)), 'made-up-row', lambda: '%r is not on the volume' % (r,))
            e = its[c].pop(0)
            ctx.probe('orphan-directory')
        ctx.evaluations += 1
        want = row_of(e, ex, label, ctx)
        if not isinstance(e, tuple) and not ex and not e['del'] and e['attr'] & 0x18 == 0x08:
            label = False
        ctx.check(r == want, 'wrong-row', lambda: 'row %d is %r instead of %r' % (i, r, want))
    left = len(tree) - len(rows) if len(rows) < len(tree) else sum(len(v) for v in its.values())
    return left


def execute(sc, ctx):
    ex = sc['fs'] == 'exfat'
    h = exfathist if ex else fathist
    sim, image = h.build(sc, ctx)
    hurt = h.damage(sc, ctx, sim, image)
    q = sim.geo
    faults = h.faults(dict(sc, faults=[f for f in sc['faults'] if f['k'] in ('eio', 'bad', 'eof')]), sim, image)
    plan = {}
    for f in sc['faults']:
        if f['k'] == 'out':
            plan = {'cap': f['cap'], 'err': f['err']}
        elif f['k'] == 'oshort':
            plan = {'short': f['n']}
    end = min([f['at'] for f in faults if f['k'] == 'eof'] + [len(image)])
    refused = partial = maybe = False
    if ex:
        ctx.probe('exfat')
        ok = 0 not in hurt or (1 not in hurt and q.bps in (512, 4096))
        refused = not ok or end < q.base + q.data_off
        maybe = end < q.base + 24 * 4096     # as in C12
        if 0 in hurt and not refused:
            ctx.probe('backup-used')
    else:
        ctx.probe('fat%d' % q.type)
    tree, orphans = [], {}
    if not refused:
        try:
            if ex:
                tree, orphans, partial = ExFatRef(image, q, end, None).walk(3000, False)
            else:
                tree, orphans = FatRef(image, q, end, None).walk(3000, False)
        except Refused:
            refused = True
        except TooBig:
            ctx.probe('too-big')
            return
    files = []

    def opener(fl):
        def f():
            files.append(SimFile(ctx, image, fl, 'vol'))
            return files[-1]
        return f
    vfs = cli.Vfs(ctx, {'img': opener(faults)}, {'out': plan})
    argv = ['img', str(q.base), 'out']
    if sc['arg'] != 'ok':
        ctx.probe('usage')
        r = cli.run(ctx, 'fat_parser', argv[:2] if sc['arg'] == 'few' else ['img', 'x', 'out'], vfs)
        ctx.check(r.error is None and 'Usage' in r.out and not vfs.written, 'usage', lambda: '%r, output %r' % (r.error, sorted(vfs.written)))
        return
    r = cli.run(ctx, 'fat_parser', argv, vfs)
    fired = sum(f.n_fired for f in files)
    out = vfs.written.get('out')
    data = bytes(out.data) if out is not None else b''
    outcome = 'complete'
    if fired or (out is not None and out.failed):
        ctx.check(r.status != 0 and r.error is not None, 'failure-hidden', lambda: 'an I/O error occurred and the script ended with status 0 (%d bytes written)' % len(data))
        ctx.check(isinstance(r.error, OSError) or refused or partial, 'wrong-failure', lambda: repr(r.error))
        ctx.probe('failed-visibly')
        outcome = 'failed'
        vfs = cli.Vfs(ctx, {'img': opener([f for f in faults if f['k'] == 'eof'])}, {'out': {}})
        r = cli.run(ctx, 'fat_parser', argv, vfs)
        full = bytes(vfs.written['out'].data)
        ctx.check(full[:len(data)] == data, 'garbled-output', 'the output before the failure is not the beginning of the file')
        data = full
    ctx.check_no_writes()
    text = data.decode('utf-8')
    rows = list(csv.reader(io.StringIO(text, newline='')))
    ctx.check(text == '' or text.endswith('\r\n'), 'cut-row', lambda: repr(text[-40:]))
    if r.error is not None:
        ctx.check(isinstance(r.error, (FAT.FileSystemException, exFAT.FileSystemException, ValueError)) and (refused or partial or maybe), 'script-failed', lambda: '%r (status %r)' % (r.error, r.status))
        ctx.probe('refused')
        outcome = 'refused'
    else:
        ctx.check(r.status == 0 and not refused and not partial, 'not-refused', 'a volume that cannot be listed is listed')
        ctx.probe('complete')
    head = EX_HEAD if ex else FAT_HEAD
    if outcome == 'refused' and not rows:
        pass
    else:
        ctx.check(rows and rows[0] == head, 'wrong-header', lambda: '%r' % (rows[:1],))
        left = compare(ctx, rows[1:], tree, orphans, ex)
        ctx.check(not left or (outcome == 'refused' and maybe), 'rows-missing', lambda: '%d rows, %d missing' % (len(rows) - 1, left))
        n = len(rows) - 1
        if n and (sc['crash']['mode'] != 'none' or sc['damage'] or sc['faults'] or any(x[0] != 'N' for x in rows[1:])):
            ctx.nontrivial = True
    ctx.state(sc['fs'], q.cs, sc['crash']['mode'], tuple(sorted({d[0] for d in sc['damage']})), tuple(sorted({f['k'] for f in sc['faults']})), outcome, len(rows) // 10)
    ctx.sample = {'fs': sc['fs'], 'geo': sc['geo'], 'ops': sc['ops'][:4], 'damage': sc['damage'], 'faults': sc['faults'], 'crash': sc['crash'], 'rows': len(rows), 'outcome': outcome}
