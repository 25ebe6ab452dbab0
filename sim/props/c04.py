"""C04: paths and lookups by reference or by path over histories of renames, deletions and record reuse."""
from collections import Counter
from dfir_ntfs import MFT
from ..core import SimFile, Violation, pick, wpick, rng_for
from ..writers import ntfs
from .. import mfthist
from ..oracle import mftcmp
from ..oracle.mftmodel import Model, ORPHAN
from .c03 import damage, classify

LEVEL = 'exploration'
RUNS = {'quick': 8000, 'thorough': 200000}
SHRINK = ['ops', 'damage', 'queries']
RULE = ('one run = a history of creations, renames, hard links, deletions and record reuse on a simulated $MFT, a crash, damaged '
        'records, then the paths of every record and lookups by reference and by path. Non-trivial: the history deletes, renames or links')
STATE_MEASURE = 'distinct (depth of the path, orphan or not, number of names, in use, lookup outcome, crash mode) tuples'
REAL = ['dfir_ntfs.MFT: MasterFileTableParser.build_full_paths, get_file_record_by_number, get_file_record_by_path']
STUB = ['NTFS driver and write-back disk cache (sim.writers.mftsim, sim.core.SimDisk)', 'acquired $MFT file (SimFile)']
ASSUMPTIONS = ['names in one directory differ when compared without case', 'a parent directory that is itself deleted may or may not resolve in lookups by path',
               'the root directory record survives']
MUST_HIT = ['child-seq-wrap', 'orphan', 'reused-reference', 'by-path-hit', 'by-path-miss', 'by-path-hardlink', 'child-number', 'loop', 'seq-wrap', 'damaged-other', 'bad-path']


def generate(rng, tier):
    sc = mfthist.gen_scene(rng)
    dmg = []
    if rng.random() < 0.45:
        for _ in range(rng.randrange(1, 5)):
            dmg.append({'k': pick(rng, ['zero', 'garbage', 'sig', 'usn', 'inside', 'loop', 'ring', 'ring', 'badref', 'badref']), 'rec': rng.randrange(16, sc['nrec']), 'x': rng.randrange(1 << 30)})
    sc['damage'] = dmg
    sc['faults'] = []
    q = []
    for _ in range(rng.randrange(3, 14)):
        q.append(wpick(rng, [(['num', rng.randrange(16, sc['nrec']) + sc['nrec'] * rng.randrange(16), rng.randrange(5)], 3), (['path', rng.randrange(1 << 20), rng.randrange(6)], 5), (['bad', rng.randrange(1 << 20)], 0.5)]))
    sc['queries'] = q
    return sc


def make_loops(sim, image, sc, ctx):
    """Corruption that forms directory loops: rewrite the parent reference of a directory's first name (resident, first stride)."""
    image = bytearray(image)
    for d in sc['damage']:
        if d['k'] not in ('loop', 'ring', 'badref'):
            continue
        rng = rng_for('loop', d['x'])
        dirs = sorted(n.num for n in sim.nodes.values() if n.is_dir and n.num >= 16)
        if not dirs:
            continue
        if d['k'] == 'badref':
            users = sorted(n.num for n in sim.nodes.values() if n.num >= 16)
            pairs = [(pick(rng, users), pick(rng, dirs))]
        elif d['k'] == 'loop':
            pairs = [(pick(rng, dirs), pick(rng, dirs))]
        else:
            # A chain of directories which ends in a loop.
            rng.shuffle(dirs)
            dirs = dirs[:rng.randrange(2, 9)]
            pairs = list(zip(dirs, dirs[1:])) + [(dirs[-1], pick(rng, dirs))]
        for num, tgt in pairs:
            hist = sim.history[num]
            off = num * sim.size
            v = next((v for v in reversed(hist) if image[off:off + sim.size] == v.protected), None)
            if v is None or sim.nodes[num].kids:
                continue
            names = v.names()
            if len(names) != 1:
                continue
            # Write it as a new version of the record, pointing to a directory below itself (or itself).
            n = sim.nodes[num]
            l = n.links[0]
            save = l['parent']
            l['parent'] = (tgt, sim.seq[tgt])
            if d['k'] == 'badref':
                # A damaged reference: the number of a directory, but not the sequence number it has.
                s = sim.seq[tgt]
                l['parent'] = (tgt, pick(rng, [0, 0, s ^ 0x8000, s ^ 1, (s - 1) & 0xFFFF, (s + 1) & 0xFFFF, 0xFFFF]))
            nv = sim.put(num, v.seq, v.flags, v.base, sim.attrs_of(n))
            l['parent'] = save
            image[off:off + sim.size] = nv.protected
            ctx.fault('cross-linked-directory')
    return bytes(image)


def execute(sc, ctx):
    sim, image = mfthist.build(sc, ctx)
    image = make_loops(sim, image, sc, ctx)
    image, inside = damage(sim, image, sc, ctx)
    cls = classify(sim, image, inside)
    model = Model(cls)
    unknown = {n for n, (c, v) in cls.items() if c == 'mixed'}
    if unknown or not all(n in model.v for n in (0, 3, 5)):
        return
    if inside or len(model.v) < sc['nrec']:
        ctx.probe('damaged-other')
    fo = SimFile(ctx, image, [], 'mft')
    parser = MFT.MasterFileTableParser(fo)

    def tainted(num):
        """Does the record's own set of records include one corrupted inside?"""
        must, may = model.children(num)
        return bool(inside & set([num] + must + may))

    def via_inside(reference, depth=0):
        """Does the ancestor chain touch a record corrupted inside? Then only an orphan path may be reported."""
        seen = set()
        cur = reference
        while True:
            num = cur & 0xFFFFFFFFFFFF
            if num == 5 or num in seen:
                return False
            seen.add(num)
            r = model.resolve(cur)
            if r is None:
                return False
            if tainted(r):
                return True
            p, a = model.preferred(r)
            if p is None:
                return False
            cur = p[1]

    records = {fr.get_master_file_table_number(): fr for fr in parser.file_records()}
    by_path = {}
    for num in model.bases():
        fr = records.get(num)
        ctx.check(fr is not None, 'enumeration', 'record %d is missing', num)
        if tainted(num):
            try:
                parser.build_full_paths(fr)
            except MFT.MasterFileTableException:
                pass
            continue
        must, may = model.children(num)
        if may:
            continue
        want = model.paths(num, must)
        try:
            got = parser.build_full_paths(fr, True)
        except MFT.MasterFileTableException as e:
            raise Violation('path-lost', 'no paths for the intact record %d (%s): %r' % (num, [w[0] for w in want], e))
        plain = parser.build_full_paths(fr)
        ctx.check([p for p, _ in got] == plain, 'paths', 'record %d: paths with and without attributes differ', num)
        ctx.check(len(got) == len(want), 'paths', lambda: 'record %d: paths %r, expected %r' % (num, plain, [w[0] for w in want]))
        left = list(want)
        for p, fn in got:
            hit = None
            for w in left:
                if (fn.get_parent_directory(), fn.get_file_name(), fn.get_flags()) == (w[2][0], w[2][1], w[2][2]):
                    hit = w
                    break
            ctx.check(hit is not None, 'paths', lambda: 'record %d: name %r was never written' % (num, fn.get_file_name()))
            left.remove(hit)
            mftcmp.check_name(ctx, fn, hit[2], 'record %d' % num)
            if via_inside(hit[2][0]):
                ctx.check(p.startswith(ORPHAN) and p.endswith('/' + hit[2][1]), 'paths', 'record %d: path %r through a corrupt directory', num, p)
                continue
            if not hit[1]:
                ctx.check(p == hit[0], 'paths', lambda: 'record %d: path %r, expected %r' % (num, p, hit[0]))
            if p.startswith(ORPHAN):
                ctx.probe('orphan')
            if hit[0].count('/') > 3 and hit[0].startswith(ORPHAN) and any(d['k'] == 'loop' for d in sc['damage']):
                ctx.probe('loop')
            ctx.state(p.count('/'), p.startswith(ORPHAN), len(want), model.v[num].in_use)
        if want:
            ns = got[0][1].get_flags()
            if any(w[2][2] in (0, 1, 3) for w in want):
                ctx.check(ns in (0, 1, 3), 'paths', 'record %d: the first path uses a short name although a long one exists', num)
        if model.v[num].in_use:
            for w in want:
                by_path.setdefault(w[0].upper(), []).append(num)
    # Lookups by reference.
    for q in sc['queries']:
        if q[0] == 'num':
            num = q[1] % sc['nrec']
            odd = [n for n in sorted(model.v) if model.v[n].base or model.v[n].seq == 0]
            if odd and q[1] // sc['nrec'] % 2:
                odd = [n for n in odd if model.v[n].base and model.v[n].seq in (0, 1, 0xFFFF)] or odd
                num = odd[q[1] // sc['nrec'] // 2 % len(odd)]
            v = model.v.get(num)
            hist = sim.history.get(num, [])
            seqs = sorted({h.eff_seq for h in hist})
            exp = [None, v.eff_seq if v else 1, seqs[0] if seqs else 3, (seqs[-1] + 1) & 0xFFFF if seqs else 4, v.seq if v else 5][q[2] % 5]
            if v is not None and v.seq in (0, 1, 0xFFFF):
                ctx.probe('seq-wrap')
            try:
                fr = parser.get_file_record_by_number(num, exp)
            except MFT.MasterFileTableException as e:
                if v is None:
                    continue
                if v.base == 0:
                    ctx.check(exp is not None and exp != v.eff_seq, 'lookup-by-reference', lambda: 'record %d with sequence number %r not found: %r' % (num, exp, e))
                    if exp in seqs:
                        ctx.probe('reused-reference')
                else:
                    b = model.resolve(v.base)
                    ctx.check(b is None or (exp is not None and exp != v.eff_seq), 'lookup-by-reference', lambda: 'child record %d not resolved: %r' % (num, e))
                continue
            if v is not None and v.base and v.seq == 0:
                ctx.probe('child-seq-wrap')
            if q[2] % 3 == 0:
                # A child is not taken for a file when the caller wants files only.
                try:
                    parser.get_file_record_by_number(num, exp, False)
                except MFT.MasterFileTableException as e:
                    ctx.check(v is None or v.base, 'lookup-by-reference', lambda: 'record %d refused: %r' % (num, e))
                else:
                    ctx.check(v is not None and v.base == 0, 'lookup-by-reference', 'the child record %d was returned as a file', num)
            ctx.check(v is not None, 'lookup-by-reference', 'an unusable record %d was returned', num)
            ctx.check(exp is None or exp == v.eff_seq, 'lookup-by-reference', lambda: 'record %d with sequence number %r was returned for %r' % (num, v.eff_seq, exp))
            if v.base == 0:
                ctx.check(fr.get_master_file_table_number() == num, 'lookup-by-reference', 'wrong record')
            else:
                b = model.resolve(v.base)
                ctx.check(b is not None and fr.get_master_file_table_number() == b, 'lookup-by-reference', lambda: 'child record %d resolved to %r, expected %r' % (num, fr.get_master_file_table_number(), b))
                ctx.probe('child-number')
        elif q[0] == 'bad':
            for p in ('', 'x', '//', '/a/../b', '/./b', '/a//b', 'C:/x'):
                try:
                    fr = parser.get_file_record_by_path(p)
                except MFT.MasterFileTableException:
                    continue
                raise Violation('bad-path', 'the lookup of %r was not refused: %r' % (p, fr and fr.get_master_file_table_number()))
            fr = parser.get_file_record_by_path('/')
            ctx.check(fr is not None and fr.get_master_file_table_number() == 5, 'lookup-by-path', 'the root directory is not found')
            ctx.probe('bad-path')
        else:
            paths = sorted(by_path)
            kind = q[2] % 6
            if kind < 4 and paths:
                path = paths[q[1] % len(paths)]
                src = None
                for num in by_path[path]:
                    must, may = model.children(num)
                    for w in model.paths(num, must):
                        if w[0].upper() == path:
                            src = w[0]
                path = src
                if path.startswith(ORPHAN):
                    continue
                if kind == 1:
                    path = path.upper()
                elif kind == 2:
                    path = path.lower()
                    if path.upper() != src.upper():
                        path = src
            elif kind == 4:
                path = '/no such name/%d' % (q[1] % 7)
            else:
                if not sim.dead:
                    continue
                n = sim.dead[q[1] % len(sim.dead)]
                l = n.links[0]
                par, amb = model.path(ntfs.ref(*l['parent']), l['name'])
                if par.startswith(ORPHAN):
                    continue
                path = par
            check_path(sc, ctx, model, parser, path, sim, inside, tainted)
    ctx.nontrivial = any(o[0] in ('rename', 'delete', 'link') for o in sc['ops'])
    ctx.sample = {'ops': sc['ops'][:8], 'crash': sc['crash'], 'damage': sc['damage'], 'queries': sc['queries'][:4]}


def check_path(sc, ctx, model, parser, path, sim, inside, tainted):
    for cs in (False, True):
        check_path_cs(sc, ctx, model, parser, path, sim, inside, tainted, cs)


def check_path_cs(sc, ctx, model, parser, path, sim, inside, tainted, cs):
    def fold(x):
        return x if cs else x.upper()

    comps = path.split('/')[1:]
    # Reference lookup: walk down from the root over the records in use, any name of each component, without case.
    children = {}
    fuzzy = False
    for num in model.bases():
        if tainted(num) or not model.v[num].in_use:
            continue
        must, may = model.children(num)
        fuzzy = fuzzy or bool(may)
        for nm in model.names(num, must):
            children.setdefault((nm[0] & 0xFFFFFFFFFFFF, nm[0] >> 48), []).append((fold(nm[1]), num))
    cur = {(5, None)}
    for i, c in enumerate(comps):
        nxt = set()
        for (pn, ps), kids in children.items():
            if any(pn == n and (n == 5 or ps == s) for n, s in cur):
                for nm, num in kids:
                    if nm == fold(c):
                        v = model.v[num]
                        nxt.add((num, v.eff_seq))
        cur = nxt
    want = {n for n, _ in cur}
    # A deleted or unreadable directory on the way makes the answer unspecified.
    for num in model.bases():
        if not model.v[num].in_use or tainted(num):
            must, may = model.children(num)
            if model.v[num].is_dir and any(x[1].upper() in [c.upper() for c in comps[:-1]] for x in model.names(num, must)):
                fuzzy = True
    if inside:
        fuzzy = fuzzy or any(tainted(n) for n in want)
    variants = [(path, False), (path + '/', True)]
    for p, must_dir in variants:
        try:
            fr = parser.get_file_record_by_path(p, True) if cs else parser.get_file_record_by_path(p)
        except MFT.MasterFileTableException as e:
            raise Violation('lookup-by-path', 'lookup of %r failed: %r' % (p, e))
        got = None if fr is None else fr.get_master_file_table_number()
        if fuzzy:
            ctx.probe('by-path-fuzzy')
            continue
        if must_dir:
            ok = {n for n in want if model.v[n].is_dir}
        else:
            ok = want
        if not ok:
            ctx.check(got is None, 'lookup-by-path', lambda: '%r (case sensitive: %s) resolves to record %r, expected nothing' % (p, cs, got))
            ctx.probe('by-path-miss')
        else:
            ctx.check(got in ok, 'lookup-by-path', lambda: '%r (case sensitive: %s) resolves to record %r, expected %r' % (p, cs, got, sorted(ok)))
            ctx.probe('by-path-hit')
            if len(model.v[got].names()) > 1:
                ctx.probe('by-path-hardlink')
        ctx.state('lookup', len(comps), got is None, must_dir)
