"""What the code reports about an image, for demonstrations. usage in a demo: golden.check(kind, images, expect file)"""
import io
import json
import lzma
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))


def load(n):
    with open(os.path.join(HERE, n), 'rb') as f:
        return lzma.decompress(f.read())


def t(x):
    return None if x is None else str(x)


def report(kind, b, arg):
    if kind == 'log':
        from dfir_ntfs import LogFile
        return [[type(x).__name__, x.lsn] for x in LogFile.LogFileParser(io.BytesIO(b[0])).parse_ntfs_records()]
    if kind == 'fat':
        from dfir_ntfs.addons import FAT
        FAT.WARN_FUNC = lambda *a: None
        return [[x.long_name_partial] if type(x).__name__ == 'OrphanLongEntry' else [x.is_deleted, x.is_directory, x.short_name, x.long_name, t(x.mtime), x.size, x.first_cluster] for x in FAT.FileSystemParser(io.BytesIO(b[0]), arg).walk()]
    if kind == 'exfat':
        from dfir_ntfs.addons import exFAT
        f = {'OrphanEntry': lambda x: [x.name_partial], 'VolumeLabelEntry': lambda x: ['label', x.volume_label],
             'FileEntry': lambda x: [x.is_deleted, x.is_directory, x.name, t(x.mtime), x.size, x.first_cluster]}
        return [f[type(x).__name__](x) for x in exFAT.FileSystemParser(io.BytesIO(b[0]), arg).walk()]
    if kind == 'vss':
        from dfir_ntfs import ShadowCopy
        import hashlib
        v = ShadowCopy.ShadowParser(io.BytesIO(b[0]), arg[0]) if len(b) == 1 else ShadowCopy.ShadowParserTwoVolumes(io.BytesIO(b[0]), io.BytesIO(b[1]), arg[0], None, arg[1])
        out = []
        for s in v.shadows():
            v.select_shadow(s.stack_position)
            n = min(v.current_volume_size, 8 << 20)
            h = []
            for o in range(0, n, 16384):
                v.seek(o)
                h.append(hashlib.md5(v.read(min(16384, n - o))).hexdigest()[:8])
            out.append([s.stack_position, h])
        return out
    if kind == 'script':
        # arg: [script, arguments], %0, %1: images, %o: the output file
        import subprocess
        import tempfile
        import shutil
        d = tempfile.mkdtemp()
        try:
            a = []
            for x in arg[1]:
                if x[:1] == '%' and x != '%o':
                    p = os.path.join(d, 'in' + x[1:])
                    with open(p, 'wb') as f:
                        f.write(b[int(x[1:])])
                    x = p
                a.append(os.path.join(d, 'out') if x == '%o' else x)
            r = subprocess.run([sys.executable, os.path.join(os.getcwd(), arg[0])] + a, capture_output=True, text=True)
            return [r.returncode, r.stdout, open(os.path.join(d, 'out'), encoding='utf-8', newline='').read() if os.path.exists(os.path.join(d, 'out')) else None]
        finally:
            shutil.rmtree(d)
    raise ValueError(kind)


def check(kind, names, arg, name='expect.json'):
    got = json.loads(json.dumps(report(kind, [load(n) for n in names], arg)))
    with open(os.path.join(HERE, name)) as f:
        want = json.load(f)
    if got != want:
        for i in range(max(len(got), len(want))):
            g, w = got[i:i + 1], want[i:i + 1]
            if g != w:
                print('item %d: %r instead of %r' % (i, g, w), file=sys.stderr)
                break
        sys.exit(1)


if __name__ == '__main__':
    # golden.py KIND ARG(json) OUT IMAGE... : writes what is reported now
    HERE = ''
    json.dump(report(sys.argv[1], [load(n) for n in sys.argv[4:]], json.loads(sys.argv[2])), open(sys.argv[3], 'w'))
