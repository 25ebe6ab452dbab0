"""Reference model of an $MFT image: built from the versions that survived, independent of the code under test."""
from ..writers import ntfs

ORPHAN = '<Orphan>'


class Model(object):
    def __init__(self, cls, nrec=None):
        # num -> Version for every usable record
        self.v = {n: v for n, (c, v) in cls.items() if v is not None and c in ('ok', 'tail-torn')}
        self.cls = cls
        self.kids = {}
        for n in sorted(self.v):
            v = self.v[n]
            if v.base:
                self.kids.setdefault(v.base, []).append(n)

    def bases(self):
        return [n for n in sorted(self.v) if self.v[n].base == 0]

    def children(self, num):
        """(mandatory, optional) child numbers of a base record."""
        v = self.v[num]
        must, may = [], []
        for k in self.kids.get(ntfs.ref(num, v.eff_seq), []):
            if k == num:
                continue
            if self.v[k].in_use or not v.in_use:
                must.append(k)
            else:
                may.append(k)
        return must, may

    def names(self, num, kids):
        out = list(self.v[num].names())
        for k in kids:
            out += self.v[k].names()
        return out

    def resolve(self, reference):
        """Number of the base record a reference points to, or None."""
        num, seq = reference & 0xFFFFFFFFFFFF, reference >> 48
        v = self.v.get(num)
        if v is None or v.base or v.eff_seq != seq:
            return None
        return num

    def preferred(self, num):
        """Set of (name, parent) candidates for a directory on a path: the names in a preferred name space, else all."""
        must, may = self.children(num)
        names = self.names(num, must + may)
        pref = [(n[1], n[0]) for n in names if n[2] & 1 or n[2] == 0]
        if pref:
            return pref[0], len(pref) > 1
        if names:
            return (names[0][1], names[0][0]), len(names) > 1
        return None, False

    def path(self, parent_ref, name):
        """(path, ambiguous): ambiguous when an ancestor has several names to choose from, or the root itself is damaged."""
        comps = [name]
        cur = parent_ref
        seen = set()
        amb = False
        first = True
        while True:
            num = cur & 0xFFFFFFFFFFFF
            if num == 5:
                if self.resolve(cur) is None:
                    amb = True  # the root directory itself is unreadable
                comps.append('')
                break
            if num in seen:
                comps.append(ORPHAN)
                break
            r = self.resolve(cur)
            if r is None or not self.v[r].is_dir:
                comps.append(ORPHAN)
                break
            seen.add(num)
            p, a = self.preferred(r)
            amb = amb or a
            if p is None:
                comps.append(ORPHAN)
                break
            comps.append(p[0])
            cur = p[1]
            first = False
        comps.reverse()
        return '/'.join(comps), amb

    def paths(self, num, kids):
        return [self.path(n[0], n[1]) + (n,) for n in self.names(num, kids)]
