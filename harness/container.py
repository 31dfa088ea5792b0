"""C22: histories of operations on the catalogue containers, observed through the public interface."""
import os
import fitsio
import numpy as np
from harness.common import *   # noqa: F401,F403
from redmapper import Catalog, Entry, GalaxyCatalog, ClusterCatalog
from redmapper.cluster import Cluster

KIND = dict(i='i4', l='i8', f='f8', v=('f4', 3), s='S6')
POOL = ['alpha', 'bval', 'mag', 'zphot', 'pos', 'ident', 'note', 'extra']
BASE = ['mem_match_id', 'refmag', 'lambda']     # fields that every cluster catalogue has


def cap(r, s):
    return [s, s.upper(), s.capitalize(), ''.join(c.upper() if r.randint(2) else c for c in s)][r.randint(4)]


def val(r, k):
    if k == 'v':
        return [int(x) for x in r.randint(1, 99, size=3)]
    return [int(r.randint(1, 99))]


def put(v, k):
    return np.array(v, dtype='f4') if k == 'v' else (b'%d' % v[0] if k == 's' else v[0])


def get(x):
    if x is None:
        return [-98]
    if isinstance(x, (bytes, str, np.bytes_, np.str_)):
        s = x.decode('latin1') if isinstance(x, bytes) else str(x)
        s = s.strip()
        return [int(s) if s.isdigit() else (0 if s == '' else -97)]
    a = np.ravel(np.asarray(x))
    if a.dtype.kind in 'SU':
        return get(a[0])
    return [int(y) if np.isfinite(y) and float(y) == int(y) else -99 for y in a]


def field(o, name):
    try:
        return getattr(o, name)
    except AttributeError:
        return None


def make(cols, rows, kinds):
    dt = []
    for c in cols:
        k = KIND[kinds[c.lower()]]
        dt.append((c, k) if isinstance(k, str) else (c,) + k)
    a = np.zeros(len(rows), dtype=dt)
    for i, row in enumerate(rows):
        for c, v in zip(cols, row):
            a[c][i] = put(v, kinds[c.lower()])
    return a


class Obj(object):
    pass


def history(r, k, out):
    d = fresh('c22')
    cls = [Catalog, Catalog, GalaxyCatalog, ClusterCatalog][r.randint(4)]
    kinds = {c: str(r.choice(list('ilfvs'))) for c in POOL}
    kinds.update(mem_match_id='i', refmag='f')
    kinds['lambda'] = 'f'
    objs = {}
    files = {}
    aug = BASE if cls is ClusterCatalog else []
    steps = [dict(op='open', aug=aug, wid=[dict(n=c, w=3 if kinds[c] == 'v' else 1) for c in kinds])]

    def see(o):
        """Content through attribute access (any case), and its agreement with iteration, length and elements."""
        cat = o
        names = [x for x in cat.dtype.names]
        shown = [x for x in names if x in POOL or x in BASE]
        quietzero = True
        rows = [[] for _ in range(cat.size)]
        agree = len(cat) == cat.size
        for nm in shown:
            col = field(cat, cap(r, nm))
            if col is None:
                agree = False
                continue
            col = np.asarray(col)
            if col.shape[:1] != (cat.size,):
                agree = False
                continue
            for i in range(cat.size):
                rows[i].append(get(col[i]))
        if cls is ClusterCatalog:
            for nm in names:
                if nm not in shown:
                    c = field(cat, nm)
                    if c is None:
                        agree = False
                        continue
                    c = np.asarray(c)
                    quietzero &= bool(np.all(c == (b'' if c.dtype.kind == 'S' else 0)))
        if cat.size and r.randint(3) == 0:
            for i, e in enumerate(cat):
                for nm, v in zip(shown, rows[i]):
                    agree &= get(field(e, cap(r, nm))) == v
            agree &= i == cat.size - 1
        return dict(names=shown, rows=rows, agree=bool(agree and quietzero))

    def build(arrs):
        if cls is ClusterCatalog:
            return cls(*arrs) if len(arrs) == 1 else cls(Catalog(*arrs)._ndarray)
        return cls(*arrs)

    def rand_arrays():
        na = int(r.choice([1, 1, 2, 3]))
        size = int(r.choice([0, 1, 1, 2, 3, 5]))
        pool = list(r.permutation(POOL))
        if aug and r.randint(2):
            pool.insert(0, str(r.choice(aug)))
        arrs = []
        for j in range(na):
            nc = int(r.choice([1, 1, 2, 3]))
            cols = []
            for q in range(nc):
                if not pool:
                    break
                cols.append(pool.pop(0))
            if not cols:
                break
            if j and r.randint(5) == 0:
                prev = arrs[r.randint(len(arrs))]['names']
                dupname = prev[r.randint(len(prev))]
                if dupname not in cols:
                    cols[-1] = dupname
            sz = size if r.randint(8) else size + 1
            arrs.append(dict(names=cols, rows=[[val(r, kinds[c]) for c in cols] for _ in range(sz)]))
        return arrs

    def arr(a):
        return make([cap(r, c) for c in a['names']], a['rows'], kinds)
    nops = int(r.choice([4, 8, 14, 20]))
    for q in range(nops):
        live = sorted(objs)
        op = str(r.choice(['build', 'append', 'appendarr', 'extend', 'pick', 'setfield', 'setcell', 'setelem', 'addfields', 'write', 'read', 'elem', 'merge', 'clear'])) if live else 'build'
        slot = int(r.randint(1, 4))
        o = int(r.choice(live)) if live else 0
        st = dict(op=op, o=o, to=slot)
        names = [x for x in objs[o].dtype.names if x in POOL or x in BASE] if live else []
        size = objs[o].size if live else 0
        if op == 'build':
            arrs = rand_arrays()
            st['arrays'] = arrs
            res, x = guard(build, [arr(a) for a in arrs])
            if res == 'ok':
                objs[slot] = x
        elif op == 'merge':
            # two catalogues side by side
            p = int(r.choice(live))
            st['p'] = p
            a, b = objs[o]._ndarray.copy(), objs[p]._ndarray.copy()
            if aug:
                continue
            res, x = guard(build, [a, b])
            if res == 'ok':
                objs[slot] = x
        elif op == 'append':
            p = int(r.choice(live))
            st['p'] = p
            st['order'] = bool(objs[o].dtype.names == objs[p].dtype.names)
            res, _ = guard(objs[o].append, objs[p] if r.randint(2) else objs[p]._ndarray.copy())
        elif op == 'appendarr':
            rows = [[val(r, kinds[c]) for c in names] for _ in range(int(r.choice([0, 1, 2])))]
            if aug:
                continue
            st['rows'] = rows
            res, _ = guard(objs[o].append, make(names, rows, kinds))
        elif op == 'extend':
            st['n'] = int(r.choice([0, 1, 2]))
            res, _ = guard(objs[o].extend, st['n'])
        elif op == 'pick':
            how = r.randint(4)
            if how == 0:
                key = slice(*[None if r.randint(3) == 0 else int(x) for x in (r.randint(-6, 7), r.randint(-6, 7), r.choice([1, 2, -1]))])
                idx = list(range(size))[key]
            elif how == 1:
                key = np.asarray(r.randint(2, size=size), dtype=bool)
                idx = [i for i in range(size) if key[i]]
            elif how == 2 and size:
                key = r.randint(-size, size, size=int(r.choice([0, 1, 3])))
                idx = [int(i) % size for i in key]
            else:
                key = np.argsort(r.uniform(size=size))
                idx = [int(i) for i in key]
            st['idx'] = [i + 1 for i in idx]
            res, x = guard(lambda: objs[o][key])
            if res == 'ok':
                ok = type(x) is cls
                st['type'] = bool(ok)
                y = x._ndarray.copy()
                objs[slot] = cls(y)
        elif op == 'elem':
            if not size:
                continue
            i = int(r.randint(-size, size))
            e = objs[o][i]
            st['i'] = i % size + 1
            st['vals'] = [get(field(e, cap(r, nm))) for nm in names]
            st['type'] = bool(isinstance(e, cls.entry_class))
            res = 'ok'
        elif op in ('setfield', 'clear'):
            nm = str(r.choice(names))
            st['name'] = nm
            if op == 'clear' or r.randint(3) == 0:
                v = val(r, kinds[nm])
                vals = [v] * size
                x = put(v, kinds[nm])
                if kinds[nm] == 'v':
                    v = [v[0]] * 3
                    vals = [v] * size
                    x = float(v[0])
                elif r.randint(3) == 0:
                    x = [x]
            else:
                m = size if r.randint(6) else size + 2
                if size <= 1:
                    m = size
                vals = [val(r, kinds[nm]) for _ in range(m)]
                x = np.array([put(v, kinds[nm]) for v in vals], dtype=KIND[kinds[nm]] if isinstance(KIND[kinds[nm]], str) else 'f4')
                if kinds[nm] == 'v':
                    x = x.reshape((m, 3))
            st['op'] = 'setfield'
            st['vals'] = vals
            cat = objs[o]

            def assign():
                setattr(cat, cap(r, nm), x)
            res, _ = guard(assign)
        elif op in ('setcell', 'setelem'):
            if not size:
                continue
            nm = str(r.choice(names))
            i = int(r.randint(size))
            v = val(r, kinds[nm])
            st.update(op='setcell', name=nm, i=i + 1, val=v)

            def assign():
                if op == 'setcell':
                    getattr(objs[o], cap(r, nm))[i] = put(v, kinds[nm])
                else:
                    setattr(objs[o][i], cap(r, nm), put(v, kinds[nm]))
            res, _ = guard(assign)
        elif op == 'addfields':
            new = [c for c in r.permutation(POOL)[:int(r.choice([1, 2]))]]
            st['names'] = [str(c) for c in new]
            dt = []
            for c in new:
                kk = KIND[kinds[c]]
                dt.append((cap(r, str(c)), kk) if isinstance(kk, str) else (cap(r, str(c)),) + kk)
            res, _ = guard(objs[o].add_fields, dt)
        elif op == 'write':
            f = int(r.randint(1, 3))
            fn = os.path.join(d, 'f%d.fit' % f)
            clob = bool(r.randint(3))
            kw = {}
            how = r.randint(3)
            if how == 0:
                idx = list(range(size))
            elif how == 1:
                idx = [int(i) for i in np.where(r.randint(2, size=size))[0]]
                kw['indices'] = np.array(idx, dtype=int)
            else:
                idx = [int(i) for i in np.argsort(r.uniform(size=size))[:max(1, size // 2)]]
                kw['indices'] = np.array(idx, dtype=int)
            st.update(f=f, idx=[i + 1 for i in idx], clobber=clob)
            res, _ = guard(objs[o].to_fits_file, fn, clobber=clob, **kw)
        else:
            fs = [x for x in (1, 2) if os.path.isfile(os.path.join(d, 'f%d.fit' % x))]
            if not fs or cls is ClusterCatalog and r.randint(2):
                continue
            f = int(r.choice(fs))
            fn = os.path.join(d, 'f%d.fit' % f)
            nrow = fitsio.FITS(fn)[1].get_nrows()
            how = r.randint(3)
            idx = list(range(nrow))
            if how == 0 and nrow:
                idx = sorted(int(i) for i in r.choice(nrow, size=int(r.randint(1, nrow + 1)), replace=False))
            st.update(op='read', f=f, idx=[i + 1 for i in idx], every=True)
            if cls is ClusterCatalog:
                st['idx'] = list(range(1, nrow + 1))
                res, x = guard(cls.from_catfile, fn)
            elif how == 1:
                res, x = guard(lambda: cls.from_fits_ext(fitsio.FITS(fn)[1]))
            elif how == 0 and nrow:
                st['every'] = False
                res, x = guard(cls.from_fits_file, fn, rows=np.array(idx))
            else:
                res, x = guard(cls.from_fits_file, fn)
            if res == 'ok':
                objs[slot] = x
        st['res'] = res
        st['all'] = [dict(see(objs[i]), o=i) for i in sorted(objs)]
        steps.append(st)
        out.count('operations')
        out.count('refused', int(res != 'ok'))
    out.add('h%04d' % k, steps)
    out.count('histories')


def entries(r, k, out):
    """One-row objects."""
    cols = [str(c) for c in r.permutation(POOL)[:3]]
    kinds = {c: str(r.choice(list('ilfvs'))) for c in POOL}
    size = int(r.choice([1, 1, 1, 0, 2]))
    rows = [[val(r, kinds[c]) for c in cols] for _ in range(size)]
    a = make([cap(r, c) for c in cols], rows, kinds)
    res, e = guard(Entry, a)
    st = dict(op='entry', size=size, res=res, names=cols, rows=rows, seen=[], after=[], name='-', val=[0], added=[], file=[], fres='ok', wid=[3 if kinds[c] == 'v' else 1 for c in POOL])
    if res == 'ok':
        st['seen'] = [get(field(e, cap(r, c))) for c in cols]
        new = [str(c) for c in POOL if c not in cols][:2]
        if r.randint(2):
            nm = cols[r.randint(3)]
            v = val(r, kinds[nm])
            setattr(e, cap(r, nm), put(v, kinds[nm]))
            st.update(name=nm, val=v)
        if r.randint(2):
            dt = []
            for c in new:
                kk = KIND[kinds[c]]
                dt.append((c.upper(), kk) if isinstance(kk, str) else (c.upper(),) + kk)
            st['fres'], _ = guard(e.add_fields, dt)
            st['added'] = [dict(n=c, w=3 if kinds[c] == 'v' else 1) for c in new]
        names = [x for x in e.dtype.names]
        st['after'] = [dict(n=x, v=get(getattr(e, x))) for x in names]
        d = fresh('c22e')
        fn = os.path.join(d, 'e.fit')
        e.to_fits_file(fn)
        b = fitsio.read(fn, ext=1, lower=True)
        st['file'] = [dict(n=x, v=get(b[x][0])) for x in b.dtype.names] if b.size == 1 else []
    out.add('e%04d' % k, [st])


def shard(i, nproc, out):
    for k in range(n(700, 9000)):
        if k % nproc == i:
            history(rng(22000 + k), k, out)
            if k % 3 == 0:
                entries(rng(32000 + k), k, out)


if __name__ == '__main__':
    shards(shard, 7)
