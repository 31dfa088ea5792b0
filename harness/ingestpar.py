"""C02: several worker processes ingest into one catalogue under chosen schedules and crashes."""
import os
import fitsio
import numpy as np
from harness.common import *   # noqa: F401,F403
from harness import ingest as I
from harness.sched import Sched, random_policy
from redmapper import GalaxyCatalogMaker


def scenario(r, k):
    root = fresh('c02')
    nside = 2
    nw = int(r.choice([2, 2, 3, 4]))
    gen = bool(r.randint(3))
    pool = r.choice(48, size=int(r.choice([1, 2, 3])), replace=False)
    d = os.path.join(os.path.abspath(root), 'cat_20240101')
    os.makedirs(d) if r.randint(2) else None
    base = 'gals'
    batches, gid, src = [], 1, {}
    for w in range(nw):
        for b in range(int(r.choice([1, 1, 2]))):
            m = int(r.choice([1, 2, 3, 6]))
            g, gids = I.batch(r, gid, m, nside, pool, False, False)
            g['ra'], g['dec'] = I.positions(r, nside, m, pool)
            gid += m
            for row, i in zip(g, gids):
                src[int(i)] = row.copy()
            batches.append((w + 1, g, gids))
    kw = dict(nside=nside, generate_unique_ids=gen)
    # what one worker alone would publish
    sd = os.path.join(os.path.abspath(root), 'serial')
    mk = GalaxyCatalogMaker(os.path.join(sd, base), I.info(), parallel=False, **kw)
    for w, g, gids in batches:
        mk.append_galaxies(g)
    mk.finalize_catalog()
    st = fitsio.read(os.path.join(sd, base + '_master_table.fit'), ext=1)
    crash = dict(left=int(r.choice([0, 0, 1, 1, 2])), p=float(r.choice([0.02, 0.05, 0.15])))
    if crash['left'] >= nw:
        crash['left'] = nw - 1
    s = Sched(root)

    def make(w):
        def fn(c):
            m = GalaxyCatalogMaker(os.path.join(d, base), I.info(), parallel=True, **kw)
            for b, (ww, g, gids) in enumerate(batches):
                if ww != w:
                    continue
                c.ev('start', b=b + 1)
                try:
                    m.append_galaxies(g)
                    res = 'ok'
                except Exception as e:       # noqa: BLE001
                    res = type(e).__name__
                c.ev('ret', b=b + 1, res=res)
            c.gate('barrier')
            try:
                m.finalize_catalog()
                res = 'ok'
            except Exception as e:           # noqa: BLE001
                res = type(e).__name__
            c.ev('fin', res=res)
        return fn
    for w in range(nw):
        s.spawn('w%d' % (w + 1), make(w + 1))
    held, frozen, pos = {}, {}, [0]

    def digest(p):
        f = os.path.join(d, '%s_%07d.fit' % (base, p))
        if not os.path.isfile(f):
            return None
        try:
            a = np.atleast_1d(fitsio.read(f, ext=1))
            if gen:
                a['id'] = 0              # finalisation numbers the galaxies of every file
            return a.tobytes()
        except Exception:                # noqa: BLE001
            return open(f, 'rb').read()

    def watch(sch):
        # which pixels a worker that dies has locked, and their files at that moment
        for e in sch.events[pos[0]:]:
            path = e.get('path') or ''
            if path.endswith('.fit.lock') and not path.endswith('table.fit.lock'):
                if e['op'] == 'link' and e['ok']:
                    held[path] = e['w']
                elif e['op'] == 'unlink' and e['ok']:
                    held.pop(path, None)
            if e['op'] == 'crash':
                for q, w in held.items():
                    if w == e['w']:
                        p = int(os.path.basename(q)[len(base) + 1:-9])
                        frozen[p] = digest(p)
        pos[0] = len(sch.events)
    finished = s.run(random_policy(r, crash, stick=float(r.choice([0.1, 0.4, 0.7, 0.9]))), watch, maxsteps=20000)
    touched = [p for p in frozen if digest(p) != frozen[p]]
    steps = [dict(op='open', n=nw, batches=[dict(w=w, rows=[dict(gid=x['gid'], pix=x['pix'], id=x['id']) for x in I.rows_of(g, gi, nside, None)])
                                            for w, g, gi in batches])]
    for e in s.events:
        w = int(e['w'][1:])
        if e['op'] in ('start', 'ret'):
            steps.append(dict(op=e['op'], w=w, b=e['b'], res=e.get('res', '')))
        elif e['op'] in ('crash', 'fin'):
            steps.append(dict(op=e['op'], w=w, res=e.get('res', '')))
    bad = [w for w in s.workers if w.state != 'crashed' and w.res != 'ok']
    files, same, master, other = I.observe(d, base, nside, src, gen) if os.path.isdir(d) else ([], True, dict(present=False, hpix=[], ngals=[], names=[]), [])
    seen = set(f['pix'] for f in files)
    locked, unread, nother = [], [], 0
    for f in (os.listdir(d) if os.path.isdir(d) else []):
        if f.startswith(base + '_') and f.endswith('.fit') and not f.endswith('table.fit'):
            p = int(f[len(base) + 1:-4])
            if p not in seen:
                unread.append(p)
    for f in other:
        if f.endswith('.fit.lock') and not f.endswith('table.fit.lock'):
            locked.append(int(f[len(base) + 1:-9]))
        else:
            nother += 1
    serial = True
    if master['present']:
        tt = fitsio.read(os.path.join(d, base + '_master_table.fit'), ext=1)
        serial = tt.dtype == st.dtype and all(np.array_equal(tt[nm], st[nm]) for nm in st.dtype.names)
    steps.append(dict(op='end', touched=sorted(touched), frozen=len(frozen), finished=bool(finished and not bad), files=files, same=same, master=master, locked=sorted(locked),
                      other=nother, unreadable=sorted(unread), serial=bool(serial)))
    return steps, len(s.events)


def main():
    shards(shard, 7)


def shard(i, nproc, out):
    for k in range(n(350, 6000)):
        if k % nproc != i:
            continue
        steps, ne = scenario(rng(2000 + k), k)
        out.add('par%04d' % k, steps)
        out.count('schedules')
        out.count('file_operations', ne)
        out.count('dead_locks', steps[-1]['frozen'])
        out.count('crashes', sum(s['op'] == 'crash' for s in steps))


if __name__ == '__main__':
    main()
