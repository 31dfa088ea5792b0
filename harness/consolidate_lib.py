"""Record layouts and positions shared by the consolidation harnesses."""
import os

import fitsio
import hpgeom as hpg
import numpy as np

CAT = [('mem_match_id', 'i4'), ('ra', 'f8'), ('dec', 'f8'), ('lambda', 'f4'), ('scaleval', 'f4'),
       ('maskfrac', 'f4'), ('z_lambda', 'f4'), ('lnlamlike', 'f4'), ('lnlike', 'f4'), ('cg_spec_z', 'f4'),
       ('gid', 'i8'), ('payload', 'f4', (3,))]
MEM = [('mem_match_id', 'i4'), ('id', 'i8'), ('ra', 'f8'), ('dec', 'f8'), ('p', 'f4'), ('zspec', 'f4'), ('payload', 'f4', (2,))]


def pos_in(nside, pix, r):
    """A position whose ring pixel at nside is pix (rejection on a fine subpixel of it)."""
    fine = nside * 16
    nest = hpg.ring_to_nest(nside, pix)
    sub = nest * 256 + r.randint(256)
    ra, dec = hpg.pixel_to_angle(fine, sub, nest=True)
    return float(ra), float(dec)


class Spectra(object):
    """Spectroscopic objects placed near some positions: within or beyond the 3 arcsec matching radius, well or badly measured."""

    def __init__(self, r, d):
        self.r, self.d = r, d
        self.rows = [(10.0, 89.9, 0.9, 1e-4)]
        self.k = 0
        self.places = set()

    def taken(self, ra, dec):
        """No two clusters at one place, where their spectra could not be told apart."""
        key = (round(ra, 4), round(dec, 4))
        if key in self.places:
            return True
        self.places.add(key)
        return False

    def near(self, ra, dec):
        """List of [distance in milliarcsec, redshift in thousandths, well measured] in order of distance."""
        r = self.r
        res = []
        for dist in sorted(r.choice([500, 1500, 2500, 4000, 10000], size=int(r.choice([0, 1, 1, 2])), replace=False).tolist()):
            self.k += 1
            z = 1 + self.k % 700
            ok = bool(r.randint(4) > 0)
            self.rows.append((ra, dec + dist / 3.6e6 * r.choice([-1, 1]), z / 1000., 1e-4 if ok else [0.5, 0.002][self.k % 2]))
            res.append([dist, z, ok])
        return res

    def write(self):
        a = np.zeros(len(self.rows), dtype=[('ra', 'f8'), ('dec', 'f8'), ('z', 'f4'), ('z_err', 'f4')])
        for i in range(a.size):
            a[i] = self.rows[i]
        a = a[self.r.permutation(a.size)]
        fitsio.write(os.path.join(self.d, 'spec.fit'), a, clobber=True)


def other_run(r, d, name, nside, tag, members):
    """Files of another run in the same directory, and others that are no pixel's files of this run.  (A longer name after an
    underscore counts as this run: the tests consolidate such files.)"""
    for w in range(2):
        if r.randint(3):
            continue
        a = np.zeros(2, dtype=CAT)
        a['gid'] = [777001, 777002]
        a['mem_match_id'] = [1, 2]
        a['lambda'] = 100.
        a['scaleval'] = 1.
        a['lnlamlike'] = 1e4
        p = int(r.randint(min(12 * nside * nside, 90000)))
        for i in range(2):
            a['ra'][i], a['dec'][i] = pos_in(nside, p, r)
        fn = os.path.join(d, ['%s2_%d_%05d_%s.fit', '%s_%d_%05d_b_%s.fit'][w] % (name, nside, p, tag))
        fitsio.write(fn, a, clobber=True)
        if members:
            b = np.zeros(2, dtype=MEM)
            b['mem_match_id'] = [1, 2]
            b['id'] = [77700100, 77700200]
            fitsio.write(fn[:-4] + '_members.fit', b, clobber=True)
