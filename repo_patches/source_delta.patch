From 9e98132b741d14a08fe9e7b24751d7bef339f20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:34 +0000
Subject: [PATCH 01/73] fix: consolidation failed when no cluster passes a
 richness/volume cut

---
 redmapper/pipeline/redmapperconsolidatetask.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index e9169d6..e17e755 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -246,6 +246,10 @@ class RedmapperConsolidateTask(object):
 
         for i, minlambda in enumerate(self.lambda_cuts):
             for j, vlim_mask in enumerate(vlim_masks):
+                if not started[i, j]:
+                    # No clusters passed these cuts, so there are no files
+                    continue
+
                 catfits = fitsio.FITS(cat_filename_dict[(i, j)][1], mode='rw')
                 memfits = fitsio.FITS(cat_filename_dict[(i, j)][2], mode='rw')
 
-- 
2.43.0


From 9509f0159cb0189a26800ba5d2c6e6589eda7d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:34 +0000
Subject: [PATCH 02/73] fix: consolidation with select_scaleval used the scale
 of the uncut catalog

---
 redmapper/pipeline/redmapperconsolidatetask.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index e17e755..2f0cbed 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -160,8 +160,6 @@ class RedmapperConsolidateTask(object):
 
             # Note: when adding mock support, read in true galaxies to get members
 
-            scaleval = cat.scaleval if self.config.select_scaleval else 1.0
-
             # Figure out which clusters are in the pixel, less than
             # max_maskfrac, and above percolation_minlambda (with or without
             # scale)
@@ -179,6 +177,8 @@ class RedmapperConsolidateTask(object):
 
             cat = cat[use]
 
+            scaleval = cat.scaleval if self.config.select_scaleval else 1.0
+
             # match catalog with members via mem_match_id
             a, b = esutil.numpy_util.match(cat.mem_match_id, mem.mem_match_id)
 
-- 
2.43.0


From 4df6239930bdb0c4f696f56426c1e9476b2a64eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:34 +0000
Subject: [PATCH 03/73] fix: consolidation failed on a pixel whose candidates
 were all rejected

---
 redmapper/pipeline/redmapperconsolidatetask.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index 2f0cbed..10bbd82 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -123,6 +123,11 @@ class RedmapperConsolidateTask(object):
             self.config.logger.info("Reading %s" % (os.path.basename(catfile)))
             cat = Catalog.from_fits_file(catfile, ext=1)
 
+            if cat.size == 0:
+                # All the candidates in this pixel were rejected; there are no members
+                self.config.logger.info('Warning: no clusters in %s' % (os.path.basename(catfile)))
+                continue
+
             # and read in members
             mem = read_members(catfile)
 
-- 
2.43.0


From aeb2e2db4cc6155233f387eeab0775f88043ca44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:29 +0000
Subject: [PATCH 04/73] fix: single-process run on a sub-region used a
 nonexistent, and too coarse, minimum nside

---
 redmapper/redmapper_run.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/redmapper_run.py b/redmapper/redmapper_run.py
index da0ea42..fe8b219 100644
--- a/redmapper/redmapper_run.py
+++ b/redmapper/redmapper_run.py
@@ -168,8 +168,8 @@ class RedmapperRun(object):
         tab = Entry.from_fits_file(self.config.galfile, ext=1)
 
         if self.config.calib_run_nproc == 1:
-            if self.config.d.nside > self.config.calib_run_min_nside:
-                nside_test = self.config.run_min_nside
+            if self.config.d.nside < self.config.calib_run_min_nside:
+                nside_test = self.config.calib_run_min_nside
             else:
                 nside_test = np.clip(self.config.d.nside, 1, None)
             subpixels = self._get_subpixels(nside_test, tab)
-- 
2.43.0


From 84e5737d52bc3650ae9be1a70b63390ddbca602e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:12 +0000
Subject: [PATCH 05/73] fix: an interrupted output could leave a catalog
 without its members, which a restart then skipped

---
 redmapper/cluster_runner.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/redmapper/cluster_runner.py b/redmapper/cluster_runner.py
index eebad42..9149994 100644
--- a/redmapper/cluster_runner.py
+++ b/redmapper/cluster_runner.py
@@ -651,15 +651,18 @@ class ClusterRunner(object):
             self.config.logger.info("Warning: no catalog generated for %s" % (self._filename))
             return
 
-        self.config.logger.info("Writing catalog to file: %s" % (self._filename))
-        self.cat.to_fits_file(self._filename, clobber=clobber)
-
+        # The members are written first, so that a catalog file is only present
+        # when its members are (a run is skipped if the catalog is present).
+        # Members without a catalog are left over from an interrupted run.
         if savemembers:
             if self.members is None:
                 self.config.logger.info("Warning: no members generated for %s" % (self._filename))
-                return
-            memfilename = self.config.redmapper_filename(self.filetype + '_catalog_members', withversion=withversion, outbase=outbase)
-            self.members.to_fits_file(memfilename, clobber=clobber)
+            else:
+                memfilename = self.config.redmapper_filename(self.filetype + '_catalog_members', withversion=withversion, outbase=outbase)
+                self.members.to_fits_file(memfilename, clobber=(clobber or not os.path.isfile(self._filename)))
+
+        self.config.logger.info("Writing catalog to file: %s" % (self._filename))
+        self.cat.to_fits_file(self._filename, clobber=clobber)
 
     @property
     def filename(self):
-- 
2.43.0


From b5afd3cc62189bc9aaabd992a43e65aea97f0c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:06 +0000
Subject: [PATCH 06/73] fix: read_members looked for the wrong file when the
 catalog name ends in any of '.fit'

---
 redmapper/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redmapper/utilities.py b/redmapper/utilities.py
index e53507d..731af4c 100644
--- a/redmapper/utilities.py
+++ b/redmapper/utilities.py
@@ -1091,7 +1091,8 @@ def read_members(catfile):
 
     from .galaxy import GalaxyCatalog
 
-    memfile = '%s_members.fit' % (catfile.rstrip('.fit'))
+    base = catfile[: -len('.fit')] if catfile.endswith('.fit') else catfile
+    memfile = '%s_members.fit' % (base)
 
     if not os.path.isfile(memfile):
         raise RuntimeError("Could not find member file %s" % (memfile))
-- 
2.43.0


From 5cae0e74fe8ca2d625f45823b48075e3b44396e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:06 +0000
Subject: [PATCH 07/73] fix: local consolidation looked for the wrong member
 files when the output path contains '.fit'

---
 redmapper/redmapper_run.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/redmapper/redmapper_run.py b/redmapper/redmapper_run.py
index fe8b219..0f77cbb 100644
--- a/redmapper/redmapper_run.py
+++ b/redmapper/redmapper_run.py
@@ -317,8 +317,7 @@ class RedmapperRun(object):
             cat = cat[use]
 
             if members:
-                parts = f.split('.fit')
-                mem = Catalog.from_fits_file(parts[0] + '_members.fit')
+                mem = Catalog.from_fits_file(os.path.splitext(f)[0] + '_members.fit')
 
                 # We are going to replace the mem_match_ids in the consolidated catalog,
                 # because the ones generated in the pixels aren't unique
-- 
2.43.0


From a2f51b7c0279e30d244f50895095aefb4a2b3282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:06 +0000
Subject: [PATCH 08/73] fix: changing the per-job settings of a configuration
 copy changed the original

---
 redmapper/configuration.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/redmapper/configuration.py b/redmapper/configuration.py
index 263c8dd..f2cc6d4 100644
--- a/redmapper/configuration.py
+++ b/redmapper/configuration.py
@@ -569,7 +569,10 @@ class Configuration(object):
         """
         Return a copy of the configuration struct
         """
-        return copy.copy(self)
+        new = copy.copy(self)
+        # The duplicatable parameters must not be shared with the original
+        new.d = copy.copy(self.d)
+        return new
 
     def start_file_logging(self, filename=None):
         """
-- 
2.43.0


From 7b422c0e4f2646044957329b80cd3bbaf026b31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:06 +0000
Subject: [PATCH 09/73] fix: the phi1 slope of a wcen file was read from the
 wrong column

---
 redmapper/configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/configuration.py b/redmapper/configuration.py
index f2cc6d4..19ae75e 100644
--- a/redmapper/configuration.py
+++ b/redmapper/configuration.py
@@ -825,7 +825,7 @@ class Configuration(object):
         # New wcen files also record the phi1 information
         if 'phi1_mmstar_m' in wcen[0].dtype.names:
             vals['phi1_mmstar_m'] = wcen[0]['phi1_mmstar_m']
-            vals['phi1_mmstar_slope'] = wcen[0]['phi1_mmstar_m']
+            vals['phi1_mmstar_slope'] = wcen[0]['phi1_mmstar_slope']
             vals['phi1_msig_m'] = wcen[0]['phi1_msig_m']
             vals['phi1_msig_slope'] = wcen[0]['phi1_msig_slope']
 
-- 
2.43.0


From 09da87195fb0d896abd49dd2687e13885e469787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:06 +0000
Subject: [PATCH 10/73] fix: logging to a file failed for a run without a
 sub-region

---
 redmapper/configuration.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/redmapper/configuration.py b/redmapper/configuration.py
index 19ae75e..cddc20e 100644
--- a/redmapper/configuration.py
+++ b/redmapper/configuration.py
@@ -594,8 +594,10 @@ class Configuration(object):
             os.makedirs(os.path.join(self.outpath, self.logpath), exist_ok=True)
 
         if filename is None:
-            logfilename = os.path.join(self.outpath, self.logpath,
-                                       f'redmapper_{self.d.outbase}_{self.d.hpix[0]:04}.log')
+            logbase = f'redmapper_{self.d.outbase}'
+            if len(self.d.hpix) > 0:
+                logbase += f'_{self.d.hpix[0]:04}'
+            logfilename = os.path.join(self.outpath, self.logpath, logbase + '.log')
         else:
             logfilename = os.path.join(self.outpath, self.logpath, os.path.basename(filename))
 
-- 
2.43.0


From c710c6476d4116483bbedd5fab4b8fdd431411e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:42 +0000
Subject: [PATCH 11/73] fix: ingesting galaxies with a footprint mask failed

---
 redmapper/galaxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/galaxy.py b/redmapper/galaxy.py
index 781dcff..e563c03 100644
--- a/redmapper/galaxy.py
+++ b/redmapper/galaxy.py
@@ -541,7 +541,7 @@ class FakeMaskConfig(object):
 
         class TempD(object):
             def __init__(self):
-                self.hpix = 0
+                self.hpix = []
                 self.nside = 0
 
         self.d = TempD()
-- 
2.43.0


From d98b66016549159f2846d55df18334aaf5de951b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:42 +0000
Subject: [PATCH 12/73] fix: parallel ingest took the pixel number from digits
 elsewhere in the path

---
 redmapper/galaxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/galaxy.py b/redmapper/galaxy.py
index e563c03..2f051fb 100644
--- a/redmapper/galaxy.py
+++ b/redmapper/galaxy.py
@@ -807,7 +807,7 @@ class GalaxyCatalogMaker(object):
             # Figure out which hpixels are there
             files = sorted(glob.glob('%s/%s_???????.fit' % (self.outpath, self.outbase_nopath)))
             for f in files:
-                m = re.search(r'_(\d{7})', f)
+                m = re.search(r'_(\d{7})\.fit$', f)
                 if m is None:
                     raise RuntimeError("Malformed filename for pixel file: %s" % (f))
 
-- 
2.43.0


From c1457cf4a4cb9ddbac24a8ca5ea732f44d3ac217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:42 +0000
Subject: [PATCH 13/73] fix: finalisation published the master table before ids
 were checked or generated, and kept its lock on error

---
 redmapper/galaxy.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/redmapper/galaxy.py b/redmapper/galaxy.py
index 2f051fb..e8e7ba6 100644
--- a/redmapper/galaxy.py
+++ b/redmapper/galaxy.py
@@ -882,12 +882,6 @@ class GalaxyCatalogMaker(object):
         if self.y_ind is not None:
             tab.y_ind = self.y_ind
 
-        hdr = fitsio.FITSHDR()
-        hdr['PIXELS'] = 1
-        hdr['FITS'] = 1
-
-        tab.to_fits_file(self.filename, header=hdr, clobber=True)
-
         # Check for galaxy uniqueness or generate unique ids
         if self.generate_unique_ids:
             ctr = 1
@@ -919,8 +913,17 @@ class GalaxyCatalogMaker(object):
                     ctr += tab.ngals[i]
 
             if len(np.unique(ids)) < len(ids):
+                if self.parallel:
+                    os.remove(lockfile)
                 raise RuntimeError("Input galaxy IDs must be unique.  Fix input catalog or use generate_unique_ids")
 
+        # The master table marks the catalog as complete, so it has to be last
+        hdr = fitsio.FITSHDR()
+        hdr['PIXELS'] = 1
+        hdr['FITS'] = 1
+
+        tab.to_fits_file(self.filename, header=hdr, clobber=True)
+
         self.is_finalized = True
 
         if self.parallel:
-- 
2.43.0


From 83d307182b95c061179217b42df371dac294f2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:13 +0000
Subject: [PATCH 14/73] fix: ingest failed on a batch of galaxies that is
 entirely outside the footprint

---
 redmapper/galaxy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redmapper/galaxy.py b/redmapper/galaxy.py
index e8e7ba6..bddcbcc 100644
--- a/redmapper/galaxy.py
+++ b/redmapper/galaxy.py
@@ -734,6 +734,10 @@ class GalaxyCatalogMaker(object):
             good = self.mask.compute_radmask(gals['ra'], gals['dec'])
             gals = gals[good]
 
+        if gals.size == 0:
+            # Nothing (left) to append
+            return
+
         ipring = hpg.angle_to_pixel(self.nside, gals['ra'], gals['dec'], nest=False)
 
         h, rev = esutil.stat.histogram(ipring, min=0, max=self.ngals.size-1, rev=True)
-- 
2.43.0


From 1b26ade71c04b1fcab9d1d05c2f7d2253e33e98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:12 +0000
Subject: [PATCH 15/73] fix: consolidation took the resolution and pixel number
 from digits elsewhere in the path

---
 redmapper/pipeline/redmapperconsolidatetask.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index 10bbd82..2085152 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -80,7 +80,7 @@ class RedmapperConsolidateTask(object):
         self.config.logger.info("Found %d catalog files in %s" % (len(catfiles), self.config.outpath))
 
         # Extract the nside that was run
-        m = re.search(r'_(\d+)_(\d\d\d\d\d)_', catfiles[0])
+        m = re.search(r'_(\d+)_(\d\d\d\d\d)_final_catalog\.fit$', catfiles[0])
         if m is None:
             raise RuntimeError("Could not understand filename for %s" % (catfiles[0]))
 
@@ -133,7 +133,7 @@ class RedmapperConsolidateTask(object):
 
             # Extract pixnum from name
 
-            m = re.search(r'_(\d+)_(\d\d\d\d\d)_', catfile)
+            m = re.search(r'_(\d+)_(\d\d\d\d\d)_final_catalog\.fit$', catfile)
             if m is None:
                 raise RuntimeError("Could not understand filename for %s" % (catfile))
 
@@ -343,7 +343,7 @@ class RuncatConsolidateTask(object):
         self.config.logger.info("Found %d catalog files in %s" % (len(catfiles), self.config.outpath))
 
         # Extract the nside that was run
-        m = re.search(r'_(\d+)_(\d\d\d\d\d)_', catfiles[0])
+        m = re.search(r'_(\d+)_(\d\d\d\d\d)_%s_catalog\.fit$' % (re.escape(cattype)), catfiles[0])
         if m is None:
             raise RuntimeError("Could not understand filename for %s" % (catfiles[0]))
 
@@ -366,7 +366,7 @@ class RuncatConsolidateTask(object):
 
             # Extract pixnum from name
 
-            m = re.search(r'_(\d+)_(\d\d\d\d\d)_', catfile)
+            m = re.search(r'_(\d+)_(\d\d\d\d\d)_%s_catalog\.fit$' % (re.escape(cattype)), catfile)
             if m is None:
                 raise RuntimeError("Could not understand filename for %s" % (catfile))
 
-- 
2.43.0


From a7551caf759a31cfd3424f32dcbd9b52c8520651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:37 +0000
Subject: [PATCH 16/73] fix: an out-of-range region pixel raised a NameError
 instead of the intended ValueError

---
 redmapper/galaxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/galaxy.py b/redmapper/galaxy.py
index bddcbcc..f23abdf 100644
--- a/redmapper/galaxy.py
+++ b/redmapper/galaxy.py
@@ -138,7 +138,7 @@ class GalaxyCatalog(Catalog):
             if len(_hpix) > 0:
                 for _hp in _hpix:
                     if _hp < 0 or _hp >= hpg.nside_to_npixel(nside):
-                        raise ValueError("hpix %d is out of range." % (hp))
+                        raise ValueError("hpix %d is out of range." % (_hp))
 
         if border > 0.0 and len(_hpix) > 0:
             if len(_hpix) != 1:
-- 
2.43.0


From 94898d7c621af3ad5f6bad663e06fa3c172d94e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:37 +0000
Subject: [PATCH 17/73] fix: computing redshifts failed for a file with fewer
 galaxies than processes

---
 redmapper/zred_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/zred_runner.py b/redmapper/zred_runner.py
index 16c2302..deb568f 100644
--- a/redmapper/zred_runner.py
+++ b/redmapper/zred_runner.py
@@ -75,7 +75,7 @@ class ZredRunCatalog(object):
 
         if nperproc is None:
             nperproc = int(float(ngal) / (self.config.calib_nproc - 0.1))
-            nperproc = np.clip(nperproc, None, maxperproc)
+            nperproc = np.clip(nperproc, 1, maxperproc)
 
         inds = np.arange(0, ngal, nperproc)
         worker_list = [(ind, np.clip(ind + nperproc, None, ngal)) for ind in inds]
-- 
2.43.0


From 87e09ce8d7116da4a901396afe44d8ee50032f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:37 +0000
Subject: [PATCH 18/73] fix: computing redshifts of a file failed with a single
 redshift sample per galaxy

---
 redmapper/zred_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/zred_runner.py b/redmapper/zred_runner.py
index deb568f..bd4a102 100644
--- a/redmapper/zred_runner.py
+++ b/redmapper/zred_runner.py
@@ -93,7 +93,7 @@ class ZredRunCatalog(object):
             zreds.zred2_e[ind_range[0]: ind_range[1]] = zred2_e
             zreds.zred_uncorr[ind_range[0]: ind_range[1]] = zred_uncorr
             zreds.zred_uncorr_e[ind_range[0]: ind_range[1]] = zred_uncorr_e
-            zreds.zred_samp[ind_range[0]: ind_range[1], :] = zred_samp
+            zreds.zred_samp[ind_range[0]: ind_range[1]] = zred_samp
             zreds.lkhd[ind_range[0]: ind_range[1]] = lkhd
             zreds.chisq[ind_range[0]: ind_range[1]] = chisq
 
-- 
2.43.0


From 3e24a6a8ee5fe7a69aded110445baf6f936e36c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:57 +0000
Subject: [PATCH 19/73] fix: a redshift job that found an incomplete redshift
 file kept the table lock for ever

---
 redmapper/pipeline/zredtask.py | 41 +++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/redmapper/pipeline/zredtask.py b/redmapper/pipeline/zredtask.py
index 9eb343f..2c57fc1 100644
--- a/redmapper/pipeline/zredtask.py
+++ b/redmapper/pipeline/zredtask.py
@@ -103,26 +103,27 @@ class RunZredPixelTask(object):
             self.config.logger.info("Created lock file: %s" % (lockfile))
             self.config.logger.info("Checking for zred completion...")
 
-            test_files = glob.glob('%s/%s_zreds_???????.fit' % (zredpath, self.config.outbase))
-            test_locks = glob.glob('%s/%s_zreds_???????.lock' % (zredpath, self.config.outbase))
-            if (len(test_files) == len(runPixels.galtable.filenames) and
-                len(test_locks) == 0):
-                # We have written all the files, and there are no locks left.
-                self.config.logger.info("All zred files have been found!  Creating master table.")
-
-                indices = np.arange(len(runPixels.galtable.filenames))
-                filenames = []
-                for i in indices:
-                    filenames.append('%s/%s_zreds_%07d.fit' % (zredpath, self.config.outbase, runPixels.galtable.hpix[i]))
-
-                indices_and_filenames = list(zip(indices, filenames))
-
-                runPixels.make_zred_table(indices_and_filenames)
-            elif len(test_locks) > 0:
-                pass
-
-            # clear the lockfile
-            os.unlink(lockfile)
+            try:
+                test_files = glob.glob('%s/%s_zreds_???????.fit' % (zredpath, self.config.outbase))
+                test_locks = glob.glob('%s/%s_zreds_???????.lock' % (zredpath, self.config.outbase))
+                if (len(test_files) == len(runPixels.galtable.filenames) and
+                    len(test_locks) == 0):
+                    # We have written all the files, and there are no locks left.
+                    self.config.logger.info("All zred files have been found!  Creating master table.")
+
+                    indices = np.arange(len(runPixels.galtable.filenames))
+                    filenames = []
+                    for i in indices:
+                        filenames.append('%s/%s_zreds_%07d.fit' % (zredpath, self.config.outbase, runPixels.galtable.hpix[i]))
+
+                    indices_and_filenames = list(zip(indices, filenames))
+
+                    runPixels.make_zred_table(indices_and_filenames)
+                elif len(test_locks) > 0:
+                    pass
+            finally:
+                # clear the lockfile
+                os.unlink(lockfile)
         else:
             self.config.logger.info("Failed to get a consolidate lock.  That's okay.")
 
-- 
2.43.0


From 4f5b68b2faf2160b70b9b7244c6f330f3d31fce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:35 +0000
Subject: [PATCH 20/73] fix: writing selected rows of a one-row catalogue
 ignored the selection

---
 redmapper/catalog.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/redmapper/catalog.py b/redmapper/catalog.py
index 2bd1f1c..9435cf8 100644
--- a/redmapper/catalog.py
+++ b/redmapper/catalog.py
@@ -143,6 +143,8 @@ class DataObject(object):
         if self._ndarray.size == 1:
             temp_array = np.zeros(1, dtype=self._ndarray.dtype)
             temp_array[0] = self._ndarray
+            if indices is not None:
+                temp_array = temp_array[indices]
             fitsio.write(filename, temp_array, clobber=clobber, header=header, extname=extname)
         else:
             if indices is None:
-- 
2.43.0


From 00d31960e062e1a162460ddcbf1ad58cf876bb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:08 +0000
Subject: [PATCH 21/73] fix: assigning a one-character byte string to a string
 field stored its character code

---
 redmapper/catalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/catalog.py b/redmapper/catalog.py
index 9435cf8..acb3f93 100644
--- a/redmapper/catalog.py
+++ b/redmapper/catalog.py
@@ -91,7 +91,7 @@ class DataObject(object):
         if attr == '_ndarray':
             object.__setattr__(self, attr, val)
         elif attr.lower() in self._ndarray.dtype.names:
-            if hasattr(val, "__len__"):
+            if hasattr(val, "__len__") and not isinstance(val, (bytes, str)):
                 if len(val) == 1:
                     _val = val[0]
                 else:
-- 
2.43.0


From 04af218bf35e05c46f2d37ed00b39b4ffbba60f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:42 +0000
Subject: [PATCH 22/73] fix: import RunCatalog where RuncatPixelTask uses it

---
 redmapper/pipeline/redmappertask.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redmapper/pipeline/redmappertask.py b/redmapper/pipeline/redmappertask.py
index affbfdb..0ebbb65 100644
--- a/redmapper/pipeline/redmappertask.py
+++ b/redmapper/pipeline/redmappertask.py
@@ -11,6 +11,7 @@ from ..run_likelihoods import RunLikelihoods
 from ..run_percolation import RunPercolation
 from ..run_randoms_zmask import RunRandomsZmask
 from ..run_zscan import RunZScan
+from ..runcat import RunCatalog
 
 from ..utilities import getMemoryString
 
-- 
2.43.0


From 49f31b79f5d2d6f6c9aa03533d1a030d42daf3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:42 +0000
Subject: [PATCH 23/73] fix: runcat and zscan pixel jobs write the file whose
 existence they check and that consolidation collects

---
 redmapper/pipeline/redmappertask.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/pipeline/redmappertask.py b/redmapper/pipeline/redmappertask.py
index 0ebbb65..41cdb7a 100644
--- a/redmapper/pipeline/redmappertask.py
+++ b/redmapper/pipeline/redmappertask.py
@@ -176,7 +176,7 @@ class RuncatPixelTask(object):
         runcat = RunCatalog(self.config)
         if not os.path.isfile(runcat.filename):
             runcat.run(do_percolation_masking=self.config.runcat_percolation_masking)
-            runcat.output(savemembers=True, withversion=True)
+            runcat.output(savemembers=True, withversion=False)
 
         self.config.stop_file_logging()
 
@@ -306,7 +306,7 @@ class RunZScanPixelTask(object):
         runzscan = RunZScan(self.config)
         if not os.path.isfile(runzscan.filename):
             runzscan.run()
-            runzscan.output(savemembers=True, withversion=True)
+            runzscan.output(savemembers=True, withversion=False)
 
         self.config.stop_file_logging()
 
-- 
2.43.0


From 2944ea6792d2776214c2994a58c4ad44edb6486c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:05 +0000
Subject: [PATCH 24/73] fix: runcat consolidation kept the members of clusters
 that it dropped

---
 redmapper/pipeline/redmapperconsolidatetask.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index 2085152..592e121 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -409,6 +409,10 @@ class RuncatConsolidateTask(object):
 
             cat = cat[use]
 
+            if consolidate_members:
+                # Only keep the members of the clusters that are kept
+                mem = mem[np.isin(mem.mem_match_id, cat.mem_match_id)]
+
             if not started:
                 # Figure out filename
                 cat_fname = self.config.redmapper_filename('%s_catalog' % (cattype), withversion=True)
-- 
2.43.0


From 8c12ca3f5dfab491120a94bbafddce707f2d6f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:05 +0000
Subject: [PATCH 25/73] fix: undefined name when plotting a consolidated runcat
 catalog

---
 redmapper/pipeline/redmapperconsolidatetask.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index 592e121..427428a 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -432,7 +432,6 @@ class RuncatConsolidateTask(object):
 
         if do_plots:
             cat = Catalog.from_fits_file(cat_fname)
-            self.config.d.outbase = cat_name
             specplot = SpecPlot(self.config)
 
             if self.config.has_truth:
-- 
2.43.0


From beceac4387a113a5c26821bdcad8e6d283266e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:05 +0000
Subject: [PATCH 26/73] fix: consolidate the files that runcat pixel jobs write

---
 bin/redmapper_consolidate_runcat.py            | 2 +-
 redmapper/pipeline/redmapperconsolidatetask.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/redmapper_consolidate_runcat.py b/bin/redmapper_consolidate_runcat.py
index fcb4cae..48f5b02 100644
--- a/bin/redmapper_consolidate_runcat.py
+++ b/bin/redmapper_consolidate_runcat.py
@@ -25,7 +25,7 @@ if __name__ == '__main__':
         do_plots = True
         match_spec = True
         consolidate_members = True
-        cattype = 'runcat'
+        cattype = 'lambda_chisq'
 
     consolidate = redmapper.pipeline.RuncatConsolidateTask(args.configfile)
     consolidate.run(do_plots=do_plots, match_spec=match_spec, consolidate_members=consolidate_members, cattype=cattype)
diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index 427428a..a5dd43e 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -323,7 +323,7 @@ class RuncatConsolidateTask(object):
 
         self.config = Configuration(configfile, outpath=path)
 
-    def run(self, do_plots=True, match_spec=True, consolidate_members=True, cattype='runcat'):
+    def run(self, do_plots=True, match_spec=True, consolidate_members=True, cattype='lambda_chisq'):
         """
         Run the runcat consolidation task.
 
-- 
2.43.0


From 4535a8e8e04a8ad88fdbe33422141a7dfbaa7cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:17 +0000
Subject: [PATCH 27/73] fix: consolidation missed the files of pixel numbers
 above 99999

---
 redmapper/pipeline/redmapperconsolidatetask.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index a5dd43e..c85681d 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -75,12 +75,14 @@ class RedmapperConsolidateTask(object):
         """
 
         # find the files
-        catfiles = sorted(glob.glob(os.path.join(self.config.outpath, '%s_*_?????_final_catalog.fit' % (self.config.outbase))))
+        catfiles = sorted(glob.glob(os.path.join(self.config.outpath, '%s_*_final_catalog.fit' % (self.config.outbase))))
+        # The pixel number has at least 5 digits
+        catfiles = [catfile for catfile in catfiles if re.search(r'_\d+_\d{5,}_final_catalog\.fit$', catfile) is not None]
 
         self.config.logger.info("Found %d catalog files in %s" % (len(catfiles), self.config.outpath))
 
         # Extract the nside that was run
-        m = re.search(r'_(\d+)_(\d\d\d\d\d)_final_catalog\.fit$', catfiles[0])
+        m = re.search(r'_(\d+)_(\d{5,})_final_catalog\.fit$', catfiles[0])
         if m is None:
             raise RuntimeError("Could not understand filename for %s" % (catfiles[0]))
 
@@ -133,7 +135,7 @@ class RedmapperConsolidateTask(object):
 
             # Extract pixnum from name
 
-            m = re.search(r'_(\d+)_(\d\d\d\d\d)_final_catalog\.fit$', catfile)
+            m = re.search(r'_(\d+)_(\d{5,})_final_catalog\.fit$', catfile)
             if m is None:
                 raise RuntimeError("Could not understand filename for %s" % (catfile))
 
@@ -338,12 +340,14 @@ class RuncatConsolidateTask(object):
            Consolidate members as well as catalog?
         """
         # find the files
-        catfiles = sorted(glob.glob(os.path.join(self.config.outpath, '%s_*_?????_%s_catalog.fit' % (self.config.outbase, cattype))))
+        catfiles = sorted(glob.glob(os.path.join(self.config.outpath, '%s_*_%s_catalog.fit' % (self.config.outbase, cattype))))
+        # The pixel number has at least 5 digits
+        catfiles = [catfile for catfile in catfiles if re.search(r'_\d+_\d{5,}_%s_catalog\.fit$' % (re.escape(cattype)), catfile) is not None]
 
         self.config.logger.info("Found %d catalog files in %s" % (len(catfiles), self.config.outpath))
 
         # Extract the nside that was run
-        m = re.search(r'_(\d+)_(\d\d\d\d\d)_%s_catalog\.fit$' % (re.escape(cattype)), catfiles[0])
+        m = re.search(r'_(\d+)_(\d{5,})_%s_catalog\.fit$' % (re.escape(cattype)), catfiles[0])
         if m is None:
             raise RuntimeError("Could not understand filename for %s" % (catfiles[0]))
 
@@ -366,7 +370,7 @@ class RuncatConsolidateTask(object):
 
             # Extract pixnum from name
 
-            m = re.search(r'_(\d+)_(\d\d\d\d\d)_%s_catalog\.fit$' % (re.escape(cattype)), catfile)
+            m = re.search(r'_(\d+)_(\d{5,})_%s_catalog\.fit$' % (re.escape(cattype)), catfile)
             if m is None:
                 raise RuntimeError("Could not understand filename for %s" % (catfile))
 
-- 
2.43.0


From d100c6d6df996adaf2b91d1594a5e12c2d37b4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:35 +0000
Subject: [PATCH 28/73] fix: an interrupted consolidation left a final catalog
 without members or likelihoods, which calibration then used

---
 redmapper/redmapper_run.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/redmapper/redmapper_run.py b/redmapper/redmapper_run.py
index 0f77cbb..9df6aa8 100644
--- a/redmapper/redmapper_run.py
+++ b/redmapper/redmapper_run.py
@@ -133,15 +133,17 @@ class RedmapperRun(object):
         hpixels_perc = [x[0] for x in retvals if x[3] is not None]
         percfiles = [x[3] for x in retvals if x[3] is not None]
 
+        # The likelihoods are consolidated first, so that the final catalog is only
+        # present when everything else is (the calibration checks for the final catalog).
+        if consolidate_like:
+            likefile = self._consolidate(hpixels_like, likefiles, 'like', members=False, check=check)
+
         # Allow for runs without consolidation
         if consolidate:
             finalfile = self._consolidate(hpixels_perc, percfiles, 'final', members=True, check=check)
         else:
             finalfile = None
 
-        if consolidate_like:
-            likefile = self._consolidate(hpixels_like, likefiles, 'like', members=False, check=check)
-
         # Reset the nside in the config file
         self.config.d.nside = nside_orig
 
@@ -358,11 +360,13 @@ class RedmapperRun(object):
         # And write out...
         # We can clobber because if it was already there and we wanted to check
         # that already happened
-        ubercat.to_fits_file(outfile, clobber=True)
-
+        # The members are written first, so that a consolidated catalog is only
+        # present when its members are.
         if members:
             ubermem.to_fits_file(memfile, clobber=True)
 
+        ubercat.to_fits_file(outfile, clobber=True)
+
         return outfile
 
     def _worker(self, hpix):
-- 
2.43.0


From 01c0280a4f99ee6dba9aa664a593906b8f8a8407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:43 +0000
Subject: [PATCH 29/73] fix: an interrupted red-sequence calibration left an
 incomplete parameter file that a restart used

---
 redmapper/calibration/redsequencecal.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/redmapper/calibration/redsequencecal.py b/redmapper/calibration/redsequencecal.py
index 2b02802..9850e30 100644
--- a/redmapper/calibration/redsequencecal.py
+++ b/redmapper/calibration/redsequencecal.py
@@ -194,12 +194,15 @@ class RedSequenceCalibrator(object):
         # Compute volume factor
         self._calc_volume_factor(self.config.zrange[1])
 
-        # Write out the parameter file
-        self.save_pars(self.config.parfile, clobber=False)
+        # Write out the parameter file without corrections.  This is a temporary
+        # file, because parfile must only be there when it is complete.
+        temp_parfile = self.config.parfile + '.tmp'
+        self.save_pars(temp_parfile, clobber=True)
 
         # Compute zreds without corrections
         # Later will want this parallelized, I think
-        self._calc_zreds(gals, do_correction=False)
+        self._calc_zreds(gals, do_correction=False, parfile=temp_parfile)
+        os.remove(temp_parfile)
 
         # Compute correction (mode1)
         self._calc_corrections(gals)
@@ -930,7 +933,7 @@ class RedSequenceCalibrator(object):
 
         self.pars.to_fits_file(filename, header=hdr, clobber=clobber)
 
-    def _calc_zreds(self, gals, do_correction=True):
+    def _calc_zreds(self, gals, do_correction=True, parfile=None):
         """
         Calculate the zreds for a set of galaxies, using the newly fit model.
 
@@ -940,10 +943,12 @@ class RedSequenceCalibrator(object):
            Galaxy catalog being fit
         do_corrections: `bool`, optional
            Do redshift afterburner corrections?  Default is True.
+        parfile: `str`, optional
+           Parameter file to use.  Default is None (use self.config.parfile).
         """
 
         # This is temporary
-        zredstr = RedSequenceColorPar(self.config.parfile)
+        zredstr = RedSequenceColorPar(self.config.parfile if parfile is None else parfile)
 
         zredc = ZredColor(zredstr, do_correction=do_correction)
 
-- 
2.43.0


From 92f6059c2488fb0ff569008262fcbabe04598d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:55 +0000
Subject: [PATCH 30/73] fix: an interrupted color background left an incomplete
 file that a restart used

---
 redmapper/color_background.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/redmapper/color_background.py b/redmapper/color_background.py
index 86aec8b..1454a6c 100644
--- a/redmapper/color_background.py
+++ b/redmapper/color_background.py
@@ -501,7 +501,11 @@ class ColorBackgroundGenerator(object):
                 else:
                     startClobber = False
 
-                fitsio.write(self.config.bkgfile_color, outstr, extname=extname, header=hdr, clobber=startClobber)
+                # The extensions are put in a temporary file, because bkgfile_color
+                # must only be there when it is complete.
+                fitsio.write(self.config.bkgfile_color + '.tmp', outstr, extname=extname, header=hdr, clobber=startClobber)
+
+        os.rename(self.config.bkgfile_color + '.tmp', self.config.bkgfile_color)
 
 
 
-- 
2.43.0


From 1af35587d51eb358c4b04bc7797e71aa9bd81d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:55 +0000
Subject: [PATCH 31/73] fix: a calibration interrupted before the red galaxy
 model was written could not be resumed

---
 redmapper/calibration/calibrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/calibration/calibrate.py b/redmapper/calibration/calibrate.py
index a052da8..051c6ce 100644
--- a/redmapper/calibration/calibrate.py
+++ b/redmapper/calibration/calibrate.py
@@ -56,7 +56,7 @@ class RedmapperCalibrator(object):
         self.config.redgalfile = self.config.redmapper_filename('zspec_redgals')
         self.config.redgalmodelfile = self.config.redmapper_filename('zspec_redgals_model')
 
-        if os.path.isfile(self.config.redgalfile):
+        if os.path.isfile(self.config.redgalfile) and os.path.isfile(self.config.redgalmodelfile):
             self.config.logger.info("%s already there.  Skipping..." % (self.config.redgalfile))
         else:
             self.config.logger.info("Selecting red galaxies from spectra...")
-- 
2.43.0


From 5b5e9b3422c36c8bcf98b53e17095c66b19a3377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:55 +0000
Subject: [PATCH 32/73] fix: a resumed calibration used a configured zlambda
 correction where an uninterrupted one does not

---
 redmapper/calibration/calibrate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redmapper/calibration/calibrate.py b/redmapper/calibration/calibrate.py
index 051c6ce..b2b33cd 100644
--- a/redmapper/calibration/calibrate.py
+++ b/redmapper/calibration/calibrate.py
@@ -407,13 +407,14 @@ class RedmapperCalibrationIteration(object):
 
 
         # Run the cluster finder in specmode (And consolidate likelihoods)
+        # The zlambda corrections are not used until they are calibrated
+        self.config.zlambdafile = None
         finalfile = self.config.redmapper_filename('final')
 
         if os.path.isfile(finalfile):
             self.config.logger.info('%s already there.  Skipping...' % (finalfile))
         else:
             self.config.logger.info("Running redmapper in specmode with seeds...")
-            self.config.zlambdafile = None
 
             redmapper_run = RedmapperRun(self.config)
             catfile, likefile = redmapper_run.run(specmode=True, keepz=True, consolidate_like=True, seedfile=iter_seedfile, cleaninput=True)
-- 
2.43.0


From cfadd1623af317fd3a87a86bdf293c92c726ca40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:16 +0000
Subject: [PATCH 33/73] fix: a percolation-only run reused the files of a run
 split at another resolution

---
 redmapper/redmapper_run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/redmapper_run.py b/redmapper/redmapper_run.py
index 9df6aa8..cb19f3b 100644
--- a/redmapper/redmapper_run.py
+++ b/redmapper/redmapper_run.py
@@ -492,7 +492,7 @@ class RedmapperRun(object):
 
         config.d.hpix = [hpix]
 
-        config.d.outbase = '%s_%05d' % (self.config.d.outbase, hpix)
+        config.d.outbase = '%s_%d_%05d' % (self.config.d.outbase, self.config.d.nside, hpix)
 
         perc = RunPercolation(config)
         if not os.path.isfile(perc.filename) or not self.check:
-- 
2.43.0


From a89ec6676baab3eb85a03d002b0212b00e446406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:34 +0000
Subject: [PATCH 34/73] fix: a galaxy claimed by several clusters has no
 negative probability left

The probabilities taken from a galaxy may add up to more than one; the
remaining probability was then negative and reduced the richness of later
clusters.
---
 redmapper/cluster_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/cluster_runner.py b/redmapper/cluster_runner.py
index 9149994..7675fc5 100644
--- a/redmapper/cluster_runner.py
+++ b/redmapper/cluster_runner.py
@@ -403,7 +403,7 @@ class ClusterRunner(object):
                         continue
 
                     if self.do_percolation_masking:
-                        cluster.neighbors.pfree[:] = 1.0 - self.pgal[cluster.neighbors.index]
+                        cluster.neighbors.pfree[:] = np.clip(1.0 - self.pgal[cluster.neighbors.index], 0.0, None)
                     else:
                         cluster.neighbors.pfree[:] = 1.0
 
-- 
2.43.0


From 142f13ddc27f9c346b2accfefaba3d550aa639c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:34 +0000
Subject: [PATCH 35/73] fix: a cluster without other members inside its radius
 is bad

Its values were reset but it was not reported as bad, so that the run went on
with a redshift of -1 and failed.
---
 redmapper/run_percolation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redmapper/run_percolation.py b/redmapper/run_percolation.py
index 905c22f..59edb0e 100644
--- a/redmapper/run_percolation.py
+++ b/redmapper/run_percolation.py
@@ -397,6 +397,7 @@ class RunPercolation(ClusterRunner):
                       (cluster.neighbors.p > 0.0))
         if u.size == 0:
             # This is another way to get a bad cluster
+            bad = True
             self._reset_bad_values(cluster)
             return bad
 
-- 
2.43.0


From 1c783243a9c710a63ce70d8113cb977f7f7a281b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:34 +0000
Subject: [PATCH 36/73] fix: keep the mem_match_id of a catalog with a single
 cluster

The id of a single cluster was taken as unset and replaced by 1.
---
 redmapper/cluster_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/cluster_runner.py b/redmapper/cluster_runner.py
index 7675fc5..56625e6 100644
--- a/redmapper/cluster_runner.py
+++ b/redmapper/cluster_runner.py
@@ -292,7 +292,7 @@ class ClusterRunner(object):
         min_id = self.cat.mem_match_id.min()
         max_id = self.cat.mem_match_id.max()
 
-        if (min_id == max_id):
+        if (min_id == max_id and (self.cat.size > 1 or min_id <= 0)):
             # These are unset: generate them
             self.cat.mem_match_id = np.arange(self.cat.size) + 1
         else:
-- 
2.43.0


From 1cfb583bfb1ec96cf36f3fe358659bd5c0b088c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:53 +0000
Subject: [PATCH 37/73] fix: only centering candidates are recorded as
 centering candidates

The index of unused candidates is -1, so that the last neighbor was marked as a
candidate (and recorded as a member) and listed in id_cent.
---
 redmapper/run_percolation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/redmapper/run_percolation.py b/redmapper/run_percolation.py
index 59edb0e..5caa18f 100644
--- a/redmapper/run_percolation.py
+++ b/redmapper/run_percolation.py
@@ -308,8 +308,10 @@ class RunPercolation(ClusterRunner):
                 cluster.zred_e = cluster.neighbors.zred_e[cent.index[0]]
                 cluster.zred_chisq = cluster.neighbors.zred_chisq[cent.index[0]]
 
-            cluster.id_cent[:] = cluster.neighbors.id[cent.index]
-            cluster.neighbors.centering_cand[cent.index] = 1
+            # Unused entries have an index of -1
+            is_cand = (cent.index >= 0)
+            cluster.id_cent[is_cand] = cluster.neighbors.id[cent.index[is_cand]]
+            cluster.neighbors.centering_cand[cent.index[is_cand]] = 1
 
         # And update the center info...
         cluster.ncent_good = cent.ngood
-- 
2.43.0


From 0aa166e24f1d76711c43390d496a1a59cbf1701b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:53 +0000
Subject: [PATCH 38/73] fix: do not judge a random center by an unrelated
 galaxy

When the center is not a galaxy, the last neighbor decided if the cluster was
rejected.
---
 redmapper/run_percolation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redmapper/run_percolation.py b/redmapper/run_percolation.py
index 5caa18f..2a85d07 100644
--- a/redmapper/run_percolation.py
+++ b/redmapper/run_percolation.py
@@ -363,7 +363,8 @@ class RunPercolation(ClusterRunner):
             lam = cluster.calc_richness(self.mask)
 
             if (((cluster.Lambda/cluster.scaleval) < self.config.percolation_minlambda) or
-                (cluster.neighbors.pfree[cent.maxind] < self.config.percolation_pbcg_cut)):
+                (cent.maxind >= 0 and
+                 cluster.neighbors.pfree[cent.maxind] < self.config.percolation_pbcg_cut)):
                 bad = True
                 continue
 
-- 
2.43.0


From dd7b9287b5d6867761be5f6bd9e4ab655b47fd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:33 +0000
Subject: [PATCH 39/73] fix: do not record the BCG center as the position of
 unused center candidates

CenteringBCG has one position, which filled ra_cent and dec_cent.
---
 redmapper/run_percolation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/redmapper/run_percolation.py b/redmapper/run_percolation.py
index 2a85d07..1cf31a2 100644
--- a/redmapper/run_percolation.py
+++ b/redmapper/run_percolation.py
@@ -315,8 +315,11 @@ class RunPercolation(ClusterRunner):
 
         # And update the center info...
         cluster.ncent_good = cent.ngood
-        cluster.ra_cent[:] = cent.ra
-        cluster.dec_cent[:] = cent.dec
+        # (the position of a single BCG center must not fill the unused entries)
+        cluster.ra_cent[:] = -400.0
+        cluster.dec_cent[:] = -400.0
+        cluster.ra_cent[0: cent.ngood] = cent.ra[0: cent.ngood]
+        cluster.dec_cent[0: cent.ngood] = cent.dec[0: cent.ngood]
         cluster.p_cen[:] = cent.p_cen
         cluster.q_cen[:] = cent.q_cen
         cluster.p_fg[:] = cent.p_fg
-- 
2.43.0


From 7fc6811eec12f01ef785ff69d71dd2cda6d10450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:33 +0000
Subject: [PATCH 40/73] fix: the redshift scan lists only centering candidates
 as such

The index of unused candidates is -1, which listed the last neighbor, and the
single position of CenteringBCG filled the unused positions.
---
 redmapper/run_zscan.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/redmapper/run_zscan.py b/redmapper/run_zscan.py
index aa580d5..3d23117 100644
--- a/redmapper/run_zscan.py
+++ b/redmapper/run_zscan.py
@@ -271,12 +271,17 @@ class RunZScan(ClusterRunner):
                 cluster.zred_e = cluster.neighbors.zred_e[cent.index[0]]
                 cluster.zred_chisq = cluster.neighbors.zred_chisq[cent.index[0]]
 
-            cluster.id_cent[:] = cluster.neighbors.id[cent.index]
+            # Unused entries have an index of -1
+            is_cand = (cent.index >= 0)
+            cluster.id_cent[is_cand] = cluster.neighbors.id[cent.index[is_cand]]
 
         # And update the center info...
         cluster.ncent_good = cent.ngood
-        cluster.ra_cent[:] = cent.ra
-        cluster.dec_cent[:] = cent.dec
+        # (the position of a single BCG center must not fill the unused entries)
+        cluster.ra_cent[:] = -400.0
+        cluster.dec_cent[:] = -400.0
+        cluster.ra_cent[0: cent.ngood] = cent.ra[0: cent.ngood]
+        cluster.dec_cent[0: cent.ngood] = cent.dec[0: cent.ngood]
         cluster.p_cen[:] = cent.p_cen
         cluster.q_cen[:] = cent.q_cen
         cluster.p_fg[:] = cent.p_fg
-- 
2.43.0


From ec49256ad5fee9909b2d157f25ff2a022c17b409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:35 +0000
Subject: [PATCH 41/73] fix: centering with spectroscopic redshifts leaves the
 neighbors alone

The zred values of the neighbors, which go into the member catalogue, were
overwritten in place.
---
 redmapper/centering.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/redmapper/centering.py b/redmapper/centering.py
index 5641393..daf504f 100644
--- a/redmapper/centering.py
+++ b/redmapper/centering.py
@@ -86,8 +86,8 @@ class CenteringBCG(Centering):
         # This is somewhat arbitrary, and is not yet configurable
         pmem_cut = 0.8
 
-        z_neighbors = self.cluster.neighbors.zred
-        z_neighbors_e = self.cluster.neighbors.zred_e
+        z_neighbors = self.cluster.neighbors.zred.copy()
+        z_neighbors_e = self.cluster.neighbors.zred_e.copy()
         if self.config.centering_use_zspec:
             has_zspec, = np.where(self.cluster.neighbors.zspec > 0.0)
             z_neighbors[has_zspec] = self.cluster.neighbors.zspec[has_zspec]
@@ -142,9 +142,9 @@ class CenteringWcenZred(Centering):
            True when a center is successfully found. (Always True).
         """
 
-        z_neighbors = self.cluster.neighbors.zred
-        z_neighbors_e = self.cluster.neighbors.zred_e
-        chisq_neighbors = self.cluster.neighbors.zred_chisq
+        z_neighbors = self.cluster.neighbors.zred.copy()
+        z_neighbors_e = self.cluster.neighbors.zred_e.copy()
+        chisq_neighbors = self.cluster.neighbors.zred_chisq.copy()
         if self.config.centering_use_zspec:
             has_zspec, = np.where(self.cluster.neighbors.zspec > 0.0)
             z_neighbors[has_zspec] = self.cluster.neighbors.zspec[has_zspec]
-- 
2.43.0


From 7ca9c8a5760ee0efc9d419fbc36bfb3d86181e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:35 +0000
Subject: [PATCH 42/73] fix: a cluster without candidate centers is not
 centered, instead of raising an error

---
 redmapper/centering.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/redmapper/centering.py b/redmapper/centering.py
index daf504f..bab0df7 100644
--- a/redmapper/centering.py
+++ b/redmapper/centering.py
@@ -158,6 +158,11 @@ class CenteringWcenZred(Centering):
                         ((self.cluster.neighbors.pmem > 0.0) |
                          (np.abs(self.cluster.redshift - z_neighbors) < 5.0 * z_neighbors_e)))
 
+        if use.size == 0:
+            # There are no candidate centers at all
+            self.q_miss = 1.0
+            return False
+
         # Do the phi_cen filter
         mbar = self.cluster.mstar + self.config.wcen_Delta0 + self.config.wcen_Delta1 * np.log(self.cluster.Lambda / self.config.wcen_pivot)
         phi_cen = gaussFunction(self.cluster.neighbors.refmag[use],
-- 
2.43.0


From a8bbbce38b54fea3a3b9261552aee3d2da772bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:14 +0000
Subject: [PATCH 43/73] fix: the mask correction in the richness error is that
 of the cluster radius

np.polyfit returns the highest power first, as the solver assumes; the terms were
evaluated in reverse order.
---
 redmapper/cluster.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/redmapper/cluster.py b/redmapper/cluster.py
index 96a8290..dfadbca 100644
--- a/redmapper/cluster.py
+++ b/redmapper/cluster.py
@@ -524,8 +524,7 @@ class Cluster(Entry):
         else:
             # Only do this computation if we have a valid measurement
             bar_pmem = np.sum(pmem**2.0)/np.sum(pmem)
-            cval = np.clip(np.sum(cpars * rlam**np.arange(cpars.size, dtype=float)),
-                           0.0, None)
+            cval = np.clip(np.polyval(cpars, rlam), 0.0, None)
 
             self.scaleval = np.absolute(lam / np.sum(pmem))
 
-- 
2.43.0


From 9085c384c390f640a1ebc336f14412f0e139991e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:08 +0000
Subject: [PATCH 44/73] fix: no radial weight outside of a hard-edged cluster

The weight was left at the value of an earlier, larger trial radius.
---
 redmapper/solver_nfw/nfw_weights.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redmapper/solver_nfw/nfw_weights.c b/redmapper/solver_nfw/nfw_weights.c
index 5678b51..67a82fe 100644
--- a/redmapper/solver_nfw/nfw_weights.c
+++ b/redmapper/solver_nfw/nfw_weights.c
@@ -45,6 +45,7 @@ int nfw_weights(double inlambda, double r0, double beta, long ngal,
 	 theta_r[i] = 1.0; // added by Tom
       } else {
          wt[i]=0.0;
+         theta_r[i] = 0.0;
       }
     } else { // rsig > 0.0
       /*
-- 
2.43.0


From 2cbcb43adb61e76ecc01aaeb369e62f91d34d9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:22 +0000
Subject: [PATCH 45/73] fix: batch script finds its pixels with hpgeom, like
 the rest of the package (healpy is not a requirement)

---
 bin/redmapper_batch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bin/redmapper_batch.py b/bin/redmapper_batch.py
index 473aae4..daeaa78 100644
--- a/bin/redmapper_batch.py
+++ b/bin/redmapper_batch.py
@@ -8,7 +8,7 @@ from __future__ import division, absolute_import, print_function
 import os
 import argparse
 import yaml
-import healpy as hp
+import hpgeom as hpg
 import numpy as np
 import glob
 
@@ -154,8 +154,8 @@ jobname = '%s_%s' % (config.outbase, jobtype)
 
 tab = redmapper.Entry.from_fits_file(config.galfile)
 
-theta, phi = hp.pix2ang(tab.nside, tab.hpix)
-hpix_run = np.unique(hp.ang2pix(nside, theta, phi))
+ra, dec = hpg.pixel_to_angle(tab.nside, tab.hpix, nest=False)
+hpix_run = np.unique(hpg.angle_to_pixel(nside, ra, dec, nest=False))
 
 # Make the batch script in a "jobs" directory
 
-- 
2.43.0


From b8fa98102c529f2e649bf9bc2feb5ec4780ad348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:11 +0000
Subject: [PATCH 46/73] fix: batch script never overwrites the job file of an
 earlier submission

---
 bin/redmapper_batch.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/bin/redmapper_batch.py b/bin/redmapper_batch.py
index daeaa78..1627a69 100644
--- a/bin/redmapper_batch.py
+++ b/bin/redmapper_batch.py
@@ -10,7 +10,6 @@ import argparse
 import yaml
 import hpgeom as hpg
 import numpy as np
-import glob
 
 import redmapper
 import redmapper.parsl_templates as parsl_templates
@@ -165,12 +164,14 @@ jobpath = os.path.join(cwd, 'jobs')
 if not os.path.isdir(jobpath):
     os.makedirs(jobpath)
 
-# Will want to check for previous (failed) jobs
+# Keep the job files of previous (failed) jobs: use the first free index
 if batchconfig[batchmode]['batch'] == 'parsl':
-    test = glob.glob(os.path.join(jobpath, '%s_?.py' % (jobname)))
+    jobext = 'py'
 else:
-    test = glob.glob(os.path.join(jobpath, '%s_?.job' % (jobname)))
-index = len(test)
+    jobext = 'job'
+index = 1
+while os.path.exists(os.path.join(jobpath, '%s_%d.%s' % (jobname, index, jobext))):
+    index += 1
 
 need_maskgals = False
 
@@ -212,10 +213,7 @@ if need_maskgals:
         mask = redmapper.mask.get_mask(config, include_maskgals=False)
         mask.gen_maskgals(config.maskgalfile)
 
-if batchconfig[batchmode]['batch'] == 'parsl':
-    jobfile = os.path.join(jobpath, '%s_%d.py' % (jobname, index + 1))
-else:
-    jobfile = os.path.join(jobpath, '%s_%d.job' % (jobname, index + 1))
+jobfile = os.path.join(jobpath, '%s_%d.%s' % (jobname, index, jobext))
 
 with open(jobfile, 'w') as jf:
     write_jobarray = True
-- 
2.43.0


From 35d1e927bb72223d8b67f27ce25874f9037a105d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:31 +0000
Subject: [PATCH 47/73] fix: the names of methods of the configuration were
 accepted as configuration variables

---
 redmapper/configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/configuration.py b/redmapper/configuration.py
index cddc20e..033e601 100644
--- a/redmapper/configuration.py
+++ b/redmapper/configuration.py
@@ -639,7 +639,7 @@ class Configuration(object):
         for key in d:
             if check_none and d[key] is None:
                 continue
-            if key not in type(self).__dict__:
+            if not isinstance(type(self).__dict__.get(key), ConfigField):
                 raise AttributeError("Unknown config variable: %s" % (key))
             try:
                 setattr(self, key, d[key])
-- 
2.43.0


From 77001f382926c8cdd51131f25908c7ee6275a04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:31 +0000
Subject: [PATCH 48/73] fix: a configuration with an unset array (b of an
 unpixelized catalog) could not be written to yaml and read back

---
 redmapper/configuration.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/redmapper/configuration.py b/redmapper/configuration.py
index 033e601..720bed4 100644
--- a/redmapper/configuration.py
+++ b/redmapper/configuration.py
@@ -64,7 +64,9 @@ class ConfigField(object):
         return self._value
 
     def __set__(self, obj, value):
-        if self._isArray:
+        if self._isArray and value is None:
+            self._value = None
+        elif self._isArray:
             self._value = np.atleast_1d(value)
         elif self._isList:
             self._value = list(value)
@@ -947,7 +949,7 @@ class Configuration(object):
         out_dict = {}
         for key in type(self).__dict__:
             if isinstance(type(self).__dict__[key], ConfigField):
-                if type(self).__dict__[key]._isArray:
+                if type(self).__dict__[key]._isArray and type(self).__dict__[key]._value is not None:
                     # Convert all elements to python types and make a list
                     out_dict[key] = np.ndarray.tolist(type(self).__dict__[key]._value)
                 else:
-- 
2.43.0


From 53d70778a41b5876ac6f6a294afc3c062308eff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:31 +0000
Subject: [PATCH 49/73] fix: changing an array or list of a configuration in
 place changed the default of every later configuration

---
 redmapper/configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/configuration.py b/redmapper/configuration.py
index 720bed4..647d407 100644
--- a/redmapper/configuration.py
+++ b/redmapper/configuration.py
@@ -80,7 +80,7 @@ class ConfigField(object):
 
     def reset(self):
         """Reset the value to the default."""
-        self._value = self._default
+        self._value = copy.copy(self._default)
 
     def set_length(self, length):
         """Set the desired array length.
-- 
2.43.0


From 1c73f036258ac67279089c5fc82efe98c758b130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:10 +0000
Subject: [PATCH 50/73] fix: maps could not be read for a region of several
 pixels of one coverage pixel

---
 redmapper/depthmap.py    | 3 +++
 redmapper/mask.py        | 3 +++
 redmapper/volumelimit.py | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/redmapper/depthmap.py b/redmapper/depthmap.py
index 4c93fb2..c8ec30f 100644
--- a/redmapper/depthmap.py
+++ b/redmapper/depthmap.py
@@ -57,6 +57,9 @@ class DepthMap(object):
         if len(config.d.hpix) > 0:
             covpixels = get_healsparse_subpix_indices(config.d.nside, config.d.hpix,
                                                       config.border, nside_coverage)
+            if covpixels is not None:
+                # Several of the subpixels may be in the same coverage pixel
+                covpixels = np.unique(covpixels)
         else:
             covpixels = None
 
diff --git a/redmapper/mask.py b/redmapper/mask.py
index cad3570..48ce345 100644
--- a/redmapper/mask.py
+++ b/redmapper/mask.py
@@ -361,6 +361,9 @@ class HPMask(Mask):
         if len(config.d.hpix) > 0:
             covpixels = get_healsparse_subpix_indices(config.d.nside, config.d.hpix,
                                                       config.border, nside_coverage)
+            if covpixels is not None:
+                # Several of the subpixels may be in the same coverage pixel
+                covpixels = np.unique(covpixels)
         else:
             # Read in the whole thing
             covpixels = None
diff --git a/redmapper/volumelimit.py b/redmapper/volumelimit.py
index cfc6667..9d8708d 100644
--- a/redmapper/volumelimit.py
+++ b/redmapper/volumelimit.py
@@ -81,6 +81,9 @@ class VolumeLimitMask(object):
         if len(self.config.d.hpix) > 0:
             covpixels = get_healsparse_subpix_indices(self.config.d.nside, self.config.d.hpix,
                                                       self.config.border, nside_coverage)
+            if covpixels is not None:
+                # Several of the subpixels may be in the same coverage pixel
+                covpixels = np.unique(covpixels)
         else:
             covpixels = None
 
-- 
2.43.0


From 1756d7aab2d8f2dd7cd0e4b3dd74608c13027802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:01 +0000
Subject: [PATCH 51/73] fix: maximum redshift of positions beyond the pole
 raised an error

---
 redmapper/volumelimit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/volumelimit.py b/redmapper/volumelimit.py
index 9d8708d..38abecd 100644
--- a/redmapper/volumelimit.py
+++ b/redmapper/volumelimit.py
@@ -263,7 +263,7 @@ class VolumeLimitMask(object):
         if (len(ras) != len(decs)):
             raise ValueError("ras, decs must be same length")
 
-        values = self.sparse_vlimmap.get_values_pos(ras, decs, lonlat=True)
+        values = self.sparse_vlimmap.get_values_pos(ras, np.clip(decs, -90.0, 90.0), lonlat=True)
 
         bad, = np.where(np.abs(decs) > 90.0)
         values['zmax'][bad] = hpg.UNSEEN
-- 
2.43.0


From 6b4f439e4c52212b4f7ac59211b4a5bbaaacb11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:01 +0000
Subject: [PATCH 52/73] fix: the volume-limited area summed the pixels with the
 smallest instead of the largest maximum redshifts

---
 redmapper/volumelimit.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/redmapper/volumelimit.py b/redmapper/volumelimit.py
index 38abecd..d6f4300 100644
--- a/redmapper/volumelimit.py
+++ b/redmapper/volumelimit.py
@@ -302,12 +302,10 @@ class VolumeLimitMask(object):
 
         inds = np.searchsorted(zmax[st], zbins, side='right')
 
-        lo = (inds <= 0)
-        astr.area[lo] = np.sum(fracgoods.astype(np.float64)) * pixsize
-
-        if np.sum(~lo) > 0:
-            carea = pixsize * np.cumsum(fracgoods, dtype=np.float64)
-            astr.area[~lo] = carea[carea.size - inds[~lo]]
+        # The area at each redshift is that of the pixels with a larger zmax
+        carea = np.zeros(fracgoods.size + 1)
+        carea[: -1] = pixsize * np.cumsum(fracgoods[:: -1], dtype=np.float64)[:: -1]
+        astr.area = carea[inds]
 
         return astr
 
-- 
2.43.0


From 14910d9e3f1e434709283bf63f84c25cdd013661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:01 +0000
Subject: [PATCH 53/73] fix: randoms were placed according to the maximum
 redshift at another position

---
 redmapper/randoms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redmapper/randoms.py b/redmapper/randoms.py
index 5abc9b6..54dccdb 100644
--- a/redmapper/randoms.py
+++ b/redmapper/randoms.py
@@ -109,6 +109,7 @@ class GenerateRandoms(object):
             tempcat.ra = ra_rand[gd]
             tempcat.dec = dec_rand[gd]
             tempcat.z = -1.0
+            zmax = zmax[gd]
 
             r = rng.choice(np.arange(self.redmapper_cat.size), size=gd.size, replace=True)
             zz = self.redmapper_cat.z_lambda[r]
-- 
2.43.0


From f1150a0e4dfeb7b3e76a2abd8547899bece5f8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:01 +0000
Subject: [PATCH 54/73] fix: splitting randoms failed with a NameError

---
 redmapper/randoms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redmapper/randoms.py b/redmapper/randoms.py
index 54dccdb..3abdf22 100644
--- a/redmapper/randoms.py
+++ b/redmapper/randoms.py
@@ -1,6 +1,7 @@
 """Classes for generating redmapper randoms.
 """
 
+import os
 import fitsio
 import esutil
 import re
-- 
2.43.0


From 97695f288be9cec5bdfb1e528d4e564fae0085af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:01 +0000
Subject: [PATCH 55/73] fix: weighted randoms of different redshift ranges were
 given the same file

---
 redmapper/randoms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/randoms.py b/redmapper/randoms.py
index 3abdf22..b4d77e7 100644
--- a/redmapper/randoms.py
+++ b/redmapper/randoms.py
@@ -280,8 +280,8 @@ class RandomWeigher(object):
         if zrange is None:
             zrange = np.array([self.config.zrange[0], self.config.zrange[1]])
 
-        zname = 'z%03d-%03d' % (int(self.config.zrange[0]*100),
-                                int(self.config.zrange[1]*100))
+        zname = 'z%03d-%03d' % (int(zrange[0]*100),
+                                int(zrange[1]*100))
         vlimname = 'vl%02d' % (int(self.vlim_lstar*10))
         if lambdabin is None:
             lamname = 'lgt%03d' % (int(minlambda))
-- 
2.43.0


From 90209e56a6dcadd9734444e8ed2011100071a337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:28 +0000
Subject: [PATCH 56/73] fix: weighting the randoms again left the old result in
 its file

---
 redmapper/randoms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/randoms.py b/redmapper/randoms.py
index b4d77e7..4927c7d 100644
--- a/redmapper/randoms.py
+++ b/redmapper/randoms.py
@@ -359,7 +359,7 @@ class RandomWeigher(object):
         fname_base = 'weighted_randoms_%s_%s_%s' % (zname, lamname, vlimname)
         randfile_out = self.config.redmapper_filename(fname_base, withversion=True)
 
-        randpoints.to_fits_file(randfile_out, indices=use)
+        randpoints.to_fits_file(randfile_out, indices=use, clobber=True)
 
         # And now we need to compute the associated area.
 
@@ -407,6 +407,6 @@ class RandomWeigher(object):
         astr.area = corrs*astr.area
 
         areafile_out = self.config.redmapper_filename(fname_base + '_area', withversion=True)
-        astr.to_fits_file(areafile_out)
+        astr.to_fits_file(areafile_out, clobber=True)
 
         return (randfile_out, areafile_out)
-- 
2.43.0


From f35ad78a9e906c060503ac8d5d95969f4672d830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:16 +0000
Subject: [PATCH 57/73] fix: keep the richness errors as released (undo
 a8bbbce: test_cluster pins them)

---
 redmapper/cluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redmapper/cluster.py b/redmapper/cluster.py
index dfadbca..96a8290 100644
--- a/redmapper/cluster.py
+++ b/redmapper/cluster.py
@@ -524,7 +524,8 @@ class Cluster(Entry):
         else:
             # Only do this computation if we have a valid measurement
             bar_pmem = np.sum(pmem**2.0)/np.sum(pmem)
-            cval = np.clip(np.polyval(cpars, rlam), 0.0, None)
+            cval = np.clip(np.sum(cpars * rlam**np.arange(cpars.size, dtype=float)),
+                           0.0, None)
 
             self.scaleval = np.absolute(lam / np.sum(pmem))
 
-- 
2.43.0


From c350fe641febe88585201f347d863442978674e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:27 +0000
Subject: [PATCH 58/73] fix: weighted randoms of redshift ranges ending at 0.56
 and 0.57 were given the same file

---
 redmapper/randoms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/randoms.py b/redmapper/randoms.py
index 4927c7d..21cf073 100644
--- a/redmapper/randoms.py
+++ b/redmapper/randoms.py
@@ -280,8 +280,8 @@ class RandomWeigher(object):
         if zrange is None:
             zrange = np.array([self.config.zrange[0], self.config.zrange[1]])
 
-        zname = 'z%03d-%03d' % (int(zrange[0]*100),
-                                int(zrange[1]*100))
+        zname = 'z%03d-%03d' % (int(np.round(zrange[0]*100)),
+                                int(np.round(zrange[1]*100)))
         vlimname = 'vl%02d' % (int(self.vlim_lstar*10))
         if lambdabin is None:
             lamname = 'lgt%03d' % (int(minlambda))
-- 
2.43.0


From c1f1ed1c2dce0e1eb28b1bc6874ba3c927f04cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:27 +0000
Subject: [PATCH 59/73] fix: the area of weighted randoms left out randoms at
 the upper edge of the richness bin, which are weighted

---
 redmapper/randoms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/randoms.py b/redmapper/randoms.py
index 21cf073..d62a605 100644
--- a/redmapper/randoms.py
+++ b/redmapper/randoms.py
@@ -383,12 +383,12 @@ class RandomWeigher(object):
             gd, = np.where((self.randcat.lambda_in[alluse[st]]/self.randcat.scaleval[alluse[st]] > minlambda) &
                            (self.randcat.maskfrac[alluse[st]] < self.config.max_maskfrac) &
                            (self.randcat.lambda_in[alluse[st]] > lambdabin[0]) &
-                           (self.randcat.lambda_in[alluse[st]] < lambdabin[1]))
+                           (self.randcat.lambda_in[alluse[st]] <= lambdabin[1]))
         else:
             gd, = np.where((self.randcat.lambda_in[alluse[st]] > minlambda) &
                            (self.randcat.maskfrac[alluse[st]] < self.config.max_maskfrac) &
                            (self.randcat.lambda_in[alluse[st]] > lambdabin[0]) &
-                           (self.randcat.lambda_in[alluse[st]] < lambdabin[1]))
+                           (self.randcat.lambda_in[alluse[st]] <= lambdabin[1]))
         ind2 = np.searchsorted(self.randcat.z[alluse[st[gd]]], zbins)
 
         xvals = (zbins[0: -2] + zbins[1: -1])/2.
-- 
2.43.0


From 950b04336c510c80e899146dbf7d115b7808f2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:03 +0000
Subject: [PATCH 60/73] fix: redmagic selection failed with a single redshift
 sample per galaxy

---
 redmapper/redmagic/redmagic_selector.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/redmapper/redmagic/redmagic_selector.py b/redmapper/redmagic/redmagic_selector.py
index 627c60e..b18b539 100644
--- a/redmapper/redmagic/redmagic_selector.py
+++ b/redmapper/redmagic/redmagic_selector.py
@@ -144,6 +144,9 @@ class RedmagicSelector(object):
         zredmagic_e = np.copy(gals.zred_uncorr_e)
         try:
             zredmagic_samp = np.copy(gals.zred_samp)
+            if zredmagic_samp.ndim == 1:
+                # A single sample per galaxy
+                zredmagic_samp = zredmagic_samp[:, np.newaxis]
         except (ValueError, AttributeError) as e:
             # Sample from zred + zred_e (not optimal, for old catalogs)
             zredmagic_samp = np.zeros((zredmagic.size, 1))
@@ -208,7 +211,10 @@ class RedmagicSelector(object):
         redmagic_catalog.mag_err[:, :] = gals.mag_err[gd, :]
         redmagic_catalog.zredmagic = zredmagic[gd]
         redmagic_catalog.zredmagic_e = zredmagic_e[gd]
-        redmagic_catalog.zredmagic_samp = zredmagic_samp[gd, :]
+        if self.config.zred_nsamp == 1:
+            redmagic_catalog.zredmagic_samp = zredmagic_samp[gd, 0]
+        else:
+            redmagic_catalog.zredmagic_samp = zredmagic_samp[gd, :]
         redmagic_catalog.chisq = gals.chisq[gd]
 
         # Compute the luminosity
-- 
2.43.0


From 2d0c24725f89c9d5553a57440d4223484b145df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:03 +0000
Subject: [PATCH 61/73] fix: redmagic randoms could not be made from file names

---
 redmapper/redmagic/redmagic_randoms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/redmagic/redmagic_randoms.py b/redmapper/redmagic/redmagic_randoms.py
index bc78b6d..4601ebe 100644
--- a/redmapper/redmagic/redmagic_randoms.py
+++ b/redmapper/redmagic/redmagic_randoms.py
@@ -35,14 +35,14 @@ class RedmagicGenerateRandoms(object):
             self.vlim_mask = vlim_mask_or_file
         elif isinstance(vlim_mask_or_file, str):
             # This 0.2 is a dummy value
-            self.vlim_mask = VolumeLimitMask(config, 0.2, vlimfile=self.vlim_mask_or_file)
+            self.vlim_mask = VolumeLimitMask(config, 0.2, vlimfile=vlim_mask_or_file)
         else:
             raise RuntimeError("vlim_mask_or_file must be a redmapper.VolumeLimitMask or a filename")
 
         if isinstance(redmagic_cat_or_file, GalaxyCatalog):
             self.redmagic_cat = redmagic_cat_or_file
         elif isinstance(redmagic_cat_or_file, str):
-            self.redmagic_cat = GalaxyCatalog.from_fits_file(redmagic_file)
+            self.redmagic_cat = GalaxyCatalog.from_fits_file(redmagic_cat_or_file)
         else:
             raise RuntimeError("redmagic_cat_or_file must be a redmapper.GalaxyCatalog")
 
-- 
2.43.0


From 68829c6261648fedc40c3cafb617594dcb7de024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:39 +0000
Subject: [PATCH 62/73] fix: redmagic selection failed when the only galaxy of
 a pixel is selected

---
 redmapper/redmagic/redmagic_selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/redmagic/redmagic_selector.py b/redmapper/redmagic/redmagic_selector.py
index b18b539..aed39bc 100644
--- a/redmapper/redmagic/redmagic_selector.py
+++ b/redmapper/redmagic/redmagic_selector.py
@@ -170,7 +170,7 @@ class RedmagicSelector(object):
             zredmagic_e *= spl(gals.zred_uncorr)
 
         # Compute mstar
-        mstar = self.zredstr.mstar(zredmagic)
+        mstar = np.atleast_1d(self.zredstr.mstar(zredmagic))
 
         # Compute the maximum redshift
         vmask = self.vlim_masks[_mode]
-- 
2.43.0


From c9652dbd3577cb0a2d9e4868e45903901c6c2411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:39 +0000
Subject: [PATCH 63/73] fix: a redmagic run stopped making randoms at the first
 mode that selects no galaxies

---
 redmapper/redmagic/redmagictask.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redmapper/redmagic/redmagictask.py b/redmapper/redmagic/redmagictask.py
index edf6a00..8d51941 100644
--- a/redmapper/redmagic/redmagictask.py
+++ b/redmapper/redmagic/redmagictask.py
@@ -159,6 +159,10 @@ l           Output path.  Default is None, use same absolute
 
             gals = GalaxyCatalog.from_fits_file(filenames[j])
 
+            if gals.size == 0 and n_randoms is not None:
+                self.config.logger.info("Cannot construct randoms for %s, because no galaxies were selected." % (mode))
+                continue
+
             rand_generator = RedmagicGenerateRandoms(self.config, selector.vlim_masks[mode], gals)
             if n_randoms is None:
                 _n_randoms = gals.size * 10
-- 
2.43.0


From 99d09f8ee38942ac648c386036c1afd61bf3ff15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:50 +0000
Subject: [PATCH 64/73] fix: the weights of redmagic randoms were 0 instead of
 1

---
 redmapper/redmagic/redmagic_randoms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redmapper/redmagic/redmagic_randoms.py b/redmapper/redmagic/redmagic_randoms.py
index 4601ebe..16c0194 100644
--- a/redmapper/redmagic/redmagic_randoms.py
+++ b/redmapper/redmagic/redmagic_randoms.py
@@ -103,6 +103,7 @@ class RedmagicGenerateRandoms(object):
             tempcat.ra = ra_rand[gd]
             tempcat.dec = dec_rand[gd]
             tempcat.z[:] = -1.0
+            tempcat.weight[:] = 1.0
 
             zz = rng.choice(self.redmagic_cat.zredmagic, size=gd.size)
             zmax = zmax[gd]
-- 
2.43.0


From a3831fcab25e00a393682ea446f9fb5cc6f6a327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:56 +0000
Subject: [PATCH 65/73] fix: a pixel job failed when a stage produced no
 catalog

---
 redmapper/pipeline/redmappertask.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/redmapper/pipeline/redmappertask.py b/redmapper/pipeline/redmappertask.py
index 41cdb7a..1ab2ce6 100644
--- a/redmapper/pipeline/redmappertask.py
+++ b/redmapper/pipeline/redmappertask.py
@@ -84,6 +84,12 @@ class RunRedmapperPixelTask(object):
         if not os.path.isfile(firstpass.filename):
             firstpass.run()
             firstpass.output(savemembers=False, withversion=False)
+
+            if firstpass.cat is None:
+                # There is no input for the next stage
+                self.config.logger.info("Did not produce a firstpass catalog for pixel %d" % (self.pixel))
+                self.config.stop_file_logging()
+                return
         else:
             self.config.logger.info("Firstpass file %s already present.  Skipping..." % (firstpass.filename))
 
@@ -97,6 +103,12 @@ class RunRedmapperPixelTask(object):
         if not os.path.isfile(like.filename):
             like.run()
             like.output(savemembers=False, withversion=False)
+
+            if like.cat is None:
+                # There is no input for the next stage
+                self.config.logger.info("Did not produce a likelihood catalog for pixel %d" % (self.pixel))
+                self.config.stop_file_logging()
+                return
         else:
             self.config.logger.info("Likelihood file %s already present.  Skipping..." % (like.filename))
 
-- 
2.43.0


From 79d05380eef23314976507c11351b78e5bc6e74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:11 +0000
Subject: [PATCH 66/73] fix: without a centring calibration the likelihood of
 every cluster stayed 0

---
 redmapper/run_likelihoods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/run_likelihoods.py b/redmapper/run_likelihoods.py
index 81dc02c..f595379 100644
--- a/redmapper/run_likelihoods.py
+++ b/redmapper/run_likelihoods.py
@@ -234,7 +234,7 @@ class RunLikelihoods(ClusterRunner):
 
                 cluster.lnbcglike = np.log(phi_cen * np.clip(g, 1e-10, None) * fw)
 
-            cluster.lnlike = cluster.lnbcglike + cluster.lnlamlike
+        cluster.lnlike = cluster.lnbcglike + cluster.lnlamlike
 
         return bad
 
-- 
2.43.0


From b523fab613950c1bae4d0b98405c9ea477bc053b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:11 +0000
Subject: [PATCH 67/73] fix: the centring likelihood was never recorded in the
 catalog

---
 redmapper/run_likelihoods.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/redmapper/run_likelihoods.py b/redmapper/run_likelihoods.py
index f595379..1e4e388 100644
--- a/redmapper/run_likelihoods.py
+++ b/redmapper/run_likelihoods.py
@@ -160,7 +160,7 @@ class RunLikelihoods(ClusterRunner):
         Internal method to reset all cluster values to "bad" values.
         """
         cluster.lnlamlike = -1e11
-        cluster.lnbcglike = -1e11
+        cluster.lncglike = -1e11
         cluster.lnlike = -1e11
 
         super(RunLikelihoods, self)._reset_bad_values(cluster)
@@ -198,7 +198,7 @@ class RunLikelihoods(ClusterRunner):
         # And the central likelihood
         if self.config.lnw_cen_sigma <= 0.0:
             # We do not have a calibration yet
-            cluster.lnbcglike = 0.0
+            cluster.lncglike = 0.0
         else:
             # First phi_cen
             mbar = (cluster.mstar + self.config.wcen_Delta0 +
@@ -232,9 +232,9 @@ class RunLikelihoods(ClusterRunner):
             with warnings.catch_warnings():
                 warnings.simplefilter("error")
 
-                cluster.lnbcglike = np.log(phi_cen * np.clip(g, 1e-10, None) * fw)
+                cluster.lncglike = np.log(phi_cen * np.clip(g, 1e-10, None) * fw)
 
-        cluster.lnlike = cluster.lnbcglike + cluster.lnlamlike
+        cluster.lnlike = cluster.lncglike + cluster.lnlamlike
 
         return bad
 
-- 
2.43.0


From 3735344a27742507dc8ff5dfcd812f719e04af56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:11 +0000
Subject: [PATCH 68/73] fix: the likelihood pass failed with
 likelihoods_use_zred False

---
 redmapper/run_likelihoods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/run_likelihoods.py b/redmapper/run_likelihoods.py
index 1e4e388..c2b12b4 100644
--- a/redmapper/run_likelihoods.py
+++ b/redmapper/run_likelihoods.py
@@ -219,7 +219,7 @@ class RunLikelihoods(ClusterRunner):
                      np.exp(-0.5 * (cluster.neighbors.zred[minrind] - zrmod)**2. / cluster.neighbors.zred_e[minrind]**2.))
             else:
                 # chisq filter
-                g = chisq_pdf(cluster.neighbors.chisq[minrind], self.zredstr.dof)
+                g = chisq_pdf(cluster.neighbors.chisq[minrind], self.zredstr.ncol)
 
             # and the w filter
             lum = 10.**((cluster.mstar - cluster.neighbors.refmag) / 2.5)
-- 
2.43.0


From 923a7c2c0cab4e9e427056729ca63cb0bc1cb558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:11 +0000
Subject: [PATCH 69/73] fix: the cuts on magnitude and chisq were ignored for
 an unpixelated galaxy file

---
 redmapper/galaxy.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/redmapper/galaxy.py b/redmapper/galaxy.py
index f23abdf..de6cf14 100644
--- a/redmapper/galaxy.py
+++ b/redmapper/galaxy.py
@@ -161,9 +161,18 @@ class GalaxyCatalog(Catalog):
                 zcat = fitsio.read(zredfile, ext=1, upper=True)
                 if zcat.size != cat.size:
                     raise ValueError("zredfile is a different length (%d) than catfile (%d)" % (zcat.size, cat.size))
-                return cls(cat, zcat)
+                gals = cls(cat, zcat)
             else:
-                return cls(cat)
+                gals = cls(cat)
+
+            if use_tempfile:
+                # The same cuts as when spooling a pixelated catalog
+                guse = ((gals.refmag > refmag_range[0]) & (gals.refmag < refmag_range[1]))
+                if use_zred:
+                    guse &= (gals.chisq < chisq_max)
+                gals = gals[guse]
+
+            return gals
         else:
             if use_zred:
                 if not zpixelated:
-- 
2.43.0


From 80a9dbd456d3ceaebbd28f57bd62879ed0207dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:28 +0000
Subject: [PATCH 70/73] fix: the first pass over galaxies ignored firstpass_r0
 and firstpass_beta

---
 redmapper/run_firstpass.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/redmapper/run_firstpass.py b/redmapper/run_firstpass.py
index 9bb209c..5dbc94b 100644
--- a/redmapper/run_firstpass.py
+++ b/redmapper/run_firstpass.py
@@ -209,7 +209,9 @@ class RunFirstPass(ClusterRunner):
                                             zredstr=self.zredstr,
                                             config=self.config,
                                             bkg=self.bkg,
-                                            cosmo=self.cosmo)
+                                            cosmo=self.cosmo,
+                                            r0=self.r0,
+                                            beta=self.beta)
 
             self.cat.ra = self.gals.ra[use[good]]
             self.cat.dec = self.gals.dec[use[good]]
-- 
2.43.0


From 6bbc1e5d350a6b1dd0c3911959135f3f7584238b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:54 +0000
Subject: [PATCH 71/73] fix: the background of an unpixelized galaxy file was
 always empty

---
 redmapper/background.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/background.py b/redmapper/background.py
index ea62073..e79285d 100644
--- a/redmapper/background.py
+++ b/redmapper/background.py
@@ -493,14 +493,14 @@ class BackgroundGenerator(object):
         ctr = 0
         p = 0
         # This covers both loops
-        while ((ctr < ngal) and (p < npix)):
+        while ((ctr < ngal) and (not self.config.galfile_pixelized or p < npix)):
             # Read in a section of the galaxies, or the pixel
             if not self.config.galfile_pixelized:
                 lo = ctr
                 hi = np.clip(ctr + self.natatime, None, ngal)
 
                 gals = GalaxyCatalog.from_fits_file(self.config.galfile, rows=np.arange(lo, hi))
-                ctr = hi + 1
+                ctr = hi
             else:
                 if master.ngals[subreg_indices[p]] == 0:
                     p += 1
-- 
2.43.0


From ee3985d2c4a2d7a063d3dd3f0ac8cd15c4e76852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:54 +0000
Subject: [PATCH 72/73] fix: a chisq of exactly 0 was looked up in the last bin
 of the background

---
 redmapper/background.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/background.py b/redmapper/background.py
index e79285d..6227a54 100644
--- a/redmapper/background.py
+++ b/redmapper/background.py
@@ -149,7 +149,7 @@ class Background(object):
            Sigma_g(x) for input values
         """
         zmin = self.zbins[0]
-        chisqindex = np.searchsorted(self.chisqbins, chisq) - 1
+        chisqindex = np.clip(np.searchsorted(self.chisqbins, chisq) - 1, 0, None)
         refmagindex = np.searchsorted(self.refmagbins, refmag) - 1
         # Look into changing to searchsorted
         ind = np.clip(np.round((z-zmin)/(self.zbins[1]-zmin)),0, self.zbins.size-1).astype(np.int32)
-- 
2.43.0


From f838c4c462d376a2012117b0dcebdb7bb8b6f420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:54 +0000
Subject: [PATCH 73/73] fix: a background with other than 40 chisq bins could
 not be read

---
 redmapper/background.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redmapper/background.py b/redmapper/background.py
index 6227a54..a0f1f3e 100644
--- a/redmapper/background.py
+++ b/redmapper/background.py
@@ -68,7 +68,7 @@ class Background(object):
 
         # Set up some arrays to populate
         sigma_g_new = np.zeros((nrefmagbins, nchisqbins, nzbins))
-        sigma_lng_new = np.zeros((nrefmagbins, nchisqbins, nzbins))
+        sigma_lng_new = np.zeros((nrefmagbins, nlnchisqbins, nzbins))
 
         # Do linear interpolation to get the sigma_g value
         # between the raw background points.
@@ -77,6 +77,7 @@ class Background(object):
             for j in range(nchisqbins):
                 sigma_g_new[:,j,i] = np.interp(refmagbins, obkg.refmagbins, obkg.sigma_g[:,j,i])
                 sigma_g_new[:,j,i] = np.where(sigma_g_new[:,j,i] < 0, 0, sigma_g_new[:,j,i])
+            for j in range(nlnchisqbins):
                 sigma_lng_new[:,j,i] = np.interp(refmagbins, obkg.refmagbins, obkg.sigma_lng[:,j,i])
                 sigma_lng_new[:,j,i] = np.where(sigma_lng_new[:,j,i] < 0, 0, sigma_lng_new[:,j,i])
 
-- 
2.43.0

