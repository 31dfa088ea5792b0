#!/usr/bin/env python3
"""Writes properties.jsonl (kept as Python so that the texts stay readable)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None)))


prop("C01", "Galaxy ingest loses, duplicates and misplaces nothing",
     "Whatever sequence of galaxy batches is ingested, the finalised pixelised catalogue contains every accepted galaxy "
     "(one that passes the optional footprint mask) exactly once, with its values unchanged apart from the id when unique-id "
     "generation was requested, in the file of the sky pixel that contains it. The master table lists exactly the non-empty "
     "pixels in a single ordering shared by pixel numbers, file names, galaxy counts and centre positions.",
     ["inputs", "histories"],
     "all sequences of batches (sizes including one, any order, any set of pixels, any resolution), with and without mask and generated ids",
     "The tests ingest one fixed catalogue with one mask and compare counts; they never vary batching, batch order, single-row files or which pixels recur.",
     ["redmapper/galaxy.py"],
     [("GalaxyCatalogMaker.append_galaxies/_append_*", "redmapper/galaxy.py"), ("GalaxyCatalogMaker.finalize_catalog/_generate_unique_ids", "redmapper/galaxy.py")],
     [("ngals", "per-pixel counter", "GalaxyCatalogMaker"), ("pixel files", "<base>_%07d.fit", "disk")],
     ["pixel files and master table on disk"])

prop("C02", "Concurrent galaxy ingest is equivalent to serial ingest",
     "When several workers ingest batches into the same catalogue in parallel mode, then under every interleaving of their file "
     "operations each accepted galaxy ends up exactly once in its pixel file, and finalisation by any number of workers produces one "
     "master table equal to the serial one with no lock files left behind. A worker that dies while holding a pixel's lock can "
     "make others wait or fail on that pixel but never makes them corrupt or overwrite it.",
     ["schedules", "crash_points"],
     "all interleavings of create/append/finalise steps of several workers on shared pixels, and a crash of a worker at any step",
     "No test runs the parallel mode from more than one process or crashes a worker; they run one schedule.",
     ["redmapper/galaxy.py", "redmapper/utilities.py"],
     [("per-pixel lock around exists/create/append", "redmapper/galaxy.py"), ("recount and guarded master table", "redmapper/galaxy.py")],
     [("lock files", "<file>.lock", "disk")], ["pixel files, lock files, master table on disk"])

prop("C03", "Bad galaxy input is rejected whole and a finalised catalogue is frozen",
     "A batch that lacks a required column, has a wrong column type or photometry width, or contains non-finite, out-of-range or duplicate values is rejected "
     "with an error and changes nothing on disk; good batches before and after it are unaffected. Once a catalogue is finalised no further "
     "batch is accepted, a new ingest onto existing files is refused, and the ids of the finished catalogue are unique over the whole catalogue or finalisation reports an error.",
     ["inputs", "histories"],
     "all batches with one or more defects in any column and row, at any position in any ingest history",
     "The tests try a handful of single defects on a fresh maker and do not look at what is on disk afterwards.",
     ["redmapper/galaxy.py"],
     [("GalaxyCatalogMaker._check_galaxies", "redmapper/galaxy.py"), ("is_finalized and existing-file guards", "redmapper/galaxy.py")],
     [], ["exceptions and files on disk"])

prop("C04", "Reading a sky region returns exactly that region's galaxies",
     "Reading a pixelised galaxy catalogue for a set of sky pixels and a border returns every galaxy inside the region exactly once and every galaxy within the "
     "border distance of it, nothing that lies well beyond the border, and no galaxy from outside when the border is zero; with no region it returns the whole catalogue. "
     "The memory-conserving read with magnitude and chi-squared cuts returns the same galaxies and values as the ordinary read followed by those cuts.",
     ["inputs", "configurations"],
     "all region pixels, resolutions (a region finer than the table is refused), borders, cuts and read modes",
     "Tests read one region at one border and compare a count.",
     ["redmapper/galaxy.py", "redmapper/utilities.py"],
     [("GalaxyCatalog.from_galfile", "redmapper/galaxy.py"), ("get_subpixel_indices", "redmapper/galaxy.py")],
     [], ["returned catalogue"])

prop("C05", "Photometric redshifts stay attached to their own galaxies",
     "For every way of splitting the work (chunk size, number of processes, subset and order of pixels) the redshift file has exactly one row per galaxy, in the galaxy "
     "file's order, whose values are those obtained by computing that galaxy alone; reading any region with redshifts attached pairs each galaxy with its own row.",
     ["inputs", "schedules", "configurations"],
     "all chunk sizes, process counts, pixel subsets and read regions",
     "Tests use one chunking and one pixel and compare a few values.",
     ["redmapper/zred_runner.py", "redmapper/zred_color.py", "redmapper/galaxy.py"],
     [("ZredRunCatalog.run/_worker", "redmapper/zred_runner.py"), ("ZredRunPixels", "redmapper/zred_runner.py"), ("zred row alignment in from_galfile", "redmapper/galaxy.py")],
     [], ["zred files; returned catalogue"])

prop("C06", "A lock file has at most one owner",
     "For any number of contenders and any interleaving, a lock is granted to at most one contender until it is released: a non-blocking request on a held lock is refused at once, and a "
     "blocking request is granted only after a release or is refused after the given number of tries. No request ever leaves temporary files behind or "
     "removes or alters a lock it does not own.",
     ["schedules", "crash_points"],
     "all interleavings of request, link, retry, release and crash of several contenders",
     "No test contends for a lock.",
     ["redmapper/utilities.py"],
     [("make_lockfile", "redmapper/utilities.py")],
     [], ["return values; directory listing"])

prop("C07", "Distributed redshift jobs publish the master table only when complete",
     "When redshift jobs for the pixels of a survey run in any order and concurrency, and any may crash and be rerun, the redshift master table appears only when every galaxy pixel has a "
     "complete redshift file and no job still holds a pixel lock, and it then names every file in the galaxy table's order with matching row counts. If all jobs "
     "complete the table exists; two jobs on the same pixel never run at once.",
     ["schedules", "crash_points"],
     "all interleavings of the jobs' lock, compute, write, unlock, check and publish steps and crashes at any of them (locks left by a crash are removed by the operator before the rerun)",
     "No test runs the task class.",
     ["redmapper/pipeline/zredtask.py", "redmapper/zred_runner.py"],
     [("RunZredPixelTask.run", "redmapper/pipeline/zredtask.py"), ("ZredRunPixels.make_zred_table", "redmapper/zred_runner.py")],
     [("pixel and table locks", "lock files", "disk")], ["files on disk"])

prop("C08", "A galaxy's membership probability is allocated consistently",
     "While clusters are processed in rank order with percolation masking, the probability available to a cluster from each galaxy is one minus the membership "
     "probability already taken by the clusters processed before it within their masking radius and luminosity limit, never below zero, and one for untouched galaxies. Rejected clusters and galaxies outside "
     "those limits take nothing, and without percolation masking every galaxy is fully available.",
     ["inputs", "histories"],
     "all cluster lists, overlaps, membership probabilities and rejection patterns",
     "The cluster tests cannot run without an absent data file, and assert a few richness values of a fixed catalogue.",
     ["redmapper/cluster_runner.py", "redmapper/run_percolation.py", "redmapper/runcat.py"],
     [("ClusterRunner.run: pfree/pgal bookkeeping", "redmapper/cluster_runner.py")],
     [("pgal", "probability already taken per galaxy", "ClusterRunner")], ["neighbours' available probability at processing; members' recorded values"])

prop("C09", "Percolation ranks candidates, rejects claimed centres and cuts faint ones",
     "Percolation considers exactly the input candidates inside the redshift range with finite likelihood, sufficient richness and a bright enough centre, in order of decreasing likelihood (or of increasing id "
     "when input ids are kept), and numbers them in that order. A candidate whose central galaxy retains less than the configured available probability, or whose "
     "richness falls below the minimum, does not appear in the output, and output rows keep the processing order.",
     ["inputs", "histories", "configurations"],
     "all candidate catalogues (any order, ties, out-of-range, non-finite) and thresholds",
     "Tests that reach this code fail in this environment and use a single fixed candidate list.",
     ["redmapper/run_percolation.py", "redmapper/cluster_runner.py"],
     [("RunPercolation._more_setup", "redmapper/run_percolation.py"), ("RunPercolation._process_cluster", "redmapper/run_percolation.py"), ("ClusterRunner._postprocess", "redmapper/cluster_runner.py")],
     [], ["output catalogue"])

prop("C10", "Member lists and cluster lists agree",
     "In every catalogue a cluster run outputs, cluster ids are unique, every member row carries the id of a cluster in the same output, a galaxy appears at most once per cluster, and the recorded members of a cluster are exactly its "
     "neighbours passing the recording cut plus its centring candidates, with the galaxy's own identity and photometry. Kept input ids are preserved, and non-unique input ids are refused.",
     ["inputs", "histories"],
     "all input catalogues, id patterns and rejection patterns",
     "Existing tests compare a total count on one catalogue.",
     ["redmapper/cluster_runner.py", "redmapper/runcat.py", "redmapper/run_percolation.py"],
     [("member recording in ClusterRunner.run", "redmapper/cluster_runner.py"), ("_postprocess, _generate_mem_match_ids", "redmapper/cluster_runner.py")],
     [], ["catalogue and member catalogue"])

prop("C11", "The local run's pixel split covers the survey exactly once",
     "For every galaxy table, configured region, process count and minimum resolution, the sub-pixels chosen for a local run are distinct, do not overlap, lie inside the configured region, "
     "and together contain every galaxy pixel of the region; each contains at least one galaxy pixel, and the resolution is the finest tried one that keeps the number of jobs within twice the process count.",
     ["inputs", "configurations"],
     "all galaxy tables, regions and process counts; region and minimum resolution not finer than the table",
     "One test checks one table and one process count.",
     ["redmapper/redmapper_run.py"],
     [("RedmapperRun._get_pixel_splits/_get_subpixels", "redmapper/redmapper_run.py")], [], ["pixels dispatched to workers"])

prop("C12", "A local run gives the same answer for any schedule or restart",
     "A local run executes first pass, likelihood and percolation for each pixel in that order, each on the file the previous stage wrote, and never touches another pixel's files. Interrupting it after "
     "any completed output and rerunning yields the same final catalogue without recomputing finished stages, while disabling the existence check recomputes everything; pixels that yield nothing are dropped without affecting others.",
     ["schedules", "crash_points", "histories"],
     "all orders of pixel completion, process counts, interruption points and empty pixels",
     "The only run test uses one schedule, never restarts, and fails in this environment.",
     ["redmapper/redmapper_run.py", "redmapper/cluster_runner.py"],
     [("RedmapperRun.run/_worker/_percolation_only_worker", "redmapper/redmapper_run.py"), ("ClusterRunner.output", "redmapper/cluster_runner.py")],
     [], ["stage calls and files"])

prop("C13", "Local consolidation keeps each good cluster exactly once, ranked",
     "Consolidating the per-pixel catalogues of a local run keeps exactly the clusters that lie in the pixel of the file they came from, are masked below the limit and exceed the minimum unscaled richness, once each with values unchanged; "
     "they are sorted by decreasing likelihood with ids 1 to N, and the member file contains exactly the kept clusters' members under the new ids.",
     ["inputs", "histories"],
     "all sets of per-pixel catalogues, including pixels with no survivors (at least one overall), equal ids in different pixels and clusters outside their pixel",
     "One count on one run, in a test that cannot run here.",
     ["redmapper/redmapper_run.py"],
     [("RedmapperRun._consolidate", "redmapper/redmapper_run.py")], [], ["consolidated files"])

prop("C14", "Distributed consolidation applies every cut and keeps ids consistent",
     "For every richness cut and volume limit, the consolidated catalogue contains exactly the clusters of the per-pixel final catalogues that lie in their own pixel, pass the mask-fraction and minimum-richness cuts, "
     "exceed the richness cut and lie within the volume limit, once each, with exactly their members and, when spectra are matched, the redshift of the nearest good spectrum within the radius. A cluster has the same id in every consolidated file, and ids are the ranks by decreasing likelihood over all good clusters.",
     ["inputs", "configurations"],
     "all sets of pixel catalogues, lists of cuts and volume limits, including cuts nothing passes and pixels without survivors",
     "The one consolidation test has three pixels in which every cluster passes every cut.",
     ["redmapper/pipeline/redmapperconsolidatetask.py", "redmapper/catalog.py", "redmapper/volumelimit.py"],
     [("RedmapperConsolidateTask.run", "redmapper/pipeline/redmapperconsolidatetask.py"), ("DataObject.to_fits_file", "redmapper/catalog.py"), ("read_members", "redmapper/utilities.py")],
     [], ["consolidated files"])

prop("C15", "A production pixel job runs its stages once and restarts cleanly",
     "A pixel job runs first pass, likelihood and percolation in order, each reading the previous stage's output of the same pixel, with all files named by resolution and pixel number in the job's output path. After a crash "
     "between any two file writes or in any computation a rerun skips exactly the stages whose output exists and completes the rest, giving the same files as an uninterrupted run; a stage that finds nothing ends the job without error and without running the stages after it; the catalogue-measurement, redshift-scan and random-mask jobs likewise skip when their output exists.",
     ["crash_points", "histories", "configurations"],
     "all crash points between file writes, and all subsets of existing outputs, for all four job types",
     "No test runs a pixel task.",
     ["redmapper/pipeline/redmappertask.py", "redmapper/cluster_runner.py"],
     [("RunRedmapperPixelTask, RuncatPixelTask, RunZmaskPixelTask, RunZScanPixelTask", "redmapper/pipeline/redmappertask.py")], [], ["stage calls, files"])

prop("C16", "An interrupted calibration resumes where it stopped",
     "Calibration performs its preparation steps, the configured number of iterations and the final iteration, every step reading only complete files produced by earlier steps of the same or previous iteration. Stopped in "
     "any step or between any two file writes and restarted, it skips exactly the steps whose outputs exist, runs each remaining step once, feeds every step the same inputs and settings as an uninterrupted calibration, and writes a run configuration that names the last iteration's products.",
     ["crash_points", "histories", "configurations"],
     "all interruption points, iteration counts, calibration regions and centring settings (pixelised galaxy inputs)",
     "The calibration driver has no test.",
     ["redmapper/calibration/calibrate.py"],
     [("RedmapperCalibrator.run and the iteration classes", "redmapper/calibration/calibrate.py")], [], ["order, inputs and settings of steps"])

prop("C17", "Configuration rejects bad settings and keeps runs separate",
     "A configuration accepts exactly the known keys with the required ones present and mutually consistent, and otherwise refuses to load; every accepted value is observable and survives being written out and read back. "
     "Changing the per-job settings (output base, pixels, resolution) of a copy never changes the original, and distinct output bases, file types, versions and path components give distinct output file names in the output path.",
     ["inputs", "configurations", "histories"],
     "all subsets of keys and values, and all sequences of load, modify, copy, write and reload",
     "The tests load three configurations and probe a handful of bad values.",
     ["redmapper/configuration.py"],
     [("Configuration, ConfigField, DuplicatableConfig", "redmapper/configuration.py")], [], ["exceptions, attribute values, filenames"])

prop("C18", "Batch submission covers every pixel and nothing else",
     "The batch generator writes job commands that together cover exactly the distinct run pixels that contain galaxies of the survey (within the configured region), each exactly once per submission, with the matching run mode, resolution, configuration and path, "
     "for any number of jobs per node or walltime setting.",
     ["inputs", "configurations"],
     "all galaxy tables, run modes, run resolutions not finer than the table, and the LSF and parsl (local and SLURM) batch modes",
     "The batch script has no test.",
     ["bin/redmapper_batch.py", "bin/redmapper_run_many_pixels_same_node.py"],
     [("create_batchconfig, pixel list and job writers", "bin/redmapper_batch.py")], [], ["generated job file"])

prop("C19", "Footprint and depth maps give the same answer in any read mode",
     "The footprint mask, depth and maximum redshift at any position do not depend on whether the map was read whole or only for the sky region (with border) containing the position; positions outside the footprint, or past a pole, are masked out, a partly "
     "covered pixel is in the footprint with its fraction, and the areas above a depth or maximum redshift sum the coverage of exactly the pixels above it. Mask galaxies around a cluster get the depth of their own position (the typical depth where there is none). "
     "Converting old-format maps to the sparse format preserves every pixel value and the survey parameters (zero point, significance, mode), and a volume limit made from the footprint alone has exactly its pixels and fractions, with the configured maximum redshift.",
     ["inputs", "configurations"],
     "all positions, regions, borders, map formats and coverage resolutions",
     "Tests read one map with and without one sub-region at a handful of positions.",
     ["redmapper/mask.py", "redmapper/depthmap.py", "redmapper/volumelimit.py", "redmapper/utilities.py"],
     [("HPMask, DepthMap subregion reads", "redmapper/mask.py"), ("get_healsparse_subpix_indices", "redmapper/utilities.py")], [], ["mask and depth values"])

prop("C20", "Randoms honour the footprint and the volume limit",
     "Every generated random lies inside the footprint at a redshift no larger than the maximum allowed at its position, the requested number is produced with unique sequential ids, and richness and redshift come from the same input cluster. The density of randoms follows the coverage of the map. A volume limit built from "
     "depth maps gives each map pixel the largest redshift at which the faintest required galaxy is still detected in every requested band. Weighting keeps exactly the randoms that survive the redshift, richness and mask cuts of a request, unchanged, weighted by the draws of "
     "their source cluster per surviving draw, with an effective area that follows the surviving fraction; results of different requests do not replace each other, and repeating one gives the present answer.",
     ["inputs", "configurations"],
     "all input catalogues, volume limits, seeds and numbers of randoms",
     "One test draws one sample and compares counts, and fails in this environment.",
     ["redmapper/randoms.py", "redmapper/volumelimit.py"],
     [("GenerateRandoms, RandomWeigher", "redmapper/randoms.py"), ("VolumeLimitMask", "redmapper/volumelimit.py")], [], ["random and weight files"])

prop("C21", "redMaGiC selection honours its luminosity, chi-squared and volume cuts",
     "Selecting galaxies for a redMaGiC mode returns exactly the input galaxies whose redshift, luminosity and chi-squared satisfy that mode's calibrated cuts at their own redshift and lie within its volume limit and footprint, each once and in input order, "
     "with the redshift, its error and samples corrected as calibrated, the luminosity at the corrected redshift and the nearest well measured spectrum. A run over all pixels writes for each requested mode the selection of the whole catalogue, refuses to overwrite unless asked, "
     "and makes the requested number of randoms, inside the footprint and volume limit, spread as the sky is covered, with redshifts of selected galaxies and unit weight.",
     ["inputs", "configurations"],
     "all galaxy catalogues, calibrations, sets of modes and pixel splits",
     "Tests compare a count for one region and one mode.",
     ["redmapper/redmagic/redmagic_selector.py", "redmapper/redmagic/redmagictask.py"],
     [("RedmagicSelector.select_redmagic_galaxies", "redmapper/redmagic/redmagic_selector.py"), ("RunRedmagicTask", "redmapper/redmagic/redmagictask.py")], [], ["selected catalogue"])

prop("C22", "Catalogue containers never mix up rows or columns",
     "Any sequence of build, merge, append, extend, slice, element access, field assignment, field addition, write and read on a catalogue behaves like the same operations on a list of records with case-insensitive field names; merging different lengths or "
     "duplicate names is refused, and writing selected rows writes exactly those rows.",
     ["inputs", "histories"],
     "all operation sequences on catalogues of any size including zero and one",
     "The container is only exercised incidentally.",
     ["redmapper/catalog.py"],
     [("DataObject, Entry, Catalog", "redmapper/catalog.py")], [], ["record values"])

prop("C23", "Richness, radius and membership probabilities are mutually consistent",
     "A successful richness measurement returns probabilities between zero and one whose odds are in the ratio of signal to background, effective memberships equal to probability times availability times completeness times radial weight (one well inside, zero well outside the cluster radius), "
     "a richness that these, corrected for the masked fraction at the cluster radius, add up to and that is their sum times the reported scale factor, and a radius following the configured richness-radius relation. Galaxies that were not given, are unavailable or fainter than the limit do not count. "
     "A failed measurement reports negative richness and no members. The result does not depend on neighbour order, on galaxies that cannot count, or on an earlier measurement of the same cluster.",
     ["inputs"],
     "all neighbour sets, filters, weights and radius relations",
     "Tests compare the numbers of one stored example.",
     ["redmapper/cluster.py", "redmapper/solver_nfw/solver_nfw.c"],
     [("Solver", "redmapper/solver_nfw/solver_nfw.c"), ("Cluster.calc_richness", "redmapper/cluster.py")], [], ["solver outputs, neighbour fields"])

prop("C24", "Centring candidates are valid, ranked and their probabilities add up",
     "Whatever centring method is configured, the reported candidates are distinct galaxies among the eligible neighbours (available, within the cluster radius, at the cluster's redshift or likely members; a random position for the random method), at most the configured number, the centre is the first "
     "of them, their probabilities lie between zero and one in non-increasing order and sum to one (or, for those that allow that none is the centre, to one minus that chance), a candidate's own probability is in proportion to its availability, and entries beyond the number of candidates are empty. The brightest-galaxy method takes the brightest eligible galaxy. When no galaxy is eligible or credible, that is reported (with the nearest eligible galaxy, if any, in the centre's place) and nothing fails. "
     "Centring does not depend on the order of the neighbours and leaves them unchanged.",
     ["inputs", "configurations"],
     "all neighbour configurations, probabilities and centring methods",
     "Tests check one stored cluster per method.",
     ["redmapper/centering.py"],
     [("CenteringBCG, CenteringWcenZred, CenteringRandom, CenteringRandomSatellite", "redmapper/centering.py")], [], ["centring outputs"])

prop("C25", "Measuring an input catalogue preserves its clusters",
     "Measuring richness for an input catalogue returns every input cluster exactly once, in input order, with its position and its identifier (or sequential identifiers when none are given); a cluster that cannot be measured is flagged with -1 and has no members. Scanning redshift "
     "returns exactly the detected clusters in the same way, with the redshift of maximum likelihood among the steps. With percolation masking off a cluster gets the same richness, redshift, members and centres whichever other clusters are in the list, and in a single-pixel job as in a job on the "
     "whole survey; with masking on it does not depend on the clusters after it.",
     ["inputs", "histories"],
     "all input catalogues, orders and subsets",
     "One fixed catalogue is compared to stored numbers, in a test that fails here.",
     ["redmapper/runcat.py", "redmapper/run_zscan.py", "redmapper/cluster_runner.py", "redmapper/cluster.py"],
     [("RunCatalog, RunZScan", "redmapper/runcat.py"), ("ClusterCatalog.from_catfile", "redmapper/cluster.py")], [], ["output catalogue"])

prop("C26", "Consolidating measurement jobs keeps each cluster once with its members",
     "Consolidating the per-pixel outputs of distributed catalogue-measurement, redshift-scan or random-mask jobs yields exactly the rows that lie in the pixel of the file they came from, once each with values and ids unchanged, and, when members are wanted, exactly the "
     "members of those clusters. A matched spectroscopic redshift is that of the nearest well measured spectrum within the matching radius, or the no-match value.",
     ["inputs", "histories"],
     "all sets of per-pixel files, including clusters outside their pixel, recurring ids, any resolution and any pixel number",
     "The task has no test.",
     ["redmapper/pipeline/redmapperconsolidatetask.py", "redmapper/utilities.py"],
     [("RuncatConsolidateTask.run", "redmapper/pipeline/redmapperconsolidatetask.py")], [], ["consolidated files"])

prop("C27", "The search passes consider every eligible candidate once and score it right",
     "The first pass considers exactly the eligible seeds (galaxies with redshift in range, chi-squared below and luminosity above the limits, in the background's magnitude range; or the given seeds that qualify), each once and with its own photometry, iterates each from the redshift found before "
     "(or the given one when kept) with the configured radius relation, and keeps exactly those that stay rich enough and in the redshift range, with the richness and redshift found last. The likelihood pass considers exactly the eligible candidates, keeps exactly those rich enough with at least three members besides the centre, "
     "unchanged in position, identifier and redshift; the member likelihood is minus the unscaled richness minus the sum of the logarithms of the members' complements, the centre likelihood that of its brightness, redshift (or colour) and surroundings under the calibration or 0 without one, and the total, which percolation ranks by, is their sum.",
     ["inputs", "configurations"],
     "all galaxies, seeds, candidates, redshift ranges, limits and iteration outcomes",
     "Only the percolated end result of one small region is compared, in a test that fails here.",
     ["redmapper/run_firstpass.py", "redmapper/run_likelihoods.py", "redmapper/cluster_runner.py", "redmapper/galaxy.py"],
     [("RunFirstPass", "redmapper/run_firstpass.py"), ("RunLikelihoods", "redmapper/run_likelihoods.py"), ("ClusterRunner.run", "redmapper/cluster_runner.py")], [], ["catalogues of the passes"])

prop("C28", "The galaxy background counts every galaxy once, and look-ups return it",
     "A background table counts, for every redshift, each galaxy of the survey (or of its configured region) exactly once: spread over the two nearest cells in magnitude and in chi-squared (or its logarithm, or zred), only galaxies brighter than the cell of the magnitude limit at that redshift, divided by the area at that magnitude and the size of a cell. "
     "The number of processes, the portions in which galaxies are read, the division of the survey into pixels (some of them empty) and whether it is pixelised at all make no difference. A run without overwriting keeps every background already in the file and adds a missing one next to it. "
     "Looking up returns the table at its nodes and the linear mean between them, infinity outside the table in magnitude or chi-squared, and infinity for an empty background unless zero is asked for.",
     ["inputs", "schedules", "histories", "configurations"],
     "all surveys, regions, cell sizes, numbers of processes and histories of runs; ranges that are whole multiples of the cell sizes",
     "Four cells of one table and a few look-ups are compared, for one survey read by one process.",
     ["redmapper/background.py", "redmapper/utilities.py"],
     [("BackgroundGenerator", "redmapper/background.py"), ("ZredBackgroundGenerator", "redmapper/background.py"), ("Background.sigma_g_lookup", "redmapper/background.py"), ("cic", "redmapper/utilities.py")], [], ["CHISQBKG and ZREDBKG tables, look-ups"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
print(len(P))
