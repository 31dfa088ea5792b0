"""One function per property: the design models to check exhaustively and the conformance runs."""


def C14(c):
    """Exhaustive design model of collecting and renumbering; recorded consolidations of generated pixel catalogues by the real task are judged row by row. Trusts fitsio/healpix readers and the generator."""
    c.model('ConsolidateMC')
    c.traces('ConsolidateTrace', 'consolidate')


def C11(c):
    """Exhaustive model over small sky trees; recorded splits of the real code judged for exact cover at the required resolution."""
    c.model('LocalSplitMC')
    c.traces('LocalSplitTrace', 'localrun', ['split'])


def C12(c):
    """Exhaustive model of stages, restarts and crashes; real RedmapperRun with the three stage computations replaced by recorders, crashed between and inside outputs and rerun."""
    c.model('LocalRunMC')
    c.traces('LocalRunTrace', 'localrun', ['run'])


def C13(c):
    """Exhaustive model; real RedmapperRun consolidation of generated per-pixel catalogues judged row by row."""
    c.model('LocalConsolMC')
    c.traces('LocalConsolTrace', 'localrun', ['consol'])


def C01(c):
    """Exhaustive small model; generated batch histories through the real maker, files read back without the package."""
    c.model('IngestMC')
    c.traces('IngestTrace', 'ingest', ['conserve'])


def C03(c):
    """Exhaustive small model; histories with each kind of bad batch, frozen-catalogue attempts and re-ingests."""
    c.model('IngestMC')
    c.traces('IngestTrace', 'ingest', ['reject'])


def C06(c):
    """Exhaustive model of the link protocol with crashes; real processes scheduled at every file operation, all interleavings of two contenders (bounded), random ones of up to four."""
    c.model('LockMC')
    c.traces('LockTrace', 'lock')


def C02(c):
    """Exhaustive model of the lock/look/create/append/publish protocol with crashes (three workers, two pixels); real worker processes scheduled
    at every file operation, with kills; files and tables judged at the end. A kill inside one library write is not explored."""
    c.model('IngestParMC')
    c.traces('IngestParTrace', 'ingestpar')


def C04(c):
    """Exhaustive model of select-files/trim/cut on a small circular sky; reads of generated catalogues (all resolutions, borders, cuts, read modes) by the
    real code judged galaxy by galaxy. The border is judged with 0.003 deg tolerance inside and 0.5 deg outside."""
    c.model('RegionReadMC')
    c.traces('RegionReadTrace', 'regionread', ['region'])


def C05(c):
    """The same model with redshift files; the redshift runners with many splits compared row by row with each galaxy computed alone (float tolerance 1e-4;
    the random redshift samples are not compared), and reads that attach redshifts."""
    c.model('RegionReadMC')
    c.traces('RegionReadTrace', 'regionread', ['zred'])


def C07(c):
    """Exhaustive model of the job protocol (three jobs, crashes, operator, reruns; safety and termination); real job processes scheduled at every
    file operation with kills and torn files, redshift computation replaced by a marker. Lock clause judged when no complete pixel is being redone."""
    c.model('ZredJobsMC')
    c.traces('ZredJobsTrace', 'zredjobs')


def C21(c):
    """Exhaustive model of a run over two pixels and two modes, stopped anywhere and repeated; real selections of generated galaxies under generated calibrations (curves re-evaluated with scipy),
    real tasks over pixelised catalogues (repeated without and with permission to overwrite), and their randoms."""
    c.model('RedmagicMC')
    c.traces('RedmagicTrace', 'redmagic')


def C22(c):
    """Exhaustive model of histories of four operations on two catalogues and a file; generated histories on the real containers (plain, galaxy, cluster,
    one-row) compared with the list-of-records model after every operation. Views created by slicing are not mutated."""
    c.model('ContainerMC')
    c.traces('ContainerTrace', 'container')


def C15(c):
    """Exhaustive model of stages, member and catalogue writes, crashes and reruns of three jobs; real pixel task classes, each job a process of its own that is
    killed between file writes or in a computation and rerun. A crash inside one library write (torn file) is not explored."""
    c.model('PixelJobMC')
    c.traces('PixelJobTrace', 'pixeljob')


def C26(c):
    """Exhaustive model of which of several jobs' copies of a cluster is kept; real consolidations of generated measurement, scan and random files, with
    clusters outside their pixel, recurring ids, spectra within and beyond the matching radius and unrelated files in the directory. Plots are not made."""
    c.model('RuncatConsolMC')
    c.traces('RuncatConsolTrace', 'runcatconsol')


def C16(c):
    """Exhaustive model of the plan of steps with every stopping point (up to two iterations, two stops); the real driver with every step replaced by a recorder,
    stopped at every step begin and before/after every write of a two-iteration calibration, and at random points of others, then rerun."""
    c.model('CalibMC')
    c.traces('CalibTrace', 'calib')


def C08(c):
    """Exhaustive model of allocation in rank order (three candidates, three galaxies); real percolation and measurement runs over generated galaxies and candidates with
    scripted probabilities (exact sums), the availability seen at every measurement compared with the ledger. The numerical kernels are not part of this check (C23)."""
    c.model('PercolateMC')
    c.traces('PercolateTrace', 'perc', ['C08'])


def C09(c):
    """The same model and runs; selection, order, numbering, each rejection (with its reason) and the output rows are judged."""
    c.model('PercolateMC')
    c.traces('PercolateTrace', 'perc', ['C09'])


def C10(c):
    """The same model and runs; ids, member rows, recorded values and centres are judged row by row. Galaxies within rounding of a radius cut are not judged."""
    c.model('PercolateMC')
    c.traces('PercolateTrace', 'perc', ['C10'])


def C25(c):
    """Exhaustive model of measuring a list with and without masking; real measurement and scan runs (real kernels, test survey) on generated lists of clusters compared
    with each cluster alone, in whole-survey and single-pixel jobs. One fixed sample of mask galaxies; float tolerance 3e-4 (pixel jobs 6e-3 and 0.2 per cent)."""
    c.model('MeasureMC')
    c.traces('MeasureTrace', 'measure')


def C24(c):
    """Exhaustive model of ranking up to four candidates; the real centring classes on generated neighbours whose attributes are integers, so that eligibility is judged
    exactly. The likelihoods themselves are not recomputed (order, range, sums, eligibility and independence of the neighbours' order are judged)."""
    c.model('CentreMC')
    c.traces('CentreTrace', 'centre')


def C23(c):
    """Exhaustive model of halving a bracket for every function on a small range; the real solver on generated inputs and the real richness of clusters of the test survey
    with scripted masks and availability, judged by integer relations between what is reported (solver tolerance 0.01 in richness)."""
    c.model('RichnessMC')
    c.traces('RichnessTrace', 'richness')


def C18(c):
    """Exhaustive model of submissions, removals of job files and coverage of the pixels; the real batch script on generated surveys and histories of submissions (LSF, parsl
    local/slurm, container images), its job files executed with stand-ins and every command given to the real job script. Run resolutions not finer than the table."""
    c.model('BatchMC')
    c.traces('BatchTrace', 'batch')


def C17(c):
    """Exhaustive model of histories of five operations on three configuration objects; the committed interface of the configuration (197 keys) decides which generated files are
    acceptable and every value in force, and the real class is run through histories of load, copy, job setting, change, write, reload. Lists given for scalar keys are not judged."""
    c.model('ConfigMC')
    c.traces('ConfigTrace', 'config')


def C19(c):
    """Exhaustive model of reading a divided map for every region, border and division of a small sky; real footprint, depth and volume-limit maps (converted from generated
    old-format files) read whole and for regions and asked at positions inside, at the border, beyond and past the poles. Depth areas within two pixels."""
    c.model('MapsMC')
    c.traces('MapsTrace', 'maps')


def C20(c):
    """Exhaustive model of placing (batches of up to three positions) and of weighting three draws; real randoms generated on scripted volume-limit maps, read back and split,
    real weighting of scripted draws under histories of requests, and real volume-limit maps built from generated depth maps (bracketed to one redshift step)."""
    c.model('RandomsMC')
    c.traces('RandomsTrace', 'randoms')


def C27(c):
    """Exhaustive model of both passes over all lists of up to three candidates with every combination of eligibility and iteration outcomes; real first-pass (galaxies, seeds, spectroscopic
    seeds) and likelihood runs over generated galaxies with richness, members and redshift of every iteration scripted. Candidates whose fate depends on whether the richness limit refers to the scaled or unscaled richness are not judged."""
    c.model('PassesMC')
    c.traces('PassesTrace', 'passes')


def C28(c):
    """Exhaustive model of dividing redshifts between processes and galaxies into portions and of histories of runs on one file; real background generators on generated surveys (magnitudes
    and scripted chisq at quarters of a cell, so that every cell is judged exactly) and real look-ups in tables of whole numbers. Ranges that are whole multiples of the cells; edges within rounding are not judged."""
    c.model('BkgMC')
    c.traces('BkgTrace', 'bkg')
