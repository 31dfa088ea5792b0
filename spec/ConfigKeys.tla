----------------------------- MODULE ConfigKeys -----------------------------
(* The keys of a configuration file: which there are, which are arrays or lists, which are required, and their defaults in canonical form. *)
Arrays == {"hpix", "b", "zrange", "calib_color_nodesizes", "calib_slope_nodesizes", "calib_color_maxnodes", "calib_covmat_maxnodes", "calib_colormem_zbounds", "calib_colormem_colormodes", "calib_colormem_sigint", "bkg_local_annuli", "wcen_cal_zrange", "vlim_nsigs", "consolidate_lambda_cuts", "redmagic_zrange", "redmagic_n0s", "redmagic_etas", "redmagic_zmaxes", "redmagic_constchis"}
Lists == {"vlim_depthfiles", "vlim_bands", "consolidate_vlim_lstars", "redmagic_names"}
Required == {"version", "galfile", "outbase", "calib_nproc", "calib_run_nproc", "calib_run_min_nside", "outpath", "plotpath", "logpath", "border", "hpix", "nside", "galfile_pixelized", "use_tempfiles_to_conserve_memory", "printlogging", "nmag", "area", "limmag_catalog", "limmag_ref", "refmag", "ref_ind", "zeropoint", "survey_mode", "galfile_nside", "bands", "area_finebin", "area_coarsebin", "area_nodesize", "zrange", "lval_reference", "maskgalfile", "mask_mode", "max_maskfrac", "covmask_nside_default", "maskgal_ngals", "maskgal_nsamples", "maskgal_rad_stepsize", "maskgal_dmag_extra", "maskgal_zred_err", "dldr_gamma", "rsig", "chisq_max", "npzbins", "zred_nsamp", "calib_spec_max_zerr", "calib_lumfunc_alpha", "zlambda_pivot", "zlambda_binsize", "zlambda_maxiter", "zlambda_tol", "zlambda_topfrac", "zlambda_epsilon", "zlambda_parab_step", "centerclass", "wcen_rsoft", "wcen_zred_chisq_max", "wcen_minlambda", "wcen_maxlambda", "wcen_pivot", "wcen_uselum", "firstpass_r0", "firstpass_beta", "firstpass_niter", "firstpass_minlambda", "firstpass_centerclass", "likelihoods_r0", "likelihoods_beta", "likelihoods_use_zred", "likelihoods_minlambda", "percolation_r0", "percolation_beta", "percolation_rmask_0", "percolation_rmask_beta", "percolation_rmask_gamma", "percolation_rmask_zpivot", "percolation_niter", "percolation_minlambda", "percolation_pbcg_cut", "percolation_maxcen", "zscan_r0", "zscan_beta", "zscan_zstep", "zscan_minlambda", "select_scaleval", "redmagic_calib_nodesize", "redmagic_calib_corr_nodesize", "redmagic_calib_buffer", "redmagic_calib_zbinsize", "redmagic_calib_chisqcut", "redmagic_calib_fractrain", "redmagic_calib_redshift_buffer", "redmagic_maxlum", "redmagic_mock_truthspec", "redmagic_run_afterburner", "redmagic_apply_afterburner_zsamp", "redmagic_n0s", "redmagic_etas", "redmagic_names", "redmagic_zmaxes", "redmagic_constchis", "redmagic_use_constchi"}
Defaults == [version |-> "package",
  galfile |-> "null",
  zredfile |-> "null",
  halofile |-> "null",
  randfile |-> "null",
  catfile |-> "null",
  specfile |-> "null",
  specfile_train |-> "null",
  outbase |-> "null",
  parfile |-> "null",
  bkgfile |-> "null",
  bkgfile_color |-> "null",
  zlambdafile |-> "null",
  maskfile |-> "null",
  depthfile |-> "null",
  wcenfile |-> "null",
  redgalfile |-> "null",
  redgalmodelfile |-> "null",
  seedfile |-> "null",
  zmemfile |-> "null",
  redmagicfile |-> "null",
  calib_nproc |-> "1",
  calib_run_nproc |-> "1",
  calib_run_min_nside |-> "1",
  runcat_percolation_masking |-> "1",
  outpath |-> "s:./",
  plotpath |-> "s:",
  logpath |-> "s:logs",
  border |-> "0",
  hpix |-> "[]",
  nside |-> "0",
  galfile_pixelized |-> "null",
  use_tempfiles_to_conserve_memory |-> "1",
  printlogging |-> "1",
  nmag |-> "null",
  area |-> "null",
  limmag_catalog |-> "null",
  limmag_ref |-> "null",
  refmag |-> "null",
  ref_ind |-> "null",
  zeropoint |-> "null",
  survey_mode |-> "null",
  b |-> "null",
  galfile_nside |-> "null",
  bands |-> "null",
  has_truth |-> "0",
  galfile_has_truth |-> "0",
  galfile_has_zspec |-> "0",
  area_finebin |-> "0.001",
  area_coarsebin |-> "0.005",
  area_nodesize |-> "0.05",
  zrange |-> "null",
  lval_reference |-> "0.2",
  maskgalfile |-> "s:maskgals.fit",
  mask_mode |-> "0",
  max_maskfrac |-> "0.2",
  covmask_nside_default |-> "32",
  maskgal_ngals |-> "6000",
  maskgal_nsamples |-> "100",
  maskgal_rad_stepsize |-> "0.1",
  maskgal_dmag_extra |-> "0.3",
  maskgal_zred_err |-> "0.02",
  dldr_gamma |-> "0.6",
  rsig |-> "0.05",
  chisq_max |-> "20",
  npzbins |-> "21",
  zred_nsamp |-> "4",
  mstar_survey |-> "s:sdss",
  mstar_band |-> "s:i03",
  calib_niter |-> "3",
  calib_zrange_cushion |-> "0.05",
  calib_use_pcol |-> "1",
  calib_smooth |-> "0.003",
  calib_minlambda |-> "5",
  calib_redgal_template |-> "null",
  calib_pivotmag_nodesize |-> "0.1",
  calib_color_nodesizes |-> "[0.05]",
  calib_slope_nodesizes |-> "[0.1]",
  calib_color_maxnodes |-> "[-1]",
  calib_covmat_maxnodes |-> "[-1]",
  calib_covmat_nodesize |-> "0.15",
  calib_covmat_constant |-> "0.9",
  calib_corr_nodesize |-> "0.05",
  calib_corr_slope_nodesize |-> "0.1",
  calib_corr_nocorrslope |-> "1",
  calib_corr_pcut |-> "0.9",
  calib_fit_err_ratio |-> "0",
  calib_err_ratio_pivot |-> "20",
  calib_spec_max_zerr |-> "0.001",
  calib_color_nsig |-> "1.5",
  calib_redspec_nsig |-> "2",
  calib_colormem_r0 |-> "0.5",
  calib_colormem_beta |-> "0",
  calib_colormem_smooth |-> "0.003",
  calib_colormem_minlambda |-> "10",
  calib_colormem_zbounds |-> "[0.4]",
  calib_colormem_colormodes |-> "[1,2]",
  calib_colormem_sigint |-> "[0.05,0.03]",
  calib_pcut |-> "0.3",
  calib_color_pcut |-> "0.7",
  calib_zlambda_nodesize |-> "0.04",
  calib_zlambda_slope_nodesize |-> "0.1",
  calib_zlambda_minlambda |-> "20",
  calib_zlambda_clean_nsig |-> "5",
  calib_zlambda_correct_niter |-> "3",
  calib_lumfunc_alpha |-> "-1",
  zredc_binsize_fine |-> "0.0001",
  zredc_binsize_coarse |-> "0.005",
  bkg_chisqbinsize |-> "0.5",
  bkg_refmagbinsize |-> "0.2",
  bkg_zbinsize |-> "0.02",
  bkg_zredbinsize |-> "0.01",
  bkg_deepmode |-> "0",
  calib_make_full_bkg |-> "1",
  bkg_local_annuli |-> "[2,3]",
  bkg_local_compute |-> "0",
  bkg_local_use |-> "0",
  zlambda_pivot |-> "30",
  zlambda_binsize |-> "0.002",
  zlambda_maxiter |-> "20",
  zlambda_tol |-> "0.0002",
  zlambda_topfrac |-> "0.7",
  zlambda_epsilon |-> "0.005",
  zlambda_parab_step |-> "0.001",
  centerclass |-> "s:CenteringBCG",
  centering_use_zspec |-> "0",
  wcen_rsoft |-> "0.05",
  wcen_zred_chisq_max |-> "100",
  wcen_minlambda |-> "10",
  wcen_maxlambda |-> "100",
  wcen_cal_zrange |-> "[0,1]",
  wcen_pivot |-> "30",
  wcen_uselum |-> "1",
  wcen_Delta0 |-> "0",
  wcen_Delta1 |-> "0",
  wcen_sigma_m |-> "0",
  lnw_cen_sigma |-> "-9999",
  lnw_cen_mean |-> "-9999",
  lnw_sat_sigma |-> "-9999",
  lnw_sat_mean |-> "-9999",
  lnw_fg_sigma |-> "-9999",
  lnw_fg_mean |-> "-9999",
  phi1_mmstar_m |-> "-9999",
  phi1_mmstar_slope |-> "-9999",
  phi1_msig_m |-> "-9999",
  phi1_msig_slope |-> "-9999",
  firstpass_r0 |-> "0.5",
  firstpass_beta |-> "0",
  firstpass_niter |-> "2",
  firstpass_minlambda |-> "3",
  firstpass_centerclass |-> "s:CenteringBCG",
  likelihoods_r0 |-> "1",
  likelihoods_beta |-> "0.2",
  likelihoods_use_zred |-> "1",
  likelihoods_minlambda |-> "3",
  percolation_r0 |-> "1",
  percolation_beta |-> "0.2",
  percolation_rmask_0 |-> "1.5",
  percolation_rmask_beta |-> "0.2",
  percolation_rmask_gamma |-> "0",
  percolation_rmask_zpivot |-> "0.3",
  percolation_lmask |-> "null",
  percolation_niter |-> "2",
  percolation_minlambda |-> "3",
  percolation_pbcg_cut |-> "0.5",
  percolation_maxcen |-> "5",
  percolation_memradius |-> "null",
  percolation_memlum |-> "null",
  zscan_r0 |-> "0.5",
  zscan_beta |-> "0",
  zscan_zstep |-> "0.005",
  zscan_minlambda |-> "3",
  vlim_lstar |-> "0.2",
  vlim_depthfiles |-> "[]",
  vlim_bands |-> "[]",
  vlim_nsigs |-> "[]",
  consolidate_lambda_cuts |-> "[5,20]",
  consolidate_vlim_lstars |-> "[0.2,5]",
  select_scaleval |-> "0",
  redmagic_calib_nodesize |-> "0.05",
  redmagic_calib_corr_nodesize |-> "0.05",
  redmagic_calib_buffer |-> "0.05",
  redmagic_calib_zbinsize |-> "0.02",
  redmagic_calib_chisqcut |-> "20",
  redmagic_zrange |-> "[]",
  redmagic_calib_fractrain |-> "0.5",
  redmagic_calib_redshift_buffer |-> "0.05",
  redmagic_maxlum |-> "100",
  redmagic_mock_truthspec |-> "0",
  redmagic_run_afterburner |-> "1",
  redmagic_apply_afterburner_zsamp |-> "1",
  redmagic_n0s |-> "[]",
  redmagic_etas |-> "[]",
  redmagic_names |-> "[]",
  redmagic_zmaxes |-> "[]",
  redmagic_constchis |-> "[]",
  redmagic_use_constchi |-> "0"]
Known == DOMAIN Defaults
=============================================================================
