------------------------------- MODULE Config -------------------------------
(* What a configuration file means. A load is described by                     *)
(*   given : sequence of [k, null, seq, len, s, n, w] (key; is null; is a      *)
(*           sequence; its length; canonical value; numbers in 1/1000; words)  *)
(*   cat   : [ok, nmag, truth, zspec, bands, area, hasref, vals] the catalogue *)
(*   wcen  : values of the centring file;  outpath : override or "null"        *)
EXTENDS Integers, Sequences, FiniteSets, ConfigKeys
KeysOf(L) == {L.given[i].k : i \in 1..Len(L.given)}
G(L, k) == L.given[CHOOSE i \in 1..Len(L.given) : L.given[i].k = k]
Has(L, k) == k \in KeysOf(L)
Null(L, k) == IF Has(L, k) THEN G(L, k).null ELSE Defaults[k] = "null"
True(L, k) == Has(L, k) /\ G(L, k).s \notin {"0", "null"}
CatKeys == {"galfile_pixelized", "survey_mode", "area", "limmag_ref", "nmag", "zeropoint", "galfile_nside", "bands", "galfile_has_truth", "galfile_has_zspec", "b", "ref_ind"}
(* length of an array in force; d: of its default *)
LenOf(L, k, d) == IF Has(L, k) THEN G(L, k).len ELSE d
ToSet(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE WLook(_, _, _)
WLook(w, k, i) == IF i > Len(w) THEN "none" ELSE IF w[i].k = k THEN w[i].s ELSE WLook(w, k, i + 1)
Mutual(L) ==
  /\ (Null(L, "area") /\ Null(L, "depthfile") /\ Has(L, "nside") /\ G(L, "nside").n[1] > 0) => LenOf(L, "hpix", 0) = 0
  /\ True(L, "has_truth") => L.cat.truth
  /\ True(L, "centering_use_zspec") => L.cat.zspec
  /\ ~Null(L, "maskfile") => (Has(L, "mask_mode") /\ G(L, "mask_mode").n # <<0>>)
  /\ Has(L, "vlim_bands") => ToSet(G(L, "vlim_bands").w) \subseteq ToSet(L.cat.bands)
  /\ Has(L, "bkg_local_annuli") => (G(L, "bkg_local_annuli").len = 2 /\ G(L, "bkg_local_annuli").n[2] > G(L, "bkg_local_annuli").n[1])
Lengths(L) ==
  /\ LenOf(L, "zrange", 0) = 2
  /\ \A k \in {"calib_color_nodesizes", "calib_slope_nodesizes", "calib_color_maxnodes", "calib_covmat_maxnodes"} : LenOf(L, k, 1) = L.cat.nmag - 1
  /\ \A k \in {"calib_colormem_colormodes", "calib_colormem_sigint"} : LenOf(L, k, 2) = LenOf(L, "calib_colormem_zbounds", 1) + 1
  /\ \A k \in {"redmagic_n0s", "redmagic_etas", "redmagic_zmaxes"} : LenOf(L, k, 0) = LenOf(L, "redmagic_names", 0)
  /\ \A k \in {"vlim_bands", "vlim_nsigs"} : LenOf(L, k, 0) = LenOf(L, "vlim_depthfiles", 0)
Acceptable(L) ==
  /\ KeysOf(L) \subseteq Known
  /\ {"galfile", "refmag", "outbase", "zrange"} \subseteq KeysOf(L)
  /\ \A k \in (Required \ (Arrays \cup Lists \cup CatKeys \cup {"limmag_catalog"})) : ~Null(L, k) \/ (k = "outpath" /\ L.outpath # "null") \/ WLook(L.wcen, k, 1) # "none"
  /\ L.cat.ok /\ L.cat.hasref
  /\ Lengths(L) /\ Mutual(L)
(* The value in force after an accepted load *)
AbsV(x) == IF x < 0 THEN -x ELSE x
RawVal(L, k) == IF Has(L, k) THEN G(L, k).s ELSE IF k = "version" THEN L.version ELSE Defaults[k]
InForce(L, k) ==
  CASE k = "area" -> IF ~Null(L, "area") /\ AbsV(G(L, "area").n[1] - L.cat.area) > 1 THEN RawVal(L, k) ELSE L.cat.vals.area
    [] k \in CatKeys \ {"area"} -> IF L.cat.vals[k] = "unset" THEN RawVal(L, k) ELSE L.cat.vals[k]
    [] k = "limmag_catalog" -> IF Null(L, k) THEN L.cat.vals.limmag_ref ELSE RawVal(L, k)
    [] k = "specfile_train" -> IF Null(L, k) THEN RawVal(L, "specfile") ELSE RawVal(L, k)
    [] k = "outpath" -> IF L.outpath # "null" THEN L.outpath ELSE RawVal(L, k)
    [] k = "redmagic_zrange" -> IF ~Has(L, k) \/ G(L, k).len = 0 \/ (\E i \in 1..G(L, k).len : G(L, k).n[i] < 0) THEN RawVal(L, "zrange") ELSE RawVal(L, k)
    [] k = "hpix" -> IF Has(L, k) /\ ~G(L, k).seq THEN "[" \o G(L, k).s \o "]" ELSE RawVal(L, k)
    [] OTHER -> IF WLook(L.wcen, k, 1) # "none" THEN WLook(L.wcen, k, 1) ELSE RawVal(L, k)
(* Names of output files *)
SameName(a, b) == a.fn = b.fn
SameKey(a, b) == a.key = b.key
NamesDistinct(fs) == \A i, j \in 1..Len(fs) : (fs[i].key = fs[j].key) <=> (fs[i].fn = fs[j].fn)
=============================================================================
