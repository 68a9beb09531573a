------------------------------ MODULE Options ------------------------------
(* Options that may differ from level to level, and the table of all options a   *)
(* user can give: which key sets what, and how.  Values are strings.             *)
EXTENDS Naturals, Sequences
\* an option: general value and values of the first levels
Opt(g, l) == [gen |-> g, list |-> l]
At(o, k) == IF k < Len(o.list) THEN o.list[k + 1] ELSE o.gen
\* what the user said about an option: hasgen, gen, haslist, list.  "?" is a name that does not exist.
Known(v, d) == IF v = "?" THEN d ELSE v
Read(o, u) ==
  LET g == IF u.hasgen THEN Known(u.gen, o.gen) ELSE o.gen
  IN [gen |-> g, list |-> IF u.haslist THEN [k \in 1..Len(u.list) |-> Known(u.list[k], g)] ELSE IF u.hasgen THEN <<>> ELSE o.list]
BOr(a, b) == IF a = "1" \/ b = "1" THEN "1" ELSE "0"
Max(a, b) == IF a < b THEN b ELSE a
Or(o, p) == [gen |-> BOr(o.gen, p.gen), list |-> [k \in 1..Max(Len(o.list), Len(p.list)) |-> BOr(At(o, k - 1), At(p, k - 1))]]

\* ---- the table: set, field, key, kind, type, names ----
\* kind: spec (per level), plain (one value), off (false unless the user turns it on, and so one value)
Row(f, k, kind, t, e) == [f |-> f, k |-> k, kind |-> kind, t |-> t, e |-> e]
S(f, k, t) == Row(f, k, "spec", t, <<>>)
P(f, k, t) == Row(f, k, "plain", t, <<>>)
E(f, k, e) == Row(f, k, "spec", "enum", e)
Q(f, k, e) == Row(f, k, "plain", "enum", e)
Off(f, k) == Row(f, k, "off", "bool", <<>>)
Avg == <<<<"min", "MIN">>, <<"geom", "GEOM">>, <<"harm", "HARM">>, <<"alg", "ALG">>, <<"max", "MAX">>>>
Log == <<<<"none", "NONE">>, <<"basic", "BASIC">>, <<"normal", "NORMAL">>, <<"extra", "EXTRA">>, <<"debug", "DBG">>>>
Smoothers == <<<<"gs", "GS">>, <<"bgs", "BGS">>, <<"jacobi", "JACOBI">>, <<"hiptmair", "HIPTMAIR">>, <<"amg_smoother", "AMGSM">>, <<"dyn_block_gs", "DYNBGS">>>>
Base == <<
  P("max_n_levels", "max_levels", "int"), P("max_meas", "max_coarse_size", "int"), P("min_meas", "min_coarse_size", "int"),
  S("enable_multistep", "enable_multistep", "bool"), P("enable_dyn_crs", "enable_dyn_crs", "bool"),
  P("aaf", "aaf", "double"), P("first_aaf", "first_aaf", "double"), P("aaf_scale", "aaf_scale", "double"),
  P("enable_redist", "enable_redist", "bool"), P("rdaf", "rdaf", "double"), P("first_rdaf", "first_rdaf", "double"), P("rdaf_scale", "rdaf_scale", "double"),
  P("rd_crs_thresh", "rd_crs_thresh", "double"), P("rd_loc_thresh", "rd_loc_thresh", "double"), P("rd_pfac", "rd_pfac", "double"),
  P("rd_min_nv_th", "rd_min_nv_thresh", "int"), P("rd_min_nv_gl", "rd_min_nv_gl", "int"), P("rd_seq_nv", "rd_seq_nv", "int"), P("rd_loc_gl", "rd_loc_gl", "double"),
  P("sp_needs_cmap", "sp_needs_cmap", "bool"), S("sp_min_frac", "sp_min_frac", "double"), S("sp_max_per_row", "sp_max_per_row", "int"), S("sp_omega", "sp_omega", "double"),
  Off("use_emb_sp", "use_emb_sp"), P("keep_grid_maps", "keep_grid_maps", "bool"), P("check_kvecs", "check_kvecs", "bool"),
  Q("log_level", "log_level", Log), P("print_log", "print_log", "bool"), P("log_file", "log_file", "string") >>
Vertex == Base \o <<
  S("edge_thresh", "edge_thresh", "double"), S("vert_thresh", "vert_thresh", "double"), S("crs_robust", "crs_robust", "bool"), S("ecw_stab_hack", "ecw_stab_hack", "xbool"),
  S("print_aggs", "agg_print_aggs", "bool"), S("print_vmap", "agg_print_vmap", "bool"), S("check_iso", "check_isolated_vertices", "bool"),
  S("numRounds", "spw_rounds", "int"), S("robustPick", "spw_pick_robust", "bool"), S("neibBoost", "spw_neib_boost", "bool"), E("scalAvg", "spw_pick_avg", Avg),
  S("orphanRound", "spw_orphan_treatment", "bool"), S("checkBigSOC", "spw_cbs", "bool"), S("bigSOCBlockDiagSM", "spw_big_soc_bdiag", "bool"), S("bigSOCRobust", "spw_big_soc_robust", "bool"),
  S("bigSOCCheckHackThresh", "spw_big_soc_hack_thresh", "double"), S("diagStabBoost", "spw_diag_stab_boost", "double"), S("printParams", "spw_print_params", "bool"), S("printSummary", "spw_print_summ", "bool"),
  S("mis_neib_boost", "mis_neib_boost", "bool"), S("lazy_neib_boost", "mis_lazy_neib_boost", "bool"), E("agg_minmax_avg", "mis_minmax_avg", Avg), S("ecw_minmax", "mis_ecw_minmax", "xbool"),
  S("mis_dist2", "mis_dist2", "bool"), S("ecw_geom", "ecw_geom", "bool"), S("ecw_geom", "mis_ecw_geom", "bool"),
  E("crs_alg", "crs_alg", <<<<"spw", "SPW">>, <<"mis", "MIS">>, <<"plate_test", "PLATE_TEST">>>>),
  E("prol_type", "prol_type", <<<<"piecewise", "PIECEWISE">>, <<"aux_smoothed", "AUX_SMOOTHED">>, <<"semi_aux_smoothed", "SEMI_AUX_SMOOTHED">>>>),
  S("sp_max_per_row_classic", "sp_max_per_row_classic", "int"), S("improve_avgs", "improve_avgs", "bool"), S("sp_improve_its", "sp_improve_its", "int"),
  S("sp_use_roots", "sp_use_roots", "bool"), S("sp_use_asb", "sp_use_asb", "bool"), S("improve_c_aux_mats", "improve_c_aux_mats", "bool"), S("rot_scale", "rot_scale", "double"),
  Off("use_aux_mat", "use_aux_mat"), S("check_aux_mats", "check_aux_mats", "bool") >>
PC == <<
  Q("mg_cycle", "mg_cycle", <<<<"V", "V_CYCLE">>, <<"W", "W_CYCLE">>, <<"BS", "BS_CYCLE">>>>), Q("clev", "clev", <<<<"inv", "INV_CLEV">>, <<"sm", "SMOOTH_CLEV">>, <<"none", "NO_CLEV">>>>),
  Q("cinv_type", "cinv_type", <<<<"masterinverse", "MASTERINVERSE">>, <<"mumps", "MUMPS">>>>),
  Q("cinv_type_loc", "cinv_type_loc", <<<<"pardiso", "PARDISO">>, <<"pardisospd", "PARDISOSPD">>, <<"sparsecholesky", "SPARSECHOLESKY">>, <<"superlu", "SUPERLU">>, <<"superlu_dist", "SUPERLU_DIST">>, <<"mumps", "MUMPS">>, <<"umfpack", "UMFPACK">>>>),
  E("sm_type", "sm_type", Smoothers), S("sm_symm", "sm_symm", "bool"), S("sm_symm_loc", "sm_symm_loc", "bool"), S("sm_steps", "sm_steps", "int"), S("sm_steps_loc", "sm_steps_loc", "int"),
  P("sm_NG_MPI_overlap", "sm_NG_MPI_overlap", "bool"), P("sm_NG_MPI_thread", "sm_NG_MPI_thread", "bool"), P("sm_shm", "sm_shm", "bool"), P("sm_sl2", "sm_sl2", "bool"), P("sm_use_fes_blocks", "sm_use_fes_blocks", "bool"),
  P("sync", "sync", "bool"), P("do_test", "do_test", "bool"), P("test_levels", "test_levels", "bool"), S("test_2level", "test_2level", "bool"), P("test_smoothers", "test_smoothers", "bool"),
  P("smooth_lo_only", "smooth_lo_only", "bool"), P("regularize_cmats", "regularize_cmats", "bool"), P("force_ass_flmat", "faflm", "bool"), P("smooth_after_emb", "smooth_after_emb", "bool"),
  Q("energy", "energy", <<<<"triv", "TRIV_ENERGY">>, <<"alg", "ALG_ENERGY">>, <<"elmat", "ELMAT_ENERGY">>>>), Q("log_level_pc", "log_level_pc", Log), P("print_log_pc", "print_log_pc", "bool"), P("log_file_pc", "log_file_pc", "string") >>
Stokes == PC \o << E("sm_type_pot", "sm_type_pot", Smoothers), E("sm_type_range", "sm_type_range", Smoothers), S("amg_sm_single_fls", "amg_sm_single_fls", "bool") >>
Table == [vertex |-> Vertex, pc |-> PC, stokes |-> Stokes, all |-> Vertex \o PC]
=============================================================================
