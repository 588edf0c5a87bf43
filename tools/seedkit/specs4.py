exec(open("/verif/tools/seedkit/specs2.py").read().split("SPECS = [")[0])
N='src/nng_core.c'; K='src/nng_clustering.c'; F='src/nng_findseeds.c'
SW = open("/verif/tools/seedkit/sweep.inc").read() + "int main(void) { sweep(); return h_bad; }\n"
SPECS = [
 dict(id="p09-query-array-reused", property="P09", demo=HI + """
/* a seed radius some primary points cannot meet: the caller's list must stay as it is */
int main(void)
{
	enum { N = 60 };
	double* d = __real_malloc(sizeof(double) * N);
	for (int i = 0; i < N; ++i) d[i] = (i % 3 == 0) ? 1e4 * i : i;
	for (int m = 0; m < 6; ++m) {
		if (m == 1) continue;
		scc_PointIndex pp[N / 2], ref[N / 2]; for (int i = 0; i < N / 2; ++i) pp[i] = ref[i] = 2 * i;
		scc_DataSet* ds; scc_Clustering* cl; scc_init_data_set(N, 1, N, d, &ds); scc_init_empty_clustering(N, NULL, &cl);
		scc_ClusterOptions o = scc_get_default_options(); o.size_constraint = 2; o.seed_method = m;
		o.len_primary_data_points = N / 2; o.primary_data_points = pp;
		o.seed_radius = SCC_RM_USE_SUPPLIED; o.seed_supplied_radius = 3.0; o.primary_unassigned_method = SCC_UM_IGNORE;
		scc_sc_clustering(ds, &o, cl);
		EXPECT(memcmp(pp, ref, sizeof pp) == 0, "method %d: the list of primary points was changed", m);
		scc_free_clustering(&cl); scc_free_data_set(&ds);
	}
	return h_bad;
}
""", edits=[(N,'''		if (out_query_indices != NULL) {
			dist_out_query_indices = out_query_indices;
		} else {''','''		if (out_query_indices != NULL) {
			dist_out_query_indices = out_query_indices;
		} else if ((query_indices != NULL) && (k < len_query_indices)) {
			dist_out_query_indices = (scc_PointIndex*) query_indices;
		} else {''')],
  needs="named primary points and a seed radius that some of them cannot meet", breaks="the caller's read-only list is overwritten"),
 dict(id="p11-search-set-released-early", property="P11", demo=HI + """
/* primary points go to the closest seed, the others to the closest assigned point */
static const scc_PointIndex* want; static size_t nwant; static scc_PointIndex copy[4096];
static bool init(void* d, size_t n, const scc_PointIndex* i, iscc_NNSearchObject** o) { if (i) { want = i; nwant = n; memcpy(copy, i, n * sizeof *i); } return iscc_imp_init_nn_search_object(d, n, i, o); }
static bool ask(iscc_NNSearchObject* s, size_t n, const scc_PointIndex* q, uint32_t k, bool rs, double r, size_t* ok, scc_PointIndex* oq, scc_PointIndex* onn) {
	return iscc_imp_nearest_neighbor_search(s, n, q, k, rs, r, ok, oq, onn);
}
int main(void)
{
	enum { N = 60 };
	double* d = h_data(N, 1, 5);
	for (int pass = 0; pass < 2; ++pass) {
		scc_PointIndex pp[N / 2]; for (int i = 0; i < N / 2; ++i) pp[i] = 2 * i;
		scc_Clabel lab[2][N];
		scc_set_dist_functions(NULL, NULL, NULL, NULL, NULL, NULL, NULL, init, ask, iscc_imp_close_nn_search_object);
		scc_DataSet* ds; scc_Clustering* cl; scc_init_data_set(N, 1, N, d, &ds); scc_init_empty_clustering(N, lab[pass], &cl);
		scc_ClusterOptions o = scc_get_default_options(); o.size_constraint = 4; o.seed_method = 0;
		o.len_primary_data_points = N / 2; o.primary_data_points = pp;
		o.primary_unassigned_method = SCC_UM_CLOSEST_SEED; o.secondary_unassigned_method = SCC_UM_CLOSEST_ASSIGNED;
		scc_ErrorCode ec = scc_sc_clustering(ds, &o, cl);
		EXPECT(ec == SCC_ER_OK, "code %d", ec);
		uint64_t k = 0; scc_get_clustering_info(cl, NULL, &k);
		for (int i = 0; i < N; ++i) EXPECT(lab[pass][i] < k, "point %d has label %d of %d", i, (int) lab[pass][i], (int) k);
		scc_free_clustering(&cl); scc_free_data_set(&ds);
	}
	return h_bad;
}
""", edits=[(N,'''	if (secondary_unassigned_method != SCC_UM_IGNORE) {
		size_t num_to_assign = 0;''','''	if (unassigned_method == SCC_UM_CLOSEST_SEED) {
		// assigned points are only needed when searching among them
		free(seed_or_neighbor);
		seed_or_neighbor = NULL;
	}

	if (secondary_unassigned_method != SCC_UM_IGNORE) {
		size_t num_to_assign = 0;''')],
  needs="primary points assigned by closest seed, the others by closest assigned", breaks="the search set is released while its search object is still asked"),
 dict(id="p12-secondary-takes-primary-radius", property="P12", demo=HI + """
int main(void)
{
	enum { N = 40 };
	double* d = h_data(N, 1, 5);
	scc_PointIndex pp[N / 2]; for (int i = 0; i < N / 2; ++i) pp[i] = 2 * i;
	cb_install();
	scc_DataSet* ds; scc_Clustering* cl; scc_init_data_set(N, 1, N, d, &ds); scc_init_empty_clustering(N, NULL, &cl);
	scc_ClusterOptions o = scc_get_default_options(); o.size_constraint = 3; o.seed_method = 0;
	o.len_primary_data_points = N / 2; o.primary_data_points = pp;
	o.seed_radius = SCC_RM_USE_SUPPLIED; o.seed_supplied_radius = 30.0;
	o.primary_unassigned_method = SCC_UM_CLOSEST_SEED; o.primary_radius = SCC_RM_USE_SUPPLIED; o.primary_supplied_radius = 7.0;
	o.secondary_unassigned_method = SCC_UM_CLOSEST_SEED; o.secondary_radius = SCC_RM_USE_SEED_RADIUS;
	scc_ErrorCode ec = scc_sc_clustering(ds, &o, cl);
	EXPECT(ec == SCC_ER_OK, "code %d", ec);
	EXPECT(cb_nrec >= 2, "%d searches", cb_nrec);
	EXPECT(cb_rec[cb_nrec - 1].rs && cb_rec[cb_nrec - 1].r == 30.0, "secondary points searched with radius %g", cb_rec[cb_nrec - 1].r);
	return h_bad;
}
""", edits=[(K,'''		secondary_supplied_radius = options->seed_supplied_radius;
''','''		secondary_supplied_radius = (primary_radius == SCC_RM_USE_SUPPLIED) ? primary_supplied_radius : options->seed_supplied_radius;
''')],
  needs="a radius of their own for primary points, the seed radius for the others", breaks="secondary points are assigned with the wrong radius"),
 dict(id="p13-sampling-step-remembered", property="P13", demo=HI + """
/* the same small problem alone and after a large one */
static void small(scc_Clabel* lab)
{
	enum { N = 200 };
	double* d = h_data(N, 1, 5);
	scc_DataSet* ds; scc_Clustering* cl; scc_init_data_set(N, 1, N, d, &ds); scc_init_empty_clustering(N, lab, &cl);
	scc_ClusterOptions o = scc_get_default_options(); o.size_constraint = 2; o.seed_method = 0;
	o.primary_unassigned_method = SCC_UM_CLOSEST_SEED; o.primary_radius = SCC_RM_USE_ESTIMATED;
	cb_install(); cb_nrec = 0;
	scc_ErrorCode ec = scc_sc_clustering(ds, &o, cl);
	EXPECT(ec == SCC_ER_OK, "code %d", ec);
	lab[0] = 0;
	double r = cb_rec[cb_nrec - 1].r; FILE* f = fopen("radius.txt", "a"); fprintf(f, "%.17g\\n", r); fclose(f);
	scc_free_clustering(&cl); scc_free_data_set(&ds);
}
int main(int argc, char** argv)
{
	static scc_Clabel lab[200];
	if (argc < 2) {
		remove("radius.txt"); char c[4096];
		snprintf(c, sizeof c, "%s small && %s both", argv[0], argv[0]);
		if (system(c) != 0) return 1;
		double a = 0, b = 1; FILE* f = fopen("radius.txt", "r"); if (fscanf(f, "%lg%lg", &a, &b) != 2) return 1; fclose(f); remove("radius.txt");
		EXPECT(a == b, "estimated radius %g alone, %g after a larger problem", a, b);
		return h_bad;
	}
	if (argv[1][0] == 'b') {
		enum { B = 7000 };
		double* d = h_data(B, 1, 8);
		scc_DataSet* ds; scc_Clustering* cl; scc_init_data_set(B, 1, B, d, &ds); scc_init_empty_clustering(B, NULL, &cl);
		scc_ClusterOptions o = scc_get_default_options(); o.size_constraint = 2; o.seed_method = 0;
		o.primary_unassigned_method = SCC_UM_CLOSEST_SEED; o.primary_radius = SCC_RM_USE_ESTIMATED;
		scc_ErrorCode ec = scc_sc_clustering(ds, &o, cl);
		EXPECT(ec == SCC_ER_OK, "code %d", ec);
		scc_free_clustering(&cl); scc_free_data_set(&ds);
	}
	small(lab);
	return h_bad;
}
""", edits=[(N,'''	const size_t step = (seed_result->count > ISCC_ESTIMATE_AVG_MAX_SAMPLE) ? (seed_result->count / ISCC_ESTIMATE_AVG_MAX_SAMPLE) : 1;
	assert(step > 0);''','''	static size_t step = 0;
	if (step == 0) step = (seed_result->count > ISCC_ESTIMATE_AVG_MAX_SAMPLE) ? (seed_result->count / ISCC_ESTIMATE_AVG_MAX_SAMPLE) : 1;''')],
  needs="a problem with more than two thousand seeds solved first in the same process", breaks="the estimated radius depends on earlier calls"),
 dict(id="p14-batch-flags-not-zeroed", property="P14", demo=HI + """
int main(void)
{
	enum { N = 60 };
	double* d = h_data(N, 1, 5);
	for (int pass = 0; pass < 2; ++pass) {
		scc_PointIndex pp[N / 2]; for (int i = 0; i < N / 2; ++i) pp[i] = i;
		scc_DataSet* ds; scc_Clustering* cl; scc_init_data_set(N, 1, N, d, &ds); scc_init_empty_clustering(N, NULL, &cl);
		scc_ClusterOptions o = scc_get_default_options(); o.size_constraint = 3; o.seed_method = SCC_SM_BATCHES; o.batch_size = 10;
		o.len_primary_data_points = N / 2; o.primary_data_points = pp;
		cb_install(); cb_nrec = 0;
		scc_ErrorCode ec = scc_sc_clustering(ds, &o, cl);
		EXPECT(ec == SCC_ER_OK, "code %d", ec);
		for (int i = 0; i < cb_nrec; ++i) EXPECT(cb_rec[i].nq <= N / 2, "%d", (int) cb_rec[i].nq);
		size_t q = 0; for (int i = 0; i < cb_nrec; ++i) q += cb_rec[i].nq;
		EXPECT(q > 0 && q <= N / 2, "%d points searched for, %d are primary", (int) q, N / 2);
		scc_free_clustering(&cl); scc_free_data_set(&ds);
	}
	return h_bad;
}
""", edits=[(B,"tmp_primary_data_points = calloc(clustering->num_data_points, sizeof(bool));","tmp_primary_data_points = malloc(sizeof(bool[clustering->num_data_points]));")],
  needs="memory that is not zero to begin with", breaks="points are taken for primary points by chance"),
 dict(id="p14-vertex-markers-not-zeroed", property="P14", demo=HI + """
int main(void)
{
	enum { N = 400 };
	double* d = h_data(N, 2, 5);
	scc_Clabel lab[2][N];
	for (int pass = 0; pass < 2; ++pass) {
		scc_DataSet* ds; scc_Clustering* cl; scc_init_data_set(N, 2, 2 * N, d, &ds); scc_init_empty_clustering(N, lab[pass], &cl);
		scc_ErrorCode ec = scc_hierarchical_clustering(ds, 2, true, cl);
		EXPECT(ec == SCC_ER_OK, "code %d", ec);
		scc_ClusterOptions o = scc_get_default_options(); o.size_constraint = 2; bool ok = false;
		scc_check_clustering(cl, &o, &ok); EXPECT(ok, "not valid");
		scc_free_clustering(&cl); scc_free_data_set(&ds);
	}
	return h_bad;
}
""", edits=[(H,".vertex_markers = calloc(out_clustering->num_data_points, sizeof(uint_fast16_t))",".vertex_markers = malloc(sizeof(uint_fast16_t[out_clustering->num_data_points]))")],
  needs="memory that holds the markers' first values", breaks="points are taken as assigned before they are"),
 dict(id="p15-index-work-area-constant", property="P15", demo=HI + """
/* size constraint above the number of points checked for a centre */
int main(void)
{
	enum { N = 1000 };
	double* d = h_data(N, 2, 5);
	scc_DataSet* ds; scc_Clustering* cl; scc_init_data_set(N, 2, 2 * N, d, &ds); scc_init_empty_clustering(N, NULL, &cl);
	/* the blocks of the hierarchical call are recorded with their sizes: none may be smaller than what the callbacks are given */
	cb_install();
	scc_ErrorCode ec = scc_hierarchical_clustering(ds, 300, false, cl);
	EXPECT(ec == SCC_ER_OK, "code %d", ec);
	EXPECT(h_over == 0, "%ld blocks written past their end", h_over);
	return h_bad;
}
""", edits=[(H,"const size_t size_pointindex_array = (size_constraint > ISCC_HI_NUM_TO_CHECK) ? size_constraint : ISCC_HI_NUM_TO_CHECK;","const size_t size_pointindex_array = (size_constraint > 2 * ISCC_HI_NUM_TO_CHECK) ? (size_t) (size_constraint / 2) : 2 * (size_t) ISCC_HI_NUM_TO_CHECK;")],
  needs="a size constraint above two hundred", breaks="the index arrays are overrun", asan=True),
 dict(id="p15-type-table-narrow", property="P15", demo=HI + """
/* types times clusters beyond 32 bits: the request has to be for the full table */
int main(void)
{
	enum { C = 70000, N = 2 * C, T = 65000 };
	scc_Clabel* lab = __real_malloc(N * sizeof *lab); scc_TypeLabel* tl = __real_malloc(N * sizeof *tl);
	for (int i = 0; i < N; ++i) { lab[i] = (scc_Clabel) (i / 2); tl[i] = (scc_TypeLabel) (i % 2); }
	uint32_t* tc = __real_calloc(T, sizeof *tc); tc[0] = 1; tc[1] = 1;
	scc_Clustering* cl; scc_init_existing_clustering(N, C, lab, false, &cl);
	scc_ClusterOptions o = scc_get_default_options(); o.size_constraint = 2; o.num_types = T; o.type_constraints = tc; o.len_type_labels = N; o.type_labels = tl;
	h_fail_above = 1ULL << 34;
	bool ok = false; scc_ErrorCode ec = scc_check_clustering(cl, &o, &ok);
	EXPECT(ec == SCC_ER_NO_MEMORY, "code %d: a table of 36 GB was never asked for", ec);
	return h_bad;
}
""", edits=[(U,"calloc(num_types * clustering->num_clusters","calloc((uint32_t) num_types * (uint32_t) clustering->num_clusters")],
  needs="types times clusters beyond 32 bits", breaks="the table of type counts is far too small"),
 dict(id="p17-long-buffer-padding", property="P17", demo=HI + """
int main(void)
{
	enum { N = 300000, L = 400000 };
	scc_Clabel* lab = __real_malloc(sizeof(scc_Clabel) * N); for (int i = 0; i < N; ++i) lab[i] = (scc_Clabel) (i % 3);
	scc_Clustering* a; scc_init_existing_clustering(N, 3, lab, true, &a);
	scc_Clabel* out = __real_malloc(sizeof(scc_Clabel) * L);
	size_t lens[] = { 1, 262143, 262147, N - 1, N, N + 1, L };
	for (int l = 0; l < 7; ++l) {
		for (int i = 0; i < L; ++i) out[i] = 77;
		scc_ErrorCode ec = scc_get_cluster_labels(a, lens[l], out);
		EXPECT(ec == SCC_ER_OK, "code %d", ec);
		for (size_t i = 0; i < L && !h_bad; ++i) {
			scc_Clabel w = i < lens[l] ? (i < N ? lab[i] : SCC_CLABEL_NA) : 77;
			EXPECT(out[i] == w, "length %d: element %d is %d", (int) lens[l], (int) i, (int) out[i]);
		}
	}
	return h_bad;
}
""", edits=[(S,'''	size_t write = 0;
	for (; (write < len_out_label_buffer) && (write < clustering->num_data_points); ++write) {
		out_label_buffer[write] = clustering->cluster_label[write];
	}''','''	size_t write = 0;
	const uint16_t whole_blocks = (uint16_t) (clustering->num_data_points / 4);
	for (; (write < len_out_label_buffer) && (write < 4 * (size_t) whole_blocks); ++write) {
		out_label_buffer[write] = clustering->cluster_label[write];
	}
	for (; (write < len_out_label_buffer) && (write < clustering->num_data_points % 4 + 4 * (size_t) whole_blocks); ++write) {
		out_label_buffer[write] = clustering->cluster_label[write];
	}''')],
  needs="more than 262143 points", breaks="labels beyond are reported as unassigned"),
]
