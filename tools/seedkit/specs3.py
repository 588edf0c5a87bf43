SW = open("/verif/tools/seedkit/sweep.inc").read() + "int main(void) { sweep(); return h_bad; }\n"
exec(open("/verif/tools/seedkit/specs2.py").read().split("SPECS = [")[0])
OLD = {}
_ns = {}
exec(open("/verif/tools/seedkit/specs2.py").read(), _ns)
for _s in _ns["SPECS"]: OLD[_s["id"]] = _s
SPECS = [OLD["p02-union-failure-called-too-large"], OLD["p04-union-error-record-cleared"],
 dict(id="p01-stats-members-leak", property="P01", demo=HI + """
int main(void)
{
	enum { N = 20 };
	double* d = h_data(N, 1, 3);
	scc_Clabel lab[N]; for (int i = 0; i < N; ++i) lab[i] = i % 4;
	cb_install();
	for (long i = 1; i < 8; ++i) {
		scc_DataSet* ds; scc_Clustering* cl; scc_init_data_set(N, 1, N, d, &ds); scc_init_existing_clustering(N, 4, lab, true, &cl);
		scc_ClusteringStats s; cb_arm(i);
		scc_ErrorCode ec = scc_get_clustering_stats(ds, cl, &s);
		if (cb_failed) EXPECT(ec == SCC_ER_DIST_SEARCH_ERROR, "code %d", ec);
		scc_free_clustering(&cl); scc_free_data_set(&ds);
		EXPECT(h_live == 0 && h_badfree == 0, "callback %ld: %ld blocks left", i, h_live);
	}
	return h_bad;
}
""", edits=[(U,'''			free(cluster_size);
			free(id_store);
			free(cl_members);
			free(dist_scratch);
			return iscc_make_error(SCC_ER_DIST_SEARCH_ERROR);''','''			free(cluster_size);
			free(id_store);
			free(dist_scratch);
			return iscc_make_error(SCC_ER_DIST_SEARCH_ERROR);''')],
  needs="a distance matrix failing while statistics are computed", breaks="the member table is never released"),
 dict(id="p09-primary-list-compacted", property="P09", demo=HI + """
int main(void)
{
	enum { N = 60 };
	double* d = h_data(N, 2, 9);
	scc_PointIndex pp[N / 2], ref[N / 2]; for (int i = 0; i < N / 2; ++i) pp[i] = ref[i] = 2 * i;
	scc_DataSet* ds; scc_Clustering* cl; scc_init_data_set(N, 2, 2 * N, d, &ds); scc_init_empty_clustering(N, NULL, &cl);
	scc_ClusterOptions o = scc_get_default_options(); o.size_constraint = 3; o.primary_data_points = pp; o.len_primary_data_points = N / 2;
	o.primary_unassigned_method = SCC_UM_CLOSEST_SEED;
	scc_ErrorCode ec = scc_sc_clustering(ds, &o, cl);
	EXPECT(ec == SCC_ER_OK && !memcmp(pp, ref, sizeof(pp)), "primary data points changed (code %d)", ec);
	return h_bad;
}
""", edits=[(N,'''	if (primary_data_points != NULL) {
		for (size_t i = 0; i < len_primary_data_points; ++i) {
			to_assign[num_to_assign] = primary_data_points[i];
			num_to_assign += (clustering->cluster_label[primary_data_points[i]] == SCC_CLABEL_NA);
		}
	} else {''','''	if (primary_data_points != NULL) {
		scc_PointIndex* const pending = (unassigned_method == SCC_UM_CLOSEST_SEED) ? (scc_PointIndex*) primary_data_points : to_assign;
		for (size_t i = 0; i < len_primary_data_points; ++i) {
			const scc_PointIndex point = primary_data_points[i];
			pending[num_to_assign] = point;
			to_assign[num_to_assign] = point;
			num_to_assign += (clustering->cluster_label[point] == SCC_CLABEL_NA);
		}
	} else {''')],
  needs="primary data points with the closest-seed method, some of them already assigned", breaks="the caller's list of primary data points is compacted in place"),
 dict(id="p10-partial-search-group-accepted", property="P10", demo=HI + """
static bool b_init(void* d, size_t n, const scc_PointIndex* i, iscc_NNSearchObject** o) { return true; }
static bool b_close(iscc_NNSearchObject** o) { return true; }
static bool b_search(iscc_NNSearchObject* s, size_t n, const scc_PointIndex* q, uint32_t k, bool rs, double r, size_t* ok, scc_PointIndex* oq, scc_PointIndex* onn) { return true; }
#include "src/dist_search.h"
int main(void)
{
	EXPECT(!scc_set_dist_functions(NULL, NULL, NULL, NULL, NULL, NULL, NULL, b_init, NULL, NULL), "incomplete group accepted");
	EXPECT(!scc_set_dist_functions(NULL, NULL, NULL, NULL, NULL, NULL, NULL, b_init, NULL, b_close), "incomplete group accepted");
	EXPECT(!scc_set_dist_functions(NULL, NULL, NULL, NULL, NULL, NULL, NULL, b_init, b_search, NULL), "incomplete group accepted");
	EXPECT(!scc_set_dist_functions(NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, b_search, b_close), "incomplete group accepted");
	scc_reset_dist_functions();
	return h_bad;
}
""", edits=[(P,'''	if (init_nn_search_object != NULL &&
			nearest_neighbor_search != NULL &&
			close_nn_search_object != NULL) {
		iscc_dist_functions.init_nn_search_object = init_nn_search_object;
''','''	if (init_nn_search_object != NULL &&
			(nearest_neighbor_search != NULL ||
			close_nn_search_object != NULL)) {
		iscc_dist_functions.init_nn_search_object = init_nn_search_object;
''')],
  needs="installing the search group without one of its members", breaks="null entries end up in the table"),
 dict(id="p10-reset-keeps-row-function", property="P10", demo=HI + """
#include "src/dist_search.h"
static long mine = 0;
static bool b_rows(void* d, size_t nq, const scc_PointIndex* q, size_t nc, const scc_PointIndex* c, double* o) { ++mine; return iscc_imp_get_dist_rows(d, nq, q, nc, c, o); }
int main(void)
{
	enum { N = 30 };
	double* d = h_data(N, 1, 3);
	scc_set_dist_functions(NULL, NULL, NULL, b_rows, NULL, NULL, NULL, NULL, NULL, NULL);
	scc_reset_dist_functions();
	scc_DataSet* ds; scc_Clustering* cl; scc_init_data_set(N, 1, N, d, &ds); scc_init_empty_clustering(N, NULL, &cl);
	scc_hierarchical_clustering(ds, 3, false, cl);
	EXPECT(mine == 0, "a function is still used after the reset");
	return h_bad;
}
""", edits=[(P,"		.get_dist_rows = iscc_imp_get_dist_rows,\n		.init_max_dist_object = iscc_imp_init_max_dist_object,\n		.get_max_dist = iscc_imp_get_max_dist,\n		.close_max_dist_object = iscc_imp_close_max_dist_object,\n		.init_nn_search_object = iscc_imp_init_nn_search_object,\n		.nearest_neighbor_search = iscc_imp_nearest_neighbor_search,\n		.close_nn_search_object = iscc_imp_close_nn_search_object,\n	};\n\n	return true;","		.get_dist_rows = iscc_dist_functions.get_dist_rows,\n		.init_max_dist_object = iscc_imp_init_max_dist_object,\n		.get_max_dist = iscc_imp_get_max_dist,\n		.close_max_dist_object = iscc_imp_close_max_dist_object,\n		.init_nn_search_object = iscc_imp_init_nn_search_object,\n		.nearest_neighbor_search = iscc_imp_nearest_neighbor_search,\n		.close_nn_search_object = iscc_imp_close_nn_search_object,\n	};\n\n	return true;")],
  needs="own row function installed, then a reset", breaks="the reset does not restore the built-in row function"),
 dict(id="p11-zero-neighbour-search", property="P11", demo=HI + """
int main(void)
{
	enum { N = 40 };
	double* d = h_data(N, 1, 3); scc_TypeLabel tl[N]; for (int i = 0; i < N; ++i) tl[i] = i % 3;
	uint32_t tc[3] = { 1, 0, 1 };
	cb_install();
	scc_DataSet* ds; scc_Clustering* cl; scc_init_data_set(N, 1, N, d, &ds); scc_init_empty_clustering(N, NULL, &cl);
	scc_ClusterOptions o = scc_get_default_options(); o.size_constraint = 3; o.num_types = 3; o.type_constraints = tc; o.len_type_labels = N; o.type_labels = tl;
	scc_ErrorCode ec = scc_sc_clustering(ds, &o, cl);
	for (int i = 0; i < cb_nrec; ++i) EXPECT(cb_rec[i].k > 0, "search for no neighbours requested");
	EXPECT(ec == SCC_ER_OK, "code %d", ec);
	return h_bad;
}
""", edits=[(N,"		if (type_constraints[i] > 0) {\n			if ((ec = iscc_make_nng(data_set","		if (tc.type_group_size[i] > 0) {\n			if ((ec = iscc_make_nng(data_set")], flags="-DNDEBUG",
  needs="a type without a constraint of its own", breaks="a search for zero neighbours is requested"),
 dict(id="p12-secondary-uses-primary-radius", property="P12", demo=HI + """
int main(void)
{
	enum { N = 60 };
	double* d = h_data(N, 2, 9);
	scc_PointIndex pp[N / 2]; for (int i = 0; i < N / 2; ++i) pp[i] = i;
	cb_install();
	scc_DataSet* ds; scc_Clustering* cl; scc_init_data_set(N, 2, 2 * N, d, &ds); scc_init_empty_clustering(N, NULL, &cl);
	scc_ClusterOptions o = scc_get_default_options(); o.size_constraint = 3; o.primary_data_points = pp; o.len_primary_data_points = N / 2;
	o.primary_unassigned_method = SCC_UM_CLOSEST_SEED; o.secondary_unassigned_method = SCC_UM_CLOSEST_SEED;
	o.primary_radius = SCC_RM_USE_SUPPLIED; o.primary_supplied_radius = 50; o.secondary_radius = SCC_RM_USE_SUPPLIED; o.secondary_supplied_radius = 20;
	scc_ErrorCode ec = scc_sc_clustering(ds, &o, cl);
	int seen = 0;
	for (int i = 0; i < cb_nrec; ++i) if (cb_rec[i].rs && cb_rec[i].r == 20) seen = 1;
	EXPECT(ec == SCC_ER_OK && seen, "no search with the secondary radius (code %d)", ec);
	return h_bad;
}
""", edits=[(K,"""	                                       (secondary_radius == SCC_RM_USE_SUPPLIED),
	                                       secondary_supplied_radius);""","""	                                       (secondary_radius == SCC_RM_USE_SUPPLIED),
	                                       primary_supplied_radius);""")],
  needs="different supplied radii for primary and secondary points", breaks="secondary points are assigned with the primary radius"),
 dict(id="p12-batch-radius-switch", property="P12", demo=HI + """
int main(void)
{
	enum { N = 40 };
	double* d = h_data(N, 1, 3);
	cb_install();
	for (int v = 0; v < 2; ++v) {
		scc_DataSet* ds; scc_Clustering* cl; scc_init_data_set(N, 1, N, d, &ds); scc_init_empty_clustering(N, NULL, &cl);
		scc_ClusterOptions o = scc_get_default_options(); o.size_constraint = 2; o.seed_method = SCC_SM_BATCHES; o.batch_size = 9;
		o.primary_unassigned_method = SCC_UM_IGNORE; o.seed_radius = SCC_RM_USE_SUPPLIED; o.seed_supplied_radius = 5; o.primary_radius = SCC_RM_USE_SEED_RADIUS;
		cb_nrec = 0;
		scc_ErrorCode ec = scc_sc_clustering(ds, &o, cl);
		EXPECT(ec == SCC_ER_OK || ec == SCC_ER_INVALID_INPUT, "code %d", ec);
		for (int i = 0; i < cb_nrec; ++i) EXPECT(cb_rec[i].rs && cb_rec[i].r == 5, "search without the seed radius");
	}
	return h_bad;
}
""", edits=[(K,"""		                                  (options->seed_radius == SCC_RM_USE_SUPPLIED),
		                                  options->seed_supplied_radius,
		                                  options->len""","""		                                  (options->primary_radius == SCC_RM_USE_SUPPLIED),
		                                  options->seed_supplied_radius,
		                                  options->len""")],
  needs="batch seeds with a supplied seed radius", breaks="the batches are searched without radius"),
 dict(id="p13-sampling-step-remembered", property="P13", demo=HI + """
/* the number of sampled seeds in the radius estimate must not depend on an earlier call */
static long run(int n, const double* d)
{
	scc_DataSet* ds; scc_Clustering* cl; scc_init_data_set(n, 1, n, d, &ds); scc_init_empty_clustering(n, NULL, &cl);
	scc_ClusterOptions o = scc_get_default_options(); o.size_constraint = 2;
	o.primary_unassigned_method = SCC_UM_CLOSEST_SEED; o.primary_radius = SCC_RM_USE_ESTIMATED;
	cb_arm(-1);
	scc_ErrorCode ec = scc_sc_clustering(ds, &o, cl);
	EXPECT(ec == SCC_ER_OK, "code %d", ec);
	long k = cb_calls;
	scc_free_clustering(&cl); scc_free_data_set(&ds);
	return k;
}
int main(void)
{
	enum { N = 4400 };
	double* d = __real_malloc(sizeof(double) * N);
	for (int i = 0; i < N; ++i) d[i] = 1000.0 * (i / 2) + (i % 2);
	cb_install();
	long small = run(40, d); long big = run(N, d); long again = run(40, d);
	EXPECT(small == again, "same call: %ld and then %ld callbacks", small, again);
	EXPECT(big < 1500, "large problem: %ld callbacks", big);
	return h_bad;
}
""", edits=[(N,"	size_t step = seed_result->count / ISCC_ESTIMATE_AVG_MAX_SAMPLE;\n","	static size_t step = 0;\n	if (step < 2) step = seed_result->count / ISCC_ESTIMATE_AVG_MAX_SAMPLE;\n")],
  needs="a clustering with very many seeds followed by another call with an estimated radius", breaks="the estimate depends on earlier calls"),
 dict(id="p14-type-counts-not-zeroed", property="P14", demo=HI + """
int main(void)
{
	enum { N = 40 };
	double* d = h_data(N, 1, 3); scc_TypeLabel tl[N]; for (int i = 0; i < N; ++i) tl[i] = i % 3;
	uint32_t tc[3] = { 1, 1, 1 };
	scc_DataSet* ds; scc_Clustering* cl; scc_init_data_set(N, 1, N, d, &ds); scc_init_empty_clustering(N, NULL, &cl);
	scc_ClusterOptions o = scc_get_default_options(); o.size_constraint = 3; o.num_types = 3; o.type_constraints = tc; o.len_type_labels = N; o.type_labels = tl;
	scc_ErrorCode ec = scc_sc_clustering(ds, &o, cl);
	EXPECT(ec == SCC_ER_OK, "code %d", ec);
	return h_bad;
}
""", edits=[(N,'.type_group_size = calloc(num_types, sizeof(size_t)),','.type_group_size = malloc(sizeof(size_t[num_types])),')],
  needs="memory that is not zero to begin with, type constraints", breaks="points are counted on top of stale memory"),
 dict(id="p14-cluster-sizes-not-zeroed", property="P14", demo=HI + """
int main(void)
{
	enum { N = 20 };
	double* d = h_data(N, 1, 3);
	scc_Clabel lab[N]; for (int i = 0; i < N; ++i) lab[i] = i % 4;
	scc_DataSet* ds; scc_Clustering* cl; scc_init_data_set(N, 1, N, d, &ds); scc_init_existing_clustering(N, 4, lab, true, &cl);
	scc_ClusteringStats s;
	scc_ErrorCode ec = scc_get_clustering_stats(ds, cl, &s);
	EXPECT(ec == SCC_ER_OK && s.max_cluster_size == 5 && s.min_cluster_size == 5, "code %d, sizes %d to %d", ec, (int) s.min_cluster_size, (int) s.max_cluster_size);
	return h_bad;
}
""", edits=[(U,'calloc(clustering->num_clusters, sizeof(size_t));\n	if (cluster_size ==','malloc(clustering->num_clusters * sizeof(size_t));\n	if (cluster_size ==')],
  needs="memory that is not zero to begin with", breaks="cluster sizes are counted on top of stale memory"),
 dict(id="p15-exclusion-flags-short", property="P15", demo=HI + """
int main(void)
{
	enum { N = 48 };
	double* d = h_data(N, 1, 3);
	for (int m = 4; m < 6; ++m) {
		scc_DataSet* ds; scc_Clustering* cl; scc_init_data_set(N, 1, N, d, &ds); scc_init_empty_clustering(N, NULL, &cl);
		scc_ClusterOptions o = scc_get_default_options(); o.size_constraint = 3; o.seed_method = m;
		scc_ErrorCode ec = scc_sc_clustering(ds, &o, cl);
		EXPECT(ec == SCC_ER_OK, "code %d", ec);
		scc_free_clustering(&cl); scc_free_data_set(&ds);
	}
	return h_bad;
}
""", edits=[(F,"bool* const not_excluded = malloc(sizeof(bool[nng->vertices]))","bool* const not_excluded = malloc(sizeof(bool[nng->vertices - 1]))")],
  needs="exclusion order seeds and a point count that fills the block", breaks="one byte past the block is written"),
 dict(id="p15-type-table-wraps", property="P15", demo=HI + """
/* 65537 types and one cluster: the table must have room for all of them */
int main(void)
{
	enum { N = 8 };
	scc_Clabel lab[N] = { 0 }; scc_TypeLabel tl[N]; for (int i = 0; i < N; ++i) tl[i] = 65000 + i;
	uint32_t* tc = __real_calloc(65537, sizeof(uint32_t)); tc[65000] = 1; tc[65001] = 1;
	scc_Clustering* cl; scc_init_existing_clustering(N, 1, lab, true, &cl);
	scc_ClusterOptions o = scc_get_default_options(); o.size_constraint = 2; o.num_types = 65537; o.type_constraints = tc; o.len_type_labels = N; o.type_labels = tl;
	bool ok = false; scc_ErrorCode ec = scc_check_clustering(cl, &o, &ok);
	EXPECT(ec != SCC_ER_OK || ok, "code %d ok %d", ec, ok);
	return h_bad;
}
""", edits=[(U,"calloc(num_types * clustering->num_clusters","calloc((uint16_t) num_types * clustering->num_clusters")],
  needs="more types than fit 16 bits", breaks="the table of type counts is too small"),
 dict(id="p17-clusters-only-query", property="P17", demo=HI + """
int main(void)
{
	scc_Clabel lab[6] = { 0, 1, 2, 0, 1, 2 };
	scc_Clustering* a; scc_init_existing_clustering(6, 3, lab, true, &a);
	uint64_t n = 99, k = 99;
	scc_get_clustering_info(a, NULL, &k); EXPECT(k == 3, "clusters %d", (int) k);
	scc_get_clustering_info(a, &n, NULL); EXPECT(n == 6, "points %d", (int) n);
	uint32_t x = 77, y = 77, z = 77, X = 78, Y = 78, Z = 78;
	scc_get_compiled_version(&x, &y, &z);
	scc_get_compiled_version(&X, NULL, NULL); scc_get_compiled_version(NULL, &Y, NULL); scc_get_compiled_version(NULL, NULL, &Z);
	EXPECT(x == X && y == Y && z == Z, "single version parts differ");
	return h_bad;
}
""", edits=[(S,'''	if (out_minor != NULL) *out_minor =''','''	if ((out_minor != NULL) && (out_major != NULL)) *out_minor =''')],
  needs="asking for the minor version only", breaks="the output is left untouched"),
]
