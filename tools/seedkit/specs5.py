exec(open("/verif/tools/seedkit/specs2.py").read().split("SPECS = [")[0])
N='src/nng_core.c'; U='src/utilities.c'; D='src/dist_search_imp.c'; Bt='src/nng_batch_clustering.c'; C='src/scclust.c'
PRE = '#include <sys/resource.h>\n'
SPECS = [
 dict(id="p19-search-work-area-kept", property="P19", demo=HI + """
/* searches that answer nothing must not keep memory */
int main(void)
{
	enum { N = 8 };
	double d[N]; for (int i = 0; i < N; ++i) d[i] = 1000.0 * i;
	scc_DataSet* ds; scc_init_data_set(N, 1, N, d, &ds);
	iscc_NNSearchObject* o = NULL; iscc_imp_init_nn_search_object(ds, N, NULL, &o);
	long live = h_live; size_t ok = 9; scc_PointIndex oq[N], onn[2 * N];
	bool r = iscc_imp_nearest_neighbor_search(o, N, NULL, 2, true, 1.0, &ok, oq, onn);
	EXPECT(r && ok == 0, "result %d, %d answered", (int) r, (int) ok);
	EXPECT(h_live == live, "%ld blocks left", h_live - live);
	iscc_imp_close_nn_search_object(&o); scc_free_data_set(&ds);
	return h_bad;
}
""", edits=[(D,'''	*out_num_ok_queries = num_ok_queries;

	free(sort_scratch);
''','''	*out_num_ok_queries = num_ok_queries;
	if (num_ok_queries == 0) return true;

	free(sort_scratch);
''')], needs="a radius within which no query has enough neighbours", breaks="the search keeps its work area"),
 dict(id="p19-empty-answer-without-memory", property="P19", demo=HI + """
/* running out of memory in a search is a failure, not an empty answer */
int main(void)
{
	enum { N = 8 };
	double d[N]; for (int i = 0; i < N; ++i) d[i] = 1.0 * i;
	scc_DataSet* ds; scc_init_data_set(N, 1, N, d, &ds);
	iscc_NNSearchObject* o = NULL; iscc_imp_init_nn_search_object(ds, N, NULL, &o);
	size_t ok = 9; scc_PointIndex oq[N], onn[2 * N];
	h_arm(1);
	bool r = iscc_imp_nearest_neighbor_search(o, N, NULL, 2, true, 1.0, &ok, oq, onn);
	bool failed = h_failed > 0; h_arm(-1);
	EXPECT(!failed || !r, "success without memory");
	iscc_imp_close_nn_search_object(&o); scc_free_data_set(&ds);
	return h_bad;
}
""", edits=[(D,'''	if (sort_scratch == NULL) return false;
''','''	if (sort_scratch == NULL) {
		*out_num_ok_queries = 0;
		return radius_search;
	}
''')], needs="the work area request of a radius search fails", breaks="failure looks like 'no neighbours within the radius'"),
 dict(id="p19-search-set-cut-at-queries", property="P19", demo=HI + """
/* all-point searches: fewer queries than search points, each answered within the room given */
int main(void)
{
	enum { N = 9 };
	double d[N]; for (int i = 0; i < N; ++i) d[i] = (i * 5) % N;
	scc_DataSet* ds; scc_init_data_set(N, 1, N, d, &ds);
	scc_PointIndex s[4] = { 1, 3, 5, 7 }, q[6] = { 0, 1, 2, 3, 4, 5 };
	iscc_MaxDistObject* o = NULL; iscc_imp_init_max_dist_object(ds, 4, s, &o);
	struct { scc_PointIndex i[6]; scc_PointIndex guard[4]; } oi; double od[6 + 4];
	memset(&oi, 0x33, sizeof oi); scc_PointIndex g; memset(&g, 0x33, sizeof g);
	for (int rep = 0; rep < 2; ++rep) {
		iscc_imp_get_max_dist(o, 3, q, oi.i, od);
		for (int j = 3; j < 6; ++j) EXPECT(oi.i[j] == g, "index %d beyond the queries was written", j);
	}
	iscc_imp_close_max_dist_object(&o); scc_free_data_set(&ds);
	return h_bad;
}
""", edits=[(D,'''	double tmp_dist;
	double max_dist;
''','''	double tmp_dist;
	double max_dist;

	for (size_t s = 0; (search_indices != NULL) && (s < len_search_indices); ++s) {
		out_max_indices[s] = search_indices[0];
	}
''')], needs="fewer queries than search points, with a search index array", breaks="writes past the output arrays"),
 dict(id="p20-cluster-table-on-stack", property="P20", demo=PRE + HI + """
/* statistics of a clustering with very many clusters */
int main(void)
{
	enum { N = 1500000 };
	struct rlimit l; getrlimit(RLIMIT_STACK, &l); l.rlim_cur = 8 << 20; setrlimit(RLIMIT_STACK, &l);
	double* d = __real_malloc(sizeof(double) * N); scc_Clabel* lab = __real_malloc(sizeof(scc_Clabel) * N);
	for (int i = 0; i < N; ++i) { d[i] = i; lab[i] = i; }
	scc_DataSet* ds; scc_Clustering* cl; scc_init_data_set(N, 1, N, d, &ds); scc_init_existing_clustering(N, N, lab, false, &cl);
	scc_ClusteringStats st;
	scc_ErrorCode ec = scc_get_clustering_stats(ds, cl, &st);
	EXPECT(ec == SCC_ER_OK, "code %d", ec);
	EXPECT(ec != SCC_ER_OK || st.num_populated_clusters == N, "wrong statistics");
	return h_bad;
}
""", edits=[(U,'''	scc_PointIndex** const cl_members = malloc(sizeof(scc_PointIndex*[clustering->num_clusters]));
''','''	scc_PointIndex* cl_members[clustering->num_clusters];
'''),(U,'''	if ((id_store == NULL) || (cl_members == NULL) || (dist_scratch == NULL)) {
		free(cluster_size);
		free(id_store);
		free(cl_members);
''','''	if ((id_store == NULL) || (dist_scratch == NULL)) {
		free(cluster_size);
		free(id_store);
'''),(U,'''			free(cluster_size);
			free(id_store);
			free(cl_members);
''','''			free(cluster_size);
			free(id_store);
'''),(U,'''	free(cluster_size);
	free(id_store);
	free(cl_members);
	free(dist_scratch);

	*out_stats''','''	free(cluster_size);
	free(id_store);
	free(dist_scratch);

	*out_stats''')], needs="a clustering with more than a million clusters", breaks="stack overflow"),
 dict(id="p20-label-scan-recurses", property="P20", demo=PRE + HI + """
/* checking a clustering of very many points */
int main(void)
{
	enum { N = 2000000 };
	struct rlimit l; getrlimit(RLIMIT_STACK, &l); l.rlim_cur = 8 << 20; setrlimit(RLIMIT_STACK, &l);
	scc_Clabel* lab = __real_malloc(sizeof(scc_Clabel) * N);
	for (int i = 0; i < N; ++i) lab[i] = i % 1000;
	scc_Clustering* cl; scc_init_existing_clustering(N, 1000, lab, false, &cl);
	scc_ClusterOptions o = scc_get_default_options(); o.size_constraint = 2; bool ok = false;
	scc_ErrorCode ec = scc_check_clustering(cl, &o, &ok);
	EXPECT(ec == SCC_ER_OK && ok, "code %d, valid %d", ec, (int) ok);
	lab[N - 1] = 1000; ec = scc_check_clustering(cl, &o, &ok);
	EXPECT(ec == SCC_ER_OK && !ok, "code %d, valid %d", ec, (int) ok);
	return h_bad;
}
""", edits=[(U,'''	for (size_t i = 0; i < clustering->num_data_points; ++i) {
		if ((clustering->cluster_label[i] > 0) && (clustering->cluster_label[i] < max_cluster)) continue;
		if (clustering->cluster_label[i] == 0) continue; // Since `scc_Clabel` can be unsigned
		if (clustering->cluster_label[i] == SCC_CLABEL_NA) continue;
		return iscc_no_error(); // Error found, return. (`out_is_OK` is set to false)
	}
''','''	if (!iscc_labels_in_range(clustering->num_data_points, clustering->cluster_label, max_cluster)) {
		return iscc_no_error(); // Error found, return. (`out_is_OK` is set to false)
	}
'''),(U,'''scc_ErrorCode scc_check_clustering(''','''static bool iscc_labels_in_range(const size_t num_labels,
                                 const scc_Clabel labels[const],
                                 const scc_Clabel max_cluster)
{
	if (num_labels == 0) return true;
	const bool named = (labels[0] == 0) || ((labels[0] > 0) && (labels[0] < max_cluster));
	return (named || (labels[0] == SCC_CLABEL_NA)) && iscc_labels_in_range(num_labels - 1, labels + 1, max_cluster);
}


scc_ErrorCode scc_check_clustering(''')], needs="a clustering of very many points", breaks="stack overflow"),
 dict(id="p21-label-counted-in-assertion", property="P21", flags="-DNDEBUG", demo=HI + """
/* release build: points far apart end up in different clusters */
int main(void)
{
	enum { N = 40 };
	double d[N]; for (int i = 0; i < N; ++i) d[i] = i / 4 * 1000.0 + i % 4;
	for (int m = 0; m < 6; ++m) {
		scc_Clabel lab[N]; scc_DataSet* ds; scc_Clustering* cl; scc_init_data_set(N, 1, N, d, &ds); scc_init_empty_clustering(N, lab, &cl);
		scc_ClusterOptions o = scc_get_default_options(); o.size_constraint = 4; o.seed_method = m;
		if (m == 1) { o.batch_size = 10; o.primary_unassigned_method = SCC_UM_ANY_NEIGHBOR; }
		scc_ErrorCode ec = scc_sc_clustering(ds, &o, cl);
		EXPECT(ec == SCC_ER_OK, "method %d: code %d", m, ec);
		if (ec == SCC_ER_OK) for (int i = 4; i < N; ++i) EXPECT(lab[i] != lab[0], "method %d: points 0 and %d together", m, i);
		scc_free_clustering(&cl); scc_free_data_set(&ds);
	}
	return h_bad;
}
""", edits=[(N,'''	        seed != seed_stop; ++seed, ++clabel) {
		assert(clabel != SCC_CLABEL_NA);
		assert(clabel < SCC_CLABEL_MAX);
''','''	        seed != seed_stop; ++seed) {
		assert(clabel != SCC_CLABEL_NA);
'''),(N,'''		clustering->cluster_label[*seed] = clabel; // Assign seed last so seed `assert` work also in case of self-loops
''','''		clustering->cluster_label[*seed] = clabel; // Assign seed last so seed `assert` work also in case of self-loops
		assert(clabel++ < SCC_CLABEL_MAX);
''')], needs="a build without assertions", breaks="all clusters get the same label in release builds"),
 dict(id="p21-search-object-closed-in-assertion", property="P21", flags="-DNDEBUG", demo=HI + """
/* release build: search objects are closed */
int main(void)
{
	enum { N = 60 };
	double* d = h_data(N, 1, 5);
	for (int m = 0; m < 6; ++m) for (int um = 0; um < 4; ++um) {
		if (m == 1 && um > 1) continue;
		cb_install(); cb_arm(-1); cb_open = 0;
		scc_DataSet* ds; scc_Clustering* cl; scc_init_data_set(N, 1, N, d, &ds); scc_init_empty_clustering(N, NULL, &cl);
		scc_ClusterOptions o = scc_get_default_options(); o.size_constraint = 4; o.seed_method = m; o.primary_unassigned_method = um;
		scc_ErrorCode ec = scc_sc_clustering(ds, &o, cl);
		EXPECT(ec == SCC_ER_OK, "code %d", ec);
		EXPECT(cb_open == 0, "method %d/%d: %ld search objects left open", m, um, cb_open);
		scc_free_clustering(&cl); scc_free_data_set(&ds);
	}
	return h_bad;
}
""", edits=[(N,'''	free(seed_or_neighbor);
	free(to_assign);
	if (nn_assigned_search_object != NULL) {
		iscc_close_nn_search_object(&nn_assigned_search_object);
	}
	if (nn_seed_search_object != NULL) {
		iscc_close_nn_search_object(&nn_seed_search_object);
	}

	return ec;
}
''','''	free(seed_or_neighbor);
	free(to_assign);
	assert((nn_assigned_search_object == NULL) || iscc_close_nn_search_object(&nn_assigned_search_object));
	assert((nn_seed_search_object == NULL) || iscc_close_nn_search_object(&nn_seed_search_object));

	return ec;
}
''')], needs="a build without assertions and unassigned points assigned to the closest seed or assigned point", breaks="search objects stay open in release builds"),
]
