SW = open("/verif/tools/seedkit/sweep.inc").read() + "int main(void) { sweep(); return h_bad; }\n"
HI = '#include "harness.h"\n'
H='src/hierarchical_clustering.c'; D='src/digraph_operations.c'; C='src/digraph_core.c'; B='src/nng_batch_clustering.c'; S='src/scclust.c'; R='src/error.c'; P='src/scclust_spi.c'; U='src/utilities.c'; N='src/nng_core.c'; F='src/nng_findseeds.c'; K='src/nng_clustering.c'; X='src/data_set.c'; I='src/dist_search_imp.c'
SPECS = [
 dict(id="p01-seed-buffer-lost-on-growth", property="P01", demo=HI + """
/* many isolated seeds: the seed list has to grow; every allocation failing in turn */
int main(void)
{
	enum { N = 600 };
	double* d = __real_malloc(sizeof(double) * N);
	for (int i = 0; i < N; ++i) d[i] = 1000.0 * (i / 2) + (i % 2);
	cb_install();
	for (int m = 2; m < 6 && !h_bad; ++m) for (long i = 1; i < 60 && !h_bad; ++i) {
		scc_DataSet* ds; scc_Clustering* cl; h_arm(-1);
		scc_init_data_set(N, 1, N, d, &ds); scc_init_empty_clustering(N, NULL, &cl);
		scc_ClusterOptions o = scc_get_default_options(); o.size_constraint = 2; o.seed_method = m;
		h_arm(i);
		scc_sc_clustering(ds, &o, cl);
		h_arm(-1);
		scc_free_clustering(&cl); scc_free_data_set(&ds);
		EXPECT(h_badfree == 0 && h_live == 0, "method %d, alloc %ld failed: %ld bad frees, %ld live", m, i, h_badfree, h_live);
	}
	return h_bad;
}
""", edits=[(F,'''		scc_PointIndex* const seeds_tmp_ptr = realloc(seed_result->seeds, sizeof(scc_PointIndex[seed_result->capacity]));
		if (seeds_tmp_ptr == NULL) return iscc_make_error(SCC_ER_NO_MEMORY);
		seed_result->seeds = seeds_tmp_ptr;''','''		seed_result->seeds = realloc(seed_result->seeds, sizeof(scc_PointIndex[seed_result->capacity]));
		if (seed_result->seeds == NULL) return iscc_make_error(SCC_ER_NO_MEMORY);''')],
  needs="more seeds than first guessed and the growth of the seed list failing", breaks="the old seed list is never released"),
 dict(id="p01-type-graph-leak-on-empty-type", property="P01", demo=HI + """
/* two types; within the radius the second type is out of reach */
int main(void)
{
	enum { N = 40 };
	double* d = __real_malloc(sizeof(double) * N); scc_TypeLabel tl[N];
	for (int i = 0; i < N; ++i) { tl[i] = i % 2; d[i] = (i % 2) * 1e6 * (i + 1) + (1 - i % 2) * i; }
	for (int second = 0; second < 2; ++second) {
		uint32_t tc[2] = { 1, 1 };
		if (second) for (int i = 0; i < N; ++i) tl[i] = 1 - tl[i];
		scc_DataSet* ds; scc_Clustering* cl; scc_init_data_set(N, 1, N, d, &ds); scc_init_empty_clustering(N, NULL, &cl);
		scc_ClusterOptions o = scc_get_default_options(); o.size_constraint = 2; o.num_types = 2; o.type_constraints = tc; o.len_type_labels = N; o.type_labels = tl;
		scc_PointIndex pp[N / 2]; for (int i = 0; i < N / 2; ++i) pp[i] = 2 * i; o.primary_data_points = pp; o.len_primary_data_points = N / 2;
		o.seed_radius = SCC_RM_USE_SUPPLIED; o.seed_supplied_radius = 3.0;
		scc_ErrorCode ec = scc_sc_clustering(ds, &o, cl);
		EXPECT(ec == SCC_ER_NO_SOLUTION, "code %d", ec);
		scc_free_clustering(&cl); scc_free_data_set(&ds);
		EXPECT(h_live == 0 && h_badfree == 0, "%ld blocks left, %ld bad frees", h_live, h_badfree);
	}
	return h_bad;
}
""", edits=[(N,'''			++num_non_zero_type_constraints;
			if (iscc_digraph_is_empty(&nng_by_type[num_non_zero_type_constraints - 1])) {
				ec = iscc_make_error_msg(SCC_ER_NO_SOLUTION, "Infeasible radius constraint.");
				break;
			}
			iscc_ensure_self_match(''','''			if (iscc_digraph_is_empty(&nng_by_type[num_non_zero_type_constraints])) {
				ec = iscc_make_error_msg(SCC_ER_NO_SOLUTION, "Infeasible radius constraint.");
				break;
			}
			++num_non_zero_type_constraints;
			iscc_ensure_self_match(''')],
  needs="type constraints with a radius within which no point of one type can be reached", breaks="the empty graph of that type is never released"),
 dict(id="p02-edge-store-unchecked", property="P02", demo=SW, edits=[(H,'''	        (work_area.edge_store1 == NULL) || (work_area.edge_store2 == NULL)) {''','''	        (work_area.edge_store1 == NULL)) {''')],
  needs="hierarchical clustering with exactly the second edge store failing to allocate", breaks="null store is used"),
 dict(id="p02-union-failure-called-too-large", property="P02", demo=SW, edits=[(D,'''		if ((ec = iscc_init_digraph(vertices, out_arcs_write, out_dg)) != SCC_ER_OK) {
			free(row_markers);
			return ec;
		}
	}

	out_arcs_write = iscc_do_union''','''		if ((ec = iscc_init_digraph(vertices, out_arcs_write, out_dg)) != SCC_ER_OK) {
			free(row_markers);
			return iscc_make_error_msg(SCC_ER_TOO_LARGE_PROBLEM, "Too many arcs in graph (adjust the `iscc_ArcIndex` type).");
		}
	}

	out_arcs_write = iscc_do_union''')],
  needs="type constraints and the union graph's exact-size allocation failing", breaks="reported as a too large problem instead of out of memory"),
 dict(id="p03-batch-search-failure-ends-quietly", property="P03", demo=HI + """
/* a later batch fails after earlier ones have made clusters */
int main(void)
{
	enum { N = 60 };
	double* d = h_data(N, 2, 5);
	cb_install();
	for (long i = 1; i < 40; ++i) {
		scc_DataSet* ds; scc_Clustering* cl; scc_init_data_set(N, 2, 2 * N, d, &ds); scc_init_empty_clustering(N, NULL, &cl);
		scc_ClusterOptions o = scc_get_default_options(); o.size_constraint = 2; o.seed_method = SCC_SM_BATCHES; o.batch_size = 5;
		cb_arm(i);
		scc_ErrorCode ec = scc_sc_clustering(ds, &o, cl);
		if (cb_failed) EXPECT(ec == SCC_ER_DIST_SEARCH_ERROR, "callback %ld failed, code %d", i, ec);
		scc_free_clustering(&cl); scc_free_data_set(&ds);
	}
	return h_bad;
}
""", edits=[(B,'''		                                  out_indices)) {
			return iscc_make_error(SCC_ER_DIST_SEARCH_ERROR);
		}''','''		                                  out_indices)) {
			if (next_cluster_label > 0) break;
			return iscc_make_error(SCC_ER_DIST_SEARCH_ERROR);
		}''')],
  needs="batch seeds with a search failing after the first cluster was made", breaks="the call reports success with a partial clustering"),
 dict(id="p03-hierarchical-center-failure-code", property="P03", demo=SW, edits=[(H,'''	                        row_dists)) {
		return iscc_make_error(SCC_ER_DIST_SEARCH_ERROR);
	}''','''	                        row_dists)) {
		return iscc_make_error(SCC_ER_NO_SOLUTION);
	}''')],
  needs="hierarchical clustering with a failing row query", breaks="the failure is reported as 'no solution'"),
 dict(id="p04-stale-message", property="P04", demo=HI + """
/* an error with its own text, then one without: the text must belong to the second */
int main(void)
{
	scc_DataSet* ds; char buf[300], ref[300];
	double d[8] = { 0 };
	h_arm(1);
	scc_ErrorCode ec = scc_init_data_set(4, 2, 8, d, &ds);
	EXPECT(ec == SCC_ER_NO_MEMORY, "code %d", ec);
	scc_get_latest_error(300, ref);
	h_arm(-1);
	ec = scc_init_data_set(4, 0, 8, d, &ds);
	EXPECT(ec == SCC_ER_INVALID_INPUT, "code %d", ec);
	h_arm(1);
	ec = scc_init_data_set(4, 2, 8, d, &ds);
	EXPECT(ec == SCC_ER_NO_MEMORY, "code %d", ec);
	scc_get_latest_error(300, buf);
	EXPECT(!strcmp(buf, ref), "out of memory is described as %s", buf);
	return h_bad;
}
""", edits=[(R,'''	iscc_error_msg = msg;
	iscc_error_file = file;''','''	if (msg != NULL) iscc_error_msg = msg;
	iscc_error_file = file;''')],
  needs="an error with a message followed by one without", breaks="the later error is described with the earlier message"),
 dict(id="p04-union-error-record-cleared", property="P04", demo=open("/verif/tools/seedkit/sweep.inc").read().replace("*k = cl ? cl->num_clusters : 0;", """*k = cl ? cl->num_clusters : 0;
	if (ec != SCC_ER_OK) { char b[300]; scc_get_latest_error(300, b); EXPECT(!strstr(b, "No error"), "code %d but the report says: %s", ec, b); }""") + "int main(void) { sweep(); return h_bad; }\n",
  edits=[(D,'''		if ((ec = iscc_init_digraph(vertices, out_arcs_write, out_dg)) != SCC_ER_OK) {
			free(row_markers);
			return ec;
		}
	}

	out_arcs_write = iscc_do_union''','''		if ((ec = iscc_init_digraph(vertices, out_arcs_write, out_dg)) != SCC_ER_OK) {
			free(row_markers);
			iscc_reset_error();
			return ec;
		}
	}

	out_arcs_write = iscc_do_union''')],
  needs="graph union whose first and second allocation both fail", breaks="the error is returned but the record says there is none"),
 dict(id="p05-copy-output-not-cleared", property="P05", demo=HI + """
int main(void)
{
	scc_Clustering* out = (scc_Clustering*) (uintptr_t) 0x10;
	scc_ErrorCode ec = scc_copy_clustering(NULL, &out);
	EXPECT(ec != SCC_ER_OK && out == NULL, "failed copy leaves a handle");
	return h_bad;
}
""", edits=[(S,'''	// Initialize to null, so subsequent functions detect invalid clustering
	// if user doesn't check for errors.
	*out_clustering = NULL;

	if (!iscc_check_input_clustering(in_clustering)) {
		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid clustering object.");
	}
''','''	if (!iscc_check_input_clustering(in_clustering)) {
		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid clustering object.");
	}
	// Initialize to null, so subsequent functions detect invalid clustering
	// if user doesn't check for errors.
	*out_clustering = NULL;
''')],
  needs="copying from an invalid clustering", breaks="the output handle keeps its old value"),
 dict(id="p05-free-keeps-labels-of-empty", property="P05", demo=HI + """
/* a clustering call that fails after it made labels leaves an empty clustering which owns them */
int main(void)
{
	enum { N = 40 };
	double* d = h_data(N, 2, 7);
	cb_install();
	for (int m = 0; m < 6; ++m) for (long i = 1; i < 30; ++i) {
		scc_DataSet* ds; scc_Clustering* cl; scc_init_data_set(N, 2, 2 * N, d, &ds); scc_init_empty_clustering(N, NULL, &cl);
		scc_ClusterOptions o = scc_get_default_options(); o.size_constraint = 3; o.seed_method = m; if (m == SCC_SM_BATCHES) o.batch_size = 7;
		if (m != SCC_SM_BATCHES) o.primary_unassigned_method = SCC_UM_CLOSEST_SEED;
		cb_arm(i);
		scc_sc_clustering(ds, &o, cl);
		cb_arm(-1);
		scc_free_clustering(&cl); scc_free_data_set(&ds);
		EXPECT(h_live == 0 && h_badfree == 0, "callback %ld failed: %ld blocks left", i, h_live);
	}
	return h_bad;
}
""", edits=[(S,'''		if (!((*clustering)->external_labels)) free((*clustering)->cluster_label);
''','''		if (((*clustering)->num_clusters > 0) && !((*clustering)->external_labels)) free((*clustering)->cluster_label);
''')],
  needs="freeing a clustering whose clustering call failed after labels were made", breaks="the labels are never released"),
 dict(id="p06-copy-truncated", property="P06", demo=HI + """
int main(void)
{
	scc_Clabel lab[6] = { 0, 1, 1, 0, 1, 0 }, out[6];
	scc_Clustering *a, *b;
	scc_init_existing_clustering(6, 2, lab, true, &a);
	scc_copy_clustering(a, &b);
	scc_get_cluster_labels(b, 6, out);
	EXPECT(!memcmp(lab, out, sizeof(lab)), "copied labels differ");
	scc_free_clustering(&a); scc_free_clustering(&b);
	scc_Clabel l3[6] = { 0, 1, 2, 3, 4, 5 };
	return h_bad;
}
""", edits=[(S,'in_clustering->cluster_label, in_clustering->num_data_points * sizeof(scc_Clabel)','in_clustering->cluster_label, (in_clustering->num_data_points - (in_clustering->num_clusters == 2)) * sizeof(scc_Clabel)')],
  needs="copying a clustering with exactly two clusters", breaks="the copy's last label is not that of the original"),
 dict(id="p06-single-cluster-shared-labels-freed", property="P06", demo=HI + """
int main(void)
{
	static scc_Clabel lab[4] = { 0, 0, 0, 0 };
	scc_Clustering* a;
	scc_init_existing_clustering(4, 1, lab, false, &a);
	EXPECT(a->external_labels, "shared labels taken over");
	scc_free_clustering(&a);
	EXPECT(h_badfree == 0, "the caller's labels were released");
	return h_bad;
}
""", edits=[(S,'.external_labels = !deep_label_copy,','.external_labels = !deep_label_copy && (num_clusters > 1),')],
  needs="an existing clustering with a single cluster made without copying", breaks="the caller's label array is released by the library"),
 dict(id="p07-last-primary-unsorted", property="P07", demo=HI + """
int main(void)
{
	enum { N = 20 };
	double* d = h_data(N, 1, 3);
	scc_PointIndex pp[4] = { 1, 5, 9, 9 };
	for (int v = 0; v < 2; ++v) {
		pp[3] = v ? 2 : 9;
		scc_DataSet* ds; scc_Clustering* cl; scc_init_data_set(N, 1, N, d, &ds); scc_init_empty_clustering(N, NULL, &cl);
		scc_ClusterOptions o = scc_get_default_options(); o.size_constraint = 2; o.primary_data_points = pp; o.len_primary_data_points = 4;
		scc_ErrorCode ec = scc_sc_clustering(ds, &o, cl);
		EXPECT(ec == SCC_ER_INVALID_INPUT, "unsorted primary points: code %d", ec);
		scc_free_clustering(&cl); scc_free_data_set(&ds);
	}
	return h_bad;
}
""", edits=[(U,'''		for (size_t i = 1; i < options->len_primary_data_points; ++i) {''','''		for (size_t i = 1; i + 1 < options->len_primary_data_points; ++i) {''')],
  needs="primary data points out of order only at the very end", breaks="the unsorted list is accepted"),
 dict(id="p08-data-set-larger-than-clustering", property="P08", demo=HI + """
int main(void)
{
	enum { N = 20 };
	double* d = h_data(N, 1, 3);
	scc_DataSet* ds; scc_Clustering* cl; scc_init_data_set(N, 1, N, d, &ds); scc_init_empty_clustering(N - 4, NULL, &cl);
	scc_ClusterOptions o = scc_get_default_options(); o.size_constraint = 2;
	scc_ErrorCode ec = scc_sc_clustering(ds, &o, cl);
	EXPECT(ec == SCC_ER_INVALID_INPUT, "mismatched sizes: code %d", ec);
	return h_bad;
}
""", edits=[(K,'''	if (iscc_num_data_points(data_set) != out_clustering->num_data_points) {''','''	if (iscc_num_data_points(data_set) < out_clustering->num_data_points) {''')],
  needs="a data set with more points than the clustering object", breaks="the mismatch is accepted"),
 dict(id="p08-labels-of-failed-clustering", property="P08", demo=HI + """
int main(void)
{
	enum { N = 6 };
	scc_Clabel ext[N] = { 0 }, out[N];
	scc_Clustering* cl; scc_init_empty_clustering(N, ext, &cl);
	scc_ErrorCode ec = scc_get_cluster_labels(cl, N, out);
	EXPECT(ec == SCC_ER_INVALID_INPUT, "labels of an empty clustering: code %d", ec);
	scc_free_clustering(&cl);
	return h_bad;
}
""", edits=[(S,'''	if (clustering->num_clusters == 0) {
		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Empty clustering.");
	}
	if (len_out''','''	if (clustering->cluster_label == NULL) {
		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Empty clustering.");
	}
	if (len_out''')],
  needs="an empty clustering with a caller's label array", breaks="meaningless labels are handed out"),
 dict(id="p09-sorts-primary-in-place", property="P09", demo=HI + """
int main(void)
{
	enum { N = 40 };
	double* d = __real_malloc(sizeof(double) * N); scc_TypeLabel tl[N];
	for (int i = 0; i < N; ++i) { d[i] = i < 20 ? i : 1000.0 * i; tl[i] = i % 2; }
	scc_PointIndex pp[N / 2], ref[N / 2]; for (int i = 0; i < N / 2; ++i) pp[i] = ref[i] = 2 * i;
	uint32_t tc[2] = { 1, 1 };
	scc_DataSet* ds; scc_Clustering* cl; scc_init_data_set(N, 1, N, d, &ds); scc_init_empty_clustering(N, NULL, &cl);
	scc_ClusterOptions o = scc_get_default_options(); o.size_constraint = 2; o.num_types = 2; o.type_constraints = tc; o.len_type_labels = N; o.type_labels = tl;
	o.primary_data_points = pp; o.len_primary_data_points = N / 2; o.seed_radius = SCC_RM_USE_SUPPLIED; o.seed_supplied_radius = 3.0;
	scc_ErrorCode ec = scc_sc_clustering(ds, &o, cl);
	EXPECT(!memcmp(pp, ref, sizeof(pp)), "primary data points changed (code %d)", ec);
	return h_bad;
}
""", edits=[(N,'''	for (uint_fast16_t i = 0; i < num_types; ++i) {
		if (type_constraints[i] > 0) {
			if ((ec = iscc_make_nng(''','''	if ((seedable != NULL) && (primary_data_points != NULL)) seedable = (scc_PointIndex*) (uintptr_t) primary_data_points;
	for (uint_fast16_t i = 0; i < num_types; ++i) {
		if (type_constraints[i] > 0) {
			if ((ec = iscc_make_nng(''')],
  needs="type constraints, a radius and primary data points of which some are out of reach", breaks="the caller's primary data points are overwritten"),
 dict(id="p12-secondary-radius-ignored", property="P12", demo="", edits=[], needs="", breaks="") ,
 dict(id="p13-remembered-capacity", property="P13", demo=HI + """
/* the same call must request the same memory whatever was clustered before */
static long run(int n, const double* d)
{
	scc_DataSet* ds; scc_Clustering* cl; scc_init_data_set(n, 1, n, d, &ds); scc_init_empty_clustering(n, NULL, &cl);
	scc_ClusterOptions o = scc_get_default_options(); o.size_constraint = 2;
	h_arm(-1);
	scc_sc_clustering(ds, &o, cl);
	long k = h_allocs;
	scc_free_clustering(&cl); scc_free_data_set(&ds);
	return k;
}
int main(void)
{
	enum { N = 2000 };
	double* d = __real_malloc(sizeof(double) * N);
	for (int i = 0; i < N; ++i) d[i] = 1000.0 * (i / 2) + (i % 2);
	/* 300 points: no growth needed the second time when a larger problem was solved before */
	double* e = __real_malloc(sizeof(double) * 6000);
	for (int i = 0; i < 6000; ++i) e[i] = i < 12 ? i / 10.0 : 1e4 + i;
	long a = run(N, d); run(6000, e); long b = run(N, d);
	EXPECT(a == b, "same call, %ld and then %ld memory requests", a, b);
	return h_bad;
}
""", edits=[(F,'''	bool* const marks = calloc(nng->vertices, sizeof(bool));
	out_seeds->seeds = malloc(sizeof(scc_PointIndex[out_seeds->capacity]));
	if ((marks == NULL) || (out_seeds->seeds == NULL)) {
		free(marks);
		free(out_seeds->seeds);
		return iscc_make_error(SCC_ER_NO_MEMORY);
	}

	scc_ErrorCode ec;
	assert''','''	static size_t last_capacity = 0;
	if (out_seeds->capacity < last_capacity) out_seeds->capacity = last_capacity;
	last_capacity = out_seeds->capacity;
	bool* const marks = calloc(nng->vertices, sizeof(bool));
	out_seeds->seeds = malloc(sizeof(scc_PointIndex[out_seeds->capacity]));
	if ((marks == NULL) || (out_seeds->seeds == NULL)) {
		free(marks);
		free(out_seeds->seeds);
		return iscc_make_error(SCC_ER_NO_MEMORY);
	}

	scc_ErrorCode ec;
	assert''')],
  needs="a larger problem solved earlier in the same process", breaks="memory behaviour depends on earlier calls"),
 dict(id="p14-batch-flags-uninitialised", property="P14", demo=HI + """
int main(void)
{
	enum { N = 30 };
	double* d = h_data(N, 1, 3);
	scc_DataSet* ds; scc_Clustering* cl; scc_init_data_set(N, 1, N, d, &ds); scc_init_empty_clustering(N, NULL, &cl);
	scc_ClusterOptions o = scc_get_default_options(); o.size_constraint = 2; o.seed_method = SCC_SM_BATCHES;
	scc_PointIndex pp[N / 2]; for (int i = 0; i < N / 2; ++i) pp[i] = 2 * i; o.primary_data_points = pp; o.len_primary_data_points = N / 2;
	o.primary_unassigned_method = SCC_UM_ANY_NEIGHBOR;
	scc_sc_clustering(ds, &o, cl);
	long reached = 0; 
	for (int i = 1; i < N; i += 2) reached += cl->cluster_label[i] != SCC_CLABEL_NA;
	/* only points with an index in the list may be assigned for their own sake: others only as neighbours of seeds */
	long size[N] = { 0 }; for (int i = 0; i < N; ++i) if (cl->cluster_label[i] != SCC_CLABEL_NA) ++size[cl->cluster_label[i]];
	EXPECT(cl->num_clusters <= N / 2, "clusters %zu", cl->num_clusters);
	scc_free_clustering(&cl);
	for (int v = 0; v < 2; ++v) ;
	return h_bad;
}
""", edits=[], needs="", breaks=""),
 dict(id="p16-failed-refinement-shrinks", property="P16", demo=HI + """
int main(void)
{
	enum { N = 20 };
	double* d = h_data(N, 1, 3);
	scc_Clabel lab[N]; for (int i = 0; i < N; ++i) lab[i] = i % 4;
	scc_DataSet* ds; scc_Clustering* cl; scc_init_data_set(N, 1, N, d, &ds); scc_init_existing_clustering(N, 4, lab, true, &cl);
	scc_ClusterOptions o = scc_get_default_options(); o.size_constraint = 2;
	scc_ErrorCode ec = scc_sc_clustering(ds, &o, cl);
	uint64_t k = 0; scc_get_clustering_info(cl, NULL, &k);
	EXPECT(ec == SCC_ER_NOT_IMPLEMENTED, "code %d", ec);
	EXPECT(k == 4, "refused call leaves %d clusters", (int) k);
	return h_bad;
}
""", edits=[(K,'''	if (out_clustering->num_clusters != 0) {
		return iscc_make_error_msg(SCC_ER_NOT_IMPLEMENTED, "Cannot refine existing clusterings.");
	}
''','''	if (out_clustering->num_clusters != 0) {
		out_clustering->num_clusters = 0;
		return iscc_make_error_msg(SCC_ER_NOT_IMPLEMENTED, "Cannot refine existing clusterings.");
	}
''')],
  needs="a clustering call on a clustering which already has clusters", breaks="the refused call empties the caller's clustering"),
 dict(id="p17-last-surplus-slot", property="P17", demo=HI + """
int main(void)
{
	scc_Clabel lab[4] = { 0, 1, 0, 1 }, out[9];
	scc_Clustering* a; scc_init_existing_clustering(4, 2, lab, true, &a);
	for (int n = 4; n < 9; ++n) {
		memset(out, 0x11, sizeof(out));
		scc_ErrorCode ec = scc_get_cluster_labels(a, n, out);
		EXPECT(ec == SCC_ER_OK && !memcmp(out, lab, sizeof(lab)), "labels");
		for (int i = 4; i < n; ++i) EXPECT(out[i] == SCC_CLABEL_NA, "surplus entry %d of %d not filled", i, n);
	}
	return h_bad;
}
""", edits=[(S,'''	for (; write < len_out_label_buffer; ++write) {
		out''','''	for (; write + 1 < len_out_label_buffer; ++write) {
		out''')],
  needs="a label buffer longer than the clustering", breaks="the last surplus entry is not marked unassigned"),
 dict(id="p18-empty-cluster-approved", property="P18", demo=HI + """
int main(void)
{
	scc_Clabel lab[6] = { 0, 0, 0, 2, 2, 2 };
	scc_Clustering* a; scc_init_existing_clustering(6, 3, lab, true, &a);
	scc_ClusterOptions o = scc_get_default_options(); o.size_constraint = 2;
	bool ok = true; scc_ErrorCode ec = scc_check_clustering(a, &o, &ok);
	EXPECT(ec == SCC_ER_OK && !ok, "clustering with an empty cluster approved (code %d)", ec);
	return h_bad;
}
""", edits=[(U,'''			if (cluster_sizes[i] < size_constraint) {''','''			if ((cluster_sizes[i] > 0) && (cluster_sizes[i] < size_constraint)) {''')],
  needs="a clustering with a label no point carries", breaks="the empty cluster is approved"),
 dict(id="p18-last-type-not-counted", property="P18", demo=HI + """
int main(void)
{
	/* one cluster without the last type */
	scc_Clabel lab[8] = { 0, 0, 0, 0, 1, 1, 1, 1 }; scc_TypeLabel tl[8] = { 0, 1, 2, 0, 0, 1, 1, 1 }; uint32_t tc[3] = { 1, 1, 1 };
	scc_Clustering* a; scc_init_existing_clustering(8, 2, lab, true, &a);
	scc_ClusterOptions o = scc_get_default_options(); o.size_constraint = 3; o.num_types = 3; o.type_constraints = tc; o.type_labels = tl; o.len_type_labels = 8;
	bool ok = true; scc_ErrorCode ec = scc_check_clustering(a, &o, &ok);
	EXPECT(ec == SCC_ER_OK && !ok, "missing type approved (code %d)", ec);
	return h_bad;
}
""", edits=[(U,'''				if (cluster_type_sizes[(i * num_types) + t] < type_constraints[t]) {''','''				if ((tmp_total_size < size_constraint) && (cluster_type_sizes[(i * num_types) + t] < type_constraints[t])) {''')],
  needs="type constraints; a cluster reaching the total size before the missing type is looked at", breaks="a clustering missing a type is approved"),
]
SPECS = [s for s in SPECS if s["edits"]]
