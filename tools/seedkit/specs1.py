import os
KIT = os.path.dirname(os.path.abspath(__file__)) if "__file__" in globals() else "/verif/tools/seedkit"
SW = open("/verif/tools/seedkit/sweep.inc").read() + "int main(void) { sweep(); return h_bad; }\n"
SPECS = [
 dict(id="p01-typed-second-graph-leak", property="P01", demo=SW,
  edits=[("src/nng_core.c", """			free(seedable);
			iscc_free_digraph(&nng_sum[0]);
			return ec;""", """			free(seedable);
			return ec;""")],
  needs="type constraints plus a larger size constraint, and the second neighbour search (or its memory) failing",
  breaks="the first graph is never released when building the additional neighbours fails"),
 dict(id="p01-assigned-object-left-open", property="P01", demo=SW,
  edits=[("src/nng_core.c", """	if (ec != SCC_ER_OK) {
		free(seed_or_neighbor);
		if (nn_assigned_search_object != NULL) {
			iscc_close_nn_search_object(&nn_assigned_search_object);
		}
		return ec;
	}
""", """	if (ec != SCC_ER_OK) {
		free(seed_or_neighbor);
		return ec;
	}
""")],
  needs="one unassigned method 'closest assigned', the other 'closest seed', and creation of the second search object failing",
  breaks="the first search object stays open after the failed call"),
 dict(id="p01-hi-capacity-double-free", property="P01", demo="""#include "harness.h"
/* refinement of a clustering with many clusters so that the stack has to grow, growth failing */
int main(void)
{
	enum { N = 200 };
	for (long i = 1; i < 60; ++i) {
		double* d = h_data(N, 1, 3);
		scc_Clabel lab[N]; for (int j = 0; j < N; ++j) lab[j] = (scc_Clabel) (j < 180 ? 0 : 1 + (j - 180) / 2);
		scc_DataSet* ds; scc_Clustering* cl;
		h_arm(-1);
		scc_init_data_set(N, 1, N, d, &ds); scc_init_existing_clustering(N, 11, lab, true, &cl);
		h_arm(i);
		scc_ErrorCode ec = scc_hierarchical_clustering(ds, 2, false, cl);
		long failed = h_failed; h_arm(-1);
		if (failed) EXPECT(ec == SCC_ER_NO_MEMORY || ec == SCC_ER_DIST_SEARCH_ERROR, "code %d", ec);
		scc_free_clustering(&cl); scc_free_data_set(&ds);
		EXPECT(h_badfree == 0 && h_live == 0, "alloc %ld failed: %ld bad frees, %ld live", i, h_badfree, h_live);
		__real_free(d);
	}
	/* the stack only grows for deep splits: a chain of points far apart */
	for (long i = 1; i < 60; ++i) {
		enum { M = 4000 };
		double* d = __real_malloc(sizeof(double) * M); double x = 1; for (int j = 0; j < M; ++j) { d[j] = x; x *= 1.15; if (x > 1e300) x = 1e300 + j; }
		scc_DataSet* ds; scc_Clustering* cl; h_arm(-1);
		scc_init_data_set(M, 1, M, d, &ds); scc_init_empty_clustering(M, NULL, &cl);
		h_arm(i);
		scc_ErrorCode ec = scc_hierarchical_clustering(ds, 2, false, cl);
		long n = h_allocs, failed = h_failed; h_arm(-1);
		if (failed) EXPECT(ec == SCC_ER_NO_MEMORY || ec == SCC_ER_DIST_SEARCH_ERROR, "code %d", ec);
		scc_free_clustering(&cl); scc_free_data_set(&ds);
		EXPECT(h_badfree == 0 && h_live == 0, "growth alloc %ld failed: %ld bad frees, %ld live", i, h_badfree, h_live);
		__real_free(d);
		if (n < i) { printf("allocations: %ld\\n", n); break; }
	}
	return h_bad;
}
""",
  edits=[("src/hierarchical_clustering.c", """		if (clusters_tmp == NULL) return iscc_make_error(SCC_ER_NO_MEMORY);
""", """		if (clusters_tmp == NULL) {
			free(cl_stack->clusters);
			return iscc_make_error(SCC_ER_NO_MEMORY);
		}
""")],
  needs="a cluster stack that has to grow (very unbalanced splits) and the growth failing",
  breaks="the cluster stack is released twice"),
 dict(id="p02-difference-unchecked-markers", property="P02", demo=SW,
  edits=[("src/digraph_operations.c", """	scc_PointIndex* const row_markers = malloc(sizeof(scc_PointIndex[minuend_dg->vertices]));
	if (row_markers == NULL) return iscc_make_error(SCC_ER_NO_MEMORY);
""", """	scc_PointIndex* const row_markers = malloc(sizeof(scc_PointIndex[minuend_dg->vertices]));
	if (row_markers == NULL && minuend_dg->vertices == 0) return iscc_make_error(SCC_ER_NO_MEMORY);
""")],
  needs="type constraints with a general size constraint and a failing scratch allocation in the graph difference",
  breaks="null scratch array written"),
 dict(id="p03-estimate-ignores-failure", property="P03", demo=SW,
  edits=[("src/nng_core.c", """			free(dist_scratch);
			return iscc_make_error(SCC_ER_DIST_SEARCH_ERROR);
		}

		double tmp_dist = 0.0;""", """			if (sampled > 0) break;
			free(dist_scratch);
			return iscc_make_error(SCC_ER_DIST_SEARCH_ERROR);
		}

		double tmp_dist = 0.0;""")],
  needs="estimated radius and a distance row failing after at least one seed was sampled",
  breaks="the failure is swallowed and the call succeeds with a partial average"),
]
