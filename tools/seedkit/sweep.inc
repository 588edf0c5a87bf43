#include "harness.h"
#ifndef H_STRICT_MEM
#define H_STRICT_MEM 0
#endif
/* many option settings; every allocation and every callback failing once, in turn */
static scc_ErrorCode one(int T, int M, int Pr, int um, int sum, int rad, int hi, size_t* k)
{
	enum { N = 40 };
	double* d = h_data(N, 2, 7);
	scc_DataSet* ds = NULL; scc_Clustering* cl = NULL;
	scc_ErrorCode ec = scc_init_data_set(N, 2, N * 2, d, &ds);
	if (ec == SCC_ER_OK) ec = scc_init_empty_clustering(N, NULL, &cl);
	if (ec == SCC_ER_OK) {
		if (hi) {
			ec = scc_hierarchical_clustering(ds, 3, Pr, cl);
		} else {
			scc_ClusterOptions o = scc_get_default_options();
			uint32_t tc[2] = { 1, T == 2 ? 2 : 1 };
			scc_TypeLabel tl[N]; for (int i = 0; i < N; ++i) tl[i] = (scc_TypeLabel) (i % 2);
			scc_PointIndex pp[N / 2]; for (int i = 0; i < N / 2; ++i) pp[i] = (scc_PointIndex) (2 * i + (i % 2));
			o.size_constraint = 3;
			if (T) { o.num_types = 2; o.type_constraints = tc; o.len_type_labels = N; o.type_labels = tl; }
			o.seed_method = M;
			if (Pr) { o.len_primary_data_points = N / 2; o.primary_data_points = pp; }
			o.primary_unassigned_method = um; o.secondary_unassigned_method = sum;
			if (rad & 1) { o.seed_radius = SCC_RM_USE_SUPPLIED; o.seed_supplied_radius = 60.0; }
			if (rad & 2) { o.primary_radius = SCC_RM_USE_ESTIMATED; o.secondary_radius = SCC_RM_USE_ESTIMATED; }
			if (M == SCC_SM_BATCHES) { o.secondary_radius = o.primary_radius = SCC_RM_USE_SEED_RADIUS; o.batch_size = 7; }
			ec = scc_sc_clustering(ds, &o, cl);
		}
	}
	*k = cl ? cl->num_clusters : 0;
	if (ec != SCC_ER_OK && cl) EXPECT(cl->num_clusters == 0, "failed call reports %zu clusters", cl->num_clusters);
	scc_free_clustering(&cl); scc_free_data_set(&ds);
	__real_free(d);
	return ec;
}
static void sweep1(int T, int M, int Pr, int um, int sum, int rad, int hi)
{
	size_t k; char nm[100];
	snprintf(nm, 100, "types=%d seed=%d primary=%d um=%d sum=%d rad=%d hi=%d", T, M, Pr, um, sum, rad, hi);
	h_arm(-1); cb_arm(-1);
	scc_ErrorCode base = one(T, M, Pr, um, sum, rad, hi, &k);
	long na = h_allocs, nc = cb_calls;
	EXPECT(h_live == 0 && cb_open == 0 && h_badfree == 0, "%s: plain run leaves %ld blocks %ld objects %ld bad frees", nm, h_live, cb_open, h_badfree);
	if (base == SCC_ER_INVALID_INPUT || base == SCC_ER_NOT_IMPLEMENTED) return;
	for (h_span = 1; h_span < 100; h_span += 98)
	for (long i = 1; i <= na && !h_bad; ++i) {
		h_arm(i); cb_arm(-1);
		scc_ErrorCode ec = one(T, M, Pr, um, sum, rad, hi, &k);
		if (h_failed && ec != SCC_ER_NO_MEMORY && ec != SCC_ER_DIST_SEARCH_ERROR && ec != base) EXPECT(0, "%s: alloc %ld failed, code %d", nm, i, ec);
		if (h_failed && ec == SCC_ER_OK && H_STRICT_MEM) EXPECT(0, "%s: alloc %ld failed, code OK", nm, i);
		EXPECT(h_live == 0 && cb_open == 0 && h_badfree == 0, "%s: alloc %ld failed: %ld blocks %ld objects left, %ld bad frees", nm, i, h_live, cb_open, h_badfree);
	}
	for (long i = 1; i <= nc && !h_bad; ++i) {
		h_arm(-1); cb_arm(i);
		scc_ErrorCode ec = one(T, M, Pr, um, sum, rad, hi, &k);
		if (cb_failed) EXPECT(ec == SCC_ER_DIST_SEARCH_ERROR, "%s: callback %ld failed, code %d", nm, i, ec);
		EXPECT(h_live == 0 && cb_open == 0 && h_badfree == 0, "%s: callback %ld failed: %ld blocks %ld objects left, %ld bad frees", nm, i, h_live, cb_open, h_badfree);
	}
}
static void sweep(void)
{
	cb_install();
	for (int T = 0; T < 3; ++T) for (int M = 0; M < 6; ++M) for (int Pr = 0; Pr < 2; ++Pr) for (int um = 0; um < 4; ++um)
		for (int sum = 0; sum < 4; sum += 1) for (int rad = 0; rad < 4; ++rad) {
			if (M == SCC_SM_BATCHES && (T || um > 1 || sum || rad > 1)) continue;
			if (sum == 1 || (M != 0 && M != 1 && (um != 1 || sum != 0 || rad > 1))) continue;
			if (!Pr && sum) continue;
			if (h_bad) return;
			sweep1(T, M, Pr, um, sum, rad, 0);
		}
	for (int b = 0; b < 2 && !h_bad; ++b) sweep1(0, 0, b, 0, 0, 0, 1);
}
