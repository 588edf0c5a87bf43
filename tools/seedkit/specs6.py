exec(open("/verif/tools/seedkit/specs2.py").read().split("SPECS = [")[0])
N='src/nng_core.c'; U='src/utilities.c'; D='src/dist_search_imp.c'; Bt='src/nng_batch_clustering.c'; C='src/scclust.c'
SPECS = [
 dict(id="p22-partial-statistics-after-failure", property="P22", demo=HI + """
/* a distance callback that fails leaves no statistics */
int main(void)
{
	enum { N = 12 };
	double* d = h_data(N, 1, 5); scc_Clabel lab[N]; for (int i = 0; i < N; ++i) lab[i] = i % 3;
	for (int at = 1; at <= 3; ++at) {
		cb_install(); cb_arm(at);
		scc_DataSet* ds; scc_Clustering* cl; scc_init_data_set(N, 1, N, d, &ds); scc_init_existing_clustering(N, 3, lab, false, &cl);
		scc_ClusteringStats st, zero; memset(&st, 0x11, sizeof st); memset(&zero, 0, sizeof zero);
		scc_ErrorCode ec = scc_get_clustering_stats(ds, cl, &st);
		EXPECT(cb_failed == 0 || ec == SCC_ER_DIST_SEARCH_ERROR, "code %d", ec);
		EXPECT(ec == SCC_ER_OK || memcmp(&st, &zero, sizeof st) == 0, "call %d failed and %d points are reported", at, (int) st.num_data_points);
		scc_free_clustering(&cl); scc_free_data_set(&ds);
	}
	return h_bad;
}
""", edits=[(U,'''	if (tmp_stats.num_populated_clusters == 0) {
		free(cluster_size);
		*out_stats = tmp_stats;
		return iscc_no_error();
''','''	*out_stats = tmp_stats;
	if (tmp_stats.num_populated_clusters == 0) {
		free(cluster_size);
		return iscc_no_error();
''')], needs="a distance callback fails, or memory runs out, while statistics are derived", breaks="statistics are half filled in after an error"),
]
