exec(open("/verif/tools/seedkit/specs2.py").read().split("SPECS = [")[0])
H='src/hierarchical_clustering.c'
SPECS = [
 dict(id="p23-edges-ordered-up-to-a-tolerance", property="P23", demo=HI + """
/* scaling every coordinate by a power of two scales every distance exactly, so the clusters stay the same */
int main(void)
{
	enum { N = 60 };
	for (unsigned seed = 1; seed <= 20; ++seed) {
		double* d = h_data(N, 2, seed); scc_Clabel lab[2][N];
		for (int k = 0; k < 2; ++k) {
			for (int i = 0; k == 1 && i < 2 * N; ++i) d[i] *= 0x1p-60;
			scc_DataSet* ds; scc_Clustering* cl; scc_init_data_set(N, 2, 2 * N, d, &ds); scc_init_empty_clustering(N, NULL, &cl);
			EXPECT(scc_hierarchical_clustering(ds, 3, true, cl) == SCC_ER_OK, "failed");
			scc_get_cluster_labels(cl, N, lab[k]);
			scc_free_clustering(&cl); scc_free_data_set(&ds);
		}
		EXPECT(memcmp(lab[0], lab[1], sizeof lab[0]) == 0, "seed %u: the clusters depend on the unit of measurement", seed);
		free(d);
	}
	return h_bad;
}
""", edits=[(H,'''	if (dist_a < dist_b) return -1;
	if (dist_a > dist_b) return 1;
''','''	// Differences this small are rounding noise
	const double tolerance = 1e-12;
	if (dist_a < dist_b - tolerance) return -1;
	if (dist_a > dist_b + tolerance) return 1;
''')], needs="distances whose differences are far below one", breaks="the comparison given to qsort is not transitive: edges closer than a tolerance tie, so the sort is no order"),
]
