/* Abstract callers of the functions in the table of distance functions: analysed, never run. */
#include "src/dist_search.h"
#include "src/scclust_types.h"
#define T iscc_dist_functions

bool vp_drv_check(void* const ds) { return T.check_data_set(ds); }

size_t vp_drv_points(void* const ds) { return T.num_data_points(ds); }

bool vp_drv_matrix(void* const ds, const size_t n, const scc_PointIndex* const idx, double* const out) { return T.get_dist_matrix(ds, n, idx, out); }

bool vp_drv_rows(void* const ds, const size_t lq, const scc_PointIndex* const q, const size_t lc, const scc_PointIndex* const c, double* const out)
{
	return T.get_dist_rows(ds, lq, q, lc, c, out);
}

bool vp_drv_max(void* const ds, const size_t ls, const scc_PointIndex* const s, const size_t lq, const scc_PointIndex* const q,
                scc_PointIndex* const oi, double* const od)
{
	iscc_MaxDistObject* o = NULL;
	if (!T.init_max_dist_object(ds, ls, s, &o)) return false;
	const bool first = T.get_max_dist(o, lq, q, oi, od);
	const bool second = first && T.get_max_dist(o, lq, q, oi, od);
	T.close_max_dist_object(&o);
	T.close_max_dist_object(&o);
	return second;
}

bool vp_drv_nn(void* const ds, const size_t ls, const scc_PointIndex* const s, const size_t lq, const scc_PointIndex* const q,
               const uint32_t k, const bool rs, const double r, size_t* const ok, scc_PointIndex* const oq, scc_PointIndex* const onn)
{
	iscc_NNSearchObject* o = NULL;
	if (!T.init_nn_search_object(ds, ls, s, &o)) return false;
	const bool done = T.nearest_neighbor_search(o, lq, q, k, rs, r, ok, oq, onn);
	T.close_nn_search_object(&o);
	T.close_nn_search_object(&o);
	return done;
}
