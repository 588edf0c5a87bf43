/* shared by the demonstrations: failing allocations, live-block accounting, failing and recording distance callbacks */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <stdint.h>
#include <float.h>
#include <math.h>
#include "include/scclust.h"
#include "include/scclust_spi.h"
#include "src/dist_search_imp.h"
#include "src/clustering_struct.h"
#include "src/data_set_struct.h"

void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
static long h_allocs = 0, h_fail_at = -1, h_live = 0, h_badfree = 0, h_failed = 0;
static bool h_fail_shrink = true;
#define H_MAX 100000
static void* h_tab[H_MAX]; static size_t h_size[H_MAX];
static int h_find(void* p) { for (int i = 0; i < H_MAX; ++i) if (h_tab[i] == p) return i; return -1; }
static int h_top = 0;
static void h_add(void* p, size_t s) { for (int i = 0; i < H_MAX; ++i) if (!h_tab[i]) { h_tab[i] = p; h_size[i] = s; ++h_live; if (i >= h_top) h_top = i + 1; return; } abort(); }
static long h_over = 0; /* blocks written past their end */
static void* h_zone(size_t s) { unsigned char* p = __real_malloc(s + 4096); if (p) memset(p + s, 0x5C, 4096); return p; }
static void h_tail(int i) { const unsigned char* p = h_tab[i]; for (int k = 0; k < 4096; ++k) if (p[h_size[i] + k] != 0x5C) { ++h_over; return; } }
static long h_span = 1; static unsigned long long h_fail_above = 0;
static bool h_now(void) { ++h_allocs; if (h_fail_at > 0 && h_allocs >= h_fail_at && h_allocs < h_fail_at + h_span) { ++h_failed; return true; } return false; }
void* __wrap_malloc(size_t s) { if (h_now() || (h_fail_above && s > h_fail_above)) return NULL; void* p = h_zone(s); if (p) { memset(p, 0xA5, s); h_add(p, s); } return p; }
void* __wrap_calloc(size_t n, size_t s) { if (h_now()) return NULL; if (h_fail_above && (double) n * (double) s > (double) h_fail_above) return NULL; void* p = h_zone(n * s); if (p) { memset(p, 0, n * s); h_add(p, n * s); } return p; }
void* __wrap_realloc(void* p, size_t s) {
	if (!p) return __wrap_malloc(s);
	if (h_now()) return NULL;
	int i = h_find(p); if (i < 0) { ++h_badfree; return NULL; }
	void* q = h_zone(s); size_t m = s < h_size[i] ? s : h_size[i];
	memcpy(q, p, m); if (s > m) memset((char*) q + m, 0xA5, s - m);
	h_tail(i); h_tab[i] = NULL; --h_live; __real_free(p); h_add(q, s); return q;
}
void __wrap_free(void* p) { if (!p) return; int i = h_find(p); if (i < 0) { ++h_badfree; return; } h_tail(i); h_tab[i] = NULL; --h_live; memset(p, 0x5A, h_size[i]); __real_free(p); }
static void h_arm(long at) { h_allocs = 0; h_fail_at = at; h_failed = 0; }

/* callbacks: delegate to the built-in ones, count, and fail on request */
static long cb_calls = 0, cb_fail_at = -1, cb_failed = 0, cb_open = 0;
static bool cb_now(void) { ++cb_calls; if (cb_calls == cb_fail_at) { ++cb_failed; return true; } return false; }
static void cb_arm(long at) { cb_calls = 0; cb_fail_at = at; cb_failed = 0; }
typedef struct { size_t nq; const scc_PointIndex* q; uint32_t k; bool rs; double r; bool oq; size_t nsearch; const scc_PointIndex* search; } cb_nn_rec;
static cb_nn_rec cb_rec[4096]; static int cb_nrec = 0;
static size_t cb_last_ns; static const scc_PointIndex* cb_last_s;
static bool cb_matrix(void* d, size_t n, const scc_PointIndex* i, double* o) { if (cb_now()) return false; return iscc_imp_get_dist_matrix(d, n, i, o); }
static bool cb_rows(void* d, size_t nq, const scc_PointIndex* q, size_t nc, const scc_PointIndex* c, double* o) { if (cb_now()) return false; return iscc_imp_get_dist_rows(d, nq, q, nc, c, o); }
static bool cb_imd(void* d, size_t n, const scc_PointIndex* i, iscc_MaxDistObject** o) { if (cb_now()) return false; if (!iscc_imp_init_max_dist_object(d, n, i, o)) return false; ++cb_open; return true; }
static bool cb_gmd(iscc_MaxDistObject* m, size_t n, const scc_PointIndex* q, scc_PointIndex* oi, double* od) { if (cb_now()) return false; return iscc_imp_get_max_dist(m, n, q, oi, od); }
static bool cb_cmd(iscc_MaxDistObject** m) { if (m && *m) --cb_open; return iscc_imp_close_max_dist_object(m); }
static bool cb_inn(void* d, size_t n, const scc_PointIndex* i, iscc_NNSearchObject** o) { if (cb_now()) return false; if (!iscc_imp_init_nn_search_object(d, n, i, o)) return false; ++cb_open; cb_last_ns = n; cb_last_s = i; return true; }
static bool cb_nns(iscc_NNSearchObject* s, size_t n, const scc_PointIndex* q, uint32_t k, bool rs, double r, size_t* ok, scc_PointIndex* oq, scc_PointIndex* onn) {
	if (cb_nrec < 4096) cb_rec[cb_nrec++] = (cb_nn_rec) { n, q, k, rs, r, oq != NULL, cb_last_ns, cb_last_s };
	if (cb_now()) return false;
	return iscc_imp_nearest_neighbor_search(s, n, q, k, rs, r, ok, oq, onn);
}
static bool cb_cnn(iscc_NNSearchObject** s) { if (s && *s) --cb_open; return iscc_imp_close_nn_search_object(s); }
static void cb_install(void) { scc_set_dist_functions(NULL, NULL, cb_matrix, cb_rows, cb_imd, cb_gmd, cb_cmd, cb_inn, cb_nns, cb_cnn); }

static double* h_data(size_t n, unsigned dim, unsigned seed) {
	double* d = __real_malloc(sizeof(double) * n * dim);
	unsigned long long x = seed * 2654435761ULL + 12345;
	for (size_t i = 0; i < n * dim; ++i) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; d[i] = (double) ((x >> 33) % 100000) / 1000.0; }
	return d;
}
static int h_bad = 0;
#define EXPECT(c, ...) do { if (!(c)) { h_bad = 1; printf("FAIL: " __VA_ARGS__); printf("\n"); } } while (0)
