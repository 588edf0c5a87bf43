From 7bf582c1ce6190f6687c3a1c019b9b921ca258db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:19 +0000
Subject: [PATCH 01/22] fix: return after failed allocation in
 iscc_findseeds_exclusion

The NULL check on tmp_index_not_excluded released not_excluded and recorded
the error but went on to use both blocks.
---
 src/nng_findseeds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nng_findseeds.c b/src/nng_findseeds.c
index 45acca3..058a512 100644
--- a/src/nng_findseeds.c
+++ b/src/nng_findseeds.c
@@ -320,7 +320,7 @@ static scc_ErrorCode iscc_findseeds_exclusion(const iscc_Digraph* const nng,
 	scc_PointIndex* tmp_index_not_excluded = malloc(sizeof(scc_PointIndex[nng->vertices]));
 	if (tmp_index_not_excluded == NULL) {
 		free(not_excluded);
-		iscc_make_error(SCC_ER_NO_MEMORY);
+		return iscc_make_error(SCC_ER_NO_MEMORY);
 	}
 	assert(nng->vertices <= ISCC_POINTINDEX_MAX);
 	const scc_PointIndex vertices_pi = (scc_PointIndex) nng->vertices; // If `scc_PointIndex` is signed
-- 
2.43.0


From 62ba15204202cc697044a168b61828ad4e69aaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:19 +0000
Subject: [PATCH 02/22] fix: release tmp_index_not_excluded when the exclusion
 graph cannot be built

---
 src/nng_findseeds.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nng_findseeds.c b/src/nng_findseeds.c
index 058a512..10ff499 100644
--- a/src/nng_findseeds.c
+++ b/src/nng_findseeds.c
@@ -344,6 +344,7 @@ static scc_ErrorCode iscc_findseeds_exclusion(const iscc_Digraph* const nng,
 	iscc_Digraph exclusion_graph;
 	if ((ec = iscc_fs_exclusion_graph(nng, tmp_num_not_excluded, tmp_index_not_excluded, &exclusion_graph)) != SCC_ER_OK) {
 		free(not_excluded);
+		free(tmp_index_not_excluded);
 		return ec;
 	}
 
-- 
2.43.0


From fe453b76286aa7ba516ed52ceb75e6d0e64d1ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:19 +0000
Subject: [PATCH 03/22] fix: check allocation of the primary data point flags
 in batch clustering

---
 src/nng_batch_clustering.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nng_batch_clustering.c b/src/nng_batch_clustering.c
index d4644f6..31fd76a 100644
--- a/src/nng_batch_clustering.c
+++ b/src/nng_batch_clustering.c
@@ -141,6 +141,13 @@ scc_ErrorCode scc_nng_clustering_batches(scc_Clustering* const clustering,
 	bool* tmp_primary_data_points = NULL;
 	if (primary_data_points != NULL) {
 		tmp_primary_data_points = calloc(clustering->num_data_points, sizeof(bool));
+		if (tmp_primary_data_points == NULL) {
+			free(batch_indices);
+			free(out_indices);
+			free(assigned);
+			iscc_close_nn_search_object(&nn_search_object);
+			return iscc_make_error(SCC_ER_NO_MEMORY);
+		}
 		for (size_t i = 0; i < len_primary_data_points; ++i) {
 			tmp_primary_data_points[primary_data_points[i]] = true;
 		}
-- 
2.43.0


From 828a3d9c14b2b6917c888d12b03898cda41301ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:19 +0000
Subject: [PATCH 04/22] fix: check allocation of the neighbor buffer in
 iscc_assign_by_nn_search

---
 src/nng_core.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nng_core.c b/src/nng_core.c
index 358ce44..18725b7 100644
--- a/src/nng_core.c
+++ b/src/nng_core.c
@@ -1010,6 +1010,7 @@ static scc_ErrorCode iscc_assign_by_nn_search(scc_Clustering* const clustering,
 		out_ok_query = to_assign;
 	}
 	scc_PointIndex* const out_nn_indices = malloc(sizeof(scc_PointIndex[num_to_assign]));
+	if (out_nn_indices == NULL) return iscc_make_error(SCC_ER_NO_MEMORY);
 
 	if (!iscc_nearest_neighbor_search(nn_search_object,
 	                                  num_to_assign,
-- 
2.43.0


From 40dda8fbb78da80f595a39f4b98a398bd426fec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:19 +0000
Subject: [PATCH 05/22] fix: report failed allocation in iscc_assign_by_nng
 instead of counting it as assigned points

---
 src/nng_core.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/nng_core.c b/src/nng_core.c
index 18725b7..06e2351 100644
--- a/src/nng_core.c
+++ b/src/nng_core.c
@@ -482,7 +482,13 @@ scc_ErrorCode iscc_make_nng_clusters_from_seeds(scc_Clustering* const clustering
 	// (NNG already contains radius constraint.)
 	if ((unassigned_method == SCC_UM_ANY_NEIGHBOR) ||
 	        (nng_is_ordered && (unassigned_method == SCC_UM_CLOSEST_ASSIGNED))) {
-		total_assigned += iscc_assign_by_nng(clustering, nng);
+		const size_t num_assigned_by_nng = iscc_assign_by_nng(clustering, nng);
+		if (num_assigned_by_nng == SIZE_MAX) {
+			// Could not allocate scratch memory
+			free(seed_or_neighbor);
+			return iscc_make_error(SCC_ER_NO_MEMORY);
+		}
+		total_assigned += num_assigned_by_nng;
 
 		// Ignore remaining points if SCC_UM_ANY_NEIGHBOR
 		if (unassigned_method == SCC_UM_ANY_NEIGHBOR) {
@@ -963,7 +969,7 @@ static size_t iscc_assign_by_nng(scc_Clustering* const clustering,
 	assert(!iscc_digraph_is_empty(nng));
 
 	bool* const scratch = malloc(sizeof(bool[clustering->num_data_points]));
-	if (scratch == NULL) return iscc_make_error(SCC_ER_NO_MEMORY);
+	if (scratch == NULL) return SIZE_MAX;
 	for (size_t i = 0; i < clustering->num_data_points; ++i) {
 		scratch[i] = (clustering->cluster_label[i] == SCC_CLABEL_NA);
 	}
-- 
2.43.0


From cc849aa28ad83cb5cb5af1e2d31019ea0eddb9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:19 +0000
Subject: [PATCH 06/22] fix: propagate errors from the secondary assignment in
 iscc_make_nng_clusters_from_seeds

---
 src/nng_core.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nng_core.c b/src/nng_core.c
index 06e2351..9dbf818 100644
--- a/src/nng_core.c
+++ b/src/nng_core.c
@@ -636,7 +636,7 @@ scc_ErrorCode iscc_make_nng_clusters_from_seeds(scc_Clustering* const clustering
 		iscc_close_nn_search_object(&nn_seed_search_object);
 	}
 
-	return iscc_no_error();
+	return ec;
 }
 
 
-- 
2.43.0


From 1b4d062d00bc4757a2530baba96ea5a622c4e7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:19 +0000
Subject: [PATCH 07/22] fix: reject missing cluster options instead of
 dereferencing them

---
 src/utilities.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utilities.c b/src/utilities.c
index b9d2028..21e6acc 100644
--- a/src/utilities.c
+++ b/src/utilities.c
@@ -330,6 +330,9 @@ scc_ErrorCode scc_get_clustering_stats(void* const data_set,
 scc_ErrorCode iscc_check_cluster_options(const scc_ClusterOptions* const options,
                                          const size_t num_data_points)
 {
+	if (options == NULL) {
+		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid cluster options.");
+	}
 	if (options->options_version != ISCC_OPTIONS_STRUCT_VERSION) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Incompatible scc_ClusterOptions version.");
 	}
-- 
2.43.0


From ec39d0761df3621e86ea6096f90681863ec31a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:19 +0000
Subject: [PATCH 08/22] fix: reject primary data points outside the data set

---
 src/utilities.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utilities.c b/src/utilities.c
index 21e6acc..07a357b 100644
--- a/src/utilities.c
+++ b/src/utilities.c
@@ -388,6 +388,11 @@ scc_ErrorCode iscc_check_cluster_options(const scc_ClusterOptions* const options
 				return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "`primary_data_points` is not sorted.");
 			}
 		}
+		// Sorted, so checking the end points is enough
+		if ((((uintmax_t) options->primary_data_points[0]) >= num_data_points) ||
+				(((uintmax_t) options->primary_data_points[options->len_primary_data_points - 1]) >= num_data_points)) {
+			return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "`primary_data_points` out of range.");
+		}
 	}
 	if ((options->primary_data_points == NULL) && (options->len_primary_data_points > 0)) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid primary data points.");
-- 
2.43.0


From 17e83eacee8e463867d7df83536eaa6f092ed97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:19 +0000
Subject: [PATCH 09/22] fix: reject type labels that do not name a type

---
 src/utilities.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utilities.c b/src/utilities.c
index 07a357b..51f32ff 100644
--- a/src/utilities.c
+++ b/src/utilities.c
@@ -369,6 +369,11 @@ scc_ErrorCode iscc_check_cluster_options(const scc_ClusterOptions* const options
 		if (options->type_labels == NULL) {
 			return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid type labels.");
 		}
+		for (size_t i = 0; i < num_data_points; ++i) {
+			if (((uintmax_t) options->type_labels[i]) >= options->num_types) {
+				return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid type labels.");
+			}
+		}
 	}
 
 	if ((options->seed_method != SCC_SM_LEXICAL) &&
-- 
2.43.0


From e3514c0bcb039fa9f68dda524d933fd865c8fc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:19 +0000
Subject: [PATCH 10/22] fix: reject NaN radii in the cluster options

---
 src/utilities.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utilities.c b/src/utilities.c
index 51f32ff..cd3f157 100644
--- a/src/utilities.c
+++ b/src/utilities.c
@@ -421,7 +421,7 @@ scc_ErrorCode iscc_check_cluster_options(const scc_ClusterOptions* const options
 			(options->seed_radius != SCC_RM_USE_SUPPLIED)) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid radius method.");
 	}
-	if ((options->seed_radius == SCC_RM_USE_SUPPLIED) && (options->seed_supplied_radius <= 0.0)) {
+	if ((options->seed_radius == SCC_RM_USE_SUPPLIED) && !(options->seed_supplied_radius > 0.0)) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid radius.");
 	}
 	if ((options->primary_radius != SCC_RM_NO_RADIUS) &&
@@ -430,7 +430,7 @@ scc_ErrorCode iscc_check_cluster_options(const scc_ClusterOptions* const options
 			(options->primary_radius != SCC_RM_USE_ESTIMATED)) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid radius method.");
 	}
-	if ((options->primary_radius == SCC_RM_USE_SUPPLIED) && (options->primary_supplied_radius <= 0.0)) {
+	if ((options->primary_radius == SCC_RM_USE_SUPPLIED) && !(options->primary_supplied_radius > 0.0)) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid radius.");
 	}
 	if ((options->secondary_radius != SCC_RM_NO_RADIUS) &&
@@ -439,7 +439,7 @@ scc_ErrorCode iscc_check_cluster_options(const scc_ClusterOptions* const options
 			(options->secondary_radius != SCC_RM_USE_ESTIMATED)) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid radius method.");
 	}
-	if ((options->secondary_radius == SCC_RM_USE_SUPPLIED) && (options->secondary_supplied_radius <= 0.0)) {
+	if ((options->secondary_radius == SCC_RM_USE_SUPPLIED) && !(options->secondary_supplied_radius > 0.0)) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid radius.");
 	}
 
-- 
2.43.0


From 9381219e8eee9bb0805588af26dde0217a9d9600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:25 +0000
Subject: [PATCH 11/22] fix: reject NaN radius in batch clustering

---
 src/nng_batch_clustering.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nng_batch_clustering.c b/src/nng_batch_clustering.c
index 31fd76a..9850c3d 100644
--- a/src/nng_batch_clustering.c
+++ b/src/nng_batch_clustering.c
@@ -88,7 +88,7 @@ scc_ErrorCode scc_nng_clustering_batches(scc_Clustering* const clustering,
 	if ((unassigned_method != SCC_UM_IGNORE) && (unassigned_method != SCC_UM_ANY_NEIGHBOR)) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid unassigned method.");
 	}
-	if (radius_constraint && (radius <= 0.0)) {
+	if (radius_constraint && !(radius > 0.0)) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid radius.");
 	}
 	if ((primary_data_points != NULL) && (len_primary_data_points == 0)) {
-- 
2.43.0


From b6b539a34c4146430cbc1f47278bbaca1e01d47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:25 +0000
Subject: [PATCH 12/22] fix: include the first cluster when sizing the
 hierarchical work area

---
 src/hierarchical_clustering.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hierarchical_clustering.c b/src/hierarchical_clustering.c
index 910ba91..34f5dd6 100644
--- a/src/hierarchical_clustering.c
+++ b/src/hierarchical_clustering.c
@@ -335,7 +335,7 @@ static scc_ErrorCode iscc_hi_init_cl_stack(const scc_Clustering* const in_cl,
 		}
 	}
 
-	size_t size_largest_cluster = 0;
+	size_t size_largest_cluster = clusters[0].size;
 	clusters[0].members = out_cl_stack->pointindex_store + clusters[0].size;
 	for (size_t c = 1; c < in_cl->num_clusters; ++c) {
 		clusters[c].members = clusters[c - 1].members + clusters[c].size;
-- 
2.43.0


From 3efaf5a239dc4ca57c645c8098f154f682c00c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:25 +0000
Subject: [PATCH 13/22] fix: compute the batch neighbor buffer size without
 32-bit wraparound

---
 src/nng_batch_clustering.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nng_batch_clustering.c b/src/nng_batch_clustering.c
index 9850c3d..52a25a7 100644
--- a/src/nng_batch_clustering.c
+++ b/src/nng_batch_clustering.c
@@ -106,6 +106,10 @@ scc_ErrorCode scc_nng_clustering_batches(scc_Clustering* const clustering,
 		batch_size = (uint32_t) clustering->num_data_points;
 	}
 
+	if (size_constraint > SIZE_MAX / sizeof(scc_PointIndex) / batch_size) {
+		return iscc_make_error_msg(SCC_ER_TOO_LARGE_PROBLEM, "Too large batches (adjust the batch size).");
+	}
+
 	iscc_NNSearchObject* nn_search_object;
 	if (!iscc_init_nn_search_object(data_set,
 	                                clustering->num_data_points,
@@ -115,7 +119,7 @@ scc_ErrorCode scc_nng_clustering_batches(scc_Clustering* const clustering,
 	}
 
 	scc_PointIndex* const batch_indices = malloc(sizeof(scc_PointIndex[batch_size]));
-	scc_PointIndex* const out_indices = malloc(sizeof(scc_PointIndex[size_constraint * batch_size]));
+	scc_PointIndex* const out_indices = malloc(sizeof(scc_PointIndex[((size_t) size_constraint) * batch_size]));
 	bool* const assigned = calloc(clustering->num_data_points, sizeof(bool));
 	if ((batch_indices == NULL) || (out_indices == NULL) || (assigned == NULL)) {
 		free(batch_indices);
-- 
2.43.0


From 1505d709ff044aa421ab89b78c91c0966cc2a6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:25 +0000
Subject: [PATCH 14/22] fix: check the data matrix length without overflowing
 the product

---
 src/data_set.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_set.c b/src/data_set.c
index 95d6191..6f87d0e 100644
--- a/src/data_set.c
+++ b/src/data_set.c
@@ -63,7 +63,7 @@ scc_ErrorCode scc_init_data_set(const uint64_t num_data_points,
 	if (num_dimensions > UINT16_MAX) {
 		return iscc_make_error_msg(SCC_ER_TOO_LARGE_PROBLEM, "Too many data dimensions.");
 	}
-	if (len_data_matrix < num_data_points * num_dimensions) {
+	if (len_data_matrix / num_dimensions < num_data_points) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid data matrix.");
 	}
 	if (data_matrix == NULL) {
-- 
2.43.0


From ab4fea65c30a336ebce6a841c27bc8c7ad1f2ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:25 +0000
Subject: [PATCH 15/22] fix: handle type constraints that are all zero

---
 src/nng_core.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/nng_core.c b/src/nng_core.c
index 9dbf818..06fb91a 100644
--- a/src/nng_core.c
+++ b/src/nng_core.c
@@ -250,6 +250,23 @@ scc_ErrorCode iscc_get_nng_with_type_constraint(void* const data_set,
 		return ec;
 	}
 
+	if (tc.sum_type_constraints == 0) {
+		// No type is constrained, only the size constraint applies
+		free(tc.type_group_size);
+		free(tc.point_store);
+		free(tc.type_groups);
+		free(seedable);
+		free(nng_by_type);
+		return iscc_get_nng_with_size_constraint(data_set,
+		                                         num_data_points,
+		                                         size_constraint,
+		                                         len_primary_data_points,
+		                                         primary_data_points,
+		                                         radius_constraint,
+		                                         radius,
+		                                         out_nng);
+	}
+
 	uint_fast16_t num_non_zero_type_constraints = 0;
 	for (uint_fast16_t i = 0; i < num_types; ++i) {
 		if (type_constraints[i] > 0) {
-- 
2.43.0


From d33ce797eef1b6f16632707b6378eb330d75e2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:25 +0000
Subject: [PATCH 16/22] fix: reject out-of-range cluster labels in
 scc_get_clustering_stats

---
 src/utilities.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utilities.c b/src/utilities.c
index cd3f157..36b624f 100644
--- a/src/utilities.c
+++ b/src/utilities.c
@@ -197,6 +197,10 @@ scc_ErrorCode scc_get_clustering_stats(void* const data_set,
 
 	for (size_t i = 0; i < clustering->num_data_points; ++i) {
 		if (clustering->cluster_label[i] != SCC_CLABEL_NA) {
+			if (((uintmax_t) clustering->cluster_label[i]) >= clustering->num_clusters) {
+				free(cluster_size);
+				return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid cluster labels.");
+			}
 			++cluster_size[clustering->cluster_label[i]];
 		}
 	}
-- 
2.43.0


From 5ffda335b9c30fdbc62df796f64c41deb30838af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:25 +0000
Subject: [PATCH 17/22] fix: reject out-of-range cluster labels when refining a
 clustering

---
 src/hierarchical_clustering.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hierarchical_clustering.c b/src/hierarchical_clustering.c
index 34f5dd6..357dea8 100644
--- a/src/hierarchical_clustering.c
+++ b/src/hierarchical_clustering.c
@@ -331,6 +331,11 @@ static scc_ErrorCode iscc_hi_init_cl_stack(const scc_Clustering* const in_cl,
 
 	for (size_t i = 0; i < in_cl->num_data_points; ++i) {
 		if (cluster_label[i] != SCC_CLABEL_NA) {
+			if (((uintmax_t) cluster_label[i]) >= in_cl->num_clusters) {
+				free(out_cl_stack->clusters);
+				free(out_cl_stack->pointindex_store);
+				return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid cluster labels.");
+			}
 			++(clusters[cluster_label[i]].size);
 		}
 	}
-- 
2.43.0


From 6a2a0dd16522d941cee72e2bba3fd4e52583dcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:25 +0000
Subject: [PATCH 18/22] fix: leave the clustering empty when the assignment
 step fails

---
 src/nng_clustering.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nng_clustering.c b/src/nng_clustering.c
index 0dcabbf..be46362 100644
--- a/src/nng_clustering.c
+++ b/src/nng_clustering.c
@@ -236,6 +236,9 @@ static scc_ErrorCode iscc_make_clustering_from_nng(scc_Clustering* const cluster
 	                                       (secondary_radius == SCC_RM_USE_SUPPLIED),
 	                                       secondary_supplied_radius);
 
+	// Failed clusterings are empty
+	if (ec != SCC_ER_OK) clustering->num_clusters = 0;
+
 	free(seed_result.seeds);
 	return ec;
 }
-- 
2.43.0


From c6ad77367d281e35bd398f3ffa11be456e453447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:25 +0000
Subject: [PATCH 19/22] fix: use two different centers when all points in a
 cluster coincide

---
 src/hierarchical_clustering.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hierarchical_clustering.c b/src/hierarchical_clustering.c
index 357dea8..7beeaac 100644
--- a/src/hierarchical_clustering.c
+++ b/src/hierarchical_clustering.c
@@ -801,6 +801,11 @@ static scc_ErrorCode iscc_hi_find_centers(iscc_hi_ClusterItem* const cl,
 		return iscc_make_error(SCC_ER_DIST_SEARCH_ERROR);
 	}
 
+	if (*out_center1 == *out_center2) {
+		// All points coincide, so any two members will do
+		*out_center2 = (cl->members[0] == *out_center1) ? cl->members[1] : cl->members[0];
+	}
+
 	return iscc_no_error();
 }
 
-- 
2.43.0


From 5b7af374027fe70bf036a02c1543f0bb5cc53f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:25 +0000
Subject: [PATCH 20/22] fix: do not wrap around when comparing cluster sizes
 with large size constraints

---
 src/hierarchical_clustering.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hierarchical_clustering.c b/src/hierarchical_clustering.c
index 7beeaac..7aadb3a 100644
--- a/src/hierarchical_clustering.c
+++ b/src/hierarchical_clustering.c
@@ -389,7 +389,7 @@ static scc_ErrorCode iscc_hi_run_hierarchical_clustering(iscc_hi_ClusterStack* c
 
 		iscc_hi_ClusterItem* current_cluster = &cl_stack->clusters[cl_stack->items - 1];
 
-		if (current_cluster->size < (2 * size_constraint)) {
+		if (current_cluster->size / 2 < size_constraint) {
 			if (current_cluster->size > 0) {
 				if (current_label == SCC_CLABEL_MAX) {
 					return iscc_make_error_msg(SCC_ER_TOO_LARGE_PROBLEM, "Too many clusters (adjust the `scc_Clabel` type).");
@@ -542,7 +542,7 @@ static scc_ErrorCode iscc_hi_break_cluster_into_two(iscc_hi_ClusterItem* const c
 
 	assert((cluster1->size == size_constraint) && (cluster2->size == size_constraint));
 
-	num_unassigned -= 2 * size_constraint;
+	num_unassigned -= 2 * ((size_t) size_constraint);
 
 	if (batch_assign) {
 		uint32_t num_assign_in_batch = size_constraint;
-- 
2.43.0


From fef092a92647b193be17a8181019cac2f7265da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:03 +0000
Subject: [PATCH 21/22] fix: define the farthest points and the centers when no
 distance can be compared

With NaN distances iscc_imp_get_max_dist left its answer unwritten and
iscc_hi_find_centers left both centers unset, so hierarchical clustering
read and wrote outside its arrays.
---
 src/dist_search_imp.c         | 4 ++++
 src/hierarchical_clustering.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/dist_search_imp.c b/src/dist_search_imp.c
index 7cf82ae..60fa9ee 100644
--- a/src/dist_search_imp.c
+++ b/src/dist_search_imp.c
@@ -218,6 +218,7 @@ bool iscc_imp_get_max_dist(iscc_MaxDistObject* const max_dist_object,
 	if ((query_indices != NULL) && (search_indices != NULL)) {
 		for (size_t q = 0; q < len_query_indices; ++q) {
 			max_dist = -1.0;
+			out_max_indices[q] = search_indices[0];
 			for (size_t s = 0; s < len_search_indices; ++s) {
 				tmp_dist = iscc_get_sq_dist(data_set, (size_t) query_indices[q], (size_t) search_indices[s]);
 				if (max_dist < tmp_dist) {
@@ -231,6 +232,7 @@ bool iscc_imp_get_max_dist(iscc_MaxDistObject* const max_dist_object,
 	} else if ((query_indices == NULL) && (search_indices != NULL)) {
 		for (size_t q = 0; q < len_query_indices; ++q) {
 			max_dist = -1.0;
+			out_max_indices[q] = search_indices[0];
 			for (size_t s = 0; s < len_search_indices; ++s) {
 				tmp_dist = iscc_get_sq_dist(data_set, q, (size_t) search_indices[s]);
 				if (max_dist < tmp_dist) {
@@ -244,6 +246,7 @@ bool iscc_imp_get_max_dist(iscc_MaxDistObject* const max_dist_object,
 	} else if ((query_indices != NULL) && (search_indices == NULL)) {
 		for (size_t q = 0; q < len_query_indices; ++q) {
 			max_dist = -1.0;
+			out_max_indices[q] = 0;
 			for (size_t s = 0; s < len_search_indices; ++s) {
 				tmp_dist = iscc_get_sq_dist(data_set, (size_t) query_indices[q], s);
 				if (max_dist < tmp_dist) {
@@ -257,6 +260,7 @@ bool iscc_imp_get_max_dist(iscc_MaxDistObject* const max_dist_object,
 	} else if ((query_indices == NULL) && (search_indices == NULL)) {
 		for (size_t q = 0; q < len_query_indices; ++q) {
 			max_dist = -1.0;
+			out_max_indices[q] = 0;
 			for (size_t s = 0; s < len_search_indices; ++s) {
 				tmp_dist = iscc_get_sq_dist(data_set, q, s);
 				if (max_dist < tmp_dist) {
diff --git a/src/hierarchical_clustering.c b/src/hierarchical_clustering.c
index 7aadb3a..929718c 100644
--- a/src/hierarchical_clustering.c
+++ b/src/hierarchical_clustering.c
@@ -772,6 +772,10 @@ static scc_ErrorCode iscc_hi_find_centers(iscc_hi_ClusterItem* const cl,
 		return iscc_make_error(SCC_ER_DIST_SEARCH_ERROR);
 	}
 
+	// The centers must be members of the cluster even if no distance can be compared
+	*out_center1 = cl->members[0];
+	*out_center2 = cl->members[1];
+
 	double max_dist = -1.0;
 	while (num_to_check > 0) {
 		if (!iscc_get_max_dist(max_dist_object, num_to_check, to_check, max_indices, max_dists)) {
-- 
2.43.0


From 497cc777b83f2aeb23c94e7672e03c7b15828f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:23 +0000
Subject: [PATCH 22/22] fix: order distance edges consistently when distances
 are NaN

qsort requires a consistent order; NaN compared equal to every number.
---
 src/hierarchical_clustering.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hierarchical_clustering.c b/src/hierarchical_clustering.c
index 929718c..b0a0081 100644
--- a/src/hierarchical_clustering.c
+++ b/src/hierarchical_clustering.c
@@ -888,5 +888,6 @@ static int iscc_hi_compare_dist_edges(const void* const a,
 
 	if (dist_a < dist_b) return -1;
 	if (dist_a > dist_b) return 1;
-	return 0;
+	// Distances that are NaN go last; `qsort` needs a consistent order
+	return (isnan(dist_a) ? 1 : 0) - (isnan(dist_b) ? 1 : 0);
 }
-- 
2.43.0

