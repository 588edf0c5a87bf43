"""Configures a scratch copy of /repo and lowers the library sources to one LLVM module."""
import os
import shutil
import subprocess
import tempfile

REPO = os.environ.get("SCC_REPO", "/repo")
CLANG = "/usr/bin/clang-18"
LINK = "/usr/bin/llvm-link-18"
OPT = "/usr/bin/opt-18"

CONFIGS = {
    "default": [],
    "wide": ["--with-clabel=uint64_t", "--with-typelabel=int", "--with-pointindex=uint64_t", "--with-arcindex=uint64_t"],
    "ann": ["--with-pointindex=int"],
    "int_min": ["--with-clabel=int", "--with-clabel-na=min", "--with-typelabel=int", "--with-pointindex=int"],
    "int_mna": ["--with-clabel=int", "--with-clabel-na=-1", "--with-typelabel=int", "--with-pointindex=int"],
}


class BuildError(Exception):
    pass


def _run(cmd, cwd=None, env=None, what=""):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError(f"{what}: {' '.join(cmd)}\n{p.stdout[-4000:]}")
    return p.stdout


PROBE = r'''
#include <stddef.h>
#include <stdint.h>
#include <float.h>
#include "%(inc)s/include/scclust.h"
#include "%(inc)s/src/scclust_types.h"
#include "%(inc)s/src/clustering_struct.h"
#include "%(inc)s/src/data_set_struct.h"
#include "%(inc)s/src/dist_search.h"
#define O(S,F) const long long vp__off__##S##__##F = (long long) offsetof(S, F); const long long vp__siz__##S##__##F = (long long) sizeof(((S*)0)->F);
#define K(X) const long long vp__k__##X = (long long) (X);
#define Z(T) const long long vp__sz__##T = (long long) sizeof(T);
Z(scc_Clabel) Z(scc_PointIndex) Z(scc_TypeLabel) Z(scc_ClusterOptions) Z(scc_ClusteringStats) Z(size_t)
typedef struct scc_Clustering scc_Clustering_t; typedef struct scc_DataSet scc_DataSet_t;
const long long vp__sz__scc_Clustering = (long long) sizeof(struct scc_Clustering);
const long long vp__sz__scc_DataSet = (long long) sizeof(struct scc_DataSet);
O(scc_Clustering, clustering_version) O(scc_Clustering, num_data_points) O(scc_Clustering, num_clusters) O(scc_Clustering, cluster_label) O(scc_Clustering, external_labels)
O(scc_DataSet, data_set_version) O(scc_DataSet, num_data_points) O(scc_DataSet, num_dimensions) O(scc_DataSet, data_matrix)
O(scc_ClusterOptions, options_version) O(scc_ClusterOptions, size_constraint) O(scc_ClusterOptions, num_types) O(scc_ClusterOptions, type_constraints)
O(scc_ClusterOptions, len_type_labels) O(scc_ClusterOptions, type_labels) O(scc_ClusterOptions, seed_method) O(scc_ClusterOptions, len_primary_data_points)
O(scc_ClusterOptions, primary_data_points) O(scc_ClusterOptions, primary_unassigned_method) O(scc_ClusterOptions, secondary_unassigned_method)
O(scc_ClusterOptions, seed_radius) O(scc_ClusterOptions, seed_supplied_radius) O(scc_ClusterOptions, primary_radius) O(scc_ClusterOptions, primary_supplied_radius)
O(scc_ClusterOptions, secondary_radius) O(scc_ClusterOptions, secondary_supplied_radius) O(scc_ClusterOptions, batch_size)
O(scc_ClusteringStats, num_data_points) O(scc_ClusteringStats, num_assigned) O(scc_ClusteringStats, num_clusters) O(scc_ClusteringStats, num_populated_clusters) O(scc_ClusteringStats, min_cluster_size) O(scc_ClusteringStats, max_cluster_size) O(scc_ClusteringStats, avg_cluster_size) O(scc_ClusteringStats, sum_dists) O(scc_ClusteringStats, min_dist) O(scc_ClusteringStats, max_dist) O(scc_ClusteringStats, avg_min_dist) O(scc_ClusteringStats, avg_max_dist) O(scc_ClusteringStats, avg_dist_weighted) O(scc_ClusteringStats, avg_dist_unweighted)
O(iscc_dist_functions_struct, check_data_set) O(iscc_dist_functions_struct, num_data_points) O(iscc_dist_functions_struct, get_dist_matrix) O(iscc_dist_functions_struct, get_dist_rows)
O(iscc_dist_functions_struct, init_max_dist_object) O(iscc_dist_functions_struct, get_max_dist) O(iscc_dist_functions_struct, close_max_dist_object)
O(iscc_dist_functions_struct, init_nn_search_object) O(iscc_dist_functions_struct, nearest_neighbor_search) O(iscc_dist_functions_struct, close_nn_search_object)
const long long vp__k__CLUSTERING_VERSION = (long long) ISCC_CLUSTERING_STRUCT_VERSION; const long long vp__k__DATASET_VERSION = (long long) ISCC_DATASET_STRUCT_VERSION;
const long long vp__k__MAJOR = SCC_SCCLUST_MAJOR_VERSION; const long long vp__k__MINOR = SCC_SCCLUST_MINOR_VERSION; const long long vp__k__PATCH = SCC_SCCLUST_PATCH_VERSION;
K(SCC_ER_OK) K(SCC_ER_UNKNOWN_ERROR) K(SCC_ER_INVALID_INPUT) K(SCC_ER_NO_MEMORY) K(SCC_ER_NO_SOLUTION) K(SCC_ER_TOO_LARGE_PROBLEM) K(SCC_ER_DIST_SEARCH_ERROR) K(SCC_ER_NOT_IMPLEMENTED)
K(SCC_SM_LEXICAL) K(SCC_SM_BATCHES) K(SCC_SM_INWARDS_ORDER) K(SCC_SM_INWARDS_UPDATING) K(SCC_SM_EXCLUSION_ORDER) K(SCC_SM_EXCLUSION_UPDATING)
K(SCC_UM_IGNORE) K(SCC_UM_ANY_NEIGHBOR) K(SCC_UM_CLOSEST_ASSIGNED) K(SCC_UM_CLOSEST_SEED)
K(SCC_RM_NO_RADIUS) K(SCC_RM_USE_SUPPLIED) K(SCC_RM_USE_SEED_RADIUS) K(SCC_RM_USE_ESTIMATED)
const long long vp__k__CLABEL_NA = (long long) (scc_Clabel) SCC_CLABEL_NA;
const long long vp__k__CLABEL_SIGNED = ((scc_Clabel) -1) < 0;
const long long vp__k__POINTINDEX_SIGNED = ((scc_PointIndex) -1) < 0;
const long long vp__k__TYPELABEL_SIGNED = ((scc_TypeLabel) -1) < 0;
const unsigned long long vp__k__POINTINDEX_MAX = (unsigned long long) ISCC_M_POINTINDEX_MAX;
const unsigned long long vp__k__CLABEL_MAX = (unsigned long long) ISCC_M_CLABEL_MAX;
const unsigned long long vp__k__ARCINDEX_MAX = (unsigned long long) ISCC_M_ARCINDEX_MAX;
const unsigned long long vp__k__TYPELABEL_MAX = (unsigned long long) ISCC_M_TYPELABEL_MAX;
'''


class Built:
    """Paths of the lowered module plus the values read from the probe unit."""

    def __init__(self):
        self.units = []


def lower(config="default", extra_defs=(), ndebug=True, mem2reg=True):
    """Returns (module, probe dict, units). Everything is built in a scratch directory that is removed."""
    from . import ir
    tmp = tempfile.mkdtemp(prefix="vp_scc_")
    try:
        tree = os.path.join(tmp, "src_tree")
        out = os.path.join(tmp, "out")
        os.makedirs(tree)
        os.makedirs(out)
        for item in ("configure", "dist_info", "LICENSE", "README.md", "doxyrefs.bib", "examples", "include", "src", "templates"):
            s = os.path.join(REPO, item)
            if not os.path.exists(s):
                if item in ("configure", "src", "include", "templates", "dist_info"):
                    raise BuildError(f"missing {s}")
                continue
            d = os.path.join(tree, item)
            if os.path.isdir(s):
                shutil.copytree(s, d, ignore=shutil.ignore_patterns("*.o", "*.a"))
            else:
                shutil.copy2(s, d)
        for g in ("include/scclust.h", "src/scclust_types.h"):
            p = os.path.join(tree, g)
            if os.path.exists(p):
                os.remove(p)
        bind = os.path.join(tmp, "bin")
        os.makedirs(bind)
        ed = os.path.join(bind, "ed")
        with open(ed, "w") as f:
            f.write("#!/bin/sh\nsed 's/^q$/Q/' | /usr/bin/ed \"$@\"\n")
        os.chmod(ed, 0o755)
        env = dict(os.environ)
        env["PATH"] = bind + ":" + env.get("PATH", "/usr/bin:/bin")
        env["LC_ALL"] = "C.UTF-8"
        _run(["sh", os.path.join("..", "src_tree", "configure")] + CONFIGS[config], cwd=out, env=env, what="configure")
        # configure run out of tree copies/links sources to out; find the generated headers
        base = out
        if not os.path.exists(os.path.join(out, "src", "scclust.c")):
            base = tree
        for g in ("include/scclust.h", "src/scclust_types.h"):
            if not os.path.exists(os.path.join(base, g)):
                raise BuildError(f"configure did not generate {g}")
        units = sorted(f for f in os.listdir(os.path.join(base, "src")) if f.endswith(".c"))
        bcs = []
        flags = ["-std=c99", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fno-discard-value-names", "-w", "-fPIC"]
        if ndebug:
            flags.append("-DNDEBUG")
        if not mem2reg:
            flags += ["-I", os.path.join(os.path.dirname(os.path.abspath(__file__)), "include")]
        flags += list(extra_defs)
        procs = []
        drv = os.path.join(tmp, "vp_drivers.bc")
        cmd = [CLANG] + flags + ["-I", base, "-emit-llvm", "-c", os.path.join(os.path.dirname(os.path.abspath(__file__)), "drivers.c"), "-o", drv]
        procs.append(("drivers.c", cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        bcs.append(drv)
        for u in units:
            o = os.path.join(tmp, u[:-2] + ".bc")
            cmd = [CLANG] + flags + ["-emit-llvm", "-c", os.path.join(base, "src", u), "-o", o]
            procs.append((u, cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
            bcs.append(o)
        for u, cmd, p in procs:
            so, _ = p.communicate()
            if p.returncode != 0 and u == "drivers.c":  # the table is gone or looks different: nothing to call
                bcs.remove(drv)
                continue
            if p.returncode != 0:
                raise BuildError(f"compile {u}:\n{so[-4000:]}")
        linked = os.path.join(tmp, "all.bc")
        _run([LINK] + bcs + ["-o", linked], what="link")
        final = os.path.join(tmp, "final.bc")
        if mem2reg:
            _run([OPT, "-passes=function(mem2reg)", linked, "-o", final], what="opt")
        else:
            shutil.move(linked, final)
        pc = os.path.join(tmp, "probe.c")
        with open(pc, "w") as f:
            f.write(PROBE % {"inc": base})
        pb = os.path.join(tmp, "probe.bc")
        _run([CLANG, "-std=c99", "-O0", "-w", "-emit-llvm", "-c", pc, "-o", pb], what="probe")
        mod = ir.load(final)
        pm = ir.load(pb)
        probe = {}
        for g in pm.globals.values():
            if g.name.startswith("vp__") and g.init is not None and g.init.kind == "int":
                probe[g.name[4:]] = g.init.val if not g.name.endswith("_MAX") else g.init.val % 2 ** 64
        return mod, probe, units
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
