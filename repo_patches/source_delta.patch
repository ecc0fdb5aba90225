From 7ca4a9ccfc9d104d87cf8769d87be219478e6a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:30 +0000
Subject: [PATCH 01/57] sim: guarded knob for the minimal size of a loaded
 chunk (ESPRESO_SIM)

---
 src/basis/io/inputfile.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/basis/io/inputfile.cpp b/src/basis/io/inputfile.cpp
index d568899..628c471 100644
--- a/src/basis/io/inputfile.cpp
+++ b/src/basis/io/inputfile.cpp
@@ -10,6 +10,10 @@
 #include "esinfo/eslog.hpp"
 
 #include <cstring>
+#ifdef ESPRESO_SIM
+#include <algorithm>
+#include <cstdlib>
+#endif
 
 using namespace espreso;
 
@@ -22,7 +26,12 @@ InputFile::InputFile()
 InputFilePack::InputFilePack(size_t minchunk, size_t overlap)
 : fileindex((size_t)-1), minchunk(minchunk), overlap(overlap)
 {
-
+#ifdef ESPRESO_SIM
+    // simulation knob: let small databases be split among processes
+    if (const char *chunk = getenv("ESPRESO_SIM_MINCHUNK")) {
+        this->minchunk = std::max(overlap, (size_t)atol(chunk));
+    }
+#endif
 }
 
 InputFilePack::~InputFilePack()
-- 
2.43.0


From 526c7e4dcce8af4ce53719ca97083ec35705d850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:47 +0000
Subject: [PATCH 02/57] fix: threads of the ASCII parser never get overlapping
 or negative parts of a section

---
 src/input/parsers/asciiparser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/input/parsers/asciiparser.cpp b/src/input/parsers/asciiparser.cpp
index c2b09ea..0d5d35d 100644
--- a/src/input/parsers/asciiparser.cpp
+++ b/src/input/parsers/asciiparser.cpp
@@ -80,10 +80,12 @@ void setDistribution(InputFile &file, size_t begin, size_t end, std::vector<size
             tdistribution[t] += mpibegin;
         }
         for (size_t t = 1; t + 1 < tdistribution.size(); ++t) {
+            // a thread can get an empty part if there are more threads than values
+            tdistribution[t] = std::max(tdistribution[t], tdistribution[t - 1]);
             if (toLines) {
-                while (*(file.begin + tdistribution[t]++) != '\n');
+                while (tdistribution[t] < tdistribution.back() && *(file.begin + tdistribution[t]++) != '\n');
             } else {
-                while (!ASCIIParser::isempty(file.begin + tdistribution[t]++));
+                while (tdistribution[t] < tdistribution.back() && !ASCIIParser::isempty(file.begin + tdistribution[t]++));
             }
         }
     } else {
-- 
2.43.0


From e7358136e6affe6593ae5375771eab752f25616f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:15 +0000
Subject: [PATCH 03/57] fix: node regions of external databases are not
 required to be sorted

---
 src/input/meshbuilder.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/input/meshbuilder.cpp b/src/input/meshbuilder.cpp
index 251df8c..0e06258 100644
--- a/src/input/meshbuilder.cpp
+++ b/src/input/meshbuilder.cpp
@@ -3,6 +3,7 @@
 #include "basis/containers/serializededata.h"
 #include "basis/logging/profiler.h"
 #include "basis/evaluator/evaluator.h"
+#include "basis/utilities/utils.h"
 #include "wrappers/mpi/communication.h"
 #include "esinfo/eslog.hpp"
 #include "esinfo/ecfinfo.h"
@@ -95,6 +96,10 @@ void MeshBuilder::build()
             break;
         }
     }
+    for (auto nreg = nregions.begin(); nreg != nregions.end(); ++nreg) {
+        // builders assume sorted regions, but the order of nodes in a database is arbitrary
+        utils::sortAndRemoveDuplicates(nreg->second);
+    }
     profiler::synccheckpoint("node_regions");
 
     for (auto noise = info::ecf->input.noise.cbegin(); noise != info::ecf->input.noise.end(); ++noise) {
-- 
2.43.0


From 71f9c5b9fd9d93e93c140466286c212b0aab6a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:40 +0000
Subject: [PATCH 04/57] fix: omitting of mid-points keeps linear elements of a
 mixed mesh

---
 src/input/meshbuilder.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/input/meshbuilder.cpp b/src/input/meshbuilder.cpp
index 0e06258..f7da6a9 100644
--- a/src/input/meshbuilder.cpp
+++ b/src/input/meshbuilder.cpp
@@ -34,14 +34,16 @@ void MeshBuilder::build()
     if (info::ecf->input.omit_midpoints) {
         size_t shrinked = 0;
         for (size_t i = 0, offset = 0; i < etype.size(); ++i) {
+            size_t prevsize = esize[i];
             if (Mesh::edata[etype[i]].nodes != Mesh::edata[etype[i]].coarseNodes) {
-                for (esint n = 0; n < Mesh::edata[etype[i]].coarseNodes; n++) {
-                    enodes[shrinked + n] = enodes[offset + n];
-                }
-                offset += Mesh::edata[etype[i]].nodes;
-                shrinked += Mesh::edata[etype[i]].coarseNodes;
                 esize[i] = Mesh::edata[etype[i]].coarseNodes;
             }
+            // linear elements have to be moved too if they are preceded by a shrunk one
+            for (esint n = 0; n < esize[i]; n++) {
+                enodes[shrinked + n] = enodes[offset + n];
+            }
+            offset += prevsize;
+            shrinked += esize[i];
             switch (etype[i]) {
             case (int)Element::CODE::LINE3:     etype[i] = (int)Element::CODE::LINE2; break;
             case (int)Element::CODE::TRIANGLE6: etype[i] = (int)Element::CODE::TRIANGLE3; break;
-- 
2.43.0


From 67597e734a08bac02407d275b7b7d50fc00bd37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:21 +0000
Subject: [PATCH 05/57] fix: Ansys blocks and components that end at a border
 of processes are read completely

---
 src/input/parsers/ansyscdb/parser/cmblock.cpp | 5 +++--
 src/input/parsers/ansyscdb/parser/parser.cpp  | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/input/parsers/ansyscdb/parser/cmblock.cpp b/src/input/parsers/ansyscdb/parser/cmblock.cpp
index aba3f72..4cf5685 100644
--- a/src/input/parsers/ansyscdb/parser/cmblock.cpp
+++ b/src/input/parsers/ansyscdb/parser/cmblock.cpp
@@ -104,7 +104,8 @@ bool CMBlock::readData(std::vector<esint> &indices)
                 memcpy(value.data(), data, valueLength);
                 data += valueLength;
                 esint index = atol(value.data());
-                if (index != -1 && (t || tindices[t].size() || index > 0)) {
+                // negative value at the beginning is processed by the previous process
+                if (index != -1 && (tdistribution[t] || tindices[t].size() || index > 0)) {
                     tindices[t].push_back(index);
                 }
             }
@@ -117,7 +118,7 @@ bool CMBlock::readData(std::vector<esint> &indices)
                     memcpy(value.data(), data, valueLength);
                     data += valueLength;
                     esint index = atol(value.data());
-                    if (index != -1) {
+                    if (index != -1 && (tdistribution[t + 1] || tindices[t].size() || index > 0)) {
                         tindices[t].push_back(index);
                     }
                 }
diff --git a/src/input/parsers/ansyscdb/parser/parser.cpp b/src/input/parsers/ansyscdb/parser/parser.cpp
index 1b1fb44..8641e59 100644
--- a/src/input/parsers/ansyscdb/parser/parser.cpp
+++ b/src/input/parsers/ansyscdb/parser/parser.cpp
@@ -56,7 +56,8 @@ void WorkbenchParser::fillDistribution(std::vector<BlockEnd> &blocksEnds, std::v
     }
 
     fRank = std::lower_bound(distribution.begin(), distribution.end(), first + 1) - distribution.begin() - 1;
-    lRank = std::lower_bound(distribution.begin(), distribution.end(), last + 1) - distribution.begin() - 1;
+    // 'last' points behind the last character of the block, hence it can be the first character of the next process
+    lRank = std::lower_bound(distribution.begin(), distribution.end(), last) - distribution.begin() - 1;
 }
 
 std::string WorkbenchParser::command() const
-- 
2.43.0


From ebbba6659906b38be8db4b3c306b185b8284b735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:22 +0000
Subject: [PATCH 06/57] fix: EnSight coordinates that start at a border of
 processes are assigned to the owner

---
 src/input/parsers/ensight/parser/geometry.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input/parsers/ensight/parser/geometry.cpp b/src/input/parsers/ensight/parser/geometry.cpp
index 2678227..f5e4d0e 100644
--- a/src/input/parsers/ensight/parser/geometry.cpp
+++ b/src/input/parsers/ensight/parser/geometry.cpp
@@ -165,7 +165,7 @@ void EnsightGeometry::parseBinary(MeshBuilder &mesh)
         while (*end != 0) { ++end; }
         std::string name = std::string(begin, end);
 
-        int firstrank = std::lower_bound(_geofile.distribution.begin(), _geofile.distribution.end(), _coordinates[p].offset) - _geofile.distribution.begin() - 1;
+        int firstrank = std::upper_bound(_geofile.distribution.begin(), _geofile.distribution.end(), _coordinates[p].offset) - _geofile.distribution.begin() - 1;
         int lastrank = std::lower_bound(_geofile.distribution.begin(), _geofile.distribution.end(), _coordinates[p].offset + 3 * sizeof(float) * _coordinates[p].nn) - _geofile.distribution.begin() - 1;
 
         size_t cbegin = std::max(_coordinates[p].offset, _geofile.distribution[info::mpi::rank]);
@@ -431,7 +431,7 @@ void EnsightGeometry::parseASCII(MeshBuilder &mesh)
                 coordinates.push_back(atof(c));
             }
 
-            int start = std::lower_bound(_geofile.distribution.begin(), _geofile.distribution.end(), _coordinates[i].offset) - _geofile.distribution.begin() - 1;
+            int start = std::upper_bound(_geofile.distribution.begin(), _geofile.distribution.end(), _coordinates[i].offset) - _geofile.distribution.begin() - 1;
             int end = std::lower_bound(_geofile.distribution.begin(), _geofile.distribution.end(), _coordinates[i].offset + 3 * 13 * _coordinates[i].nn) - _geofile.distribution.begin() - 1;
 
             if (start == info::mpi::rank) {
-- 
2.43.0


From 976996979e3e0bc9ab0430c6f061594388dea119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:22 +0000
Subject: [PATCH 07/57] fix: Netgen boundary elements get correct ids if a
 process starts with them

---
 src/input/parsers/netgen/parser/neutralmesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input/parsers/netgen/parser/neutralmesh.cpp b/src/input/parsers/netgen/parser/neutralmesh.cpp
index 7f3d6c6..7b432be 100644
--- a/src/input/parsers/netgen/parser/neutralmesh.cpp
+++ b/src/input/parsers/netgen/parser/neutralmesh.cpp
@@ -154,7 +154,7 @@ void NetgenNeutralMesh::parse(MeshBuilder &mesh)
     if (ebegin < offset) {
         prevelements = offset - ebegin;
     }
-    if (bbegin < offset) {
+    if (bbegin <= offset) {
         --prevelements;
     }
     std::iota(mesh.eIDs.begin(), mesh.eIDs.end(), prevelements);
-- 
2.43.0


From 36c40c15c3bebcccd29835e39bf1c9b3f79a11ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:22 +0000
Subject: [PATCH 08/57] fix: mixed elements parser handles processes without
 beginning of any element

---
 src/input/parsers/mixedelementsparser.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/input/parsers/mixedelementsparser.cpp b/src/input/parsers/mixedelementsparser.cpp
index 4fef7b7..0dbf248 100644
--- a/src/input/parsers/mixedelementsparser.cpp
+++ b/src/input/parsers/mixedelementsparser.cpp
@@ -66,14 +66,22 @@ void MixedElementsParser::recognize(size_t index, esint &esize, esint &coffset,
         return i;
     };
 
+    esize = missing = 0;
+    if (_elements[index].size <= (size_t)coffset) {
+        // all local data belong to an element from a lower process
+        missing = coffset - _elements[index].size;
+        return;
+    }
+
     // try to recognize the first cell type description
     for (; coffset < 30 && (size_t)coffset < _elements[index].size; ++coffset) {
         size_t lastrecognized = tryrecognize(coffset);
         if (_elements[index].size <= lastrecognized) {
             missing = lastrecognized - _elements[index].size;
-            break;
+            return;
         }
     }
+    esize = 0;
 }
 
 void MixedElementsParser::fix(std::vector<esint> &lmissing, std::vector<esint> &esize, std::vector<int> &last, std::function<esint(size_t, esint)> enodes)
@@ -87,12 +95,11 @@ void MixedElementsParser::fix(std::vector<esint> &lmissing, std::vector<esint> &
                     MPI_Recv(&offset[i], 1, MPITools::getType(offset[i]).mpitype, info::mpi::rank - 1, 0, info::mpi::comm, MPI_STATUS_IGNORE);
                 }
                 if (invalid[i] <= info::mpi::rank) {
-                    esint _esize = offset[i] + esize[i];
                     if (first[i] != lmissing[i]) {
                         first[i] = lmissing[i];
-                        recognize(i, _esize, first[i], missing[i], enodes);
-                        _esize += offset[i];
+                        recognize(i, esize[i], first[i], missing[i], enodes);
                     }
+                    esint _esize = offset[i] + esize[i];
 
                     if (info::mpi::rank < last[i]) {
                         // in the case of [invalid == info::mpi::rank] it initiates the synchronization
-- 
2.43.0


From f64476f07b2e5d952fd85808f7c5956c2cc9d8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:22 +0000
Subject: [PATCH 09/57] fix: Neper node sets divided among more processes are
 assigned correctly

---
 src/input/parsers/asciiparser.cpp             |  2 +-
 src/input/parsers/neper/parser/msh.parser.cpp | 23 +++++++++++++------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/input/parsers/asciiparser.cpp b/src/input/parsers/asciiparser.cpp
index 0d5d35d..a0607ce 100644
--- a/src/input/parsers/asciiparser.cpp
+++ b/src/input/parsers/asciiparser.cpp
@@ -28,7 +28,7 @@ static inline void _pushWithString(std::vector<esint> &data, const char *begin,
     char* next;
     data.push_back(strtol(c, &next, 10));
     if (data.back() == 0 && c == next) {
-        data.back() = -(c - begin);
+        data.back() = -(c - begin) - 1; // position 0 is a valid position
         while (!ASCIIParser::isempty(next)) { ++next; }
     }
     size = next - c;
diff --git a/src/input/parsers/neper/parser/msh.parser.cpp b/src/input/parsers/neper/parser/msh.parser.cpp
index 655ecd6..9813004 100644
--- a/src/input/parsers/neper/parser/msh.parser.cpp
+++ b/src/input/parsers/neper/parser/msh.parser.cpp
@@ -155,6 +155,7 @@ void NeperMshMesh::scan()
 struct Boundary {
     char name[NEPER_MAX_NAME_SIZE] = { 0 };
     int rank = info::mpi::rank;
+    int last = 0; // the name is the last value of the process (number of nodes is at the next one)
 };
 
 void NeperMshMesh::parseASCII(MeshBuilder &mesh)
@@ -274,8 +275,9 @@ void NeperMshMesh::parseASCII(MeshBuilder &mesh)
     for (size_t i = 0; i < nsets.size(); ++i) {
         if (nsets[i] < 0) {
             boundaries.push_back(Boundary());
+            boundaries.back().last = i + 1 == nsets.size();
 
-            const char *c = _meshfile.begin + (-nsets[i]);
+            const char *c = _meshfile.begin - (nsets[i] + 1);
             char *to = boundaries.back().name;
             while (*c != '\n') { *to++ = *c++; }
         }
@@ -295,25 +297,32 @@ void NeperMshMesh::parseASCII(MeshBuilder &mesh)
     Communication::allGatherUnknownSize(groups);
     Communication::allGatherUnknownSize(orientation);
 
-    size_t current = 0;
+    size_t current = 0; // number of already opened sets
     for (size_t i = 0; i < boundaries.size(); ++i) {
         mesh.nregions[boundaries[i].name];
         if (boundaries[i].rank < info::mpi::rank) {
-            current = i;
+            current = i + 1;
         }
     }
 
     size_t begin = 0;
+    if (current && boundaries[current - 1].last && boundaries[current - 1].rank + 1 == info::mpi::rank) {
+        begin = 1; // skip number of nodes
+    }
+    auto store = [&] (size_t end) {
+        if (current && begin < end) {
+            mesh.nregions[boundaries[current - 1].name].assign(nsets.begin() + begin, nsets.begin() + end);
+        }
+    };
     for (size_t i = 0; i < nsets.size(); ++i) {
         if (nsets[i] < 0) {
-            if (i) {
-                mesh.nregions[boundaries[current++].name].assign(nsets.begin() + begin, nsets.begin() + i);
-            }
+            store(i);
+            ++current;
             ++i; // skip number of nodes
             begin = i + 1;
         }
     }
-    mesh.nregions[boundaries[current].name].assign(nsets.begin() + begin, nsets.end());
+    store(nsets.size());
 
     for (size_t i = 0; i < groups.size(); i += 2) {
         auto &elems = mesh.eregions["GROUP_" + std::to_string(groups[i + 1])];
-- 
2.43.0


From 5f78e2e1bab1864208ec54411b52a964c47aa6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:44 +0000
Subject: [PATCH 10/57] fix: NaN in FETI iterations is reported instead of
 treated as convergence

---
 src/feti/iterativesolver/iterativesolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/feti/iterativesolver/iterativesolver.cpp b/src/feti/iterativesolver/iterativesolver.cpp
index dd73696..7b01b8b 100644
--- a/src/feti/iterativesolver/iterativesolver.cpp
+++ b/src/feti/iterativesolver/iterativesolver.cpp
@@ -119,7 +119,7 @@ template <>
 void IterativeSolver<double>::updateInfo(IterativeSolverInfo &info, const FETIConfiguration &configuration, const double &ww, const double &psi, const double &ry)
 {
 //    info.norm.dual.ksi += psi;
-    info.norm.dual.absolute = std::sqrt(std::max(0., ww));
+    info.norm.dual.absolute = std::sqrt(ww < 0 ? 0 : ww); // keep NaN in order to report invalid data
     info.norm.dual.relative = info.norm.dual.absolute / info.norm.dual.initial;
 //    info.norm.dual.arioli = std::sqrt(info.norm.dual.ksi / ry);
 
-- 
2.43.0


From 1f4c586511e465f6757d484731af985bd5961417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:20 +0000
Subject: [PATCH 11/57] fix: orthogonal PCPG is correct for processes that own
 no multipliers

---
 src/feti/common/matrix_dual_orthogonal.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/feti/common/matrix_dual_orthogonal.h b/src/feti/common/matrix_dual_orthogonal.h
index 1e84aad..bc79dd4 100644
--- a/src/feti/common/matrix_dual_orthogonal.h
+++ b/src/feti/common/matrix_dual_orthogonal.h
@@ -32,12 +32,13 @@ struct Matrix_Dual_Orthogonal: public Matrix_Dual<T> {
 
     void apply(const Vector_Dual<T> &x, Vector_Dense<T> &y)
     {
+        math::set(y, T{0}); // there can be more intervals or empty ones (BLAS does not touch 'y' in such a case)
         for (size_t i = 0; i < Dual_Map::local_intervals.size(); ++i) {
             Vector_Dense<T> _x;
             _x.size = Dual_Map::local_intervals[i].size;
             _x.vals = x.vals + Dual_Map::local_intervals[i].start;
             Matrix_Dense<T>::slice({}, { Dual_Map::local_intervals[i].start, Dual_Map::local_intervals[i].end });
-            math::blas::apply(y, T{1}, static_cast<Matrix_Dense<T>&>(*this), T{0}, _x);
+            math::blas::apply(y, T{1}, static_cast<Matrix_Dense<T>&>(*this), T{1}, _x);
         }
         Communication::allReduce(y.vals, nullptr, y.size, MPITools::getType<T>().mpitype, MPI_SUM);
     }
-- 
2.43.0


From fa8d6c575645cd40911368b5bad71f8d45e4cf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:55 +0000
Subject: [PATCH 12/57] fix: orthogonal PCPG stops when the residuum is small,
 not one (noisy) step later

---
 src/feti/iterativesolver/orthopcpg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/feti/iterativesolver/orthopcpg.cpp b/src/feti/iterativesolver/orthopcpg.cpp
index c110bf2..d2b91b7 100644
--- a/src/feti/iterativesolver/orthopcpg.cpp
+++ b/src/feti/iterativesolver/orthopcpg.cpp
@@ -127,8 +127,8 @@ template <> void OrthogonalizedPCPG<double>::solve(const step::Step &step, Itera
         math::add(p, 1., y);
         eslog::accumulatedln("orthopcpg: orthogonalization");
 
-        updateInfo(info, feti.configuration, yw, 0, 0);
         yw = y.dot(w);
+        updateInfo(info, feti.configuration, yw, 0, 0);
         eslog::accumulatedln("orthopcpg: check criteria");
     }
     eslog::endln("orthopcpg: finished");
-- 
2.43.0


From 71266d6413efee712bed0130634247f1be1719cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:42 +0000
Subject: [PATCH 13/57] fix: the first splitter is zero even if all other
 splitters are zero

---
 src/wrappers/mpi/communication.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wrappers/mpi/communication.cpp b/src/wrappers/mpi/communication.cpp
index 1878577..dd3d284 100644
--- a/src/wrappers/mpi/communication.cpp
+++ b/src/wrappers/mpi/communication.cpp
@@ -646,7 +646,6 @@ bool Communication::computeSplitters(std::vector<esint> &keys, std::vector<esint
     profiler::synccheckpoint("set_splitters");
 
     Communication::allReduce(splitters, Communication::OP::MAX, 0, group->size);
-    splitters.front() = 0;
     for (auto it = splitters.rbegin(); it != splitters.rend(); ++it) {
         if (*it == 0) {
             *it = max + 1;
@@ -654,6 +653,7 @@ bool Communication::computeSplitters(std::vector<esint> &keys, std::vector<esint
             break;
         }
     }
+    splitters.front() = 0;
 
     profiler::syncend("compute_splitters");
     return true;
-- 
2.43.0


From 123bb5ea577bf1c3e313a36ed0251c959b29942c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:42 +0000
Subject: [PATCH 14/57] fix: in-place reduction within a group uses the rank
 within the group

---
 src/wrappers/mpi/communication.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wrappers/mpi/communication.cpp b/src/wrappers/mpi/communication.cpp
index dd3d284..a5dd41c 100644
--- a/src/wrappers/mpi/communication.cpp
+++ b/src/wrappers/mpi/communication.cpp
@@ -687,7 +687,7 @@ bool Communication::reduce(void *in, void *out, size_t size, MPI_Datatype type,
     profiler::syncstart("mpi_reduce");
     profiler::syncparam("size", size);
     if (out == NULL) {
-        if (info::mpi::rank == root) {
+        if (group->rank == root) {
             MPI_Reduce(MPI_IN_PLACE, in, size, type, op, root, group->communicator);
         } else {
             MPI_Reduce(in, NULL, size, type, op, root, group->communicator);
-- 
2.43.0


From 78e5cd8ab3f1ec0194606ac89b401dc505905c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:10 +0000
Subject: [PATCH 15/57] fix: size of VTK cells of boundary regions covers all
 processes

---
 src/output/visualization/vtklegacy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/output/visualization/vtklegacy.cpp b/src/output/visualization/vtklegacy.cpp
index 4ba9ee7..a923511 100644
--- a/src/output/visualization/vtklegacy.cpp
+++ b/src/output/visualization/vtklegacy.cpp
@@ -270,8 +270,8 @@ esint VTKLegacy::insertElements(const BoundaryRegionStore *store, const std::vec
     if (store->dimension) {
         esint enodes = 0;
         for (size_t i = 0; i < store->distribution.code.size(); i++) {
-            if (store->distribution.code[i].size) {
-                enodes += store->distribution.code[i].size * Mesh::edata[i].nodes;
+            if (store->distribution.code[i].totalSize) {
+                enodes += store->distribution.code[i].totalSize * Mesh::edata[i].nodes;
             }
         }
 
-- 
2.43.0


From 869234e57c9ebd032526be8c9bc87c817674e5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:10 +0000
Subject: [PATCH 16/57] fix: clusters stored to VTK are not shifted twice

---
 src/output/visualization/vtklegacy.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/output/visualization/vtklegacy.cpp b/src/output/visualization/vtklegacy.cpp
index a923511..3b87151 100644
--- a/src/output/visualization/vtklegacy.cpp
+++ b/src/output/visualization/vtklegacy.cpp
@@ -419,8 +419,7 @@ void VTKLegacy::insertDecomposition(const ElementsRegionStore *store)
     iterate("DOMAIN", [&] (const ElementsInterval &interval, esint eindex) {
         return interval.domain;
     });
-    esint cluster = info::mesh->clusters->offset;
-    Communication::exscan(cluster, MPITools::asynchronous);
+    esint cluster = info::mesh->clusters->offset; // the offset is already global
     iterate("CLUSTER", [&] (const ElementsInterval &interval, esint eindex) {
         return info::mesh->domains->cluster[interval.domain - info::mesh->domains->offset] + cluster;
     });
-- 
2.43.0


From 0b4fc94510d2986779fee9689cceddd9d6b26021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:10 +0000
Subject: [PATCH 17/57] fix: STL output does not compute the surface (and its
 region) twice

---
 src/mesh/mesh.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/mesh/mesh.cpp b/src/mesh/mesh.cpp
index 0d7921a..8ca6115 100644
--- a/src/mesh/mesh.cpp
+++ b/src/mesh/mesh.cpp
@@ -502,9 +502,7 @@ void Mesh::computePersistentParameters()
     mesh::computeRegionsBoundaryParents(nodes, elements, boundaryRegions, contactInterfaces);
 
     if (dimension == 3 && info::ecf->output.format == OutputConfiguration::FORMAT::STL_SURFACE) {
-        if (!withSurface) {
-            mesh::computeBodiesSurface(nodes, elements, elementsRegions, boundaryRegions, surface, neighbors);
-        }
+        // the surface is already computed
         mesh::triangularizeSurface(surface);
         eslog::checkpointln("MESH: BODIES SURFACE COMPUTED");
     }
-- 
2.43.0


From fe6978d078e57536434cf508c7cab6dd01e74504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:25 +0000
Subject: [PATCH 18/57] fix: domains are connected components of a process if
 the sequential decomposer is off

---
 src/mesh/preprocessing/decomposition.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesh/preprocessing/decomposition.cpp b/src/mesh/preprocessing/decomposition.cpp
index 73e7087..e266e7e 100644
--- a/src/mesh/preprocessing/decomposition.cpp
+++ b/src/mesh/preprocessing/decomposition.cpp
@@ -175,6 +175,7 @@ void computeElementsDecomposition(const ElementStore *elements, esint parts, std
     bool skip = false;
     switch (info::ecf->input.decomposition.sequential_decomposer) {
     case DecompositionConfiguration::SequentialDecomposer::NONE:
+        skip = true;
         break;
     case DecompositionConfiguration::SequentialDecomposer::METIS:
         skip = !METIS::islinked();
-- 
2.43.0


From e5ac17ca7775ba2044f83e590307d220f582901f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:34 +0000
Subject: [PATCH 19/57] fix: dual graph gathered from more processes is correct
 for elements without neighbors and processes without elements

---
 src/mesh/preprocessing/pure.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/mesh/preprocessing/pure.cpp b/src/mesh/preprocessing/pure.cpp
index 6c36516..8ddeee0 100644
--- a/src/mesh/preprocessing/pure.cpp
+++ b/src/mesh/preprocessing/pure.cpp
@@ -520,14 +520,14 @@ esint callParallelDecomposer(const ElementStore *elements, const NodeStore *node
     } else {
         MPIType type = MPITools::getType<esint>();
         std::vector<esint> gframes, gneighbors, gpartition, edistribution;
-        std::vector<size_t> offsets;
+        std::vector<size_t> offsets, foffsets;
 
         if (info::ecf->input.decomposition.parallel_decomposer == DecompositionConfiguration::ParallelDecomposer::METIS) {
-            Communication::gatherUnknownSize(eframes, gframes, &MPITools::singleton->within);
+            Communication::gatherUnknownSize(eframes, gframes, foffsets, &MPITools::singleton->within);
             Communication::gatherUnknownSize(eneighbors, gneighbors, &MPITools::singleton->within);
             Communication::gatherUnknownSize(partition, gpartition, offsets, &MPITools::singleton->within);
         } else {
-            Communication::gatherUnknownSize(eframes, gframes, &MPITools::subset->within);
+            Communication::gatherUnknownSize(eframes, gframes, foffsets, &MPITools::subset->within);
             Communication::gatherUnknownSize(eneighbors, gneighbors, &MPITools::subset->within);
             Communication::gatherUnknownSize(partition, gpartition, offsets, &MPITools::subset->within);
         }
@@ -535,16 +535,17 @@ esint callParallelDecomposer(const ElementStore *elements, const NodeStore *node
         profiler::synccheckpoint("gather_dual");
         eslog::checkpointln("MESH: MPI PROCESSES REDUCED");
 
-        auto fixframes = [&] () {
-            size_t size = gframes.size();
-            for (size_t i = 1, j = 1, offset = 0; j < gframes.size(); i++, j++) {
-                while (gframes[j] == 0) {
-                    offset += gframes[j++ - 1];
-                    --size;
+        auto fixframes = [&] () { // frames of each process start from 0
+            std::vector<esint> frames({ 0 });
+            frames.reserve(gframes.size());
+            for (size_t p = 0; p < foffsets.size(); ++p) {
+                esint offset = frames.back();
+                size_t end = p + 1 < foffsets.size() ? foffsets[p + 1] : gframes.size();
+                for (size_t i = foffsets[p] + 1; i < end; ++i) {
+                    frames.push_back(gframes[i] + offset);
                 }
-                gframes[i] = gframes[j] + offset;
             }
-            gframes.resize(size);
+            gframes.swap(frames);
         };
 
         if (info::ecf->input.decomposition.parallel_decomposer == DecompositionConfiguration::ParallelDecomposer::METIS) {
-- 
2.43.0


From 0fcafe79f361c51d553b21b9dae548dcd5b715bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:34 +0000
Subject: [PATCH 20/57] fix: METIS decomposes meshes with more bodies than
 processes

---
 src/mesh/preprocessing/pure.cpp | 49 +++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/src/mesh/preprocessing/pure.cpp b/src/mesh/preprocessing/pure.cpp
index 8ddeee0..a5ef9a2 100644
--- a/src/mesh/preprocessing/pure.cpp
+++ b/src/mesh/preprocessing/pure.cpp
@@ -707,6 +707,40 @@ void computeElementsClusterization(const ElementStore *elements, BodyStore *bodi
     }
 
     std::vector<size_t> psize(parts);
+    int contig = info::ecf->input.decomposition.metis_options.contig;
+    if (parts > 1) { // divide processes among bodies
+        std::vector<size_t> bsize(parts);
+        for (esint e = 0; e < elements->distribution.process.size; ++e) {
+            ++bsize[elements->body->datatarray()[e]];
+        }
+        Communication::allReduce(bsize, Communication::OP::SUM);
+        size_t totalsize = 0;
+        int rest = info::mpi::size;
+        for (int p = 0; p < parts; ++p) {
+            totalsize += bsize[p];
+        }
+        for (int p = 0; p < parts; ++p) {
+            psize[p] = std::max(1UL, bsize[p] * info::mpi::size / totalsize);
+            rest -= psize[p];
+        }
+        if (rest < 0) { // bodies cannot be decomposed separately
+            parts = 1;
+            psize.resize(parts);
+            info::ecf->input.decomposition.metis_options.contig = 0;
+        }
+        while (0 < rest--) {
+            int max = 0;
+            for (int p = 1; p < parts; ++p) {
+                if (bsize[max] * psize[p] < bsize[p] * psize[max]) {
+                    max = p;
+                }
+            }
+            ++psize[max];
+        }
+    }
+    if (parts == 1) {
+        psize[0] = info::mpi::size;
+    }
     std::vector<std::vector<esint> > dist(parts, { 0 });
     std::vector<std::vector<esint> > data(parts);
     std::vector<std::vector<esint> > part(parts);
@@ -725,21 +759,12 @@ void computeElementsClusterization(const ElementStore *elements, BodyStore *bodi
         part[p].resize(dist[p].size() - 1, info::mpi::rank);
     }
 
-    int rest = info::mpi::size;
     if (parts > 1) {
-        std::vector<size_t> poffset(parts);
+        std::vector<size_t> poffset(parts), bsize(parts);
         for (int p = 0; p < parts; ++p) {
             poffset[p] = part[p].size();
         }
-        Communication::exscan(psize, poffset);
-        size_t totalsize = 0;
-        for (int p = 0; p < parts; ++p) {
-            totalsize += psize[p];
-        }
-        for (int p = 0; p < parts; ++p) {
-            psize[p] = std::max(1UL, psize[p] * info::mpi::size / totalsize);
-            rest -= psize[p];
-        }
+        Communication::exscan(bsize, poffset);
 
         // exchange new elements IDs
         std::map<esint, esint> eid;
@@ -777,11 +802,11 @@ void computeElementsClusterization(const ElementStore *elements, BodyStore *bodi
             }
         }
     }
-    psize.back() += rest;
 
     for (int p = 0; p < parts; ++p) {
         callParallelDecomposer(elements, nodes, dist[p], data[p], part[p], psize[p]);
     }
+    info::ecf->input.decomposition.metis_options.contig = contig;
 
     partition.clear();
     utils::sizesToOffsets(psize);
-- 
2.43.0


From b72e12d3d00e51c2b7a526f437f72b4f4de19c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:55 +0000
Subject: [PATCH 21/57] fix: forced continuity terminates for bodies that
 cannot be joined with a fixed component

---
 src/mesh/preprocessing/pure.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/mesh/preprocessing/pure.cpp b/src/mesh/preprocessing/pure.cpp
index a5ef9a2..a5fe2b8 100644
--- a/src/mesh/preprocessing/pure.cpp
+++ b/src/mesh/preprocessing/pure.cpp
@@ -886,9 +886,9 @@ void computeContinuousClusterization(const ElementStore *elements, const NodeSto
         }
     }
 
-    int freeDomain = 1;
-    while (freeDomain) {
-        freeDomain = 0;
+    int updated = 1;
+    while (updated) { // components without any path to a fixed component stay on the current process
+        updated = 0;
         if (!Communication::exchangeUnknownSize(sBuffer, rBuffer, neighborsWithMe)) {
             eslog::internalFailure("Cannot exchange domains sizes\n");
         }
@@ -907,13 +907,12 @@ void computeContinuousClusterization(const ElementStore *elements, const NodeSto
                     if (ddesc->fixed) {
                         sBuffer[c].proc = ddesc->proc;
                         sBuffer[c].fixed = 1;
-                    } else {
-                        ++freeDomain;
+                        ++updated;
                     }
                 }
             }
         }
-        Communication::allReduce(&freeDomain, NULL, 1, MPI_INT, MPI_SUM);
+        Communication::allReduce(&updated, NULL, 1, MPI_INT, MPI_SUM);
     }
 
     profiler::synccheckpoint("decomposition_fixed");
-- 
2.43.0


From df5de8af5ea7bbb6d7b66d970acf3705a7962d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:51 +0000
Subject: [PATCH 22/57] fix: nodes received by more threads are not stored
 twice during the exchange of elements

---
 src/mesh/preprocessing/pure.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesh/preprocessing/pure.cpp b/src/mesh/preprocessing/pure.cpp
index a5fe2b8..0fe6434 100644
--- a/src/mesh/preprocessing/pure.cpp
+++ b/src/mesh/preprocessing/pure.cpp
@@ -1473,6 +1473,7 @@ void exchangeElements(ElementStore* &elements, NodeStore* &nodes, std::vector<El
         for (size_t t = 0; t < threads; t++) {
             nodeset.insert(nodeset.end(), tnodeset[t].begin(), tnodeset[t].end());
         }
+        std::sort(nodeset.begin() + nsize, nodeset.end()); // nodes are not sorted across threads
         std::inplace_merge(nodeset.begin(), nodeset.begin() + nsize, nodeset.end());
     }
 
-- 
2.43.0


From 06ce147e676e24c7cfa7ad18ebb4aa6445393b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:30 +0000
Subject: [PATCH 23/57] fix: elements of other threads are not overwritten by
 gradient and flux of the last SIMD chunk

---
 src/analysis/assembler/heattransfer/op.flux.h     | 6 +++---
 src/analysis/assembler/heattransfer/op.gradient.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/analysis/assembler/heattransfer/op.flux.h b/src/analysis/assembler/heattransfer/op.flux.h
index da8e9eb..15810f1 100644
--- a/src/analysis/assembler/heattransfer/op.flux.h
+++ b/src/analysis/assembler/heattransfer/op.flux.h
@@ -25,7 +25,7 @@ struct TemperatureFlux: SubKernel {
     void activate(size_t interval, NamedData *flux, ThermalConductivityConfiguration::MODEL model)
     {
         this->flux = flux->data.data() + info::mesh->dimension * info::mesh->elements->eintervals[interval].begin;
-        this->end = flux->data.data() + flux->data.size();
+        this->end = flux->data.data() + info::mesh->dimension * info::mesh->elements->eintervals[interval].end;
         this->model = model;
         isactive = 1;
     }
@@ -90,7 +90,7 @@ struct TemperatureFluxKernel<nodes, gps, 2>: TemperatureFlux {
         SIMD scale = load1(1. / gps);
         element.flux[0] = element.flux[0] * scale;
         element.flux[1] = element.flux[1] * scale;
-        size_t size = std::min((size_t)SIMD::size, (size_t)(end - flux));
+        size_t size = std::min((size_t)SIMD::size, (size_t)(end - flux) / 2);
         double * __restrict__ out = flux;
         for (size_t s = 0; s < size; ++s) {
             out[2 * s + 0] = element.flux[0][s];
@@ -167,7 +167,7 @@ struct TemperatureFluxKernel<nodes, gps, 3>: TemperatureFlux {
         element.flux[0] = element.flux[0] * scale;
         element.flux[1] = element.flux[1] * scale;
         element.flux[2] = element.flux[2] * scale;
-        size_t size = std::min((size_t)SIMD::size, (size_t)(end - flux));
+        size_t size = std::min((size_t)SIMD::size, (size_t)(end - flux) / 3);
         double * __restrict__ out = flux;
         for (size_t s = 0; s < size; ++s) {
             out[3 * s + 0] = element.flux[0][s];
diff --git a/src/analysis/assembler/heattransfer/op.gradient.h b/src/analysis/assembler/heattransfer/op.gradient.h
index 720ac4c..bac261f 100644
--- a/src/analysis/assembler/heattransfer/op.gradient.h
+++ b/src/analysis/assembler/heattransfer/op.gradient.h
@@ -23,7 +23,7 @@ struct TemperatureGradient: SubKernel {
     void activate(size_t interval, NamedData *gradient)
     {
         this->gradient = gradient->data.data() + info::mesh->dimension * info::mesh->elements->eintervals[interval].begin;
-        this->end = gradient->data.data() + gradient->data.size();
+        this->end = gradient->data.data() + info::mesh->dimension * info::mesh->elements->eintervals[interval].end;
         isactive = 1;
     }
 };
@@ -49,7 +49,7 @@ struct TemperatureGradientKernel<nodes, gps, 2>: TemperatureGradient {
         SIMD scale = load1(1. / gps);
         element.gradient[0] = element.gradient[0] * scale;
         element.gradient[1] = element.gradient[1] * scale;
-        size_t size = std::min((size_t)SIMD::size, (size_t)(end - gradient));
+        size_t size = std::min((size_t)SIMD::size, (size_t)(end - gradient) / 2);
         double * __restrict__ out = gradient;
         for (size_t s = 0; s < size; ++s) {
             out[2 * s + 0] = element.gradient[0][s];
@@ -81,7 +81,7 @@ struct TemperatureGradientKernel<nodes, gps, 3>: TemperatureGradient {
         element.gradient[0] = element.gradient[0] * scale;
         element.gradient[1] = element.gradient[1] * scale;
         element.gradient[2] = element.gradient[2] * scale;
-        size_t size = std::min((size_t)SIMD::size, (size_t)(end - gradient));
+        size_t size = std::min((size_t)SIMD::size, (size_t)(end - gradient) / 3);
         double * __restrict__ out = gradient;
         for (size_t s = 0; s < size; ++s) {
             out[3 * s + 0] = element.gradient[0][s];
-- 
2.43.0


From 5c054f0868d7461b22991bf255302c2959381159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:30 +0000
Subject: [PATCH 24/57] fix: absolute minimum and maximum of monitored element
 data

---
 src/mesh/store/elementstore.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mesh/store/elementstore.cpp b/src/mesh/store/elementstore.cpp
index be26db1..d7004d9 100644
--- a/src/mesh/store/elementstore.cpp
+++ b/src/mesh/store/elementstore.cpp
@@ -358,7 +358,7 @@ ElementData* ElementStore::appendData(int dimension, NamedData::DataType datatyp
 
 void ElementData::statistics(const tarray<esint> &elements, esint totalsize, Statistics *statistics) const
 {
-    for (int d = 0; d <= nstatistics(); d++) {
+    for (int d = 0; d < nstatistics(); d++) {
         (statistics + d)->reset();
     }
 
@@ -371,8 +371,8 @@ void ElementData::statistics(const tarray<esint> &elements, esint totalsize, Sta
             (statistics + d + doffset)->max    = std::max((statistics + d + doffset)->max, store[*e * dimension + d]);
             (statistics + d + doffset)->avg   += store[*e * dimension + d];
             (statistics + d + doffset)->norm  += store[*e * dimension + d] * store[*e * dimension + d];
-            (statistics + d + doffset)->absmin = std::min((statistics + d + doffset)->min, std::fabs(store[*e * dimension + d]));
-            (statistics + d + doffset)->absmax = std::max((statistics + d + doffset)->max, std::fabs(store[*e * dimension + d]));
+            (statistics + d + doffset)->absmin = std::min((statistics + d + doffset)->absmin, std::fabs(store[*e * dimension + d]));
+            (statistics + d + doffset)->absmax = std::max((statistics + d + doffset)->absmax, std::fabs(store[*e * dimension + d]));
         }
         if (dataType == DataType::VECTOR) {
             value = std::sqrt(value);
@@ -380,8 +380,8 @@ void ElementData::statistics(const tarray<esint> &elements, esint totalsize, Sta
             statistics->max = std::max(statistics->max, value);
             statistics->avg += value;
             statistics->norm += value * value;
-            statistics->absmin = std::min(statistics->min, std::fabs(value));
-            statistics->absmax = std::max(statistics->max, std::fabs(value));
+            statistics->absmin = std::min(statistics->absmin, std::fabs(value));
+            statistics->absmax = std::max(statistics->absmax, std::fabs(value));
         }
     }
 
-- 
2.43.0


From 70ed5de50f94f8dac750269f6365033e575339db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:31 +0000
Subject: [PATCH 25/57] fix: monitors of previous load steps are not
 overwritten

---
 src/output/monitors/monitoring.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/output/monitors/monitoring.cpp b/src/output/monitors/monitoring.cpp
index 01cd614..25e9c76 100644
--- a/src/output/monitors/monitoring.cpp
+++ b/src/output/monitors/monitoring.cpp
@@ -178,6 +178,7 @@ void Monitoring::updateMonitors(const step::Step &step)
         }
     }
 
+    _statistics.clear();
     for (size_t i = 0; i < _edata.size(); i++) {
         _statistics.resize(_statistics.size() + _edata[i].first->nstatistics());
     }
@@ -273,7 +274,7 @@ void Monitoring::updateMonitors(const step::Step &step)
         }
     }
 
-    if (info::mpi::rank == 0) {
+    if (info::mpi::rank == 0 && _runFile == NULL) { // monitors are updated in each load step
         _runFile = fopen((_path + "/" + std::string(info::ecf->name.c_str()) + ".emr").c_str(), "w");
 
         auto center = [&] (const std::string &value, int size) {
-- 
2.43.0


From 76da24ef008e5588494658875bb1dbf6f887e058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:01 +0000
Subject: [PATCH 26/57] fix: substeps of transient analyses are numbered from
 the first one in each load step

---
 src/analysis/physics/heat.transient.linear.cpp                | 1 +
 src/analysis/physics/structuralmechanics.transient.linear.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/analysis/physics/heat.transient.linear.cpp b/src/analysis/physics/heat.transient.linear.cpp
index 28cd1e4..9036b34 100644
--- a/src/analysis/physics/heat.transient.linear.cpp
+++ b/src/analysis/physics/heat.transient.linear.cpp
@@ -136,6 +136,7 @@ bool HeatTransientLinear::run(step::Step &step, Physics *prev)
     } else {
         assembler.getInitialTemperature(U);
     }
+    step.substep = 0;
     time.shift = configuration.transient_solver.time_step;
     time.current = time.start + time.shift;
     time.final   = time.start + configuration.duration_time;
diff --git a/src/analysis/physics/structuralmechanics.transient.linear.cpp b/src/analysis/physics/structuralmechanics.transient.linear.cpp
index a219785..3e73bd0 100644
--- a/src/analysis/physics/structuralmechanics.transient.linear.cpp
+++ b/src/analysis/physics/structuralmechanics.transient.linear.cpp
@@ -135,6 +135,7 @@ bool StructuralMechanicsTransientLinear::run(step::Step &step, Physics *prev)
         assembler.getInitialVelocity(V);
     }
 
+    step.substep = 0;
     time.shift = configuration.transient_solver.time_step;
     time.final = time.start + configuration.duration_time;
 
-- 
2.43.0


From aa01b27f601d882b6b4f41509b280fce2387cd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:38 +0000
Subject: [PATCH 27/57] fix: directions of previous solves are not used in the
 orthogonalization of PCPG

---
 src/feti/iterativesolver/orthopcpg.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/feti/iterativesolver/orthopcpg.h b/src/feti/iterativesolver/orthopcpg.h
index 4bef981..386ba15 100644
--- a/src/feti/iterativesolver/orthopcpg.h
+++ b/src/feti/iterativesolver/orthopcpg.h
@@ -18,6 +18,7 @@ public:
     {
         IterativeSolver<T>::resize(l, r, w, y, z, x);
         IterativeSolver<T>::resize(pi, Fpi);
+        yFp.clear(); pFp.clear(); // the space of 'pi' is built from scratch
     }
 
     void solve(const step::Step &step, IterativeSolverInfo &info) override;
-- 
2.43.0


From 0aa3d81bccc10cef8d1284985d536c6583307973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:38 +0000
Subject: [PATCH 28/57] fix: heat capacity is a part of the mass matrix of
 transient heat transfer

---
 src/analysis/assembler/heattransfer/kernel.h | 2 +-
 src/config/ecf/material/material.cpp         | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/analysis/assembler/heattransfer/kernel.h b/src/analysis/assembler/heattransfer/kernel.h
index 7588d08..70faaa5 100644
--- a/src/analysis/assembler/heattransfer/kernel.h
+++ b/src/analysis/assembler/heattransfer/kernel.h
@@ -358,7 +358,7 @@ void runElementKernel(const step::Step &step, const HeatTransferElementOperators
                 K.simd(element, gp);
             }
             if (M.isactive) {
-                M.simd(element, gp);
+                M.simd(element, gp, element.det * load1(element.w[gp]) * element.ecf.density * element.ecf.heatCapacity);
             }
             if (gradient.isactive) {
                 gradient.simd(element, gp);
diff --git a/src/config/ecf/material/material.cpp b/src/config/ecf/material/material.cpp
index 7010614..9d0306b 100644
--- a/src/config/ecf/material/material.cpp
+++ b/src/config/ecf/material/material.cpp
@@ -16,7 +16,8 @@ MaterialBaseConfiguration::MaterialBaseConfiguration(PHYSICAL_MODEL physicalMode
             .allowonly([&] () { return !*_phase_change; })
             .addconstraint(ECFCondition(*_phase_change, ECFCondition::EQUALS, false)));
 
-    density.value = heat_capacity.value = "0";
+    density.value = "0";
+    heat_capacity.value = "1"; // a material without heat capacity
     ecfdescription->registerParameter("dens", density, ECFMetaData()
             .setdescription({ "Density" })
             .setdatatype({ ECFDataType::EXPRESSION })
-- 
2.43.0


From f1478fafbc6f532c8d4fb3718a95ba742b85e5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:37 +0000
Subject: [PATCH 29/57] fix: asynchronous output stores the solution of the
 substep that is being stored

---
 src/mesh/store/nameddata.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mesh/store/nameddata.h b/src/mesh/store/nameddata.h
index e233d84..8149c8f 100644
--- a/src/mesh/store/nameddata.h
+++ b/src/mesh/store/nameddata.h
@@ -27,7 +27,15 @@ struct NamedData {
     std::string name;
     step::TYPE restriction;
 
-    std::vector<double> data, buffer, &store;
+    struct Store { // stored values: 'data' or 'buffer' (a reference cannot be rebound)
+        const std::vector<double> *values;
+
+        Store(const std::vector<double> &values): values(&values) {}
+        const double& operator[](size_t i) const { return (*values)[i]; }
+    };
+
+    std::vector<double> data, buffer;
+    Store store;
 
     NamedData(int dimension, DataType datatype, const std::string &name);
     NamedData(const char* &packedData);
-- 
2.43.0


From a65b7943b26c36ef7df1734c0b90459a7e029b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:37 +0000
Subject: [PATCH 30/57] fix: asynchronous output lists variables of the current
 step

---
 src/output/output.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output/output.cpp b/src/output/output.cpp
index b80f4dc..b04ac85 100644
--- a/src/output/output.cpp
+++ b/src/output/output.cpp
@@ -91,7 +91,7 @@ class AsyncOutputExecutor: public DirectOutputExecutor, public Pthread::Executor
         step::Time time;
         step::Frequency frequency;
 
-        SharedData(TAG tag, const step::Step &step): tag(tag) {}
+        SharedData(TAG tag, const step::Step &step): tag(tag), step(step) {}
         SharedData(TAG tag, const step::Step &step, const step::Time &time): tag(tag), step(step), time(time) {}
         SharedData(TAG tag, const step::Step &step, const step::Frequency &frequency): tag(tag), step(step), frequency(frequency) {}
     } app, thread;
-- 
2.43.0


From da21b06e8a174a45b269d2b7056d8299cef6c3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:14 +0000
Subject: [PATCH 31/57] fix: the last substep of transient analyses is
 recognized by the output

---
 src/analysis/physics/heat.transient.linear.cpp                   | 1 +
 src/analysis/physics/structuralmechanics.transient.linear.cpp    | 1 +
 src/analysis/physics/structuralmechanics.transient.nonlinear.cpp | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/analysis/physics/heat.transient.linear.cpp b/src/analysis/physics/heat.transient.linear.cpp
index 9036b34..0225db5 100644
--- a/src/analysis/physics/heat.transient.linear.cpp
+++ b/src/analysis/physics/heat.transient.linear.cpp
@@ -169,6 +169,7 @@ bool HeatTransientLinear::run(step::Step &step, Physics *prev)
     V->set(0);
     bool solved = true;
     while (solved && time.current <= time.final + time.precision) {
+        step.substeps = step.substep + (time.current + time.shift <= time.final + time.precision ? 2 : 1);
         eslog::info(" ============================================================================================= \n");
         eslog::info(" = LOAD STEP %2d, SUBSTEP   %3d,   TIME %9.4f, TIME SHIFT %9.4f, FINAL TIME %9.4f = \n", step.loadstep + 1, step.substep + 1, time.current, time.shift, time.final);
         eslog::info(" = ----------------------------------------------------------------------------------------- = \n");
diff --git a/src/analysis/physics/structuralmechanics.transient.linear.cpp b/src/analysis/physics/structuralmechanics.transient.linear.cpp
index 3e73bd0..84504de 100644
--- a/src/analysis/physics/structuralmechanics.transient.linear.cpp
+++ b/src/analysis/physics/structuralmechanics.transient.linear.cpp
@@ -163,6 +163,7 @@ bool StructuralMechanicsTransientLinear::run(step::Step &step, Physics *prev)
     while (solved && time.current + time.shift <= time.final + time.precision) {
         time.shift = precice.timeStep(time.shift);
         time.current = time.previous + time.shift;
+        step.substeps = step.substep + (time.current + time.shift <= time.final + time.precision ? 2 : 1);
         double newmark[] = {
             1. / (delta * time.shift * time.shift),
             alpha / (delta * time.shift),
diff --git a/src/analysis/physics/structuralmechanics.transient.nonlinear.cpp b/src/analysis/physics/structuralmechanics.transient.nonlinear.cpp
index 12d8161..9274e22 100644
--- a/src/analysis/physics/structuralmechanics.transient.nonlinear.cpp
+++ b/src/analysis/physics/structuralmechanics.transient.nonlinear.cpp
@@ -221,6 +221,7 @@ bool StructuralMechanicsTransientNonLinear::run(step::Step &step, Physics *prev)
         double start = eslog::time();
         time.shift = precice.timeStep(time.shift);
         time.current = time.previous + time.shift;
+        step.substeps = step.substep + (time.current + time.shift <= time.final + time.precision ? 2 : 1);
 
         eslog::info(" ============================================================================================= \n");
         eslog::info(" == SUBSTEP   %3d               TIME %8.5f    TIME SHIFT %8.5f    FINAL TIME %8.5f == \n", step.substep + 1, time.current, time.shift, time.final);
-- 
2.43.0


From 1583240a63ee5af9a70fa6c80c368ec52deee285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:45 +0000
Subject: [PATCH 32/57] fix: velocity and acceleration of the current substep
 are stored

---
 src/analysis/physics/structuralmechanics.transient.linear.cpp  | 3 +--
 .../physics/structuralmechanics.transient.nonlinear.cpp        | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/analysis/physics/structuralmechanics.transient.linear.cpp b/src/analysis/physics/structuralmechanics.transient.linear.cpp
index 84504de..f6d2989 100644
--- a/src/analysis/physics/structuralmechanics.transient.linear.cpp
+++ b/src/analysis/physics/structuralmechanics.transient.linear.cpp
@@ -230,8 +230,6 @@ bool StructuralMechanicsTransientLinear::run(step::Step &step, Physics *prev)
             eslog::checkpointln("SIMULATION: SOLUTION RESTARTED");
             time.current = time.previous;
         } else {
-            info::mesh->output->updateSolution(step, time);
-
             dU->copy(solver->x);
             dU->add(-1, U);
             U->copy(solver->x);
@@ -245,6 +243,7 @@ bool StructuralMechanicsTransientLinear::run(step::Step &step, Physics *prev)
             if (StructuralMechanics::Results::velocity) {
                 V->storeTo(StructuralMechanics::Results::velocity->data);
             }
+            info::mesh->output->updateSolution(step, time);
 
             eslog::info("       = PROCESS SOLUTION                                                   %8.3f s = \n", eslog::time() - solution);
             eslog::info("       = ----------------------------------------------------------------------------- = \n");
diff --git a/src/analysis/physics/structuralmechanics.transient.nonlinear.cpp b/src/analysis/physics/structuralmechanics.transient.nonlinear.cpp
index 9274e22..86e74dd 100644
--- a/src/analysis/physics/structuralmechanics.transient.nonlinear.cpp
+++ b/src/analysis/physics/structuralmechanics.transient.nonlinear.cpp
@@ -341,8 +341,6 @@ bool StructuralMechanicsTransientNonLinear::run(step::Step &step, Physics *prev)
             eslog::checkpointln("SIMULATION: SOLUTION RESTARTED");
             time.current = time.previous;
         } else {
-            info::mesh->output->updateSolution(step, time);
-
             U_old->copy(U);
             V_old->copy(V);
             A_old->copy(A);
@@ -354,6 +352,7 @@ bool StructuralMechanicsTransientNonLinear::run(step::Step &step, Physics *prev)
             if (StructuralMechanics::Results::velocity) {
                 V->storeTo(StructuralMechanics::Results::velocity->data);
             }
+            info::mesh->output->updateSolution(step, time);
 
             eslog::info("      = TIME STEP FINISHED ======================================= solved in %8.3f s = \n", eslog::time() - start);
             eslog::info("      =================================================================================== \n\n");
-- 
2.43.0


From cd5fdff6ddcc3029c2dc1c5ab39ab85ffa895c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:12 +0000
Subject: [PATCH 33/57] fix: components stored by more processes are not
 interleaved in VTK files

---
 src/output/visualization/vtklegacy.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/output/visualization/vtklegacy.cpp b/src/output/visualization/vtklegacy.cpp
index 3b87151..737cfa5 100644
--- a/src/output/visualization/vtklegacy.cpp
+++ b/src/output/visualization/vtklegacy.cpp
@@ -339,7 +339,9 @@ void VTKLegacy::insertData(const step::Step &step, NamedData *data, esint nindic
             for (esint n = 0; n < nindices; ++n) {
                 _writer.float32ln(data->store[indices[n] * data->dimension + d]);
             }
+            _writer.groupData();
         }
+        return;
     }
 
     if (data->dataType == NamedData::DataType::NUMBERED) {
@@ -351,7 +353,9 @@ void VTKLegacy::insertData(const step::Step &step, NamedData *data, esint nindic
             for (esint n = 0; n < nindices; ++n) {
                 _writer.float32ln(data->store[indices[n] * data->dimension + d]);
             }
+            _writer.groupData();
         }
+        return;
     }
 
     if (data->dataType == NamedData::DataType::VECTOR) {
-- 
2.43.0


From f56251fdacdddb91fd28885f8b8ba42a2a886bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:12 +0000
Subject: [PATCH 34/57] fix: symmetric tensors in VTK files are composed of
 their own components

---
 src/output/visualization/vtklegacy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/output/visualization/vtklegacy.cpp b/src/output/visualization/vtklegacy.cpp
index 737cfa5..3dfa058 100644
--- a/src/output/visualization/vtklegacy.cpp
+++ b/src/output/visualization/vtklegacy.cpp
@@ -369,7 +369,7 @@ void VTKLegacy::insertData(const step::Step &step, NamedData *data, esint nindic
         }
     }
 
-    if (data->dataType == NamedData::DataType::TENSOR_ASYM) {
+    if (data->dataType == NamedData::DataType::TENSOR_SYMM) {
         if (isRoot()) {
             _writer.data("TENSORS", data->name, "float");
         }
@@ -386,7 +386,7 @@ void VTKLegacy::insertData(const step::Step &step, NamedData *data, esint nindic
         }
     }
 
-    if (data->dataType == NamedData::DataType::TENSOR_SYMM) {
+    if (data->dataType == NamedData::DataType::TENSOR_ASYM) {
         if (isRoot()) {
             _writer.data("TENSORS", data->name, "float");
         }
-- 
2.43.0


From 8bea8dbcd8f4dd62d78ee4a5aa635719cbdda5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:49 +0000
Subject: [PATCH 35/57] fix: order of components of symmetric tensors in
 EnSight files

---
 src/output/visualization/ensightgold.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/output/visualization/ensightgold.cpp b/src/output/visualization/ensightgold.cpp
index 77b5237..04ccd1a 100644
--- a/src/output/visualization/ensightgold.cpp
+++ b/src/output/visualization/ensightgold.cpp
@@ -365,6 +365,15 @@ void EnSightGold::geometry()
     _writer.commitFile(_path + _geometry);
 }
 
+// EnSight stores symmetric tensors as XX, YY, ZZ, XY, XZ, YZ
+static int component(const NamedData *data, int d)
+{
+    if (data->dataType == NamedData::DataType::TENSOR_SYMM && d > 3) {
+        return 9 - d;
+    }
+    return d;
+}
+
 int EnSightGold::ndata(const NamedData *data, const step::Step &step)
 {
     if (!storeData(data, step)) {
@@ -397,7 +406,7 @@ int EnSightGold::ndata(const NamedData *data, const step::Step &step)
             const ElementsRegionStore *region = info::mesh->elementsRegions[r];
             if (info::mesh->dimension == 3) {
                 for (int d = 0; d < data->dimension; ++d) {
-                    niterator(region->nodeInfo.size, region->nodes->datatarray().data() + region->nodeInfo.nhalo, [&] (esint nindex) { _writer.float32(data->store[nindex * data->dimension + d]); });
+                    niterator(region->nodeInfo.size, region->nodes->datatarray().data() + region->nodeInfo.nhalo, [&] (esint nindex) { _writer.float32(data->store[nindex * data->dimension + component(data, d)]); });
                 }
             }
             if (info::mesh->dimension == 2) {
@@ -426,7 +435,7 @@ int EnSightGold::ndata(const NamedData *data, const step::Step &step)
 
             if (info::mesh->dimension == 3) {
                 for (int d = 0; d < data->dimension; ++d) {
-                    niterator(region->nodeInfo.size, region->nodes->datatarray().data() + region->nodeInfo.nhalo, [&] (esint nindex) { _writer.float32(data->store[nindex * data->dimension + d]); });
+                    niterator(region->nodeInfo.size, region->nodes->datatarray().data() + region->nodeInfo.nhalo, [&] (esint nindex) { _writer.float32(data->store[nindex * data->dimension + component(data, d)]); });
                 }
             }
             if (info::mesh->dimension == 2) {
@@ -538,7 +547,7 @@ int EnSightGold::edata(const NamedData *data, const step::Step &step)
 
                     if (info::mesh->dimension == 3) {
                         for (int d = 0; d < data->dimension; ++d) {
-                            eiterator(info::mesh->elementsRegions[r], etype, [&] (const ElementsInterval &interval, esint eindex) { _writer.float32(data->store[eindex * data->dimension + d]); });
+                            eiterator(info::mesh->elementsRegions[r], etype, [&] (const ElementsInterval &interval, esint eindex) { _writer.float32(data->store[eindex * data->dimension + component(data, d)]); });
                         }
                     }
                     if (info::mesh->dimension == 2) {
-- 
2.43.0


From 2d58a9c4bf2da48a525c5fa731a251f4b7567e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:28 +0000
Subject: [PATCH 36/57] fix: failed writes of output files are reported

---
 src/basis/io/outputfile.cpp | 16 ++++++++++++----
 src/basis/io/writer.h       | 20 ++++++++++----------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/basis/io/outputfile.cpp b/src/basis/io/outputfile.cpp
index 4f168a8..c8922e0 100644
--- a/src/basis/io/outputfile.cpp
+++ b/src/basis/io/outputfile.cpp
@@ -214,10 +214,14 @@ void OutputFilePack::write()
 
                 for (size_t c = 0; c < chunks; ++c) {
                     size_t size = std::min(chunkmax, _files[i]->_buffer.size() - c * chunkmax);
-                    writer.store(_files[i]->_buffer.data() + chunkoffset - _files[i]->_distribution[reorderedRank(info::mpi::rank, _files[i]->_offset)], chunkoffset, size);
+                    if (writer.store(_files[i]->_buffer.data() + chunkoffset - _files[i]->_distribution[reorderedRank(info::mpi::rank, _files[i]->_offset)], chunkoffset, size)) {
+                        eslog::error("WRITER: cannot write to file '%s'\n", _files[i]->_name.c_str());
+                    }
                     chunkoffset += size;
                 }
-                writer.close();
+                if (writer.close()) {
+                    eslog::error("WRITER: cannot close file '%s'\n", _files[i]->_name.c_str());
+                }
             }
         }
         if (info::ecf->output.writer == OutputConfiguration::WRITER::MPI_COLLECTIVE) {
@@ -229,10 +233,14 @@ void OutputFilePack::write()
 
                 for (size_t c = 0; c < chunks; ++c) {
                     size_t size = std::min(chunkmax, _files[i]->_buffer.size() - c * chunkmax);
-                    writer.store(_files[i]->_buffer.data() + chunkoffset - _files[i]->_distribution[reorderedRank(info::mpi::rank, _files[i]->_offset)], chunkoffset, size);
+                    if (writer.store(_files[i]->_buffer.data() + chunkoffset - _files[i]->_distribution[reorderedRank(info::mpi::rank, _files[i]->_offset)], chunkoffset, size)) {
+                        eslog::error("WRITER: cannot write to file '%s'\n", _files[i]->_name.c_str());
+                    }
                     chunkoffset += size;
                 }
-                writer.close();
+                if (writer.close()) {
+                    eslog::error("WRITER: cannot close file '%s'\n", _files[i]->_name.c_str());
+                }
             }
         }
         profiler::synccheckpoint("write");
diff --git a/src/basis/io/writer.h b/src/basis/io/writer.h
index fc33c19..7d6ea60 100644
--- a/src/basis/io/writer.h
+++ b/src/basis/io/writer.h
@@ -11,8 +11,8 @@ public:
     virtual ~Writer() {}
 
     virtual int  open(MPIGroup &group, const std::string &file) =0;
-    virtual void store(const char* data, size_t offset, size_t size) =0;
-    virtual void close() =0;
+    virtual int  store(const char* data, size_t offset, size_t size) =0;
+    virtual int  close() =0;
 };
 
 class MPIWriter: public Writer {
@@ -24,14 +24,14 @@ public:
         return MPI_File_open(MPI_COMM_SELF, file.c_str(), MPI_MODE_WRONLY | MPI_MODE_CREATE, MPI_INFO_NULL, &MPIfile);
     }
 
-    void store(const char* data, size_t offset, size_t size)
+    int store(const char* data, size_t offset, size_t size)
     {
-        MPI_File_write_at(MPIfile, offset, data, size, MPI_BYTE, MPI_STATUS_IGNORE);
+        return MPI_File_write_at(MPIfile, offset, data, size, MPI_BYTE, MPI_STATUS_IGNORE);
     }
 
-    void close()
+    int close()
     {
-        MPI_File_close(&MPIfile);
+        return MPI_File_close(&MPIfile);
     }
 
 protected:
@@ -47,14 +47,14 @@ public:
         return MPI_File_open(group.communicator, file.c_str(), MPI_MODE_WRONLY | MPI_MODE_CREATE, MPI_INFO_NULL, &MPIfile);
     }
 
-    void store(const char* data, size_t offset, size_t size)
+    int store(const char* data, size_t offset, size_t size)
     {
-        MPI_File_write_at_all(MPIfile, offset, data, size, MPI_BYTE, MPI_STATUS_IGNORE);
+        return MPI_File_write_at_all(MPIfile, offset, data, size, MPI_BYTE, MPI_STATUS_IGNORE);
     }
 
-    void close()
+    int close()
     {
-        MPI_File_close(&MPIfile);
+        return MPI_File_close(&MPIfile);
     }
 
 protected:
-- 
2.43.0


From 9d537e316c0a56930f423fce1eb7493ece307c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:44 +0000
Subject: [PATCH 37/57] fix: failed and incomplete reads of input files are
 reported

---
 src/basis/io/inputfile.cpp | 16 ++++++++++++----
 src/basis/io/loader.h      | 27 +++++++++++++++++++--------
 2 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/basis/io/inputfile.cpp b/src/basis/io/inputfile.cpp
index 628c471..eb62ead 100644
--- a/src/basis/io/inputfile.cpp
+++ b/src/basis/io/inputfile.cpp
@@ -180,7 +180,9 @@ void InputFilePack::read()
             if (MPITools::subset->within.rank == 0 && chunksize) {
                 for (size_t c = 0; c < chunks; ++c) {
                     size_t size = std::min(chunkmax, files[i]->data.size() - overlap - c * chunkmax);
-                    loader.read(files[i]->data.data() + chunkoffset - files[i]->distribution[info::mpi::rank], chunkoffset, size);
+                    if (loader.read(files[i]->data.data() + chunkoffset - files[i]->distribution[info::mpi::rank], chunkoffset, size)) {
+                        eslog::error("LOADER: cannot read file '%s'\n", paths[i].c_str());
+                    }
                     chunkoffset += size;
                 }
                 loader.close();
@@ -197,7 +199,9 @@ void InputFilePack::read()
             if (MPITools::subset->within.rank == 0) {
                 for (size_t c = 0; c < chunks; ++c) {
                     size_t size = std::min(chunkmax, files[i]->data.size() - overlap - c * chunkmax);
-                    loader.read(files[i]->data.data() + chunkoffset - files[i]->distribution[info::mpi::rank], chunkoffset, size);
+                    if (loader.read(files[i]->data.data() + chunkoffset - files[i]->distribution[info::mpi::rank], chunkoffset, size)) {
+                        eslog::error("LOADER: cannot read file '%s'\n", paths[i].c_str());
+                    }
                     chunkoffset += size;
                 }
                 loader.close();
@@ -212,7 +216,9 @@ void InputFilePack::read()
             }
 
             if (MPITools::subset->within.rank == 0) {
-                loader.read(files[i]->data.data(), chunkoffset, chunksize);
+                if (loader.read(files[i]->data.data(), chunkoffset, chunksize)) {
+                    eslog::error("LOADER: cannot read file '%s'\n", paths[i].c_str());
+                }
                 loader.close();
             }
         }
@@ -306,7 +312,9 @@ void Metadata::read(const std::string &filename)
         distribution = { 0, loader.size() };
         data.resize(distribution.back());
         profiler::synccheckpoint("prepare");
-        loader.read(data.data(), 0, distribution.back());
+        if (loader.read(data.data(), 0, distribution.back())) {
+            eslog::error("MESIO error: cannot load metadata file '%s'\n", filename.c_str());
+        }
         loader.close();
         profiler::synccheckpoint("read");
     }
diff --git a/src/basis/io/loader.h b/src/basis/io/loader.h
index 75f9e54..326d839 100644
--- a/src/basis/io/loader.h
+++ b/src/basis/io/loader.h
@@ -13,7 +13,7 @@ struct Loader {
 
     virtual int    open (MPIGroup &group, const std::string &file) =0;
     virtual size_t size () =0;
-    virtual void   read (char *data, size_t offset, size_t size) =0;
+    virtual int    read (char *data, size_t offset, size_t size) =0;
     virtual void   close() =0;
 };
 
@@ -32,10 +32,9 @@ struct POSIXLoader: public Loader {
         return ftell(f);
     }
 
-    void read (char *data, size_t offset, size_t size)
+    int read (char *data, size_t offset, size_t size)
     {
-        fseek(f, offset, SEEK_SET);
-        size = fread(data, 1, size, f);
+        return fseek(f, offset, SEEK_SET) || fread(data, 1, size, f) != size;
     }
 
     void close()
@@ -62,9 +61,15 @@ struct MPILoader: public Loader {
         return size;
     }
 
-    void read (char *data, size_t offset, size_t size)
+    int read (char *data, size_t offset, size_t size)
     {
-        MPI_File_read_at(MPIfile, offset, data, size, MPI_BYTE, MPI_STATUS_IGNORE);
+        int count = 0;
+        MPI_Status status;
+        if (MPI_File_read_at(MPIfile, offset, data, size, MPI_BYTE, &status)) {
+            return 1;
+        }
+        MPI_Get_count(&status, MPI_BYTE, &count);
+        return (size_t)count != size;
     }
 
     void close()
@@ -91,9 +96,15 @@ struct MPICollectiveLoader: public Loader {
         return size;
     }
 
-    void read (char *data, size_t offset, size_t size)
+    int read (char *data, size_t offset, size_t size)
     {
-        MPI_File_read_at_all(MPIfile, offset, data, size, MPI_BYTE, MPI_STATUS_IGNORE);
+        int count = 0;
+        MPI_Status status;
+        if (MPI_File_read_at_all(MPIfile, offset, data, size, MPI_BYTE, &status)) {
+            return 1;
+        }
+        MPI_Get_count(&status, MPI_BYTE, &count);
+        return (size_t)count != size;
     }
 
     void close()
-- 
2.43.0


From 0f4bbf17191fc35657243e0cbd6f510034b80fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:44 +0000
Subject: [PATCH 38/57] fix: incomplete read of a configuration file is
 reported

---
 src/config/reader/tokenizer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/config/reader/tokenizer.cpp b/src/config/reader/tokenizer.cpp
index e85b97c..9ae7c34 100644
--- a/src/config/reader/tokenizer.cpp
+++ b/src/config/reader/tokenizer.cpp
@@ -26,6 +26,9 @@ FullFile::FullFile(const std::string &file): _p(0)
         data.seekg(0, data.beg);
 
         data.read(_data.data(), _data.size());
+        if (!data.good()) {
+            eslog::error("Cannot read file '%s'\n", file.c_str());
+        }
         data.close();
     }
 }
-- 
2.43.0


From 12736b9034e62b7489097791d3dd46f4ac5451e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:56 +0000
Subject: [PATCH 39/57] fix: failed write of an EnSight case file is reported

---
 src/output/visualization/ensightgold.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/output/visualization/ensightgold.cpp b/src/output/visualization/ensightgold.cpp
index 04ccd1a..09bdd30 100644
--- a/src/output/visualization/ensightgold.cpp
+++ b/src/output/visualization/ensightgold.cpp
@@ -3,7 +3,7 @@
 #include "basis/containers/serializededata.h"
 #include "basis/logging/profiler.h"
 #include "wrappers/mpi/communication.h"
-#include "esinfo/eslog.h"
+#include "esinfo/eslog.hpp"
 #include "esinfo/mpiinfo.h"
 #include "esinfo/meshinfo.h"
 #include "esinfo/ecfinfo.h"
@@ -238,6 +238,10 @@ void EnSightGold::casefile()
             }
         }
     }
+    os.close();
+    if (!os.good()) {
+        eslog::error("ENSIGHT: cannot write case file '%s'\n", (_path + _name + ".case").c_str());
+    }
 }
 
 void EnSightGold::geometry()
-- 
2.43.0


From b95c58a5fb34b545b4832387b067d227b9c2332b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:56 +0000
Subject: [PATCH 40/57] fix: failed writes of monitors are reported

---
 src/output/monitors/monitoring.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/output/monitors/monitoring.cpp b/src/output/monitors/monitoring.cpp
index 25e9c76..3780dc3 100644
--- a/src/output/monitors/monitoring.cpp
+++ b/src/output/monitors/monitoring.cpp
@@ -67,7 +67,10 @@ Monitoring::Monitoring()
 Monitoring::~Monitoring()
 {
     if (_runFile) {
-        fclose(_runFile);
+        int failed = ferror(_runFile);
+        if (fclose(_runFile) || failed) {
+            eslog::error("MONITORING: cannot store monitors.\n");
+        }
     }
 }
 
@@ -276,6 +279,9 @@ void Monitoring::updateMonitors(const step::Step &step)
 
     if (info::mpi::rank == 0 && _runFile == NULL) { // monitors are updated in each load step
         _runFile = fopen((_path + "/" + std::string(info::ecf->name.c_str()) + ".emr").c_str(), "w");
+        if (_runFile == NULL) {
+            eslog::error("MONITORING: cannot create file '%s/%s.emr'.\n", _path.c_str(), info::ecf->name.c_str());
+        }
 
         auto center = [&] (const std::string &value, int size) {
             fprintf(_runFile, "%*s%*c", pre(value, size), value.c_str(), post(value, size), delimiter);
@@ -367,7 +373,9 @@ void Monitoring::storeSolution(const step::Step &step)
         }
     }
     fprintf(_runFile, "\n");
-    fflush(_runFile);
+    if (fflush(_runFile) || ferror(_runFile)) {
+        eslog::error("MONITORING: cannot store monitors.\n");
+    }
 }
 
 
-- 
2.43.0


From d9d3615a6dc47eff2412c76fcde564e7a0b0cbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:17 +0000
Subject: [PATCH 41/57] fix: rewritten output files do not keep their old ends

---
 src/basis/io/outputfile.cpp |  6 ++++++
 src/basis/io/writer.h       | 11 +++++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/basis/io/outputfile.cpp b/src/basis/io/outputfile.cpp
index c8922e0..f57469e 100644
--- a/src/basis/io/outputfile.cpp
+++ b/src/basis/io/outputfile.cpp
@@ -211,6 +211,9 @@ void OutputFilePack::write()
                 if (writer.open(MPITools::subset->across, _files[i]->_name)) {
                     eslog::error("WRITER: cannot create file '%s'\n", _files[i]->_name.c_str());
                 }
+                if (writer.resize(_files[i]->_distribution[info::mpi::size])) { // the file can already exist
+                    eslog::error("WRITER: cannot set the size of file '%s'\n", _files[i]->_name.c_str());
+                }
 
                 for (size_t c = 0; c < chunks; ++c) {
                     size_t size = std::min(chunkmax, _files[i]->_buffer.size() - c * chunkmax);
@@ -230,6 +233,9 @@ void OutputFilePack::write()
                 if (writer.open(MPITools::subset->across, _files[i]->_name)) {
                     eslog::error("WRITER: cannot create file '%s'\n", _files[i]->_name.c_str());
                 }
+                if (writer.resize(_files[i]->_distribution[info::mpi::size])) { // the file can already exist
+                    eslog::error("WRITER: cannot set the size of file '%s'\n", _files[i]->_name.c_str());
+                }
 
                 for (size_t c = 0; c < chunks; ++c) {
                     size_t size = std::min(chunkmax, _files[i]->_buffer.size() - c * chunkmax);
diff --git a/src/basis/io/writer.h b/src/basis/io/writer.h
index 7d6ea60..edc2966 100644
--- a/src/basis/io/writer.h
+++ b/src/basis/io/writer.h
@@ -11,6 +11,7 @@ public:
     virtual ~Writer() {}
 
     virtual int  open(MPIGroup &group, const std::string &file) =0;
+    virtual int  resize(size_t totalsize) =0;
     virtual int  store(const char* data, size_t offset, size_t size) =0;
     virtual int  close() =0;
 };
@@ -24,6 +25,11 @@ public:
         return MPI_File_open(MPI_COMM_SELF, file.c_str(), MPI_MODE_WRONLY | MPI_MODE_CREATE, MPI_INFO_NULL, &MPIfile);
     }
 
+    int resize(size_t totalsize)
+    {
+        return MPI_File_set_size(MPIfile, totalsize);
+    }
+
     int store(const char* data, size_t offset, size_t size)
     {
         return MPI_File_write_at(MPIfile, offset, data, size, MPI_BYTE, MPI_STATUS_IGNORE);
@@ -47,6 +53,11 @@ public:
         return MPI_File_open(group.communicator, file.c_str(), MPI_MODE_WRONLY | MPI_MODE_CREATE, MPI_INFO_NULL, &MPIfile);
     }
 
+    int resize(size_t totalsize)
+    {
+        return MPI_File_set_size(MPIfile, totalsize);
+    }
+
     int store(const char* data, size_t offset, size_t size)
     {
         return MPI_File_write_at_all(MPIfile, offset, data, size, MPI_BYTE, MPI_STATUS_IGNORE);
-- 
2.43.0


From 559cc16b737bd5726534544fc6ed82f2846ba533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:03 +0000
Subject: [PATCH 42/57] fix: missing check of the opened error log file

---
 src/basis/logging/progresslogger.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/basis/logging/progresslogger.cpp b/src/basis/logging/progresslogger.cpp
index bb8b6a6..8faf0f6 100644
--- a/src/basis/logging/progresslogger.cpp
+++ b/src/basis/logging/progresslogger.cpp
@@ -46,6 +46,9 @@ void ProgressFileLogger::setLogFile()
         fprintf(out, "%s", prebuffer);
 
         err = fopen(errfile.c_str(), "a");
+        if (err == NULL) {
+            eslog::error("Cannot create log file '%s'.\n", errfile.c_str());
+        }
         setbuf(err, NULL);
     }
 }
-- 
2.43.0


From 44ac248a739b7a16380af1c2f6eeabec9fc527c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:10 +0000
Subject: [PATCH 43/57] fix: contact forces of problems without inequality
 constraints are zero, not uninitialized

---
 src/feti/iterativesolver/iterativesolver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/feti/iterativesolver/iterativesolver.cpp b/src/feti/iterativesolver/iterativesolver.cpp
index 7b01b8b..bcbdf43 100644
--- a/src/feti/iterativesolver/iterativesolver.cpp
+++ b/src/feti/iterativesolver/iterativesolver.cpp
@@ -51,6 +51,7 @@ void IterativeSolver<T>::reconstructSolution(const Vector_Dual<T> &l, const Vect
     print(step);
     #pragma omp parallel for
     for (size_t d = 0; d < feti.K.size(); ++d) {
+        math::set(feti.ineqBtL[d], T{0}); // there are no inequality constraints
         math::copy(feti.x[d], iKfBtL[d]);
         math::add(feti.x[d], T{1}, Ra[d]);
     }
-- 
2.43.0


From 5ec9554afd69a79fff1589f0f1cc601c185f2709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:46 +0000
Subject: [PATCH 44/57] fix: FORCE on face and edge regions used a mapping of
 faces

---
 src/analysis/assembler/structuralmechanics.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/analysis/assembler/structuralmechanics.cpp b/src/analysis/assembler/structuralmechanics.cpp
index 3b21810..0f0ee3f 100644
--- a/src/analysis/assembler/structuralmechanics.cpp
+++ b/src/analysis/assembler/structuralmechanics.cpp
@@ -551,8 +551,9 @@ void StructuralMechanics::connect(Matrix_Base<double> *K, Matrix_Base<double> *M
                 faceKernels[r][i].reRHSfiller.activate(r, i, info::mesh->dimension, faceKernels[r][i].elements, f);
             }
         }
+        size_t offset = info::mesh->boundaryRegions[r]->dimension ? info::mesh->boundaryRegions[r]->eintervals.size() : 0; // nodes are behind elements in the mapping
         for (size_t t = 0; t < info::mesh->boundaryRegions[r]->nodes->threads(); ++t) {
-            nodeKernels[r][t].reRHSfiller.activate(r, t, info::mesh->dimension, nodeKernels[r][t].elements, f);
+            nodeKernels[r][t].reRHSfiller.activate(r, offset + t, info::mesh->dimension, nodeKernels[r][t].elements, f);
         }
     }
     for (auto it = configuration.displacement.begin(); it != configuration.displacement.end(); ++it) {
@@ -583,9 +584,10 @@ void StructuralMechanics::connect(Matrix_Base<double> *K, Matrix_Base<double> *M
                 faceKernels[r][i].imRHSfiller.activate(r, i, info::mesh->dimension, faceKernels[r][i].elements, imf);
             }
         }
+        size_t offset = info::mesh->boundaryRegions[r]->dimension ? info::mesh->boundaryRegions[r]->eintervals.size() : 0; // nodes are behind elements in the mapping
         for (size_t t = 0; t < info::mesh->boundaryRegions[r]->nodes->threads(); ++t) {
-            nodeKernels[r][t].reRHSfiller.activate(r, t, info::mesh->dimension, nodeKernels[r][t].elements, ref);
-            nodeKernels[r][t].imRHSfiller.activate(r, t, info::mesh->dimension, nodeKernels[r][t].elements, imf);
+            nodeKernels[r][t].reRHSfiller.activate(r, offset + t, info::mesh->dimension, nodeKernels[r][t].elements, ref);
+            nodeKernels[r][t].imRHSfiller.activate(r, offset + t, info::mesh->dimension, nodeKernels[r][t].elements, imf);
         }
     }
     for (auto it = configuration.displacement.begin(); it != configuration.displacement.end(); ++it) {
-- 
2.43.0


From 440c8881206a42c6922f57ee5be2708adfce179f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:46 +0000
Subject: [PATCH 45/57] fix: PCPG checks the current residual (zero residual
 led to NaN solution)

---
 src/feti/iterativesolver/pcpg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/feti/iterativesolver/pcpg.cpp b/src/feti/iterativesolver/pcpg.cpp
index 68b85f1..64dcac3 100644
--- a/src/feti/iterativesolver/pcpg.cpp
+++ b/src/feti/iterativesolver/pcpg.cpp
@@ -134,8 +134,8 @@ template <> void PCPG<double>::solve(const step::Step &step, IterativeSolverInfo
         math::add(y, beta, p); y.swap(p);
         eslog::accumulatedln("pcpg: update p");
 
-        updateInfo(info, feti.configuration, yw, 0, 0);
         yw = _yw; // keep yw for the next iteration
+        updateInfo(info, feti.configuration, yw, 0, 0);
         eslog::accumulatedln("pcpg: check criteria");
     }
     eslog::endln("pcpg: finished");
-- 
2.43.0


From fcb403b7c50a141eca86e23c41f9cb221d23e03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:46 +0000
Subject: [PATCH 46/57] fix: zero initial residual is the solution, not an
 error

---
 src/feti/iterativesolver/iterativesolver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/feti/iterativesolver/iterativesolver.cpp b/src/feti/iterativesolver/iterativesolver.cpp
index bcbdf43..3cfe535 100644
--- a/src/feti/iterativesolver/iterativesolver.cpp
+++ b/src/feti/iterativesolver/iterativesolver.cpp
@@ -89,11 +89,12 @@ void IterativeSolver<double>::setInfo(IterativeSolverInfo &info, const FETIConfi
     eslog::info("       - ----------------------------------------------------------------------------- - \n");
 
     info.iterations = 1;
-    info.norm.dual.absolute = info.norm.dual.initial = std::sqrt(ww);
+    info.norm.dual.absolute = info.norm.dual.initial = std::sqrt(ww < 0 ? 0 : ww);
     info.norm.dual.relative = 1;
     info.norm.dual.arioli = std::numeric_limits<double>::infinity();
     info.norm.dual.ksi = 0;
     info.converged = configuration.stopping_criterion == FETIConfiguration::STOPPING_CRITERION::ABSOLUTE && info.norm.dual.absolute < configuration.precision;
+    info.converged |= info.norm.dual.initial == 0; // the initial approximation is the solution
     info.time.total = info.time.current = eslog::time();
 
     switch (configuration.stopping_criterion) {
-- 
2.43.0


From 6be685b6be4dc7448431de673b8c956b413d3562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:46 +0000
Subject: [PATCH 47/57] fix: processes have to agree on constant matrices
 (deadlock)

---
 src/analysis/assembler/heattransfer.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/analysis/assembler/heattransfer.cpp b/src/analysis/assembler/heattransfer.cpp
index 337f96d..5890bc8 100644
--- a/src/analysis/assembler/heattransfer.cpp
+++ b/src/analysis/assembler/heattransfer.cpp
@@ -14,6 +14,7 @@
 #include "mesh/store/boundaryregionstore.h"
 #include "mesh/store/domainsurfacestore.h"
 #include "wrappers/bem/w.bem.h"
+#include "wrappers/mpi/communication.h"
 
 #include <numeric>
 #include <algorithm>
@@ -396,8 +397,6 @@ void HeatTransfer::connect(Matrix_Base<double> *K, Matrix_Base<double> *M, Vecto
         }
     }
 
-    std::string constants;
-
     if (K) {
         K->constant = configuration.mode == LoadStepSolverConfiguration::MODE::LINEAR;
 
@@ -409,11 +408,9 @@ void HeatTransfer::connect(Matrix_Base<double> *K, Matrix_Base<double> *M, Vecto
                 K->constant &= elementKernels[i].expressions.gp[e]->evaluator->isConst();
             }
         }
-        if (K->constant) { constants += "K "; }
     }
     if (M) {
         M->constant = true;
-        if (M->constant) { constants += "M "; }
     }
     if (f) {
         for (size_t i = 0; i < elementKernels.size(); ++i) {
@@ -441,11 +438,9 @@ void HeatTransfer::connect(Matrix_Base<double> *K, Matrix_Base<double> *M, Vecto
                 }
             }
         }
-        if (f->constant) { constants += "f "; }
     }
     if (nf) {
         nf->constant = false;
-        if (nf->constant) { constants += "nf "; }
     }
     if (dirichlet) {
         dirichlet->constant = true;
@@ -456,9 +451,18 @@ void HeatTransfer::connect(Matrix_Base<double> *K, Matrix_Base<double> *M, Vecto
                 }
             }
         }
-        if (dirichlet->constant) { constants += "dirichlet "; }
     }
 
+    // a process without elements with a non-constant parameter has to follow the others
+    int constant[5] = { K && K->constant, M && M->constant, f && f->constant, nf && nf->constant, dirichlet && dirichlet->constant };
+    Communication::allReduce(constant, nullptr, 5, MPI_INT, MPI_MIN);
+    std::string constants;
+    if (K)         { if ((K->constant         = constant[0])) { constants += "K "; } }
+    if (M)         { if ((M->constant         = constant[1])) { constants += "M "; } }
+    if (f)         { if ((f->constant         = constant[2])) { constants += "f "; } }
+    if (nf)        { if ((nf->constant        = constant[3])) { constants += "nf "; } }
+    if (dirichlet) { if ((dirichlet->constant = constant[4])) { constants += "dirichlet "; } }
+
     eslog::info("  CONSTANT MATRICES, VECTORS          %*s  [ %s] \n", 50 - constants.size(), " ", constants.c_str());
 }
 
-- 
2.43.0


From 9cc5c8cb2551e5dd89e6b18c69f04ec86d02afc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:46 +0000
Subject: [PATCH 48/57] fix: mass matrix of non-constant materials was
 assembled in the first substep only

---
 src/analysis/assembler/heattransfer.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/analysis/assembler/heattransfer.cpp b/src/analysis/assembler/heattransfer.cpp
index 5890bc8..04e9b06 100644
--- a/src/analysis/assembler/heattransfer.cpp
+++ b/src/analysis/assembler/heattransfer.cpp
@@ -410,7 +410,16 @@ void HeatTransfer::connect(Matrix_Base<double> *K, Matrix_Base<double> *M, Vecto
         }
     }
     if (M) {
-        M->constant = true;
+        M->constant = configuration.mode == LoadStepSolverConfiguration::MODE::LINEAR;
+
+        for (size_t i = 0; i < elementKernels.size(); ++i) {
+            for (size_t e = 0; e < elementKernels[i].expressions.node.size(); ++e) {
+                M->constant &= elementKernels[i].expressions.node[e]->evaluator->isConst();
+            }
+            for (size_t e = 0; e < elementKernels[i].expressions.gp.size(); ++e) {
+                M->constant &= elementKernels[i].expressions.gp[e]->evaluator->isConst();
+            }
+        }
     }
     if (f) {
         for (size_t i = 0; i < elementKernels.size(); ++i) {
-- 
2.43.0


From dd31ff69d13d025a4e0a42d64a0f635791668623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:30 +0000
Subject: [PATCH 49/57] fix: orientation of TRIANGLE6 faces generated on the X0
 side

---
 .../meshgenerator/elements/3D/quadraticvolume.cpp      | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/input/parsers/meshgenerator/elements/3D/quadraticvolume.cpp b/src/input/parsers/meshgenerator/elements/3D/quadraticvolume.cpp
index 0e48562..7160043 100644
--- a/src/input/parsers/meshgenerator/elements/3D/quadraticvolume.cpp
+++ b/src/input/parsers/meshgenerator/elements/3D/quadraticvolume.cpp
@@ -157,19 +157,19 @@ void QuadraticVolumeGenerator::pushTriangleNodes(std::vector<esint> &nodes, cons
 {
     switch (face) {
     case CubeFace::X_0:
-        nodes.push_back(indices[ 0]);
         nodes.push_back(indices[ 6]);
+        nodes.push_back(indices[ 0]);
         nodes.push_back(indices[18]);
         nodes.push_back(indices[ 3]);
-        nodes.push_back(indices[12]);
         nodes.push_back(indices[ 9]);
+        nodes.push_back(indices[12]);
 
         nodes.push_back(indices[ 6]);
-        nodes.push_back(indices[24]);
         nodes.push_back(indices[18]);
-        nodes.push_back(indices[15]);
-        nodes.push_back(indices[21]);
+        nodes.push_back(indices[24]);
         nodes.push_back(indices[12]);
+        nodes.push_back(indices[21]);
+        nodes.push_back(indices[15]);
         break;
     case CubeFace::X_1:
         nodes.push_back(indices[ 2]);
-- 
2.43.0


From 05396816faba0082c36b5bc2eb813b96930f7368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:30 +0000
Subject: [PATCH 50/57] fix: explicit TFETI operator has to follow changes of
 B1, and compute BtL (contact forces)

---
 src/feti/dualoperator/totalfeti.explicit.cpp | 16 +++++++++++++++-
 src/feti/dualoperator/totalfeti.explicit.h   |  1 +
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/feti/dualoperator/totalfeti.explicit.cpp b/src/feti/dualoperator/totalfeti.explicit.cpp
index 2e74076..7813f1c 100644
--- a/src/feti/dualoperator/totalfeti.explicit.cpp
+++ b/src/feti/dualoperator/totalfeti.explicit.cpp
@@ -90,6 +90,11 @@ void TotalFETIExplicit<T>::update(const step::Step &step)
 {
     if (feti.updated.B) {
         d.resize();
+        for (size_t di = 0; di < feti.K.size(); ++di) { // the number of rows can be changed
+            F[di].resize(feti.B1[di].nrows, feti.B1[di].nrows);
+            in[di].resize(feti.B1[di].nrows);
+            out[di].resize(feti.B1[di].nrows);
+        }
     }
 
     if (feti.updated.K) {
@@ -116,7 +121,7 @@ void TotalFETIExplicit<T>::update(const step::Step &step)
 
     bool perLambda = false;
 
-    if (feti.updated.K) {
+    if (feti.updated.K || feti.updated.B) {
         if (perLambda) {
             #pragma omp parallel for
             for (size_t d = 0; d < feti.K.size(); ++d) {
@@ -221,6 +226,15 @@ void TotalFETIExplicit<T>::toPrimal(const Vector_Dual<T> &x, std::vector<Vector_
     }
 }
 
+template <typename T>
+void TotalFETIExplicit<T>::BtL(const Vector_Dual<T> &x, std::vector<Vector_Dense<T> > &y)
+{
+    #pragma omp parallel for
+    for (size_t di = 0; di < feti.K.size(); ++di) {
+        applyBt(feti, di, x, y[di]);
+    }
+}
+
 template <typename T>
 void TotalFETIExplicit<T>::print(const step::Step &step)
 {
diff --git a/src/feti/dualoperator/totalfeti.explicit.h b/src/feti/dualoperator/totalfeti.explicit.h
index 5d759b1..571c8a7 100644
--- a/src/feti/dualoperator/totalfeti.explicit.h
+++ b/src/feti/dualoperator/totalfeti.explicit.h
@@ -35,6 +35,7 @@ public:
 
     // y = K+(f - Bt * x)
     void toPrimal(const Vector_Dual<T> &x, std::vector<Vector_Dense<T> > &y) override;
+    void BtL(const Vector_Dual<T> &x, std::vector<Vector_Dense<T> > &y) override;
 
 protected:
     void _apply(const Vector_Dual<T> &x, Vector_Dual<T> &y);
-- 
2.43.0


From 8970b76ab6b4749020dbc0bd09941b0681b1db87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:00 +0000
Subject: [PATCH 51/57] fix: node normals of regions have to be summed over
 processes

---
 src/mesh/preprocessing/contacts.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesh/preprocessing/contacts.cpp b/src/mesh/preprocessing/contacts.cpp
index fc8ba99..dd3775a 100644
--- a/src/mesh/preprocessing/contacts.cpp
+++ b/src/mesh/preprocessing/contacts.cpp
@@ -1085,6 +1085,7 @@ void computeBoundaryRegionNormals(NodeStore *nodes, std::vector<BoundaryRegionSt
                     eslog::internalFailure("unknown or not implemented surface element.\n");
                 }
             }
+            boundaryRegions[r]->nodeNormals->synchronize();
             DebugOutput::regionNormals(boundaryRegions[r], displacement);
         }
     }
-- 
2.43.0


From 4c2b7da9b799fbd09985fdf03f69b674ba05d28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:15 +0000
Subject: [PATCH 52/57] fix: constraints of a node in contact with more walls

---
 src/analysis/linearsystem/constrains/fixedwall.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/analysis/linearsystem/constrains/fixedwall.cpp b/src/analysis/linearsystem/constrains/fixedwall.cpp
index 7790afa..8eaa44e 100644
--- a/src/analysis/linearsystem/constrains/fixedwall.cpp
+++ b/src/analysis/linearsystem/constrains/fixedwall.cpp
@@ -119,7 +119,7 @@ void FixedWall<T>::update(const step::Step &step, FETI<T> &feti, const Vector_Di
                 auto dmap = feti.decomposition->dmap->cbegin() + *n * dim;
                 for (auto di = dmap->begin(); di != dmap->end(); ++di) {
                     if (feti.decomposition->ismy(di->domain)) {
-                        ROWS[di->domain - feti.decomposition->dbegin].push_back(*n);
+                        ROWS[di->domain - feti.decomposition->dbegin].push_back(C.size());
                     }
                 }
                 for (int d = 0; d < dim; ++d, ++dmap) {
@@ -150,7 +150,7 @@ void FixedWall<T>::update(const step::Step &step, FETI<T> &feti, const Vector_Di
         if (imap->size() != jmap->size()) {
             return imap->size() < jmap->size();
         } else {
-            return i.node < j.node;
+            return i.node != j.node ? i.node < j.node : i.cindex < j.cindex; // a node can be in contact with more walls
         }
     });
     for (size_t i = 0, cprev = feti.lambdas.cmap.size(); i < permutation.size(); ++i) {
@@ -184,9 +184,9 @@ void FixedWall<T>::update(const step::Step &step, FETI<T> &feti, const Vector_Di
         feti.lambdas.size++;
     }
 
-    std::vector<esint> order(info::mesh->nodes->size);
+    std::vector<esint> order(permutation.size());
     for (size_t i = 0; i < permutation.size(); ++i) {
-        order[permutation[i].node] = i;
+        order[permutation[i].cindex] = i;
     }
 
     std::vector<Matrix_CSR<T> > B1(feti.B1.size());
-- 
2.43.0


From 229acb9fa68a0e6ab87a536dba1450f7665563bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:15 +0000
Subject: [PATCH 53/57] fix: distance to a sphere has to be scaled for nodes
 shared by more domains

---
 src/analysis/linearsystem/constrains/fixedsphere.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analysis/linearsystem/constrains/fixedsphere.cpp b/src/analysis/linearsystem/constrains/fixedsphere.cpp
index 713e0e0..90ac408 100644
--- a/src/analysis/linearsystem/constrains/fixedsphere.cpp
+++ b/src/analysis/linearsystem/constrains/fixedsphere.cpp
@@ -118,7 +118,7 @@ void FixedSphere<T>::update(const step::Step &step, FETI<T> &feti, const Vector_
                 }
             }
             permutation.push_back({ *n, (esint)C.size() });
-            C.push_back((center - coo).length() - radius);
+            C.push_back(((center - coo).length() - radius) / direction.length()); // consider the normalization for more domains
 //            coos.push_back(coo);
 //            gaps.push_back(std::make_pair(direction, C.back()));
         }
-- 
2.43.0


From 8983b0fdd501239ab0466f41d10ee2234f69dc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:25 +0000
Subject: [PATCH 54/57] fix: distance to a tube has to be scaled for nodes
 shared by more domains

---
 src/analysis/linearsystem/constrains/fixedtube.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analysis/linearsystem/constrains/fixedtube.cpp b/src/analysis/linearsystem/constrains/fixedtube.cpp
index 90ff213..d416269 100644
--- a/src/analysis/linearsystem/constrains/fixedtube.cpp
+++ b/src/analysis/linearsystem/constrains/fixedtube.cpp
@@ -134,7 +134,7 @@ void FixedTube<T>::update(const step::Step &step, FETI<T> &feti, const Vector_Di
                     }
                 }
                 permutation.push_back({ *n, (esint)C.size() });
-                C.push_back(distance);
+                C.push_back(distance / nn.length()); // consider the normalization for more domains
             }
         }
     }
-- 
2.43.0


From 00baa855049a619f2700fc8a6043694fa50319dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:54 +0000
Subject: [PATCH 55/57] fix: contact normals have to be summed over processes

---
 src/mesh/preprocessing/contacts.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesh/preprocessing/contacts.cpp b/src/mesh/preprocessing/contacts.cpp
index dd3775a..2b719fb 100644
--- a/src/mesh/preprocessing/contacts.cpp
+++ b/src/mesh/preprocessing/contacts.cpp
@@ -1352,6 +1352,7 @@ void arrangeContactInterfaces(NodeStore *nodes, ContactStore* contact, BodyStore
         }
     }
 
+    contact->nodeNormals->synchronize();
     DebugOutput::contact(1, 1);
     profiler::syncend("arrange_contact_interface");
     eslog::checkpointln("MESH: CONTACT INTERFACE ARRANGED");
-- 
2.43.0


From 8f1e835244be7c72d2ee5dd1fd1de7757cf2d42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:54 +0000
Subject: [PATCH 56/57] fix: explicit TFETI operator for rows of B1 with
 unsorted columns

---
 src/feti/dualoperator/totalfeti.explicit.cpp | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/feti/dualoperator/totalfeti.explicit.cpp b/src/feti/dualoperator/totalfeti.explicit.cpp
index 7813f1c..acd1957 100644
--- a/src/feti/dualoperator/totalfeti.explicit.cpp
+++ b/src/feti/dualoperator/totalfeti.explicit.cpp
@@ -151,18 +151,10 @@ void TotalFETIExplicit<T>::update(const step::Step &step)
                 KplusBt.resize(feti.B1[d].nrows, feti.B1[d].ncols);
                 Bt.resize(feti.B1[d].nrows, feti.B1[d].ncols);
 
+                math::set(Bt, T{0});
                 for (int r = 0; r < feti.B1[d].nrows; ++r) {
-                    int cc = 0;
-                    for (int c = feti.B1[d].rows[r]; c < feti.B1[d].rows[r + 1]; ++c, ++cc) {
-                        while (cc < feti.B1[d].cols[c]) {
-                            Bt.vals[r * Bt.ncols + cc] = 0;
-                            ++cc;
-                        }
-                        Bt.vals[r * Bt.ncols + cc] = feti.B1[d].vals[c];
-                    }
-                    while (cc < Bt.ncols) {
-                        Bt.vals[r * Bt.ncols + cc] = 0;
-                        ++cc;
+                    for (int c = feti.B1[d].rows[r]; c < feti.B1[d].rows[r + 1]; ++c) { // columns do not have to be sorted
+                        Bt.vals[r * Bt.ncols + feti.B1[d].cols[c]] += feti.B1[d].vals[c];
                     }
                 }
                 KSolver[d].solve(Bt, KplusBt);
-- 
2.43.0


From 63978e133ab1da0cc5cfafb3988c7ad957132b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:52 +0000
Subject: [PATCH 57/57] fix: send all faces that can be in contact to
 neighboring processes

---
 src/mesh/preprocessing/contacts.cpp | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/mesh/preprocessing/contacts.cpp b/src/mesh/preprocessing/contacts.cpp
index 2b719fb..5828ad4 100644
--- a/src/mesh/preprocessing/contacts.cpp
+++ b/src/mesh/preprocessing/contacts.cpp
@@ -424,26 +424,31 @@ void exchangeContactHalo(SurfaceStore * surface, ContactStore *contact, const do
     std::vector<std::vector<esint> > sBuffer(contact->neighbors.size()), rBuffer(contact->neighbors.size());
     for (size_t n = 0; n < contact->neighbors.size(); ++n) {
         std::vector<esint> esend, nsend;
-        const auto &min = boxes[2 * contact->neighbors[n]];
-        const auto &max = boxes[2 * contact->neighbors[n] + 1];
         auto enodes = surface->enodes->begin();
         for (size_t e = 0; e < surface->enodes->structures(); ++e, ++enodes) {
+            // all nodes of a face can be out of the box even if the face intersects the box
+            _Point<float> face[2];
             for (auto ec = enodes->begin(); ec != enodes->end(); ++ec) {
                 Point disp;
                 if (displacement) {
                     int dim = info::mesh->dimension;
                     disp.x = displacement[*ec * dim + 0]; disp.y = displacement[*ec * dim + 1]; if (dim == 3) disp.z = displacement[*ec * dim + 2];
                 }
-                if (
-                        (min.x <= coordinates[*ec].x + disp.x && coordinates[*ec].x + disp.x <= max.x) &&
-                        (min.y <= coordinates[*ec].y + disp.y && coordinates[*ec].y + disp.y <= max.y) &&
-                        (min.z <= coordinates[*ec].z + disp.z && coordinates[*ec].z + disp.z <= max.z)) {
-
-                    esend.push_back(e);
-                    for (auto c = enodes->begin(); c != enodes->end(); ++c) {
-                        nsend.push_back(*c);
-                    }
-                    break;
+                Point p = coordinates[*ec] + disp;
+                if (ec == enodes->begin()) {
+                    face[0] = face[1] = _Point<float>(p.x, p.y, p.z);
+                }
+                face[0].x = std::min((float)p.x, face[0].x);
+                face[0].y = std::min((float)p.y, face[0].y);
+                face[0].z = std::min((float)p.z, face[0].z);
+                face[1].x = std::max((float)p.x, face[1].x);
+                face[1].y = std::max((float)p.y, face[1].y);
+                face[1].z = std::max((float)p.z, face[1].z);
+            }
+            if (areIntersected(face, boxes.data() + 2 * contact->neighbors[n])) {
+                esend.push_back(e);
+                for (auto c = enodes->begin(); c != enodes->end(); ++c) {
+                    nsend.push_back(*c);
                 }
             }
         }
-- 
2.43.0

