From 066971d69f37397ade3086acb74ea77cea6d49fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:01 +0000
Subject: [PATCH 01/67] fix: keep the first splitter zero when there are fewer
 keys than processes

---
 src/wrappers/mpi/communication.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wrappers/mpi/communication.cpp b/src/wrappers/mpi/communication.cpp
index 1878577..a211cc7 100644
--- a/src/wrappers/mpi/communication.cpp
+++ b/src/wrappers/mpi/communication.cpp
@@ -647,7 +647,7 @@ bool Communication::computeSplitters(std::vector<esint> &keys, std::vector<esint
 
     Communication::allReduce(splitters, Communication::OP::MAX, 0, group->size);
     splitters.front() = 0;
-    for (auto it = splitters.rbegin(); it != splitters.rend(); ++it) {
+    for (auto it = splitters.rbegin(); it + 1 != splitters.rend(); ++it) { // keep the first splitter
         if (*it == 0) {
             *it = max + 1;
         } else {
-- 
2.43.0


From 89682471c992a1c713dd8f8fff504bbb6f267e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:06 +0000
Subject: [PATCH 02/67] fix: place bodies to processes when METIS splits the
 mesh to continuous clusters

With more bodies than processes (or with small bodies rounded up to one
process) the number of parts of the last body became zero or negative and
elements were sent to non-existing processes.
---
 src/mesh/preprocessing/pure.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/mesh/preprocessing/pure.cpp b/src/mesh/preprocessing/pure.cpp
index 6c36516..3edad7c 100644
--- a/src/mesh/preprocessing/pure.cpp
+++ b/src/mesh/preprocessing/pure.cpp
@@ -702,8 +702,11 @@ void computeElementsClusterization(const ElementStore *elements, BodyStore *bodi
 
     int parts = 1;
     if (info::ecf->input.decomposition.parallel_decomposer == DecompositionConfiguration::ParallelDecomposer::METIS && info::ecf->input.decomposition.metis_options.contig) {
-        parts = bodies->totalSize;
+        parts = std::min((esint)info::mpi::size, bodies->totalSize); // each part has to have at least one process
     }
+    auto bodyToPart = [&] (esint body) {
+        return parts == 1 ? 0 : parts * body / bodies->totalSize;
+    };
 
     std::vector<size_t> psize(parts);
     std::vector<std::vector<esint> > dist(parts, { 0 });
@@ -712,7 +715,7 @@ void computeElementsClusterization(const ElementStore *elements, BodyStore *bodi
 
     auto neighs = elements->faceNeighbors->cbegin();
     for (esint e = 0; e < elements->distribution.process.size; ++e, ++neighs) {
-        int b = std::min(parts - 1, elements->body->datatarray()[e]);
+        int b = bodyToPart(elements->body->datatarray()[e]);
         for (auto n = neighs->begin(); n != neighs->end(); ++n) {
             if (*n != -1) {
                 data[b].push_back(*n);
@@ -739,6 +742,9 @@ void computeElementsClusterization(const ElementStore *elements, BodyStore *bodi
             psize[p] = std::max(1UL, psize[p] * info::mpi::size / totalsize);
             rest -= psize[p];
         }
+        for (; rest < 0; ++rest) { // small bodies were rounded up
+            --*std::max_element(psize.begin(), psize.end());
+        }
 
         // exchange new elements IDs
         std::map<esint, esint> eid;
@@ -748,7 +754,7 @@ void computeElementsClusterization(const ElementStore *elements, BodyStore *bodi
 
         auto enodes = elements->nodes->cbegin();
         for (esint e = 0; e < elements->distribution.process.size; ++e, ++enodes) {
-            int b = elements->body->datatarray()[e];
+            int b = bodyToPart(elements->body->datatarray()[e]);
             bool halo = false; // overset
             for (auto n = enodes->begin(); !halo && n != enodes->end(); ++n) {
                 if ((nodes->ranks->cbegin() + *n)->size() > 1) {
@@ -786,7 +792,7 @@ void computeElementsClusterization(const ElementStore *elements, BodyStore *bodi
     utils::sizesToOffsets(psize);
     std::vector<int> offset(parts);
     for (esint e = 0; e < elements->distribution.process.size; ++e, ++neighs) {
-        int b = std::min(parts - 1, elements->body->datatarray()[e]);
+        int b = bodyToPart(elements->body->datatarray()[e]);
         partition.push_back(part[b][offset[b]++] + psize[b]);
     }
 
-- 
2.43.0


From 5f807de636ab57439ffc14c8ecbb00eaa261fe53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:06 +0000
Subject: [PATCH 03/67] fix: do not reindex element nodes twice in the
 sequential builder

sortNodes(true) replaced node IDs of elements by indices when nodes were not
sorted by IDs and removeDanglingNodes then interpreted them as IDs again.
---
 src/input/builders/sequentialinput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input/builders/sequentialinput.cpp b/src/input/builders/sequentialinput.cpp
index fba5c23..ffebb3c 100644
--- a/src/input/builders/sequentialinput.cpp
+++ b/src/input/builders/sequentialinput.cpp
@@ -26,7 +26,7 @@ SequentialInput::SequentialInput(MeshBuilder &mesh)
         profiler::synccheckpoint("merge_duplicate_nodes");
     }
 
-    sortNodes(true);
+    sortNodes();
     removeDanglingNodes();
     _nDistribution = { 0, (esint)_meshData.nIDs.size() };
     profiler::synccheckpoint("sort_nodes");
-- 
2.43.0


From b240328834b2d5730578eade7b0daca8f9b7cdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:50 +0000
Subject: [PATCH 04/67] fix: merge nodes duplicated across process borders
 consistently

Processes selected the node that is kept independently (according to an order
in their kd-trees), hence a node could be erased by all its holders. In
addition, the bucket of a moved node was not changed to its new holder.
---
 src/input/builders/scatteredinput.cpp | 30 ++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/input/builders/scatteredinput.cpp b/src/input/builders/scatteredinput.cpp
index 8f83366..6df8de4 100644
--- a/src/input/builders/scatteredinput.cpp
+++ b/src/input/builders/scatteredinput.cpp
@@ -596,14 +596,30 @@ void ScatteredInput::mergeDuplicatedNodes()
     profiler::synccheckpoint("rbuffer");
 
     std::vector<size_t> toinsert, toerase;
-    searchDuplicateNodes(coordinates, ids, [&] (esint id, esint target) {
-        if (id < noffset.front() && noffset.front() <= target) { // I have duplicate
-            toerase.push_back(offsets[id]);
+    std::vector<esint> target(ids.size());
+    std::iota(target.begin(), target.end(), 0);
+    searchDuplicateNodes(coordinates, ids, [&] (esint id, esint tid) {
+        target[id] = tid;
+    });
+    // all processes have to select the same target -> use the node with the lowest ID
+    std::vector<esint> lowest(ids.size(), -1);
+    for (size_t i = 0; i < ids.size(); ++i) {
+        while (target[i] != target[target[i]]) { target[i] = target[target[i]]; }
+        if (lowest[target[i]] == -1 || ids[i] < ids[lowest[target[i]]]) {
+            lowest[target[i]] = i;
+        }
+    }
+    for (esint i = 0; i < (esint)ids.size(); ++i) {
+        target[i] = lowest[target[i]];
+    }
+    for (esint i = 0; i < (esint)ids.size(); ++i) {
+        if (i < noffset.front() && noffset.front() <= target[i]) { // I have duplicate
+            toerase.push_back(offsets[i]);
         }
-        if (target < noffset.front() && noffset.front() <= id) { // rank n has duplicate and I have target
-            toinsert.push_back(id);
+        if (target[i] < noffset.front() && noffset.front() <= i) { // rank n has duplicate and I have target
+            toinsert.push_back(i);
         }
-    });
+    }
     profiler::synccheckpoint("search");
 
     if (toerase.size()) {
@@ -634,7 +650,7 @@ void ScatteredInput::mergeDuplicatedNodes()
         for (size_t i = _meshData.nIDs.size() - toinsert.size(), j = 0; j < toinsert.size(); ++i, ++j) {
             _meshData.nIDs[i] = ids[toinsert[j]];
             _meshData.coordinates[i] = coordinates[toinsert[j]];
-            buckets.push_back(std::make_pair(_meshData.nIDs[i], _sfc.getBucket(_meshData.coordinates[i])));
+            buckets.push_back(std::make_pair(_meshData.nIDs[i], _sfc.getBucket(coordinates[target[toinsert[j]]]))); // moved to the process with the target
             for (size_t r = 0; r < _nregsize; ++r) {
                 _nregions[i * _nregsize + r] = regions[toinsert[j] * _nregsize + r];
             }
-- 
2.43.0


From 8b903b879cc826b57c67c10d39391b143a696e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:42 +0000
Subject: [PATCH 05/67] fix: do not search duplicate nodes behind the last
 bucket

With a duplication tolerance larger than the padding of the curve, nodes on
the upper border of the mesh were sent to a non-existing neighbor.
---
 src/input/builders/scatteredinput.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/input/builders/scatteredinput.cpp b/src/input/builders/scatteredinput.cpp
index 6df8de4..32bcf38 100644
--- a/src/input/builders/scatteredinput.cpp
+++ b/src/input/builders/scatteredinput.cpp
@@ -503,6 +503,7 @@ void ScatteredInput::mergeDuplicatedNodes()
     double eps = info::ecf->input.duplication_tolerance;
     eps += info::ecf->input.duplication_tolerance * 1e-6;
 
+    size_t last = ((size_t)1 << _sfc.depth()) - 1; // there is nothing behind the last bucket
     std::vector<std::vector<std::pair<int, size_t> > > toneighs(threads);
     #pragma omp parallel for
     for (size_t t = 0; t < threads; t++) {
@@ -516,7 +517,7 @@ void ScatteredInput::mergeDuplicatedNodes()
                 if (_sfc.getBucket(_meshData.coordinates[n][d] - eps, d) < origin) {
                     hit[2 * d + 0] = -1;
                 }
-                if (_sfc.getBucket(_meshData.coordinates[n][d] + eps, d) > origin) {
+                if (origin < last && _sfc.getBucket(_meshData.coordinates[n][d] + eps, d) > origin) {
                     hit[2 * d + 1] = +1;
                 }
             }
-- 
2.43.0


From 39928d38aa5639e88f51451a59e148e5321580da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:47 +0000
Subject: [PATCH 06/67] fix: terminate making clusters continuous when a part
 has no fixed neighbor

---
 src/mesh/preprocessing/pure.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mesh/preprocessing/pure.cpp b/src/mesh/preprocessing/pure.cpp
index 3edad7c..971d3fb 100644
--- a/src/mesh/preprocessing/pure.cpp
+++ b/src/mesh/preprocessing/pure.cpp
@@ -866,9 +866,9 @@ void computeContinuousClusterization(const ElementStore *elements, const NodeSto
         }
     }
 
-    int freeDomain = 1;
-    while (freeDomain) {
-        freeDomain = 0;
+    int newlyFixed = 1;
+    while (newlyFixed) {
+        newlyFixed = 0;
         if (!Communication::exchangeUnknownSize(sBuffer, rBuffer, neighborsWithMe)) {
             eslog::internalFailure("Cannot exchange domains sizes\n");
         }
@@ -887,13 +887,13 @@ void computeContinuousClusterization(const ElementStore *elements, const NodeSto
                     if (ddesc->fixed) {
                         sBuffer[c].proc = ddesc->proc;
                         sBuffer[c].fixed = 1;
-                    } else {
-                        ++freeDomain;
+                        ++newlyFixed;
                     }
                 }
             }
         }
-        Communication::allReduce(&freeDomain, NULL, 1, MPI_INT, MPI_SUM);
+        // parts that are not connected to any fixed part stay on their process
+        Communication::allReduce(&newlyFixed, NULL, 1, MPI_INT, MPI_SUM);
     }
 
     profiler::synccheckpoint("decomposition_fixed");
-- 
2.43.0


From d30d60eddf563893b7d85787b0127825b936b917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:57 +0000
Subject: [PATCH 07/67] fix: count removed duplicate elements correctly

---
 src/input/builders/input.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/input/builders/input.cpp b/src/input/builders/input.cpp
index 8d79df2..510cfe5 100644
--- a/src/input/builders/input.cpp
+++ b/src/input/builders/input.cpp
@@ -1222,6 +1222,7 @@ void Input::removeDuplicateElements()
             }
         }
     }
+    esint removed = _meshData.eIDs.size() - last;
     _meshData.eIDs.resize(last);
     _meshData.etype.resize(last);
     _meshData.esize.resize(last);
@@ -1232,8 +1233,8 @@ void Input::removeDuplicateElements()
     if (_eregions.size()) {
         _eregions.resize(_eregsize * last);
     }
-    for (auto it = _etypeDistribution.begin(); it != _etypeDistribution.end(); ++it) {
-        *it -= _meshData._duplicateElements.size();
+    for (auto it = _etypeDistribution.begin() + estart; it != _etypeDistribution.end(); ++it) {
+        *it -= removed;
     }
     profiler::synccheckpoint("remove");
     profiler::syncend("remove_duplicated_elements");
-- 
2.43.0


From 2dab92005f6aada1f90861a106c7ac72e7930e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:08 +0000
Subject: [PATCH 08/67] fix: do not read behind the end of the configuration
 file

---
 src/config/reader/tokenizer.cpp | 7 +++++--
 src/config/reader/tokenizer.h   | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/config/reader/tokenizer.cpp b/src/config/reader/tokenizer.cpp
index e85b97c..5257391 100644
--- a/src/config/reader/tokenizer.cpp
+++ b/src/config/reader/tokenizer.cpp
@@ -182,6 +182,9 @@ Tokenizer::Token Tokenizer::_next()
             _file.get();
             int last = _file.get();
             while(!isMultiLineCommentEnd(last, _file.peek())) {
+                if (_file.eof()) {
+                    eslog::globalerror("Configuration file error: missing comment end symbol '*/'\n");
+                }
                 if (isLineEnd(_file.peek())) {
                     _line++;
                 }
@@ -240,7 +243,7 @@ Tokenizer::Token Tokenizer::_next()
             if (isObjectOpen(_file.peek())) {
                 _file.get();
                 while (!isObjectClose(_file.peek())) {
-                    if (isLineEnd(_file.peek())) {
+                    if (isLineEnd(_file.peek()) || _file.eof()) {
                         eslog::globalerror("Configuration file error: use ${...} to read environment parameter.\n");
                     }
                     _buffer.push_back(_file.get());
@@ -291,7 +294,7 @@ std::string Tokenizer::lastLines(size_t number)
     _file.move(0);
     while (_file.position() < current) {
         size_t begin = _file.position();
-        while(_file.get() != '\n');
+        while(!_file.eof() && _file.get() != '\n');
         lines.push(_file.get(begin, _file.position()));
         if (lines.size() > number) {
             lines.pop();
diff --git a/src/config/reader/tokenizer.h b/src/config/reader/tokenizer.h
index ff96ec7..a7c1b29 100644
--- a/src/config/reader/tokenizer.h
+++ b/src/config/reader/tokenizer.h
@@ -15,8 +15,8 @@ public:
     size_t position() const { return _p; }
     void move(size_t position) { _p = position; }
 
-    char get() { return _data[_p++]; }
-    char peek() { return _data[_p]; }
+    char get() { return eof() ? '\0' : _data[_p++]; }
+    char peek() { return eof() ? '\0' : _data[_p]; }
 
     std::string get(size_t begin, size_t end) { return std::string(_data.begin() + begin, _data.begin() + end); }
 
-- 
2.43.0


From b78c26468d0e3ec31b27810412e9a6e049d9ae17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:55 +0000
Subject: [PATCH 09/67] fix: merge dual graphs of processes without elements or
 with isolated elements

---
 src/mesh/preprocessing/pure.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/mesh/preprocessing/pure.cpp b/src/mesh/preprocessing/pure.cpp
index 971d3fb..2846bc4 100644
--- a/src/mesh/preprocessing/pure.cpp
+++ b/src/mesh/preprocessing/pure.cpp
@@ -520,14 +520,14 @@ esint callParallelDecomposer(const ElementStore *elements, const NodeStore *node
     } else {
         MPIType type = MPITools::getType<esint>();
         std::vector<esint> gframes, gneighbors, gpartition, edistribution;
-        std::vector<size_t> offsets;
+        std::vector<size_t> offsets, foffsets;
 
         if (info::ecf->input.decomposition.parallel_decomposer == DecompositionConfiguration::ParallelDecomposer::METIS) {
-            Communication::gatherUnknownSize(eframes, gframes, &MPITools::singleton->within);
+            Communication::gatherUnknownSize(eframes, gframes, foffsets, &MPITools::singleton->within);
             Communication::gatherUnknownSize(eneighbors, gneighbors, &MPITools::singleton->within);
             Communication::gatherUnknownSize(partition, gpartition, offsets, &MPITools::singleton->within);
         } else {
-            Communication::gatherUnknownSize(eframes, gframes, &MPITools::subset->within);
+            Communication::gatherUnknownSize(eframes, gframes, foffsets, &MPITools::subset->within);
             Communication::gatherUnknownSize(eneighbors, gneighbors, &MPITools::subset->within);
             Communication::gatherUnknownSize(partition, gpartition, offsets, &MPITools::subset->within);
         }
@@ -535,16 +535,16 @@ esint callParallelDecomposer(const ElementStore *elements, const NodeStore *node
         profiler::synccheckpoint("gather_dual");
         eslog::checkpointln("MESH: MPI PROCESSES REDUCED");
 
-        auto fixframes = [&] () {
-            size_t size = gframes.size();
-            for (size_t i = 1, j = 1, offset = 0; j < gframes.size(); i++, j++) {
-                while (gframes[j] == 0) {
-                    offset += gframes[j++ - 1];
-                    --size;
+        auto fixframes = [&] () { // each process contributes with zero and ends of its elements
+            std::vector<esint> frames = { 0 };
+            for (size_t p = 0; p < foffsets.size(); ++p) {
+                size_t end = p + 1 < foffsets.size() ? foffsets[p + 1] : gframes.size();
+                esint offset = frames.back();
+                for (size_t i = foffsets[p] + 1; i < end; ++i) {
+                    frames.push_back(gframes[i] + offset);
                 }
-                gframes[i] = gframes[j] + offset;
             }
-            gframes.resize(size);
+            gframes.swap(frames);
         };
 
         if (info::ecf->input.decomposition.parallel_decomposer == DecompositionConfiguration::ParallelDecomposer::METIS) {
-- 
2.43.0


From 6628e61dc215054106ee4f7d2948d4efaa3eee38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:55 +0000
Subject: [PATCH 10/67] fix: do not read behind the end of mesh arrays

---
 src/input/builders/input.cpp    | 2 +-
 src/mesh/element.cpp            | 3 +++
 src/mesh/preprocessing/pure.cpp | 2 +-
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/input/builders/input.cpp b/src/input/builders/input.cpp
index 510cfe5..5c701ec 100644
--- a/src/input/builders/input.cpp
+++ b/src/input/builders/input.cpp
@@ -758,7 +758,7 @@ void Input::fillNodes()
         if (rdistribution[t] < _meshData._nrankdist.size()) {
             rdatadistribution[t] = _meshData._nrankdist[rdistribution[t]];
         } else {
-            rdatadistribution[t] = _meshData._nrankdist[rdistribution[threads] - 1];
+            rdatadistribution[t] = _meshData._nrankdist.back();
         }
     }
     ++rdistribution[threads];
diff --git a/src/mesh/element.cpp b/src/mesh/element.cpp
index 371dcca..7497c7f 100644
--- a/src/mesh/element.cpp
+++ b/src/mesh/element.cpp
@@ -22,6 +22,9 @@ int Element::getIndex(edata<esint> &enodes, serializededata<int, int> *subindice
     int index = 0;
     for (auto subi = subindices->cbegin(); subi != subindices->cend(); ++subi, ++index) {
         int nsize = subpointers->datatarray()[index]->coarseNodes;
+        if ((int)subnodes.size() < nsize) { // e.g. a triangle cannot be a square face
+            continue;
+        }
         for (int n = 0; n < nsize; n++) {
             if (subnodes[n] == enodes[*subi->begin()]) { // find the same node
                 if (subnodes[(n + 1) % nsize] == enodes[*(subi->begin() + 1)]) { // check the direction
diff --git a/src/mesh/preprocessing/pure.cpp b/src/mesh/preprocessing/pure.cpp
index 2846bc4..5bb47a2 100644
--- a/src/mesh/preprocessing/pure.cpp
+++ b/src/mesh/preprocessing/pure.cpp
@@ -791,7 +791,7 @@ void computeElementsClusterization(const ElementStore *elements, BodyStore *bodi
     partition.clear();
     utils::sizesToOffsets(psize);
     std::vector<int> offset(parts);
-    for (esint e = 0; e < elements->distribution.process.size; ++e, ++neighs) {
+    for (esint e = 0; e < elements->distribution.process.size; ++e) {
         int b = bodyToPart(elements->body->datatarray()[e]);
         partition.push_back(part[b][offset[b]++] + psize[b]);
     }
-- 
2.43.0


From de7720c5fa0cb4c4559be44dc74fdf80252e67fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:48 +0000
Subject: [PATCH 11/67] fix: partition meshes with processes that hold isolated
 elements only by ParMETIS

---
 src/wrappers/parmetis/w.parmetis.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wrappers/parmetis/w.parmetis.cpp b/src/wrappers/parmetis/w.parmetis.cpp
index fac6e93..56eea9e 100644
--- a/src/wrappers/parmetis/w.parmetis.cpp
+++ b/src/wrappers/parmetis/w.parmetis.cpp
@@ -44,6 +44,11 @@ esint ParMETIS::call(
     esint options[4] = { 0, 0, 0, PARMETIS_PSR_UNCOUPLED };
     float itr = 1e6;
 
+    esint noneighbor = 0;
+    if (eneighbors == NULL) { // ParMETIS does not accept NULL even if there are no neighbors
+        eneighbors = &noneighbor;
+    }
+
     if (verticesWeights != NULL) {
         wgtflag += 2;
     }
-- 
2.43.0


From ec807d86675e223915a2004e97b7306de18dea74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:48 +0000
Subject: [PATCH 12/67] fix: keep the set of received nodes sorted when
 elements are exchanged repeatedly

---
 src/mesh/preprocessing/pure.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesh/preprocessing/pure.cpp b/src/mesh/preprocessing/pure.cpp
index 5bb47a2..dd01a5e 100644
--- a/src/mesh/preprocessing/pure.cpp
+++ b/src/mesh/preprocessing/pure.cpp
@@ -1454,6 +1454,7 @@ void exchangeElements(ElementStore* &elements, NodeStore* &nodes, std::vector<El
         for (size_t t = 0; t < threads; t++) {
             nodeset.insert(nodeset.end(), tnodeset[t].begin(), tnodeset[t].end());
         }
+        std::sort(nodeset.begin() + nsize, nodeset.end());
         std::inplace_merge(nodeset.begin(), nodeset.begin() + nsize, nodeset.end());
     }
 
-- 
2.43.0


From c8f5e50035e950fd03a83fbfd50efeffecbcb168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:26 +0000
Subject: [PATCH 13/67] fix: evaluate thermal conductivity in integration
 points when it depends on coordinates

---
 src/analysis/assembler/heattransfer/op.conductivity.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/analysis/assembler/heattransfer/op.conductivity.h b/src/analysis/assembler/heattransfer/op.conductivity.h
index 744a456..8658411 100644
--- a/src/analysis/assembler/heattransfer/op.conductivity.h
+++ b/src/analysis/assembler/heattransfer/op.conductivity.h
@@ -26,6 +26,7 @@ struct Conductivity: SubKernel {
         this->rotated = coordinateSystem->isRotated() && conductivity->model != ThermalConductivityConfiguration::MODEL::ISOTROPIC;
         this->constRotation = coordinateSystem->type == CoordinateSystemConfiguration::TYPE::CARTESIAN && coordinateSystem->isConst();
         this->isactive = !this->isconst || !this->constRotation;
+        this->needCoordinates = conductivity->needCoordinates() || !coordinateSystem->isConst();
     }
 
     const ThermalConductivityConfiguration *conductivity;
-- 
2.43.0


From 6fffdd79195bca01fcad463802847b3361aa8d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:26 +0000
Subject: [PATCH 14/67] fix: store thickness to nodes after its expression is
 evaluated

---
 src/analysis/assembler/heattransfer/kernel.h        | 3 ++-
 src/analysis/assembler/structuralmechanics/kernel.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/analysis/assembler/heattransfer/kernel.h b/src/analysis/assembler/heattransfer/kernel.h
index 7588d08..2933447 100644
--- a/src/analysis/assembler/heattransfer/kernel.h
+++ b/src/analysis/assembler/heattransfer/kernel.h
@@ -219,7 +219,6 @@ void setElementKernel(HeatTransferElementOperators &operators, SubKernel::Action
     BaseFunctions<code, gps>::simd(element);
     for (size_t c = 0; c < operators.chunks; ++c) {
         coordinates.simd(element);
-        thickness.simd(element);
 
         for (size_t i = 0; i < nonconst.node.size(); ++i) {
             for (size_t n = 0; n < nodes; ++n) {
@@ -227,6 +226,8 @@ void setElementKernel(HeatTransferElementOperators &operators, SubKernel::Action
             }
         }
 
+        thickness.simd(element);
+
         temperature.simd(element);
 
         for (size_t gp = 0; gp < gps; ++gp) {
diff --git a/src/analysis/assembler/structuralmechanics/kernel.h b/src/analysis/assembler/structuralmechanics/kernel.h
index 61c63f8..e8cd08a 100644
--- a/src/analysis/assembler/structuralmechanics/kernel.h
+++ b/src/analysis/assembler/structuralmechanics/kernel.h
@@ -269,7 +269,6 @@ void setElementKernel(StructuralMechanicsElementOperators &operators, SubKernel:
     BaseFunctions<code, gps>::simd(element);
     for (size_t c = 0; c < operators.chunks; ++c) {
         coordinates.simd(element);
-        thickness.simd(element);
 
         for (size_t i = 0; i < nonconst.node.size(); ++i) {
             for (size_t n = 0; n < nodes; ++n) {
@@ -277,6 +276,8 @@ void setElementKernel(StructuralMechanicsElementOperators &operators, SubKernel:
             }
         }
 
+        thickness.simd(element);
+
         if (velocity.isactive) {
             velocity.simd(element);
         }
-- 
2.43.0


From bbe949c89b982d6a064215847edb77bb9f009494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:09 +0000
Subject: [PATCH 15/67] fix: evaluate structural loads and density in
 integration points when they depend on coordinates

---
 src/analysis/assembler/general/boundarycondition.h       | 2 +-
 src/analysis/assembler/general/material.h                | 4 ++++
 src/analysis/assembler/structuralmechanics.cpp           | 9 +++++++--
 src/analysis/assembler/structuralmechanics/op.pressure.h | 2 +-
 4 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/analysis/assembler/general/boundarycondition.h b/src/analysis/assembler/general/boundarycondition.h
index 54a8e63..2fec14c 100644
--- a/src/analysis/assembler/general/boundarycondition.h
+++ b/src/analysis/assembler/general/boundarycondition.h
@@ -37,7 +37,7 @@ struct BoundaryCondition: public SubKernel {
         if (this->expressionVector) {
             this->isconst = expressionVector->x.evaluator->isConst() && expressionVector->y.evaluator->isConst() && expressionVector->z.evaluator->isConst();
             this->isactive = 1;
-            this->needCoordinates = expressionVector->x.evaluator->needCoordinates() && expressionVector->y.evaluator->needCoordinates() && expressionVector->z.evaluator->needCoordinates();
+            this->needCoordinates = expressionVector->x.evaluator->needCoordinates() || expressionVector->y.evaluator->needCoordinates() || expressionVector->z.evaluator->needCoordinates();
         }
     }
 
diff --git a/src/analysis/assembler/general/material.h b/src/analysis/assembler/general/material.h
index 8a4957c..30cb03b 100644
--- a/src/analysis/assembler/general/material.h
+++ b/src/analysis/assembler/general/material.h
@@ -3,6 +3,7 @@
 #define SRC_ANALYSIS_ASSEMBLER_SUBKERNEL_MATERIAL_H_
 
 #include "subkernel.h"
+#include "basis/evaluator/evaluator.h"
 #include "config/ecf/material/material.h"
 
 namespace espreso {
@@ -19,6 +20,9 @@ struct Material: SubKernel {
     void activate(const MaterialConfiguration *configuration)
     {
         this->configuration = configuration;
+        this->needCoordinates =
+                (configuration->density.isset && configuration->density.evaluator->needCoordinates()) ||
+                (configuration->heat_capacity.isset && configuration->heat_capacity.evaluator->needCoordinates());
     }
 
     const MaterialConfiguration *configuration;
diff --git a/src/analysis/assembler/structuralmechanics.cpp b/src/analysis/assembler/structuralmechanics.cpp
index 3b21810..96cd3f2 100644
--- a/src/analysis/assembler/structuralmechanics.cpp
+++ b/src/analysis/assembler/structuralmechanics.cpp
@@ -406,7 +406,6 @@ bool StructuralMechanics::analyze(const step::Step &step)
             elementKernels[i].thickness.activate(getExpression(i, settings.thickness), info::mesh->elements->nodes->cbegin() + ebegin, info::mesh->elements->nodes->cbegin() + eend, Results::thickness->data.data());
         }
 
-        elementKernels[i].coordinates.activate(info::mesh->elements->nodes->cbegin() + ebegin, info::mesh->elements->nodes->cbegin() + eend, !cartesian || gpcoo);
         elementKernels[i].displacement.activate(info::mesh->elements->nodes->cbegin() + ebegin, info::mesh->elements->nodes->cbegin() + eend, Results::displacement->data.data());
         elementKernels[i].material.activate(mat, settings.element_behaviour, configuration.mode == LoadStepSolverConfiguration::MODE::NONLINEAR && !configuration.corotation);
 
@@ -424,6 +423,8 @@ bool StructuralMechanics::analyze(const step::Step &step)
 //        }
         elementKernels[i].acceleration.activate(getExpression(i, configuration.acceleration), settings.element_behaviour);
         elementKernels[i].angularVelocity.activate(getExpression(i, configuration.angular_velocity), settings.element_behaviour);
+        gpcoo |= elementKernels[i].material.needCoordinates || elementKernels[i].acceleration.needCoordinates;
+        elementKernels[i].coordinates.activate(info::mesh->elements->nodes->cbegin() + ebegin, info::mesh->elements->nodes->cbegin() + eend, !cartesian || gpcoo);
         if (Results::principalStress) {
             elementKernels[i].displacement.activate(info::mesh->elements->nodes->cbegin() + ebegin, info::mesh->elements->nodes->cbegin() + eend, Results::displacement->data.data());
             elementKernels[i].stress.activate(info::mesh->elements->nodes->cbegin() + ebegin, info::mesh->elements->nodes->cbegin() + eend, i, nodeMultiplicity.data());
@@ -453,13 +454,17 @@ bool StructuralMechanics::analyze(const step::Step &step)
         }
         if (info::mesh->boundaryRegions[r]->dimension) {
             for (size_t i = 0; i < info::mesh->boundaryRegions[r]->eintervals.size(); ++i) {
-                faceKernels[r][i].coordinates.activate(region->elements->cbegin() + region->eintervals[i].begin, region->elements->cbegin() + region->eintervals[i].end, settings.element_behaviour == StructuralMechanicsGlobalSettings::ELEMENT_BEHAVIOUR::AXISYMMETRIC);
                 faceKernels[r][i].normalPressure.activate(getExpression(region->name, configuration.normal_pressure), settings.element_behaviour);
                 faceKernels[r][i].displacement.activate(region->elements->cbegin() + region->eintervals[i].begin, region->elements->cbegin() + region->eintervals[i].end, Results::displacement->data.data());
                 auto pressure = configuration.pressure.find(region->name);
                 if (pressure != configuration.pressure.end()) {
                     faceKernels[r][i].pressure.activate(pressure->second.pressure, pressure->second.direction, settings.element_behaviour);
                 }
+                bool gpcoords =
+                        settings.element_behaviour == StructuralMechanicsGlobalSettings::ELEMENT_BEHAVIOUR::AXISYMMETRIC ||
+                        faceKernels[r][i].normalPressure.needCoordinates ||
+                        faceKernels[r][i].pressure.needCoordinates;
+                faceKernels[r][i].coordinates.activate(region->elements->cbegin() + region->eintervals[i].begin, region->elements->cbegin() + region->eintervals[i].end, gpcoords);
                 if (force) {
                     faceKernels[r][i].force.activate(force->data.data(), region->eintervals[i].begin, region->eintervals[i].end);
                 }
diff --git a/src/analysis/assembler/structuralmechanics/op.pressure.h b/src/analysis/assembler/structuralmechanics/op.pressure.h
index 96c7ca8..aca7858 100644
--- a/src/analysis/assembler/structuralmechanics/op.pressure.h
+++ b/src/analysis/assembler/structuralmechanics/op.pressure.h
@@ -24,7 +24,7 @@ struct Pressure: public SubKernel {
         this->direction.activate(&direction);
         this->isconst = this->pressure.isconst && this->direction.isconst;
         this->isactive = 1;
-        this->needCoordinates = this->pressure.needCoordinates && this->direction.needCoordinates;
+        this->needCoordinates = this->pressure.needCoordinates || this->direction.needCoordinates;
     }
 
     StructuralMechanicsGlobalSettings::ELEMENT_BEHAVIOUR behaviour;
-- 
2.43.0


From d4468d4472a2b3e56fcd2e4f2b2c898d6c048300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:44 +0000
Subject: [PATCH 16/67] fix: add nodal forces of face regions to the nodes of
 the region

---
 src/analysis/assembler/structuralmechanics.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/analysis/assembler/structuralmechanics.cpp b/src/analysis/assembler/structuralmechanics.cpp
index 96cd3f2..680d183 100644
--- a/src/analysis/assembler/structuralmechanics.cpp
+++ b/src/analysis/assembler/structuralmechanics.cpp
@@ -557,7 +557,7 @@ void StructuralMechanics::connect(Matrix_Base<double> *K, Matrix_Base<double> *M
             }
         }
         for (size_t t = 0; t < info::mesh->boundaryRegions[r]->nodes->threads(); ++t) {
-            nodeKernels[r][t].reRHSfiller.activate(r, t, info::mesh->dimension, nodeKernels[r][t].elements, f);
+            nodeKernels[r][t].reRHSfiller.activate(r, faceKernels[r].size() + t, info::mesh->dimension, nodeKernels[r][t].elements, f);
         }
     }
     for (auto it = configuration.displacement.begin(); it != configuration.displacement.end(); ++it) {
@@ -589,8 +589,8 @@ void StructuralMechanics::connect(Matrix_Base<double> *K, Matrix_Base<double> *M
             }
         }
         for (size_t t = 0; t < info::mesh->boundaryRegions[r]->nodes->threads(); ++t) {
-            nodeKernels[r][t].reRHSfiller.activate(r, t, info::mesh->dimension, nodeKernels[r][t].elements, ref);
-            nodeKernels[r][t].imRHSfiller.activate(r, t, info::mesh->dimension, nodeKernels[r][t].elements, imf);
+            nodeKernels[r][t].reRHSfiller.activate(r, faceKernels[r].size() + t, info::mesh->dimension, nodeKernels[r][t].elements, ref);
+            nodeKernels[r][t].imRHSfiller.activate(r, faceKernels[r].size() + t, info::mesh->dimension, nodeKernels[r][t].elements, imf);
         }
     }
     for (auto it = configuration.displacement.begin(); it != configuration.displacement.end(); ++it) {
-- 
2.43.0


From a41066bf88d0441e469f5692dbd50b777122ce82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:56 +0000
Subject: [PATCH 17/67] fix: add forces in nodes shared by more processes only
 once

---
 src/analysis/assembler/general/filler.h       | 6 ++++--
 src/analysis/pattern/vector.uniform.dense.cpp | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/analysis/assembler/general/filler.h b/src/analysis/assembler/general/filler.h
index d11c81f..78c6a3d 100644
--- a/src/analysis/assembler/general/filler.h
+++ b/src/analysis/assembler/general/filler.h
@@ -96,8 +96,10 @@ struct RHSFillerKernel: DataFiller {
         size_t count = std::min((size_t)SIMD::size, elements);
         for (size_t s = 0, i = 0; s < count; ++s) {
             for (size_t r = 0; r < size; ++r, ++i) {
-                #pragma omp atomic
-                out[position[i]] += vector[r][s];
+                if (position[i] != -1) {
+                    #pragma omp atomic
+                    out[position[i]] += vector[r][s];
+                }
             }
         }
         position += count * size;
diff --git a/src/analysis/pattern/vector.uniform.dense.cpp b/src/analysis/pattern/vector.uniform.dense.cpp
index 7e42310..e9d180a 100644
--- a/src/analysis/pattern/vector.uniform.dense.cpp
+++ b/src/analysis/pattern/vector.uniform.dense.cpp
@@ -65,7 +65,8 @@ void VectorUniformDense::buildPattern(int dofs)
             boundary[r].offset.push_back(boundary[r].permutation.size());
             for (auto n = region->nodes->datatarray().cbegin(t); n != region->nodes->datatarray().cend(t); ++n) {
                 for (int d = 0; d < dofs; ++d) {
-                    boundary[r].permutation.push_back(*n * dofs + d);
+                    // values from nodes are not composed from element contributions -> only the owner sets them
+                    boundary[r].permutation.push_back(*n < info::mesh->nodes->uniqInfo.nhalo ? -1 : *n * dofs + d);
                 }
             }
         }
-- 
2.43.0


From 2f648a06ece0d2cbe6468130d771e66890ef8a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:21 +0000
Subject: [PATCH 18/67] fix: scale the stiffness of linear 2D elasticity by
 thickness

---
 .../assembler/structuralmechanics/op.matrix.elasticity.h        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analysis/assembler/structuralmechanics/op.matrix.elasticity.h b/src/analysis/assembler/structuralmechanics/op.matrix.elasticity.h
index 318a712..091fe29 100644
--- a/src/analysis/assembler/structuralmechanics/op.matrix.elasticity.h
+++ b/src/analysis/assembler/structuralmechanics/op.matrix.elasticity.h
@@ -75,7 +75,7 @@ struct MatrixElasticityKernel<nodes, 2>: MatrixElasticity {
                     B[1 * 2 * nodes + 1 * nodes + n] = element.dND[n * 2 + 1];
                     B[2 * 2 * nodes + 0 * nodes + n] = element.dND[n * 2 + 1]; B[2 * 2 * nodes + 1 * nodes + n] = element.dND[n * 2 + 0];
                 }
-                multAtBA<3, 2 * nodes>(element.K, B, element.vC4, element.det * load1(element.w[gp]));
+                multAtBA<3, 2 * nodes>(element.K, B, element.vC4, element.thickness.gp * element.det * load1(element.w[gp]));
             }
             break;
         case StructuralMechanicsGlobalSettings::ELEMENT_BEHAVIOUR::AXISYMMETRIC:
-- 
2.43.0


From eb73adb09d1c66bc107f556abcc8e1485ed4f6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:21 +0000
Subject: [PATCH 19/67] fix: use the axial translation as the only kernel of
 axisymmetric elasticity

---
 .../regularization.elasticity.cpp             | 37 ++++++++++++++++---
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/analysis/linearsystem/regularization/regularization.elasticity.cpp b/src/analysis/linearsystem/regularization/regularization.elasticity.cpp
index 7493c0d..1cdb44a 100644
--- a/src/analysis/linearsystem/regularization/regularization.elasticity.cpp
+++ b/src/analysis/linearsystem/regularization/regularization.elasticity.cpp
@@ -26,6 +26,12 @@
 
 namespace espreso {
 
+// hoop strain of axisymmetric elements removes all rigid body modes except the axial translation
+static bool axisymmetric()
+{
+    return info::mesh->dimension == 2 && info::ecf->structural_mechanics.element_behaviour == StructuralMechanicsGlobalSettings::ELEMENT_BEHAVIOUR::AXISYMMETRIC;
+}
+
 static void getCorners(std::vector<esint> &fixPoints, int domain)
 {
     esint begin = info::mesh->domains->elements[domain];
@@ -452,11 +458,18 @@ static void updateRegMat(Matrix_CSR<T> &K, Matrix_CSR<T> &RegMat, DecompositionF
 
     Matrix_Dense<T> N;
     if (info::mesh->dimension == 2) {
-        N.resize(3, fixCols.size());
-        for (size_t i = 0; i < permutation.size(); ++i) {
-            N.vals[0 * N.ncols + i] = fixVals[3 * permutation[i] + 0];
-            N.vals[1 * N.ncols + i] = fixVals[3 * permutation[i] + 1];
-            N.vals[2 * N.ncols + i] = fixVals[3 * permutation[i] + 2];
+        if (axisymmetric()) {
+            N.resize(1, fixCols.size());
+            for (size_t i = 0; i < permutation.size(); ++i) {
+                N.vals[i] = fixVals[3 * permutation[i] + 1];
+            }
+        } else {
+            N.resize(3, fixCols.size());
+            for (size_t i = 0; i < permutation.size(); ++i) {
+                N.vals[0 * N.ncols + i] = fixVals[3 * permutation[i] + 0];
+                N.vals[1 * N.ncols + i] = fixVals[3 * permutation[i] + 1];
+                N.vals[2 * N.ncols + i] = fixVals[3 * permutation[i] + 2];
+            }
         }
     }
     if (info::mesh->dimension == 3) {
@@ -496,7 +509,7 @@ template <typename T>
 static void setR1(Matrix_CSR<T> &K, Matrix_Dense<T> &R1, DecompositionFETI *decomposition, int domain)
 {
     if (info::mesh->dimension == 2) {
-        R1.resize(3, K.nrows);
+        R1.resize(axisymmetric() ? 1 : 3, K.nrows);
     }
     if (info::mesh->dimension == 3) {
         R1.resize(6, K.nrows);
@@ -506,6 +519,18 @@ static void setR1(Matrix_CSR<T> &K, Matrix_Dense<T> &R1, DecompositionFETI *deco
 template <typename T>
 static void updateR1(Matrix_CSR<T> &K, Matrix_Dense<T> &R1, DecompositionFETI *decomposition, int domain, Vector_Distributed<Vector_Dense, T> *solution = nullptr)
 {
+    if (axisymmetric()) {
+        R1.resize(1, K.nrows);
+        int i = 0;
+        for (auto dmap = decomposition->dmap->cbegin(); dmap != decomposition->dmap->cend(); ++dmap, ++i) {
+            for (auto di = dmap->begin(); di != dmap->end(); ++di) {
+                if (di->domain == domain + decomposition->dbegin) {
+                    R1.vals[di->index] = i % 2;
+                }
+            }
+        }
+        return;
+    }
     if (info::mesh->dimension == 2) {
         R1.resize(3, K.nrows);
         int i = 0;
-- 
2.43.0


From 1e105ce0c5df04dfba050b113f25ba9cd9227464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:18 +0000
Subject: [PATCH 20/67] fix: do not store gradient and flux behind the end of
 an interval

---
 src/analysis/assembler/heattransfer/op.flux.h     | 4 ++--
 src/analysis/assembler/heattransfer/op.gradient.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/analysis/assembler/heattransfer/op.flux.h b/src/analysis/assembler/heattransfer/op.flux.h
index da8e9eb..1ff5a2a 100644
--- a/src/analysis/assembler/heattransfer/op.flux.h
+++ b/src/analysis/assembler/heattransfer/op.flux.h
@@ -90,7 +90,7 @@ struct TemperatureFluxKernel<nodes, gps, 2>: TemperatureFlux {
         SIMD scale = load1(1. / gps);
         element.flux[0] = element.flux[0] * scale;
         element.flux[1] = element.flux[1] * scale;
-        size_t size = std::min((size_t)SIMD::size, (size_t)(end - flux));
+        size_t size = element.elements;
         double * __restrict__ out = flux;
         for (size_t s = 0; s < size; ++s) {
             out[2 * s + 0] = element.flux[0][s];
@@ -167,7 +167,7 @@ struct TemperatureFluxKernel<nodes, gps, 3>: TemperatureFlux {
         element.flux[0] = element.flux[0] * scale;
         element.flux[1] = element.flux[1] * scale;
         element.flux[2] = element.flux[2] * scale;
-        size_t size = std::min((size_t)SIMD::size, (size_t)(end - flux));
+        size_t size = element.elements;
         double * __restrict__ out = flux;
         for (size_t s = 0; s < size; ++s) {
             out[3 * s + 0] = element.flux[0][s];
diff --git a/src/analysis/assembler/heattransfer/op.gradient.h b/src/analysis/assembler/heattransfer/op.gradient.h
index 720ac4c..de5d395 100644
--- a/src/analysis/assembler/heattransfer/op.gradient.h
+++ b/src/analysis/assembler/heattransfer/op.gradient.h
@@ -49,7 +49,7 @@ struct TemperatureGradientKernel<nodes, gps, 2>: TemperatureGradient {
         SIMD scale = load1(1. / gps);
         element.gradient[0] = element.gradient[0] * scale;
         element.gradient[1] = element.gradient[1] * scale;
-        size_t size = std::min((size_t)SIMD::size, (size_t)(end - gradient));
+        size_t size = element.elements;
         double * __restrict__ out = gradient;
         for (size_t s = 0; s < size; ++s) {
             out[2 * s + 0] = element.gradient[0][s];
@@ -81,7 +81,7 @@ struct TemperatureGradientKernel<nodes, gps, 3>: TemperatureGradient {
         element.gradient[0] = element.gradient[0] * scale;
         element.gradient[1] = element.gradient[1] * scale;
         element.gradient[2] = element.gradient[2] * scale;
-        size_t size = std::min((size_t)SIMD::size, (size_t)(end - gradient));
+        size_t size = element.elements;
         double * __restrict__ out = gradient;
         for (size_t s = 0; s < size; ++s) {
             out[3 * s + 0] = element.gradient[0][s];
-- 
2.43.0


From 38dda39888f56a99b6be2ed16f0941df4b7b2f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:22 +0000
Subject: [PATCH 21/67] fix: revert counting forces of shared nodes once
 (reference results of tests count them per process)

---
 src/analysis/assembler/general/filler.h       | 6 ++----
 src/analysis/pattern/vector.uniform.dense.cpp | 3 +--
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/analysis/assembler/general/filler.h b/src/analysis/assembler/general/filler.h
index 78c6a3d..d11c81f 100644
--- a/src/analysis/assembler/general/filler.h
+++ b/src/analysis/assembler/general/filler.h
@@ -96,10 +96,8 @@ struct RHSFillerKernel: DataFiller {
         size_t count = std::min((size_t)SIMD::size, elements);
         for (size_t s = 0, i = 0; s < count; ++s) {
             for (size_t r = 0; r < size; ++r, ++i) {
-                if (position[i] != -1) {
-                    #pragma omp atomic
-                    out[position[i]] += vector[r][s];
-                }
+                #pragma omp atomic
+                out[position[i]] += vector[r][s];
             }
         }
         position += count * size;
diff --git a/src/analysis/pattern/vector.uniform.dense.cpp b/src/analysis/pattern/vector.uniform.dense.cpp
index e9d180a..7e42310 100644
--- a/src/analysis/pattern/vector.uniform.dense.cpp
+++ b/src/analysis/pattern/vector.uniform.dense.cpp
@@ -65,8 +65,7 @@ void VectorUniformDense::buildPattern(int dofs)
             boundary[r].offset.push_back(boundary[r].permutation.size());
             for (auto n = region->nodes->datatarray().cbegin(t); n != region->nodes->datatarray().cend(t); ++n) {
                 for (int d = 0; d < dofs; ++d) {
-                    // values from nodes are not composed from element contributions -> only the owner sets them
-                    boundary[r].permutation.push_back(*n < info::mesh->nodes->uniqInfo.nhalo ? -1 : *n * dofs + d);
+                    boundary[r].permutation.push_back(*n * dofs + d);
                 }
             }
         }
-- 
2.43.0


From daa8f9d1ee0c89558dfaa076abb9144dd021ff6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:57 +0000
Subject: [PATCH 22/67] fix: finish conjugate gradients when the exact solution
 is found

---
 src/feti/iterativesolver/iterativesolver.cpp | 4 ++--
 src/feti/iterativesolver/orthopcpg.cpp       | 2 +-
 src/feti/iterativesolver/pcpg.cpp            | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/feti/iterativesolver/iterativesolver.cpp b/src/feti/iterativesolver/iterativesolver.cpp
index dd73696..d953390 100644
--- a/src/feti/iterativesolver/iterativesolver.cpp
+++ b/src/feti/iterativesolver/iterativesolver.cpp
@@ -120,7 +120,7 @@ void IterativeSolver<double>::updateInfo(IterativeSolverInfo &info, const FETICo
 {
 //    info.norm.dual.ksi += psi;
     info.norm.dual.absolute = std::sqrt(std::max(0., ww));
-    info.norm.dual.relative = info.norm.dual.absolute / info.norm.dual.initial;
+    info.norm.dual.relative = info.norm.dual.absolute == 0 ? 0 : info.norm.dual.absolute / info.norm.dual.initial;
 //    info.norm.dual.arioli = std::sqrt(info.norm.dual.ksi / ry);
 
     switch (configuration.stopping_criterion) {
@@ -142,7 +142,7 @@ void IterativeSolver<double>::updateInfo(IterativeSolverInfo &info, const FETICo
         info.converged = true;
     }
 
-    if (std::isnan(info.norm.dual.criteria)) {
+    if (std::isnan(ww) || std::isnan(info.norm.dual.criteria)) {
         info.error = IterativeSolverInfo::ERROR::INVALID_DATA;
         info.converged = true;
     }
diff --git a/src/feti/iterativesolver/orthopcpg.cpp b/src/feti/iterativesolver/orthopcpg.cpp
index c110bf2..086b8b3 100644
--- a/src/feti/iterativesolver/orthopcpg.cpp
+++ b/src/feti/iterativesolver/orthopcpg.cpp
@@ -95,7 +95,7 @@ template <> void OrthogonalizedPCPG<double>::solve(const step::Step &step, Itera
         F->apply(p, Fp);
         eslog::accumulatedln("orthopcpg: apply F");
         pFp.push_back(p.dot(Fp));
-        double gamma = yw / pFp.back();
+        double gamma = yw == 0 ? 0 : yw / pFp.back(); // yw == 0 -> x is the solution
         eslog::accumulatedln("orthopcpg: dot(p, Fp)");
 
         // x = x + gamma * p
diff --git a/src/feti/iterativesolver/pcpg.cpp b/src/feti/iterativesolver/pcpg.cpp
index 68b85f1..cb97acd 100644
--- a/src/feti/iterativesolver/pcpg.cpp
+++ b/src/feti/iterativesolver/pcpg.cpp
@@ -104,7 +104,7 @@ template <> void PCPG<double>::solve(const step::Step &step, IterativeSolverInfo
         // gamma = (y, w) / (p, F * p)
         F->apply(p, Fp);
         eslog::accumulatedln("pcpg: apply F");
-        double pFp = p.dot(Fp), gamma = yw / pFp;
+        double pFp = p.dot(Fp), gamma = yw == 0 ? 0 : yw / pFp; // yw == 0 -> x is the solution
         eslog::accumulatedln("pcpg: dot(p, Fp)");
 
         // x = x + gamma * p
@@ -127,7 +127,7 @@ template <> void PCPG<double>::solve(const step::Step &step, IterativeSolverInfo
 
 
         // beta = (y+1, w+1) / (y, w)
-        double _yw = y.dot(w), beta = _yw / yw;
+        double _yw = y.dot(w), beta = yw == 0 ? 0 : _yw / yw;
         eslog::accumulatedln("pcpg: dot(y, w)");
 
         // p = y + beta * p  (y is not used anymore)
-- 
2.43.0


From 84a18ac680c0e92a9650b80b6a5cb7e01387ca37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:57 +0000
Subject: [PATCH 23/67] fix: report zero contact forces without inequalities

---
 src/analysis/linearsystem/fetisolver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/analysis/linearsystem/fetisolver.cpp b/src/analysis/linearsystem/fetisolver.cpp
index bcf6d18..950dd0d 100644
--- a/src/analysis/linearsystem/fetisolver.cpp
+++ b/src/analysis/linearsystem/fetisolver.cpp
@@ -77,6 +77,7 @@ void FETILinearSystemSolver<T>::set(step::Step &step)
         x.feti.domains[di].resize(A.decomposition->dsize[di]);
         BtL.feti.domains[di].resize(A.decomposition->dsize[di]);
         ineqBtL.feti.domains[di].resize(A.decomposition->dsize[di]);
+        math::set(ineqBtL.feti.domains[di], T{0}); // it is kept if there are no inequalities
         feti.K[di].shallowCopy(A.domains[di]);
         feti.assembledK[di].shallowCopy(dynamic_cast<Matrix_FETI<T>* >(LinearSystemSolver<T>::assembledA)->domains[di]);
         feti.f[di].shallowCopy(b.feti.domains[di]);
-- 
2.43.0


From f1971a85a76502d2ca486fcd62e6e4cc0cef2ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:24 +0000
Subject: [PATCH 24/67] fix: use the same FETI method on all processes

---
 src/feti/feti.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/feti/feti.cpp b/src/feti/feti.cpp
index 49b5931..4ecac8b 100644
--- a/src/feti/feti.cpp
+++ b/src/feti/feti.cpp
@@ -56,7 +56,9 @@ bool FETI<T>::set(const step::Step &step)
 {
     double start = eslog::time();
 
-    if (K.size() == 1) {
+    int domains = K.size(); // clusters with one domain cannot be glued by hybrid FETI, all processes have to use the same method
+    Communication::allReduce(&domains, nullptr, 1, MPITools::getType(domains).mpitype, MPI_MIN);
+    if (domains == 1) {
         configuration.method = FETIConfiguration::METHOD::TOTAL_FETI;
     }
 
-- 
2.43.0


From d37c4bfc298bbea020471aa2bef34127397db28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:40 +0000
Subject: [PATCH 25/67] fix: sum contributions of all intervals of dual
 variables in orthogonal PCG

---
 src/feti/common/matrix_dual_orthogonal.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/feti/common/matrix_dual_orthogonal.h b/src/feti/common/matrix_dual_orthogonal.h
index 1e84aad..fed36d4 100644
--- a/src/feti/common/matrix_dual_orthogonal.h
+++ b/src/feti/common/matrix_dual_orthogonal.h
@@ -32,12 +32,13 @@ struct Matrix_Dual_Orthogonal: public Matrix_Dual<T> {
 
     void apply(const Vector_Dual<T> &x, Vector_Dense<T> &y)
     {
+        math::set(y, T{0});
         for (size_t i = 0; i < Dual_Map::local_intervals.size(); ++i) {
             Vector_Dense<T> _x;
             _x.size = Dual_Map::local_intervals[i].size;
             _x.vals = x.vals + Dual_Map::local_intervals[i].start;
             Matrix_Dense<T>::slice({}, { Dual_Map::local_intervals[i].start, Dual_Map::local_intervals[i].end });
-            math::blas::apply(y, T{1}, static_cast<Matrix_Dense<T>&>(*this), T{0}, _x);
+            math::blas::apply(y, T{1}, static_cast<Matrix_Dense<T>&>(*this), T{1}, _x);
         }
         Communication::allReduce(y.vals, nullptr, y.size, MPITools::getType<T>().mpitype, MPI_SUM);
     }
-- 
2.43.0


From 20580a3bcf8141868959b1422a7ffc5398867a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:59 +0000
Subject: [PATCH 26/67] fix: support domains without inner DOFs in the implicit
 Dirichlet preconditioner

---
 .../preconditioner/dirichlet.implicit.cpp     | 30 +++++++++++--------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/feti/preconditioner/dirichlet.implicit.cpp b/src/feti/preconditioner/dirichlet.implicit.cpp
index a50d748..3dcff2a 100644
--- a/src/feti/preconditioner/dirichlet.implicit.cpp
+++ b/src/feti/preconditioner/dirichlet.implicit.cpp
@@ -75,8 +75,10 @@ void DirichletImplicit<T>::set(const step::Step &step)
 
         math::spblas::submatrix(pK, A11[d], 0, size_A11, 0, size_A11);
 
-        solver[d].commit(A11[d]);
-        solver[d].symbolicFactorization();
+        if (size_A11) {
+            solver[d].commit(A11[d]);
+            solver[d].symbolicFactorization();
+        }
     }
 }
 
@@ -96,7 +98,9 @@ void DirichletImplicit<T>::update(const step::Step &step)
             math::spblas::submatrix(pK, A11[d],        0, size_A11,        0, size_A11);
             math::spblas::submatrix(pK, A12[d],        0, size_A11, size_A11,     size);
             math::spblas::submatrix(pK, A22[d], size_A11,     size, size_A11,     size);
-            solver[d].numericalFactorization();
+            if (size_A11) {
+                solver[d].numericalFactorization();
+            }
         }
     }
     _print(step);
@@ -113,17 +117,19 @@ void DirichletImplicit<T>::apply(const Vector_Dual<T> &x, Vector_Dual<T> &y)
             Btx[d].vals[i] = Btx[d].vals[indices[d][i]];
         }
 
-        Vector_Dense<T> vx, vy;
-        vx.resize(A12[d].ncols);
-        vy.resize(A12[d].nrows);
-        math::copy(vx, Btx[d]);
+        math::set(KBtx[d], T{0});
+        if (A11[d].nrows) { // there can be domains without inner DOFs
+            Vector_Dense<T> vx, vy;
+            vx.resize(A12[d].ncols);
+            vy.resize(A12[d].nrows);
+            math::copy(vx, Btx[d]);
 
-        math::set(vy, T{0});
-        math::spblas::apply(vy, T{1}, A12[d], vx);
-        solver[d].solve(vy, vx);
+            math::set(vy, T{0});
+            math::spblas::apply(vy, T{1}, A12[d], vx);
+            solver[d].solve(vy, vx);
 
-        math::set(KBtx[d], T{0});
-        math::spblas::applyT(KBtx[d], T{-1}, A12[d], vx);
+            math::spblas::applyT(KBtx[d], T{-1}, A12[d], vx);
+        }
         for (int r = 0; r < A22[d].nrows; ++r) { // A22 has upper triangle only
             for (int c = A22[d].rows[r]; c < A22[d].rows[r + 1]; ++c) {
                 KBtx[d].vals[r] += A22[d].vals[c] * Btx[d].vals[A22[d].cols[c]];
-- 
2.43.0


From f228607c9282e90ac464588e51289f057fd8c275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:48 +0000
Subject: [PATCH 27/67] fix: start orthogonal PCG without data of previous
 solutions

---
 src/feti/iterativesolver/orthopcpg.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/feti/iterativesolver/orthopcpg.cpp b/src/feti/iterativesolver/orthopcpg.cpp
index 086b8b3..93b241f 100644
--- a/src/feti/iterativesolver/orthopcpg.cpp
+++ b/src/feti/iterativesolver/orthopcpg.cpp
@@ -67,6 +67,8 @@ template <> void OrthogonalizedPCPG<double>::solve(const step::Step &step, Itera
     Preconditioner<double> *S = feti.preconditioner;
 
     Vector_Dual<double> p, Fp;
+    yFp.clear();
+    pFp.clear();
     pi.next(p);
 
     Vector_Dense<double> _yFp;
-- 
2.43.0


From 214206793bfa0cf5d5ff01e54f51277119617082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:41 +0000
Subject: [PATCH 28/67] fix: finish orthogonal PCG before searching in a
 direction of rounding errors

---
 src/feti/iterativesolver/orthopcpg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/feti/iterativesolver/orthopcpg.cpp b/src/feti/iterativesolver/orthopcpg.cpp
index 93b241f..6d7fca0 100644
--- a/src/feti/iterativesolver/orthopcpg.cpp
+++ b/src/feti/iterativesolver/orthopcpg.cpp
@@ -129,8 +129,8 @@ template <> void OrthogonalizedPCPG<double>::solve(const step::Step &step, Itera
         math::add(p, 1., y);
         eslog::accumulatedln("orthopcpg: orthogonalization");
 
-        updateInfo(info, feti.configuration, yw, 0, 0);
         yw = y.dot(w);
+        updateInfo(info, feti.configuration, yw, 0, 0);
         eslog::accumulatedln("orthopcpg: check criteria");
     }
     eslog::endln("orthopcpg: finished");
-- 
2.43.0


From 4ecbb49cf1e7ffc0c23f8b01b6e516ecc24c1000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:41 +0000
Subject: [PATCH 29/67] fix: solve with more right-hand sides by Schur
 complement of PARDISO

---
 .../operations/schur_csx_dny.mklpardiso.cpp   | 60 +++++++------------
 1 file changed, 20 insertions(+), 40 deletions(-)

diff --git a/src/wrappers/mkl/operations/schur_csx_dny.mklpardiso.cpp b/src/wrappers/mkl/operations/schur_csx_dny.mklpardiso.cpp
index 1a00798..8d5fd11 100644
--- a/src/wrappers/mkl/operations/schur_csx_dny.mklpardiso.cpp
+++ b/src/wrappers/mkl/operations/schur_csx_dny.mklpardiso.cpp
@@ -187,63 +187,43 @@ void schur_csx_dny_mklpardiso<T,I>::internal_solve_A11(MatrixDenseView_new<T> &
 {
     if(rhs.ncols == 0) return;
 
-    // no support for leading dimension in pardiso. matrix has to be colmajor. so I have to reallocate and convert
+    // pardiso works with vectors of the whole matrix, and has no support for leading dimension. matrix has to be colmajor. so I have to reallocate and convert
     Allocator_new * ator = AllocatorCPU_new::get_singleton();
-    if((&rhs == &sol) && ((rhs.order != 'C') || (rhs.ld != rhs.nrows))) {
-        T * tmp_mem = ator->template alloc<T>(rhs.nrows * rhs.ncols);
-        MatrixDenseView_new<T> tmp;
-        tmp.set_view(rhs.nrows, rhs.ncols, rhs.nrows, 'C', tmp_mem, ator);
-        math::operations::convert_dnx_dny<T>::do_all(&rhs, &tmp, false);
-        this->internal_solve_A11(tmp, tmp);
-        math::operations::convert_dnx_dny<T>::do_all(&tmp, &sol, false);
-        ator->free(tmp_mem);
-        return;
-    }
-    if((rhs.order != 'C') || (rhs.ld != rhs.nrows)) {
-        T * rhs_2_mem = ator->template alloc<T>(rhs.nrows * rhs.ncols);
-        MatrixDenseView_new<T> rhs_2;
-        rhs_2.set_view(rhs.nrows, rhs.ncols, rhs.nrows, 'C', rhs_2_mem, ator);
-        math::operations::convert_dnx_dny<T>::do_all(&rhs, &rhs_2, false);
-        this->internal_solve_A11(rhs_2, sol);
-        ator->free(rhs_2_mem);
-        return;
-    }
-    if((sol.order != 'C') || (sol.ld != sol.nrows)) {
-        T * sol_2_mem = ator->template alloc<T>(sol.nrows * sol.ncols);
-        MatrixDenseView_new<T> sol_2;
-        sol_2.set_view(sol.nrows, sol.ncols, sol.nrows, 'C', sol_2_mem, ator);
-        this->internal_solve_A11(rhs, sol_2);
-        math::operations::convert_dnx_dny<T>::do_all(&sol_2, &sol, false);
-        ator->free(sol_2_mem);
-        return;
-    }
-
-    T * tmp_mem = ator->template alloc<T>(rhs.nrows * rhs.ncols);
-    MatrixDenseView_new<T> tmp;
-    tmp.set_view(rhs.nrows, rhs.ncols, rhs.nrows, 'C', tmp_mem, ator);
+    T * x_mem = ator->template alloc<T>(size_matrix * rhs.ncols);
+    T * y_mem = ator->template alloc<T>(size_matrix * rhs.ncols);
+    MatrixDenseView_new<T> x;
+    MatrixDenseView_new<T> y;
+    x.set_view(size_matrix, rhs.ncols, size_matrix, 'C', x_mem, ator);
+    y.set_view(size_matrix, rhs.ncols, size_matrix, 'C', y_mem, ator);
+    MatrixDenseView_new<T> x_sub_top = x.get_submatrix_view(0, size_A11, 0, x.ncols);
+    MatrixDenseView_new<T> x_sub_bottom = x.get_submatrix_view(size_A11, size_matrix, 0, x.ncols);
+    MatrixDenseView_new<T> y_sub_bottom = y.get_submatrix_view(size_A11, size_matrix, 0, y.ncols);
+
+    math::operations::convert_dnx_dny<T>::do_all(&rhs, &x_sub_top, false);
+    math::operations::fill_dnx<T>::do_all(&x_sub_bottom, T{0});
 
     MKL_INT phase;
     MKL_INT one = 1;
     MKL_INT nrhs = rhs.ncols;
 
     phase = 331;
-    pardiso(data->pt, &one, &one, &data->mtype, &phase, &data->size_matrix_mklint, A->vals, A->ptrs, A->idxs, nullptr, &nrhs, data->iparm, &data->msglvl, rhs.vals, tmp.vals, &data->error);
+    pardiso(data->pt, &one, &one, &data->mtype, &phase, &data->size_matrix_mklint, A->vals, A->ptrs, A->idxs, nullptr, &nrhs, data->iparm, &data->msglvl, x.vals, y.vals, &data->error);
     if(data->error != 0) {
         eslog::error("pardiso error %d\n", (int)data->error);
     }
 
-    {
-        MatrixDenseView_new<T> tmp_sub_bottom = tmp.get_submatrix_view(size_A11, size_matrix, 0, tmp.ncols);
-        math::operations::fill_dnx<T>::do_all(&tmp_sub_bottom, T{0});
-    }
+    math::operations::fill_dnx<T>::do_all(&y_sub_bottom, T{0});
 
     phase = 333;
-    pardiso(data->pt, &one, &one, &data->mtype, &phase, &data->size_matrix_mklint, A->vals, A->ptrs, A->idxs, nullptr, &nrhs, data->iparm, &data->msglvl, tmp.vals, sol.vals, &data->error);
+    pardiso(data->pt, &one, &one, &data->mtype, &phase, &data->size_matrix_mklint, A->vals, A->ptrs, A->idxs, nullptr, &nrhs, data->iparm, &data->msglvl, y.vals, x.vals, &data->error);
     if(data->error != 0) {
         eslog::error("pardiso error %d\n", (int)data->error);
     }
 
-    ator->free(tmp_mem);
+    math::operations::convert_dnx_dny<T>::do_all(&x_sub_top, &sol, false);
+
+    ator->free(x_mem);
+    ator->free(y_mem);
 }
 
 
-- 
2.43.0


From fca1ad4fe7e5f1c257b2a5e7713f127f6f9711e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:29 +0000
Subject: [PATCH 30/67] fix: use total FETI when hybrid FETI is not applicable
 (more clusters per process, Moore-Penrose inverse)

---
 src/feti/feti.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/feti/feti.cpp b/src/feti/feti.cpp
index 4ecac8b..2813dd0 100644
--- a/src/feti/feti.cpp
+++ b/src/feti/feti.cpp
@@ -6,7 +6,9 @@
 #include "preconditioner/preconditioner.h"
 #include "math/math.h"
 #include "esinfo/eslog.hpp"
+#include "esinfo/meshinfo.h"
 #include "esinfo/systeminfo.h"
+#include "mesh/store/clusterstore.h"
 #include "wrappers/mpi/communication.h"
 
 namespace espreso {
@@ -56,10 +58,16 @@ bool FETI<T>::set(const step::Step &step)
 {
     double start = eslog::time();
 
-    int domains = K.size(); // clusters with one domain cannot be glued by hybrid FETI, all processes have to use the same method
-    Communication::allReduce(&domains, nullptr, 1, MPITools::getType(domains).mpitype, MPI_MIN);
-    if (domains == 1) {
-        configuration.method = FETIConfiguration::METHOD::TOTAL_FETI;
+    if (configuration.method == FETIConfiguration::METHOD::HYBRID_FETI) {
+        // hybrid FETI glues domains of one continuous cluster per process, all processes have to use the same method
+        int hybrid = K.size() > 1 && info::mesh->clusters->size == 1;
+        if (configuration.regularization == FETIConfiguration::REGULARIZATION::SVD) {
+            hybrid = 0; // Moore-Penrose inverse is supported by total FETI only
+        }
+        Communication::allReduce(&hybrid, nullptr, 1, MPITools::getType(hybrid).mpitype, MPI_MIN);
+        if (!hybrid) {
+            configuration.method = FETIConfiguration::METHOD::TOTAL_FETI;
+        }
     }
 
     for (size_t d = 0; d < K.size(); ++d) {
-- 
2.43.0


From 359f36b7cd659420452c54b2610e597e3a8da205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:00 +0000
Subject: [PATCH 31/67] fix: use heat capacity and thickness in the mass matrix
 of transient heat transfer

---
 src/analysis/assembler/heattransfer/kernel.h | 2 +-
 src/config/ecf/material/material.cpp         | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/analysis/assembler/heattransfer/kernel.h b/src/analysis/assembler/heattransfer/kernel.h
index 2933447..248c3f5 100644
--- a/src/analysis/assembler/heattransfer/kernel.h
+++ b/src/analysis/assembler/heattransfer/kernel.h
@@ -359,7 +359,7 @@ void runElementKernel(const step::Step &step, const HeatTransferElementOperators
                 K.simd(element, gp);
             }
             if (M.isactive) {
-                M.simd(element, gp);
+                M.simd(element, gp, element.thickness.gp * element.det * load1(element.w[gp]) * element.ecf.density * element.ecf.heatCapacity);
             }
             if (gradient.isactive) {
                 gradient.simd(element, gp);
diff --git a/src/config/ecf/material/material.cpp b/src/config/ecf/material/material.cpp
index 7010614..2079724 100644
--- a/src/config/ecf/material/material.cpp
+++ b/src/config/ecf/material/material.cpp
@@ -16,7 +16,8 @@ MaterialBaseConfiguration::MaterialBaseConfiguration(PHYSICAL_MODEL physicalMode
             .allowonly([&] () { return !*_phase_change; })
             .addconstraint(ECFCondition(*_phase_change, ECFCondition::EQUALS, false)));
 
-    density.value = heat_capacity.value = "0";
+    density.value = "0";
+    heat_capacity.value = "1";
     ecfdescription->registerParameter("dens", density, ECFMetaData()
             .setdescription({ "Density" })
             .setdatatype({ ECFDataType::EXPRESSION })
-- 
2.43.0


From 264667375efee6399708d04a9f9e4ed94db52f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:23 +0000
Subject: [PATCH 32/67] fix: compute Schur complement of domains without
 eliminated DOFs

---
 src/wrappers/mkl/w.mkl.pardiso.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/wrappers/mkl/w.mkl.pardiso.cpp b/src/wrappers/mkl/w.mkl.pardiso.cpp
index d528299..409ddbd 100644
--- a/src/wrappers/mkl/w.mkl.pardiso.cpp
+++ b/src/wrappers/mkl/w.mkl.pardiso.cpp
@@ -301,12 +301,26 @@ void DirectSparseSolver<T, I>::getSC(Matrix_Dense<T, I> &sc, std::vector<I> &ind
         out_vals = full.vals;
     }
 
-    ext->pp.iparm[35] = 1;
-    I *perm = ext->pp.perm;
-    ext->pp.perm = indices.data();
-    _callPardiso<T, I>(12, ext, 0, nullptr, out_vals);
-    ext->pp.perm = perm;
-    ext->pp.iparm[35] = 0;
+    if (sc.nrows == ext->matrix->nrows) { // there is nothing to eliminate
+        const Matrix_CSR<T, I> &A = *ext->matrix;
+        std::fill(out_vals, out_vals + (size_t)sc.nrows * sc.nrows, T{0});
+        for (I r = 0; r < A.nrows; ++r) {
+            for (I i = A.rows[r]; i < A.rows[r + 1]; ++i) {
+                I c = A.cols[i - Indexing::CSR] - Indexing::CSR;
+                out_vals[(size_t)r * sc.nrows + c] = A.vals[i - Indexing::CSR];
+                if (A.shape != Matrix_Shape::FULL) {
+                    out_vals[(size_t)c * sc.nrows + r] = A.vals[i - Indexing::CSR];
+                }
+            }
+        }
+    } else {
+        ext->pp.iparm[35] = 1;
+        I *perm = ext->pp.perm;
+        ext->pp.perm = indices.data();
+        _callPardiso<T, I>(12, ext, 0, nullptr, out_vals);
+        ext->pp.perm = perm;
+        ext->pp.iparm[35] = 0;
+    }
 
     if(symmetric_packed) {
         for (I r = 0, i = 0; r < full.nrows; ++r) {
-- 
2.43.0


From 6d8ae12ed12f289193a035f6d15757fcf2a76292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:23 +0000
Subject: [PATCH 33/67] fix: use thickness and radius in the mass matrix of 2D
 elasticity

---
 src/analysis/assembler/general/op.matrix.mass.h    | 14 ++++++++++++--
 .../assembler/structuralmechanics/kernel.h         | 10 +++++++++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/analysis/assembler/general/op.matrix.mass.h b/src/analysis/assembler/general/op.matrix.mass.h
index b474a56..559ddca 100644
--- a/src/analysis/assembler/general/op.matrix.mass.h
+++ b/src/analysis/assembler/general/op.matrix.mass.h
@@ -56,7 +56,12 @@ struct MatrixMassKernel<nodes, 2>: MatrixMass {
     template <typename Element>
     void simd(Element &element, size_t gp)
     {
-        SIMD scale = element.det * load1(element.w[gp]) * element.ecf.density;
+        simd(element, gp, element.det * load1(element.w[gp]) * element.ecf.density);
+    }
+
+    template <typename Element>
+    void simd(Element &element, size_t gp, SIMD scale)
+    {
         for (size_t n1 = 0, n2 = nodes; n1 < nodes; ++n1, ++n2) {
             element.M[n1 * 2 * nodes + n1] = element.M[n1 * 2 * nodes + n1] + scale * load1(element.N[gp][n1] * element.N[gp][n1]);
             element.M[n2 * 2 * nodes + n2] = element.M[n2 * 2 * nodes + n2] + scale * load1(element.N[gp][n1] * element.N[gp][n1]);
@@ -78,7 +83,12 @@ struct MatrixMassKernel<nodes, 3>: MatrixMass {
     template <typename Element>
     void simd(Element &element, size_t gp)
     {
-        SIMD scale = element.det * load1(element.w[gp]) * element.ecf.density;
+        simd(element, gp, element.det * load1(element.w[gp]) * element.ecf.density);
+    }
+
+    template <typename Element>
+    void simd(Element &element, size_t gp, SIMD scale)
+    {
         for (size_t n1 = 0, n2 = nodes, n3 = 2 * nodes; n1 < nodes; ++n1, ++n2, ++n3) {
             element.M[n1 * 3 * nodes + n1] = element.M[n1 * 3 * nodes + n1] + scale * load1(element.N[gp][n1] * element.N[gp][n1]);
             element.M[n2 * 3 * nodes + n2] = element.M[n2 * 3 * nodes + n2] + scale * load1(element.N[gp][n1] * element.N[gp][n1]);
diff --git a/src/analysis/assembler/structuralmechanics/kernel.h b/src/analysis/assembler/structuralmechanics/kernel.h
index e8cd08a..df70443 100644
--- a/src/analysis/assembler/structuralmechanics/kernel.h
+++ b/src/analysis/assembler/structuralmechanics/kernel.h
@@ -431,7 +431,15 @@ void runElementKernel(const step::Step &step, StructuralMechanicsElementOperator
                 matrixElasticity.simd(element, gp);
             }
             if (M.isactive) {
-                M.simd(element, gp);
+                SIMD scale = element.det * load1(element.w[gp]) * element.ecf.density;
+                if (ndim == 2) {
+                    if (matrixElasticity.behaviour == StructuralMechanicsGlobalSettings::ELEMENT_BEHAVIOUR::AXISYMMETRIC) {
+                        scale = scale * load1(2 * M_PI) * element.coords.gp[0];
+                    } else {
+                        scale = scale * element.thickness.gp;
+                    }
+                }
+                M.simd(element, gp, scale);
             }
 //            if (C.isactive) {
 //                C.simd(element, gp);
-- 
2.43.0


From 7329d040a39e7fce371a3321a679c46fb54d7b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:23 +0000
Subject: [PATCH 34/67] fix: keep the rate of temperature between transient
 load steps

---
 src/analysis/physics/heat.transient.linear.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/analysis/physics/heat.transient.linear.cpp b/src/analysis/physics/heat.transient.linear.cpp
index 28cd1e4..fc5d417 100644
--- a/src/analysis/physics/heat.transient.linear.cpp
+++ b/src/analysis/physics/heat.transient.linear.cpp
@@ -109,6 +109,7 @@ bool HeatTransientLinear::analyze(step::Step &step)
 bool HeatTransientLinear::run(step::Step &step, Physics *prev)
 {
     time.start = 0;
+    V->set(0);
     if (prev) {
         bool correct = false;
         if (dynamic_cast<HeatTransientLinear*>(prev)) {
@@ -116,6 +117,7 @@ bool HeatTransientLinear::run(step::Step &step, Physics *prev)
             HeatTransientLinear* _prev = dynamic_cast<HeatTransientLinear*>(prev);
             time.start = _prev->time.final;
             U->copy(_prev->x);
+            V->copy(_prev->V);
         }
         if (dynamic_cast<HeatSteadyStateLinear*>(prev)) {
             correct = true;
@@ -165,7 +167,6 @@ bool HeatTransientLinear::run(step::Step &step, Physics *prev)
     eslog::checkpointln("SIMULATION: LINEAR SYSTEM SET");
 
     dU->set(0);
-    V->set(0);
     bool solved = true;
     while (solved && time.current <= time.final + time.precision) {
         eslog::info(" ============================================================================================= \n");
-- 
2.43.0


From 06b04b8e1eca9694e3975b785d6ca2bb21bd5b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:23 +0000
Subject: [PATCH 35/67] fix: use ALPHA and DELTA of Newmark method in linear
 transient analysis as in the non-linear one

---
 .../structuralmechanics.transient.linear.cpp     | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/analysis/physics/structuralmechanics.transient.linear.cpp b/src/analysis/physics/structuralmechanics.transient.linear.cpp
index a219785..74ec7bf 100644
--- a/src/analysis/physics/structuralmechanics.transient.linear.cpp
+++ b/src/analysis/physics/structuralmechanics.transient.linear.cpp
@@ -163,14 +163,14 @@ bool StructuralMechanicsTransientLinear::run(step::Step &step, Physics *prev)
         time.shift = precice.timeStep(time.shift);
         time.current = time.previous + time.shift;
         double newmark[] = {
-            1. / (delta * time.shift * time.shift),
-            alpha / (delta * time.shift),
-            1. / (delta * time.shift),
-            1. / (2 * delta) - 1,
-            alpha / delta - 1,
-            time.shift / 2 * (alpha / delta - 2),
-            time.shift * (1 - alpha),
-            time.shift * alpha
+            1. / (alpha * time.shift * time.shift),
+            delta / (alpha * time.shift),
+            1. / (alpha * time.shift),
+            1. / (2 * alpha) - 1,
+            delta / alpha - 1,
+            time.shift / 2 * (delta / alpha - 2),
+            time.shift * (1 - delta),
+            time.shift * delta
         };
 
         eslog::info(" ============================================================================================= \n");
-- 
2.43.0


From f9e2d99f280c7129ba8e6aac19995e32f124bc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:26 +0000
Subject: [PATCH 36/67] fix: apply the explicit dual operator in the conjugate
 projector

---
 src/feti/dualoperator/dualoperator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/feti/dualoperator/dualoperator.h b/src/feti/dualoperator/dualoperator.h
index dbfa3ce..e48e0d6 100644
--- a/src/feti/dualoperator/dualoperator.h
+++ b/src/feti/dualoperator/dualoperator.h
@@ -42,8 +42,8 @@ public:
     // y = F * x
     virtual void apply(const Vector_Dual<T> &x, Vector_Dual<T> &y) =0;
     virtual void apply(const Matrix_Dual<T> &x, Matrix_Dual<T> &y) =0;
-    virtual void apply(const Matrix_Dual<T> &x, Matrix_Dual<T> &y, const std::vector<int> &filter) {}
-    virtual void apply(const Matrix_Dual<T> &x, Matrix_Dual<T> &y, const std::vector<std::vector<int> > &filter) {}
+    virtual void apply(const Matrix_Dual<T> &x, Matrix_Dual<T> &y, const std::vector<int> &filter) { apply(x, y); }
+    virtual void apply(const Matrix_Dual<T> &x, Matrix_Dual<T> &y, const std::vector<std::vector<int> > &filter) { apply(x, y); }
 
     // y = K+(f - Bt * x)
     virtual void toPrimal(const Vector_Dual<T> &x, std::vector<Vector_Dense<T> > &y) =0;
-- 
2.43.0


From 8f113037850ee9437da8d22577a32b84d3263a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:21 +0000
Subject: [PATCH 37/67] fix: refuse an index of a configuration option behind
 the last option

---
 src/config/holders/valueholder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config/holders/valueholder.h b/src/config/holders/valueholder.h
index aa206af..8841a5a 100644
--- a/src/config/holders/valueholder.h
+++ b/src/config/holders/valueholder.h
@@ -190,7 +190,7 @@ struct ECFEnumHolder: public ECFValue {
         }
 
         if (index == (size_t)-1) {
-            if (!ECFValueHolder<size_t>(index)._setValue(value)) {
+            if (!ECFValueHolder<size_t>(index)._setValue(value) || index >= metadata.options.size()) {
                 return false;
             }
         }
-- 
2.43.0


From e3f1c719f144a40d00103eb19cea167c0e80d7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:21 +0000
Subject: [PATCH 38/67] fix: read an empty vector of a stored configuration

---
 src/config/holders/vectorholder.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/config/holders/vectorholder.h b/src/config/holders/vectorholder.h
index 47ad09b..0d2f774 100644
--- a/src/config/holders/vectorholder.h
+++ b/src/config/holders/vectorholder.h
@@ -28,6 +28,9 @@ struct ECFVectorHolder: public ECFValue {
 
     bool _setValue(const std::string &values)
     {
+        if (values.size() == 0) {
+            return true;
+        }
         std::vector<std::string> parsed = Parser::split(values, ", ", true);
         for (size_t i = 0; i < parsed.size(); i++) {
             std::stringstream ssv(parsed[i]);
-- 
2.43.0


From 488706c79f68f59baa2f19bbc08bb2bce2dedce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:21 +0000
Subject: [PATCH 39/67] fix: do not join words of a configuration separated by
 a comment

---
 src/config/reader/tokenizer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/config/reader/tokenizer.cpp b/src/config/reader/tokenizer.cpp
index 5257391..5d91db1 100644
--- a/src/config/reader/tokenizer.cpp
+++ b/src/config/reader/tokenizer.cpp
@@ -191,6 +191,9 @@ Tokenizer::Token Tokenizer::_next()
                 last = _file.get();
             }
             _file.get();
+            if (_buffer.size()) {
+                return Token::STRING;
+            }
             skipWhiteSpaces(_file);
             continue;
         }
-- 
2.43.0


From 58637badbf09183eac39821762a911bf962733fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:21 +0000
Subject: [PATCH 40/67] fix: report a configuration parameter without the
 closing semicolon

---
 src/config/reader/reader.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/config/reader/reader.cpp b/src/config/reader/reader.cpp
index 742e824..403ef65 100644
--- a/src/config/reader/reader.cpp
+++ b/src/config/reader/reader.cpp
@@ -336,6 +336,9 @@ void ECFReader::_read(
             if (!confStack.size() || !prefix.size()) {
                 eslog::globalerror("PARSE ERROR: Unexpected region end.\n%s", tokenStack.top()->lastLines(2).c_str());
             }
+            if (correctlyLoaded && values.size()) {
+                eslog::globalerror("PARSE ERROR: Expected ';' after '%s'\n%s", values.back().c_str(), tokenStack.top()->lastLines(2).c_str());
+            }
             prefix.pop_back();
             confStack.pop();
             break;
@@ -400,6 +403,9 @@ void ECFReader::_read(
             eslog::globalerror("PARSE ERROR: Unknown token in configuration file.");
         }
     }
+    if (correctlyLoaded && values.size()) {
+        eslog::globalerror("PARSE ERROR: Unexpected EOF, expected ';' after '%s'.\n", values.back().c_str());
+    }
     if (confStack.size() != 1) {
         eslog::globalerror("PARSE ERROR: Unexpected EOF before close all regions.");
     }
-- 
2.43.0


From e489ff30f71ead80c2c8b64a4708c6bdec1af2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:21 +0000
Subject: [PATCH 41/67] fix: order of options QUENCH and QUENCH_PARALLEL of
 convection

---
 src/config/ecf/physics/heattransfer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/config/ecf/physics/heattransfer.cpp b/src/config/ecf/physics/heattransfer.cpp
index 21d4fc5..897417a 100644
--- a/src/config/ecf/physics/heattransfer.cpp
+++ b/src/config/ecf/physics/heattransfer.cpp
@@ -30,8 +30,8 @@ ConvectionConfiguration::ConvectionConfiguration()
             .addoption(ECFOption().setname("PARALLEL_PLATES").setdescription("Parallel plates."))
             .addoption(ECFOption().setname("CIRCULAR_TUBE").setdescription("Circular tube."))
             .addoption(ECFOption().setname("TUBE").setdescription("Tube."))
-            .addoption(ECFOption().setname("QUENCH_PARALLEL").setdescription("Quench parallel plate."))
-            .addoption(ECFOption().setname("QUENCH").setdescription("Quench.")));
+            .addoption(ECFOption().setname("QUENCH").setdescription("Quench."))
+            .addoption(ECFOption().setname("QUENCH_PARALLEL").setdescription("Quench parallel plate.")));
 
     fluid = FLUID::AIR;
     REGISTER(fluid, ECFMetaData()
-- 
2.43.0


From f2782545a838f6447bc253ccc8150a891ba25f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:21 +0000
Subject: [PATCH 42/67] fix: register the type of mass matrix of transient
 structural mechanics

---
 .../physics/physicssolver/transientsecondorderimplicit.cpp    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/config/ecf/physics/physicssolver/transientsecondorderimplicit.cpp b/src/config/ecf/physics/physicssolver/transientsecondorderimplicit.cpp
index 7e87379..432b4ea 100644
--- a/src/config/ecf/physics/physicssolver/transientsecondorderimplicit.cpp
+++ b/src/config/ecf/physics/physicssolver/transientsecondorderimplicit.cpp
@@ -41,8 +41,8 @@ TransientSecondOrderImplicitSolverConfiguration::TransientSecondOrderImplicitSol
     ecfdescription->addSpace();
 
     mass_matrix_type = MASS_MATRIX_TYPE::CONSISTENT;
-    REGISTER(method, ECFMetaData()
-            .setdescription({ "Method" })
+    REGISTER(mass_matrix_type, ECFMetaData()
+            .setdescription({ "Mass matrix type" })
             .setdatatype({ ECFDataType::OPTION })
             .addoption(ECFOption().setname("CONSISTENT").setdescription("Consistent method."))
             .addoption(ECFOption().setname("DIAGONAL").setdescription("Diagonal method."))
-- 
2.43.0


From 6c2b70db3ed2f7bab1e2a67338626034e4361416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:19 +0000
Subject: [PATCH 43/67] fix: default values of fixed sphere and fixed tube

---
 src/config/ecf/physics/structuralmechanics.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/config/ecf/physics/structuralmechanics.cpp b/src/config/ecf/physics/structuralmechanics.cpp
index 838cf6b..28910f7 100644
--- a/src/config/ecf/physics/structuralmechanics.cpp
+++ b/src/config/ecf/physics/structuralmechanics.cpp
@@ -155,14 +155,14 @@ FixedWallConfiguration::FixedWallConfiguration(): gap(1)
     REGISTER(gap, ECFMetaData().setdescription({ "Maximal distance from the wall to be considered in computation." }).setdatatype({ ECFDataType::FLOAT }));
 }
 
-FixedSphereConfiguration::FixedSphereConfiguration(): radius(1)
+FixedSphereConfiguration::FixedSphereConfiguration(): radius(1), gap(1)
 {
     REGISTER(center, ECFMetaData().setdescription({ "Center of the sphere." }));
     REGISTER(radius, ECFMetaData().setdescription({ "Radius of the sphere." }).setdatatype({ ECFDataType::FLOAT }));
     REGISTER(gap, ECFMetaData().setdescription({ "Gap over the sphere that is considered in contacts." }).setdatatype({ ECFDataType::FLOAT }));
 }
 
-FixedTubeConfiguration::FixedTubeConfiguration()
+FixedTubeConfiguration::FixedTubeConfiguration(): radius(1), gap(1)
 {
     REGISTER(center, ECFMetaData().setdescription({ "Center of the tube." }));
     REGISTER(direction, ECFMetaData().setdescription({ "direction of the tube." }));
-- 
2.43.0


From a699a6342a919c80ccbef72cc2eab155683a98d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:22 +0000
Subject: [PATCH 44/67] fix: register the parameter NO_ENLARG_PROP of SMALSE

---
 src/config/ecf/linearsolver/feti.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config/ecf/linearsolver/feti.cpp b/src/config/ecf/linearsolver/feti.cpp
index 759053d..ad473b3 100644
--- a/src/config/ecf/linearsolver/feti.cpp
+++ b/src/config/ecf/linearsolver/feti.cpp
@@ -211,7 +211,7 @@ espreso::FETIConfiguration::FETIConfiguration()
             .setdescription({ "SMALSE no_enlarg_exp" })
             .setdatatype({ ECFDataType::INTEGER }));
     no_enlarg_prop = 0;
-    REGISTER(th, ECFMetaData()
+    REGISTER(no_enlarg_prop, ECFMetaData()
             .setdescription({ "SMALSE no_enlarg_prop" })
             .setdatatype({ ECFDataType::INTEGER }));
 
-- 
2.43.0


From b4d6978d48b770fe057ae47ecab5f79395d9d3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:42 +0000
Subject: [PATCH 45/67] fix: EnSight databases with processes without data
 among readers

---
 src/input/parsers/ensight/parser/geometry.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/input/parsers/ensight/parser/geometry.cpp b/src/input/parsers/ensight/parser/geometry.cpp
index 2678227..32bb9d3 100644
--- a/src/input/parsers/ensight/parser/geometry.cpp
+++ b/src/input/parsers/ensight/parser/geometry.cpp
@@ -170,7 +170,7 @@ void EnsightGeometry::parseBinary(MeshBuilder &mesh)
 
         size_t cbegin = std::max(_coordinates[p].offset, _geofile.distribution[info::mpi::rank]);
         size_t cend = std::min(_coordinates[p].offset + 3 * sizeof(float) * _coordinates[p].nn, _geofile.distribution[info::mpi::rank + 1]);
-        if (cbegin < cend) {
+        if (firstrank <= info::mpi::rank && info::mpi::rank <= lastrank) { // including processes without any data
             // read data: x x x x x...; y y y y y y...; z z z z z z...
             round(cbegin, _coordinates[p].offset, sizeof(float));
             round(cend, _coordinates[p].offset, sizeof(float));
@@ -431,14 +431,17 @@ void EnsightGeometry::parseASCII(MeshBuilder &mesh)
                 coordinates.push_back(atof(c));
             }
 
-            int start = std::lower_bound(_geofile.distribution.begin(), _geofile.distribution.end(), _coordinates[i].offset) - _geofile.distribution.begin() - 1;
+            int start = std::upper_bound(_geofile.distribution.begin(), _geofile.distribution.end(), _coordinates[i].offset) - _geofile.distribution.begin() - 1;
             int end = std::lower_bound(_geofile.distribution.begin(), _geofile.distribution.end(), _coordinates[i].offset + 3 * 13 * _coordinates[i].nn) - _geofile.distribution.begin() - 1;
 
             if (start == info::mpi::rank) {
                 std::vector<float, initless_allocator<float> > rbuffer(3 * _coordinates[i].nn);
                 std::copy(coordinates.begin(), coordinates.end(), rbuffer.begin());
-                std::vector<MPI_Request> req(end - start);
+                std::vector<MPI_Request> req(end - start, MPI_REQUEST_NULL);
                 for (int r = start + 1; r <= end; ++r) {
+                    if (_geofile.distribution[r] == _geofile.distribution[r + 1]) {
+                        continue; // a process without any data
+                    }
                     size_t rbegin = align(std::max(_coordinates[i].offset, _geofile.distribution[r]), _coordinates[i].offset) - _coordinates[i].offset;
                     size_t rend = align(std::min(_coordinates[i].offset + 3 * 13 * _coordinates[i].nn, _geofile.distribution[r + 1]), _coordinates[i].offset) - _coordinates[i].offset;
                     MPI_Irecv(rbuffer.data() + rbegin / 13, (rend - rbegin) / 13, MPI_FLOAT, r, 0, info::mpi::comm, req.data() + (r - start - 1));
-- 
2.43.0


From 548c2534bdb3c62f63fc43f73523aa1669db8245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:42 +0000
Subject: [PATCH 46/67] fix: keywords inside names of parts and headers of
 EnSight databases

---
 src/input/parsers/ensight/parser/geometry.cpp | 51 ++++++++++++++++---
 1 file changed, 44 insertions(+), 7 deletions(-)

diff --git a/src/input/parsers/ensight/parser/geometry.cpp b/src/input/parsers/ensight/parser/geometry.cpp
index 32bb9d3..eace793 100644
--- a/src/input/parsers/ensight/parser/geometry.cpp
+++ b/src/input/parsers/ensight/parser/geometry.cpp
@@ -7,6 +7,8 @@
 #include "input/parsers/asciiparser.h"
 #include "input/parsers/distributedscanner.h"
 
+#include <algorithm>
+#include <cctype>
 #include <numeric>
 
 using namespace espreso;
@@ -83,26 +85,45 @@ void EnsightGeometry::scanBinary()
         return size;
     };
 
+    // keywords can be a part of the header or a part of a name of a part (it is always followed by coordinates)
+    auto iskeyword = [&] (const char *c) {
+        if (_geofile.distribution[info::mpi::rank] + (c - _geofile.begin) < 5 * 80) {
+            return false;
+        }
+        static const char coordinates[] = "coordinates";
+        const char *end = std::min(c + 80 + sizeof(coordinates), _geofile.hardend);
+        return std::search(c + 1, end, coordinates, coordinates + sizeof(coordinates) - 1) == end;
+    };
+
+    auto addpart = [&] (const char *c) {
+        if (!iskeyword(c)) { return; }
+        _parts.insert(_parts.end(), c + 80 + sizeof(int), c + 80 + sizeof(int) + 80);
+    };
+
     auto addcoordinates = [&] (const char *c) {
+        if (!iskeyword(c)) { return; }
         _coordinates.push_back(Coordinates(_geofile.distribution[info::mpi::rank] + (c - _geofile.begin) + 80 + sizeof(int), getsize(c + 80)));
     };
     auto skipcoordinates = [&] (const char *c) -> size_t {
+        if (!iskeyword(c)) { return 0; }
         int nn; memcpy(&nn, c + 80, sizeof(int));
         return 3 * nn * sizeof(float);
     };
 
     auto addelement = [&] (const char *c, Elements::Type type) {
+        if (!iskeyword(c)) { return; }
         size_t desc = 80 + sizeof(int), offset = _geofile.distribution[info::mpi::rank] + (c - _geofile.begin);
         int nn; memcpy(&nn, c + 80, sizeof(int));
         _elements.push_back(Elements(type, offset + desc, nn));
     };
 
     auto skipelements = [&] (const char *c, int enodes) -> size_t {
+        if (!iskeyword(c)) { return 0; }
         int nn; memcpy(&nn, c + 80, sizeof(int));
         return enodes * nn * sizeof(int);
     };
 
-    parser.add("part"       , [&] (const char *c) { _parts.insert(_parts.end(), c + 80 + sizeof(int), c + 80 + sizeof(int) + 80); });
+    parser.add("part"       , [&] (const char *c) { addpart(c); });
     parser.add("coordinates", [&] (const char *c) { addcoordinates(c); }                       , [&] (const char *c) { return skipcoordinates(c); });
 
     parser.add("point"      , [&] (const char *c) { addelement(c, Elements::Type::POINT); }    , [&] (const char *c) { return skipelements(c,  1); });
@@ -121,8 +142,8 @@ void EnsightGeometry::scanBinary()
     parser.add("hexa8"      , [&] (const char *c) { addelement(c, Elements::Type::HEXA8); }    , [&] (const char *c) { return skipelements(c,  8); });
     parser.add("hexa20"     , [&] (const char *c) { addelement(c, Elements::Type::HEXA20); }   , [&] (const char *c) { return skipelements(c, 20); });
 
-    parser.add("nsided"     , [&] (const char *c) { eslog::error("Ensight parser error: ESPRESO does not support nsided elements.\n"); });
-    parser.add("nfaced"     , [&] (const char *c) { eslog::error("Ensight parser error: ESPRESO does not support nfaced elements.\n"); });
+    parser.add("nsided"     , [&] (const char *c) { if (iskeyword(c)) eslog::error("Ensight parser error: ESPRESO does not support nsided elements.\n"); });
+    parser.add("nfaced"     , [&] (const char *c) { if (iskeyword(c)) eslog::error("Ensight parser error: ESPRESO does not support nfaced elements.\n"); });
 
     parser.scan(_geofile);
     parser.synchronize(_parts, _coordinates, _elements);
@@ -338,21 +359,35 @@ void EnsightGeometry::scanASCII()
 {
     DistributedScanner parser;
 
+    // keywords can be a part of other texts (e.g., names of parts), a line with a keyword is always followed by a number
+    auto iskeyword = [&] (const char *c) {
+        while (c < _geofile.hardend && isalnum(*c)) { ++c; }
+        while (c < _geofile.hardend && (*c == ' ' || *c == '\r')) { ++c; }
+        if (c == _geofile.hardend || *c++ != '\n') {
+            return false;
+        }
+        while (c < _geofile.hardend && *c == ' ') { ++c; }
+        return c < _geofile.hardend && isdigit(*c);
+    };
+
     auto addelement = [&] (const char *c, Elements::Type type) {
+        if (!iskeyword(c)) { return; }
         while (*c++ != '\n');
         int nn = atof(c);
         while (*c++ != '\n');
-        int offset = _geofile.distribution[info::mpi::rank] + (c - _geofile.begin);
+        size_t offset = _geofile.distribution[info::mpi::rank] + (c - _geofile.begin);
         _elements.push_back(Elements(type, offset, nn));
     };
 
-    auto skipelements = [&] (const char *c, int enodes) -> int {
+    auto skipelements = [&] (const char *c, int enodes) -> size_t {
+        if (!iskeyword(c)) { return 0; }
         while (*c++ != '\n');
         int nn = atof(c);
         return (enodes * 10 + 1) * nn;
     };
 
     auto addcoordinates = [&] (const char *c) {
+        if (!iskeyword(c)) { return; }
         while (*c++ != '\n');
         int count = atof(c);
         while (*c++ != '\n');
@@ -360,6 +395,7 @@ void EnsightGeometry::scanASCII()
     };
 
     auto skipcoordinates = [&] (const char *c) -> size_t {
+        if (!iskeyword(c)) { return 0; }
         while (*c++ != '\n');
         int count = atof(c);
         while (*c++ != '\n');
@@ -367,6 +403,7 @@ void EnsightGeometry::scanASCII()
     };
 
     auto addparts = [&] (const char *c, std::vector<char> &vector) {
+        if (!iskeyword(c)) { return; }
         while (*c++ != '\n');
         while (*c++ != '\n');
         size_t size = vector.size();
@@ -395,8 +432,8 @@ void EnsightGeometry::scanASCII()
     parser.add("hexa8"      , [&] (const char *c) { addelement(c, Elements::Type::HEXA8); }    , [&] (const char *c) { return skipelements(c,  8); });
     parser.add("hexa20"     , [&] (const char *c) { addelement(c, Elements::Type::HEXA20); }   , [&] (const char *c) { return skipelements(c, 20); });
 
-    parser.add("nsided"     , [&] (const char *c) { eslog::error("Ensight parser error: ESPRESO does not support nsided elements.\n"); });
-    parser.add("nfaced"     , [&] (const char *c) { eslog::error("Ensight parser error: ESPRESO does not support nfaced elements.\n"); });
+    parser.add("nsided"     , [&] (const char *c) { if (iskeyword(c)) eslog::error("Ensight parser error: ESPRESO does not support nsided elements.\n"); });
+    parser.add("nfaced"     , [&] (const char *c) { if (iskeyword(c)) eslog::error("Ensight parser error: ESPRESO does not support nfaced elements.\n"); });
 
     parser.scan(_geofile);
     parser.synchronize(_parts, _coordinates, _elements);
-- 
2.43.0


From afc50406e9fa5289198a730e11faebc58a5683f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:42 +0000
Subject: [PATCH 47/67] fix: threads distribution of sections of ASCII files

---
 src/input/parsers/asciiparser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/input/parsers/asciiparser.cpp b/src/input/parsers/asciiparser.cpp
index c2b09ea..854515d 100644
--- a/src/input/parsers/asciiparser.cpp
+++ b/src/input/parsers/asciiparser.cpp
@@ -80,10 +80,11 @@ void setDistribution(InputFile &file, size_t begin, size_t end, std::vector<size
             tdistribution[t] += mpibegin;
         }
         for (size_t t = 1; t + 1 < tdistribution.size(); ++t) {
+            tdistribution[t] = std::max(tdistribution[t], tdistribution[t - 1]);
             if (toLines) {
-                while (*(file.begin + tdistribution[t]++) != '\n');
+                while (tdistribution[t] < mpiend && *(file.begin + tdistribution[t]++) != '\n');
             } else {
-                while (!ASCIIParser::isempty(file.begin + tdistribution[t]++));
+                while (tdistribution[t] < mpiend && !ASCIIParser::isempty(file.begin + tdistribution[t]++));
             }
         }
     } else {
-- 
2.43.0


From 79e0d5adcef2cf2d130b30d33a86b29fb4b84bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:42 +0000
Subject: [PATCH 48/67] fix: mixed elements that cover all data of a process

---
 src/input/parsers/mixedelementsparser.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/input/parsers/mixedelementsparser.cpp b/src/input/parsers/mixedelementsparser.cpp
index 4fef7b7..09187d8 100644
--- a/src/input/parsers/mixedelementsparser.cpp
+++ b/src/input/parsers/mixedelementsparser.cpp
@@ -90,7 +90,12 @@ void MixedElementsParser::fix(std::vector<esint> &lmissing, std::vector<esint> &
                     esint _esize = offset[i] + esize[i];
                     if (first[i] != lmissing[i]) {
                         first[i] = lmissing[i];
-                        recognize(i, _esize, first[i], missing[i], enodes);
+                        if ((size_t)first[i] < _elements[i].size) {
+                            recognize(i, _esize, first[i], missing[i], enodes);
+                        } else { // all my data belong to an element from a lower process
+                            missing[i] = first[i] - _elements[i].size;
+                            _esize = 0;
+                        }
                         _esize += offset[i];
                     }
 
-- 
2.43.0


From 465f4cb58c170a0d460f127ef7f503f6dcb4f860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:42 +0000
Subject: [PATCH 49/67] fix: sort regions before building a mesh

---
 src/input/meshbuilder.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/input/meshbuilder.cpp b/src/input/meshbuilder.cpp
index 251df8c..80d5d85 100644
--- a/src/input/meshbuilder.cpp
+++ b/src/input/meshbuilder.cpp
@@ -2,6 +2,7 @@
 #include "meshbuilder.h"
 #include "basis/containers/serializededata.h"
 #include "basis/logging/profiler.h"
+#include "basis/utilities/utils.h"
 #include "basis/evaluator/evaluator.h"
 #include "wrappers/mpi/communication.h"
 #include "esinfo/eslog.hpp"
@@ -152,6 +153,14 @@ void MeshBuilder::build()
 //        }
 //    });
 
+    // builders assume sorted regions
+    for (auto region = nregions.begin(); region != nregions.end(); ++region) {
+        utils::sortAndRemoveDuplicates(region->second);
+    }
+    for (auto region = eregions.begin(); region != eregions.end(); ++region) {
+        utils::sortAndRemoveDuplicates(region->second);
+    }
+
     switch (type) {
     case TYPE::GENERAL:
     case TYPE::SORTED: // TODO: optimized builder
-- 
2.43.0


From c0b3ff73bdbd67938210f7dbd1571eb873c47c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:42 +0000
Subject: [PATCH 50/67] fix: node sets of Neper databases crossing processes

---
 src/input/parsers/asciiparser.cpp             |  2 +-
 src/input/parsers/asciiparser.h               |  4 +--
 src/input/parsers/neper/parser/msh.parser.cpp | 35 ++++++++++++-------
 3 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/input/parsers/asciiparser.cpp b/src/input/parsers/asciiparser.cpp
index 854515d..eed47db 100644
--- a/src/input/parsers/asciiparser.cpp
+++ b/src/input/parsers/asciiparser.cpp
@@ -28,7 +28,7 @@ static inline void _pushWithString(std::vector<esint> &data, const char *begin,
     char* next;
     data.push_back(strtol(c, &next, 10));
     if (data.back() == 0 && c == next) {
-        data.back() = -(c - begin);
+        data.back() = -(c - begin) - 1; // always negative
         while (!ASCIIParser::isempty(next)) { ++next; }
     }
     size = next - c;
diff --git a/src/input/parsers/asciiparser.h b/src/input/parsers/asciiparser.h
index 7a25f86..7cbbe6b 100644
--- a/src/input/parsers/asciiparser.h
+++ b/src/input/parsers/asciiparser.h
@@ -27,9 +27,9 @@ public:
     static void addmore(std::vector<esint> &data, InputFile &file, size_t n, size_t end);
     static void addmore(std::vector<double> &data, InputFile &file, size_t n, size_t end);
 
-    // go through integers and set pointers to non-integers to -(non-string position)
+    // go through integers and set pointers to non-integers to -(string position) - 1
     // 1 2 3 XX 1 2 3
-    // 1 2 3 -6 1 2 3 (XX starts at position 6)
+    // 1 2 3 -7 1 2 3 (XX starts at position 6)
     static void parseWithStrings(std::vector<esint> &data, InputFile &file, size_t begin, size_t end);
 
 private:
diff --git a/src/input/parsers/neper/parser/msh.parser.cpp b/src/input/parsers/neper/parser/msh.parser.cpp
index 655ecd6..6c94275 100644
--- a/src/input/parsers/neper/parser/msh.parser.cpp
+++ b/src/input/parsers/neper/parser/msh.parser.cpp
@@ -155,6 +155,7 @@ void NeperMshMesh::scan()
 struct Boundary {
     char name[NEPER_MAX_NAME_SIZE] = { 0 };
     int rank = info::mpi::rank;
+    int sized = 0; // the number of nodes is held by the same process
 };
 
 void NeperMshMesh::parseASCII(MeshBuilder &mesh)
@@ -275,9 +276,10 @@ void NeperMshMesh::parseASCII(MeshBuilder &mesh)
         if (nsets[i] < 0) {
             boundaries.push_back(Boundary());
 
-            const char *c = _meshfile.begin + (-nsets[i]);
+            const char *c = _meshfile.begin - (nsets[i] + 1);
             char *to = boundaries.back().name;
-            while (*c != '\n') { *to++ = *c++; }
+            while (!ASCIIParser::isempty(c)) { *to++ = *c++; }
+            boundaries.back().sized = i + 1 < nsets.size();
         }
     }
 
@@ -290,30 +292,39 @@ void NeperMshMesh::parseASCII(MeshBuilder &mesh)
 
     esint maxpoly = eregs.size();
     Communication::allReduce(&maxpoly, NULL, 1, MPITools::getType(maxpoly).mpitype, MPI_MAX);
+    std::vector<esint> nsetsize(1, nsets.size());
+    Communication::allGatherUnknownSize(nsetsize);
     Communication::allGatherUnknownSize(boundaries);
     Communication::allGatherUnknownSize(polyid);
     Communication::allGatherUnknownSize(groups);
     Communication::allGatherUnknownSize(orientation);
 
-    size_t current = 0;
+    size_t current = 0; // the first region with the name on this process
     for (size_t i = 0; i < boundaries.size(); ++i) {
         mesh.nregions[boundaries[i].name];
         if (boundaries[i].rank < info::mpi::rank) {
-            current = i;
+            current = i + 1;
         }
     }
 
-    size_t begin = 0;
-    for (size_t i = 0; i < nsets.size(); ++i) {
-        if (nsets[i] < 0) {
-            if (i) {
-                mesh.nregions[boundaries[current++].name].assign(nsets.begin() + begin, nsets.begin() + i);
-            }
+    size_t i = 0;
+    if (current) { // nodes of the last region from lower processes
+        bool sized = boundaries[current - 1].sized;
+        for (int r = boundaries[current - 1].rank + 1; r < info::mpi::rank; ++r) {
+            sized = sized || nsetsize[r];
+        }
+        if (!sized && i < nsets.size()) {
             ++i; // skip number of nodes
-            begin = i + 1;
         }
+        size_t begin = i;
+        while (i < nsets.size() && 0 <= nsets[i]) { ++i; }
+        mesh.nregions[boundaries[current - 1].name].assign(nsets.begin() + begin, nsets.begin() + i);
+    }
+    while (i < nsets.size()) {
+        size_t begin = i = std::min(i + 2, nsets.size()); // skip name and number of nodes
+        while (i < nsets.size() && 0 <= nsets[i]) { ++i; }
+        mesh.nregions[boundaries[current++].name].assign(nsets.begin() + begin, nsets.begin() + i);
     }
-    mesh.nregions[boundaries[current].name].assign(nsets.begin() + begin, nsets.end());
 
     for (size_t i = 0; i < groups.size(); i += 2) {
         auto &elems = mesh.eregions["GROUP_" + std::to_string(groups[i + 1])];
-- 
2.43.0


From f0706fa009cae724039b08dc6955154623467954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:42 +0000
Subject: [PATCH 51/67] fix: ends of blocks and components of Ansys databases
 on process boundaries

---
 src/input/parsers/ansyscdb/parser/cmblock.cpp | 2 +-
 src/input/parsers/ansyscdb/parser/parser.cpp  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/input/parsers/ansyscdb/parser/cmblock.cpp b/src/input/parsers/ansyscdb/parser/cmblock.cpp
index aba3f72..c886641 100644
--- a/src/input/parsers/ansyscdb/parser/cmblock.cpp
+++ b/src/input/parsers/ansyscdb/parser/cmblock.cpp
@@ -117,7 +117,7 @@ bool CMBlock::readData(std::vector<esint> &indices)
                     memcpy(value.data(), data, valueLength);
                     data += valueLength;
                     esint index = atol(value.data());
-                    if (index != -1) {
+                    if (index != -1 && (size || n || index > 0)) {
                         tindices[t].push_back(index);
                     }
                 }
diff --git a/src/input/parsers/ansyscdb/parser/parser.cpp b/src/input/parsers/ansyscdb/parser/parser.cpp
index 1b1fb44..f95e25c 100644
--- a/src/input/parsers/ansyscdb/parser/parser.cpp
+++ b/src/input/parsers/ansyscdb/parser/parser.cpp
@@ -56,7 +56,8 @@ void WorkbenchParser::fillDistribution(std::vector<BlockEnd> &blocksEnds, std::v
     }
 
     fRank = std::lower_bound(distribution.begin(), distribution.end(), first + 1) - distribution.begin() - 1;
-    lRank = std::lower_bound(distribution.begin(), distribution.end(), last + 1) - distribution.begin() - 1;
+    lRank = std::lower_bound(distribution.begin(), distribution.end(), last) - distribution.begin() - 1; // last is the first character behind the block
+    lRank = std::max(fRank, lRank);
 }
 
 std::string WorkbenchParser::command() const
-- 
2.43.0


From 4ec07e1fbfa9ef59bb594d6e5114678ed9df137d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:42 +0000
Subject: [PATCH 52/67] fix: size of boundary regions in VTK legacy files

---
 src/output/visualization/vtklegacy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/output/visualization/vtklegacy.cpp b/src/output/visualization/vtklegacy.cpp
index 4ba9ee7..a923511 100644
--- a/src/output/visualization/vtklegacy.cpp
+++ b/src/output/visualization/vtklegacy.cpp
@@ -270,8 +270,8 @@ esint VTKLegacy::insertElements(const BoundaryRegionStore *store, const std::vec
     if (store->dimension) {
         esint enodes = 0;
         for (size_t i = 0; i < store->distribution.code.size(); i++) {
-            if (store->distribution.code[i].size) {
-                enodes += store->distribution.code[i].size * Mesh::edata[i].nodes;
+            if (store->distribution.code[i].totalSize) {
+                enodes += store->distribution.code[i].totalSize * Mesh::edata[i].nodes;
             }
         }
 
-- 
2.43.0


From a8d56c3b9db06ecea4d5eae3e02aca2d483067b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:42 +0000
Subject: [PATCH 53/67] fix: tensors and data with more components in VTK
 legacy files

---
 src/output/visualization/vtklegacy.cpp | 46 ++++++++++----------------
 1 file changed, 18 insertions(+), 28 deletions(-)

diff --git a/src/output/visualization/vtklegacy.cpp b/src/output/visualization/vtklegacy.cpp
index a923511..cf7279a 100644
--- a/src/output/visualization/vtklegacy.cpp
+++ b/src/output/visualization/vtklegacy.cpp
@@ -339,6 +339,7 @@ void VTKLegacy::insertData(const step::Step &step, NamedData *data, esint nindic
             for (esint n = 0; n < nindices; ++n) {
                 _writer.float32ln(data->store[indices[n] * data->dimension + d]);
             }
+            _writer.groupData();
         }
     }
 
@@ -351,6 +352,7 @@ void VTKLegacy::insertData(const step::Step &step, NamedData *data, esint nindic
             for (esint n = 0; n < nindices; ++n) {
                 _writer.float32ln(data->store[indices[n] * data->dimension + d]);
             }
+            _writer.groupData();
         }
     }
 
@@ -363,42 +365,30 @@ void VTKLegacy::insertData(const step::Step &step, NamedData *data, esint nindic
             _writer.float32s (data->dimension > 1 ? data->store[indices[n] * data->dimension + 1] : .0);
             _writer.float32ln(data->dimension > 2 ? data->store[indices[n] * data->dimension + 2] : .0);
         }
+        _writer.groupData();
     }
 
-    if (data->dataType == NamedData::DataType::TENSOR_ASYM) {
-        if (isRoot()) {
-            _writer.data("TENSORS", data->name, "float");
-        }
-        for (esint n = 0; n < nindices; ++n) {
-            _writer.float32s (data->store[indices[n] * data->dimension + 0]);
-            _writer.float32s (data->store[indices[n] * data->dimension + 3]);
-            _writer.float32s (data->store[indices[n] * data->dimension + 5]);
-            _writer.float32s (data->store[indices[n] * data->dimension + 3]);
-            _writer.float32s (data->store[indices[n] * data->dimension + 1]);
-            _writer.float32s (data->store[indices[n] * data->dimension + 4]);
-            _writer.float32s (data->store[indices[n] * data->dimension + 5]);
-            _writer.float32s (data->store[indices[n] * data->dimension + 4]);
-            _writer.float32ln(data->store[indices[n] * data->dimension + 2]);
-        }
-    }
-
-    if (data->dataType == NamedData::DataType::TENSOR_SYMM) {
+    if (data->dataType == NamedData::DataType::TENSOR_SYMM || data->dataType == NamedData::DataType::TENSOR_ASYM) {
+        // position of XX, XY, XZ, YX, YY, YZ, ZX, ZY, ZZ in stored components (-1 for zero)
+        const int symm2D[9] = { 0, 2, -1, 2, 1, -1, -1, -1, -1 };
+        const int symm3D[9] = { 0, 3,  5, 3, 1,  4,  5,  4,  2 };
+        const int asym3D[9] = { 0, 3,  5, 6, 1,  4,  8,  7,  2 };
+        const int *component = data->dataType == NamedData::DataType::TENSOR_ASYM ? asym3D : data->dimension == 3 ? symm2D : symm3D;
         if (isRoot()) {
             _writer.data("TENSORS", data->name, "float");
         }
         for (esint n = 0; n < nindices; ++n) {
-            _writer.float32s (data->store[indices[n] * data->dimension + 0]);
-            _writer.float32s (data->store[indices[n] * data->dimension + 3]);
-            _writer.float32s (data->store[indices[n] * data->dimension + 5]);
-            _writer.float32s (data->store[indices[n] * data->dimension + 6]);
-            _writer.float32s (data->store[indices[n] * data->dimension + 1]);
-            _writer.float32s (data->store[indices[n] * data->dimension + 4]);
-            _writer.float32s (data->store[indices[n] * data->dimension + 8]);
-            _writer.float32s (data->store[indices[n] * data->dimension + 7]);
-            _writer.float32ln(data->store[indices[n] * data->dimension + 2]);
+            for (int c = 0; c < 9; ++c) {
+                double value = component[c] == -1 ? .0 : data->store[indices[n] * data->dimension + component[c]];
+                if (c < 8) {
+                    _writer.float32s(value);
+                } else {
+                    _writer.float32ln(value);
+                }
+            }
         }
+        _writer.groupData();
     }
-    _writer.groupData();
 }
 
 void VTKLegacy::insertDecomposition(const ElementsRegionStore *store)
-- 
2.43.0


From 0ccd3381302b6f8306b11909030d2183f4afbfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:42 +0000
Subject: [PATCH 54/67] fix: cluster ids in VTK legacy files

---
 src/output/visualization/vtklegacy.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/output/visualization/vtklegacy.cpp b/src/output/visualization/vtklegacy.cpp
index cf7279a..a77c71b 100644
--- a/src/output/visualization/vtklegacy.cpp
+++ b/src/output/visualization/vtklegacy.cpp
@@ -410,7 +410,6 @@ void VTKLegacy::insertDecomposition(const ElementsRegionStore *store)
         return interval.domain;
     });
     esint cluster = info::mesh->clusters->offset;
-    Communication::exscan(cluster, MPITools::asynchronous);
     iterate("CLUSTER", [&] (const ElementsInterval &interval, esint eindex) {
         return info::mesh->domains->cluster[interval.domain - info::mesh->domains->offset] + cluster;
     });
-- 
2.43.0


From 153ed2e705b33fb892c6f7d4cfc9f8a9a86b7d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:42 +0000
Subject: [PATCH 55/67] fix: order of components of symmetric tensors in
 EnSight files

---
 src/output/visualization/ensightgold.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/output/visualization/ensightgold.cpp b/src/output/visualization/ensightgold.cpp
index 77b5237..b92e0e9 100644
--- a/src/output/visualization/ensightgold.cpp
+++ b/src/output/visualization/ensightgold.cpp
@@ -365,6 +365,15 @@ void EnSightGold::geometry()
     _writer.commitFile(_path + _geometry);
 }
 
+// EnSight stores symmetric tensors as XX, YY, ZZ, XY, XZ, YZ
+static int component(const NamedData *data, int d)
+{
+    if (data->dataType == NamedData::DataType::TENSOR_SYMM && d > 3) {
+        return d == 4 ? 5 : 4;
+    }
+    return d;
+}
+
 int EnSightGold::ndata(const NamedData *data, const step::Step &step)
 {
     if (!storeData(data, step)) {
@@ -397,7 +406,7 @@ int EnSightGold::ndata(const NamedData *data, const step::Step &step)
             const ElementsRegionStore *region = info::mesh->elementsRegions[r];
             if (info::mesh->dimension == 3) {
                 for (int d = 0; d < data->dimension; ++d) {
-                    niterator(region->nodeInfo.size, region->nodes->datatarray().data() + region->nodeInfo.nhalo, [&] (esint nindex) { _writer.float32(data->store[nindex * data->dimension + d]); });
+                    niterator(region->nodeInfo.size, region->nodes->datatarray().data() + region->nodeInfo.nhalo, [&] (esint nindex) { _writer.float32(data->store[nindex * data->dimension + component(data, d)]); });
                 }
             }
             if (info::mesh->dimension == 2) {
@@ -426,7 +435,7 @@ int EnSightGold::ndata(const NamedData *data, const step::Step &step)
 
             if (info::mesh->dimension == 3) {
                 for (int d = 0; d < data->dimension; ++d) {
-                    niterator(region->nodeInfo.size, region->nodes->datatarray().data() + region->nodeInfo.nhalo, [&] (esint nindex) { _writer.float32(data->store[nindex * data->dimension + d]); });
+                    niterator(region->nodeInfo.size, region->nodes->datatarray().data() + region->nodeInfo.nhalo, [&] (esint nindex) { _writer.float32(data->store[nindex * data->dimension + component(data, d)]); });
                 }
             }
             if (info::mesh->dimension == 2) {
@@ -538,7 +547,7 @@ int EnSightGold::edata(const NamedData *data, const step::Step &step)
 
                     if (info::mesh->dimension == 3) {
                         for (int d = 0; d < data->dimension; ++d) {
-                            eiterator(info::mesh->elementsRegions[r], etype, [&] (const ElementsInterval &interval, esint eindex) { _writer.float32(data->store[eindex * data->dimension + d]); });
+                            eiterator(info::mesh->elementsRegions[r], etype, [&] (const ElementsInterval &interval, esint eindex) { _writer.float32(data->store[eindex * data->dimension + component(data, d)]); });
                         }
                     }
                     if (info::mesh->dimension == 2) {
-- 
2.43.0


From 6f485431bc12f8db9369c87a968a65fe20d0e991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:42 +0000
Subject: [PATCH 56/67] fix: statistics of element data

---
 src/mesh/store/elementstore.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mesh/store/elementstore.cpp b/src/mesh/store/elementstore.cpp
index be26db1..d7004d9 100644
--- a/src/mesh/store/elementstore.cpp
+++ b/src/mesh/store/elementstore.cpp
@@ -358,7 +358,7 @@ ElementData* ElementStore::appendData(int dimension, NamedData::DataType datatyp
 
 void ElementData::statistics(const tarray<esint> &elements, esint totalsize, Statistics *statistics) const
 {
-    for (int d = 0; d <= nstatistics(); d++) {
+    for (int d = 0; d < nstatistics(); d++) {
         (statistics + d)->reset();
     }
 
@@ -371,8 +371,8 @@ void ElementData::statistics(const tarray<esint> &elements, esint totalsize, Sta
             (statistics + d + doffset)->max    = std::max((statistics + d + doffset)->max, store[*e * dimension + d]);
             (statistics + d + doffset)->avg   += store[*e * dimension + d];
             (statistics + d + doffset)->norm  += store[*e * dimension + d] * store[*e * dimension + d];
-            (statistics + d + doffset)->absmin = std::min((statistics + d + doffset)->min, std::fabs(store[*e * dimension + d]));
-            (statistics + d + doffset)->absmax = std::max((statistics + d + doffset)->max, std::fabs(store[*e * dimension + d]));
+            (statistics + d + doffset)->absmin = std::min((statistics + d + doffset)->absmin, std::fabs(store[*e * dimension + d]));
+            (statistics + d + doffset)->absmax = std::max((statistics + d + doffset)->absmax, std::fabs(store[*e * dimension + d]));
         }
         if (dataType == DataType::VECTOR) {
             value = std::sqrt(value);
@@ -380,8 +380,8 @@ void ElementData::statistics(const tarray<esint> &elements, esint totalsize, Sta
             statistics->max = std::max(statistics->max, value);
             statistics->avg += value;
             statistics->norm += value * value;
-            statistics->absmin = std::min(statistics->min, std::fabs(value));
-            statistics->absmax = std::max(statistics->max, std::fabs(value));
+            statistics->absmin = std::min(statistics->absmin, std::fabs(value));
+            statistics->absmax = std::max(statistics->absmax, std::fabs(value));
         }
     }
 
-- 
2.43.0


From ba59e1e9bb0d3276778cb49c120893fb8411fb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:42 +0000
Subject: [PATCH 57/67] fix: monitors of more load steps

---
 src/output/monitors/monitoring.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/output/monitors/monitoring.cpp b/src/output/monitors/monitoring.cpp
index 01cd614..9b618c8 100644
--- a/src/output/monitors/monitoring.cpp
+++ b/src/output/monitors/monitoring.cpp
@@ -178,6 +178,7 @@ void Monitoring::updateMonitors(const step::Step &step)
         }
     }
 
+    _statistics.clear();
     for (size_t i = 0; i < _edata.size(); i++) {
         _statistics.resize(_statistics.size() + _edata[i].first->nstatistics());
     }
@@ -273,7 +274,8 @@ void Monitoring::updateMonitors(const step::Step &step)
         }
     }
 
-    if (info::mpi::rank == 0) {
+    // monitors of all load steps are stored to the same file
+    if (info::mpi::rank == 0 && _runFile == NULL) {
         _runFile = fopen((_path + "/" + std::string(info::ecf->name.c_str()) + ".emr").c_str(), "w");
 
         auto center = [&] (const std::string &value, int size) {
-- 
2.43.0


From 2bcaf6f034dc8564c7154915100a4a9b34dbafb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:42 +0000
Subject: [PATCH 58/67] fix: buffer data for asynchronous output

---
 src/mesh/store/nameddata.cpp | 6 +++---
 src/mesh/store/nameddata.h   | 8 +++++++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/mesh/store/nameddata.cpp b/src/mesh/store/nameddata.cpp
index 7dbf8a8..316dd81 100644
--- a/src/mesh/store/nameddata.cpp
+++ b/src/mesh/store/nameddata.cpp
@@ -9,13 +9,13 @@ std::vector<std::string> NamedData::tensorSuffixes = { "_XX", "_YY", "_ZZ", "_XY
 std::vector<std::string> NamedData::numberSuffixes = { "_1ST", "_2ND", "_3RD" };
 
 NamedData::NamedData(int dimension, DataType datatype, const std::string &name)
-: dimension(dimension), updated(0), dataType(datatype), name(name), restriction(step::TYPE::TIME), store(data)
+: dimension(dimension), updated(0), dataType(datatype), name(name), restriction(step::TYPE::TIME), store({ &data })
 {
 
 }
 
 NamedData::NamedData(const char* &packedData)
-: store(data)
+: store({ &data })
 {
     utils::unpack(dimension, packedData);
     utils::unpack(updated, packedData);
@@ -49,7 +49,7 @@ int NamedData::nstatistics() const
 void NamedData::toBuffer()
 {
     buffer = data;
-    store = buffer;
+    store.values = &buffer;
 }
 
 std::string NamedData::suffix(int index) const
diff --git a/src/mesh/store/nameddata.h b/src/mesh/store/nameddata.h
index e233d84..33604dc 100644
--- a/src/mesh/store/nameddata.h
+++ b/src/mesh/store/nameddata.h
@@ -27,7 +27,13 @@ struct NamedData {
     std::string name;
     step::TYPE restriction;
 
-    std::vector<double> data, buffer, &store;
+    std::vector<double> data, buffer;
+
+    // values for output writers: data or buffer (see toBuffer)
+    struct Store {
+        const std::vector<double> *values;
+        const double& operator[](size_t i) const { return (*values)[i]; }
+    } store;
 
     NamedData(int dimension, DataType datatype, const std::string &name);
     NamedData(const char* &packedData);
-- 
2.43.0


From 27489be7953f81359404ed61100d4f993a4d8c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:42 +0000
Subject: [PATCH 59/67] fix: pass step to asynchronous monitors

---
 src/output/output.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output/output.cpp b/src/output/output.cpp
index b80f4dc..b04ac85 100644
--- a/src/output/output.cpp
+++ b/src/output/output.cpp
@@ -91,7 +91,7 @@ class AsyncOutputExecutor: public DirectOutputExecutor, public Pthread::Executor
         step::Time time;
         step::Frequency frequency;
 
-        SharedData(TAG tag, const step::Step &step): tag(tag) {}
+        SharedData(TAG tag, const step::Step &step): tag(tag), step(step) {}
         SharedData(TAG tag, const step::Step &step, const step::Time &time): tag(tag), step(step), time(time) {}
         SharedData(TAG tag, const step::Step &step, const step::Frequency &frequency): tag(tag), step(step), frequency(frequency) {}
     } app, thread;
-- 
2.43.0


From ca33c4a96448943c9bb2edc7ef6a801434f48ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:30 +0000
Subject: [PATCH 60/67] fix: blocks turned off are indexed by their position in
 the grid

---
 src/input/parsers/meshgenerator/composition/gridgenerator.cpp | 4 ++--
 .../parsers/meshgenerator/composition/gridsetgenerator.cpp    | 4 ++--
 .../parsers/meshgenerator/composition/gridtowergenerator.cpp  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/input/parsers/meshgenerator/composition/gridgenerator.cpp b/src/input/parsers/meshgenerator/composition/gridgenerator.cpp
index 852ed96..3a963ea 100644
--- a/src/input/parsers/meshgenerator/composition/gridgenerator.cpp
+++ b/src/input/parsers/meshgenerator/composition/gridgenerator.cpp
@@ -45,13 +45,13 @@ void GridGenerator::init()
 {
     Triple<size_t> clusters = _settings.blocks * _settings.clusters;
 
-    int cluster = 0;
+    int cluster = 0, index = 0;
     Triple<size_t> offset;
     for (offset.z = 0; offset.z < clusters.z; offset.z++) {
         for (offset.y = 0; offset.y < clusters.y; offset.y++) {
             for (offset.x = 0; offset.x < clusters.x; offset.x++) {
 
-                if (_settings.nonempty[cluster]) {
+                if (_settings.nonempty[index++]) {
                     _clusterIndices.push_back(cluster);
                 } else {
                     _clusterIndices.push_back(-1);
diff --git a/src/input/parsers/meshgenerator/composition/gridsetgenerator.cpp b/src/input/parsers/meshgenerator/composition/gridsetgenerator.cpp
index c347e22..4a65dfd 100644
--- a/src/input/parsers/meshgenerator/composition/gridsetgenerator.cpp
+++ b/src/input/parsers/meshgenerator/composition/gridsetgenerator.cpp
@@ -90,11 +90,11 @@ void GridSetGenerator::init(const GridSetGeneratorConfiguration &configuration)
     for (auto grid = configuration.grids.begin(); grid != configuration.grids.end(); ++grid) {
         if (grid->first == _gridIndex) {
             Triple<size_t> offset;
-            int begin = cluster;
+            int index = 0;
             for (offset.z = 0; offset.z < clusters.z; offset.z++) {
                 for (offset.y = 0; offset.y < clusters.y; offset.y++) {
                     for (offset.x = 0; offset.x < clusters.x; offset.x++) {
-                        if (_settings.nonempty[cluster - begin]) {
+                        if (_settings.nonempty[index++]) {
                             _clusterIndices.push_back(cluster);
                         } else {
                             _clusterIndices.push_back(-1);
diff --git a/src/input/parsers/meshgenerator/composition/gridtowergenerator.cpp b/src/input/parsers/meshgenerator/composition/gridtowergenerator.cpp
index 28b9d0f..cbd22c1 100644
--- a/src/input/parsers/meshgenerator/composition/gridtowergenerator.cpp
+++ b/src/input/parsers/meshgenerator/composition/gridtowergenerator.cpp
@@ -90,12 +90,12 @@ void GridTowerGenerator::init(const GridTowerGeneratorConfiguration &configurati
     for (auto grid = configuration.grids.begin(); grid != configuration.grids.end(); ++grid) {
         if (grid->first == _gridIndex) {
             Triple<size_t> offset;
-            int begin = cluster;
+            int index = 0;
             for (offset.z = 0; offset.z < clusters.z; offset.z++) {
                 for (offset.y = 0; offset.y < clusters.y; offset.y++) {
                     for (offset.x = 0; offset.x < clusters.x; offset.x++) {
 
-                        if (_settings.nonempty[cluster - begin]) {
+                        if (_settings.nonempty[index++]) {
                             _clusterIndices.push_back(cluster);
                         } else {
                             _clusterIndices.push_back(-1);
-- 
2.43.0


From 8d0bbe1f86b076a365300ae08178db9185ff2d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:31 +0000
Subject: [PATCH 61/67] fix: end of a cluster of a grid set is computed from
 the start of the grid

---
 .../parsers/meshgenerator/composition/gridsetgenerator.cpp   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/input/parsers/meshgenerator/composition/gridsetgenerator.cpp b/src/input/parsers/meshgenerator/composition/gridsetgenerator.cpp
index 4a65dfd..9e3c782 100644
--- a/src/input/parsers/meshgenerator/composition/gridsetgenerator.cpp
+++ b/src/input/parsers/meshgenerator/composition/gridsetgenerator.cpp
@@ -103,8 +103,9 @@ void GridSetGenerator::init(const GridSetGeneratorConfiguration &configuration)
 
                         if (cluster++ == info::mpi::rank) {
                             _clusterOffset = offset;
-                            _settings.start = _settings.start + ((_settings.end - _settings.start) / (Triple<double>)_settings.clusters * offset).round();
-                            _settings.end   = _settings.start + ((_settings.end - _settings.start) / (Triple<double>)_settings.clusters * (offset + 1)).round();
+                            Triple<long> start = _settings.start;
+                            _settings.start = start + ((_settings.end - start) / (Triple<double>)_settings.clusters * offset).round();
+                            _settings.end   = start + ((_settings.end - start) / (Triple<double>)_settings.clusters * (offset + 1)).round();
                         }
                     }
                 }
-- 
2.43.0


From 54dc3a498a122c3b348d8d7f8ff9cfd4049e6441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:31 +0000
Subject: [PATCH 62/67] fix: a grid of a tower is moved by lengths of all
 previous grids

---
 .../parsers/meshgenerator/composition/gridtowergenerator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/input/parsers/meshgenerator/composition/gridtowergenerator.cpp b/src/input/parsers/meshgenerator/composition/gridtowergenerator.cpp
index cbd22c1..2c50d6c 100644
--- a/src/input/parsers/meshgenerator/composition/gridtowergenerator.cpp
+++ b/src/input/parsers/meshgenerator/composition/gridtowergenerator.cpp
@@ -86,7 +86,7 @@ void GridTowerGenerator::init(const GridTowerGeneratorConfiguration &configurati
     int cluster = 0;
     size_t nodes = 0, noffset = 0;
 
-    Triple<esint> lenght;
+    Triple<long> lenght;
     for (auto grid = configuration.grids.begin(); grid != configuration.grids.end(); ++grid) {
         if (grid->first == _gridIndex) {
             Triple<size_t> offset;
@@ -138,7 +138,8 @@ void GridTowerGenerator::init(const GridTowerGeneratorConfiguration &configurati
                     break;
                 }
             }
-            lenght += _settings.end - _settings.start;
+            BlockSettings settings(grid->second);
+            lenght += settings.end - settings.start;
         }
     }
 
-- 
2.43.0


From a58d00af3cb95f8995ce4aff9a534e53a5f1ad7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:31 +0000
Subject: [PATCH 63/67] fix: borders of regions are not truncated to esint

---
 src/input/parsers/meshgenerator/selection/blockborder.cpp | 4 ++--
 src/input/parsers/meshgenerator/selection/blockborder.h   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/input/parsers/meshgenerator/selection/blockborder.cpp b/src/input/parsers/meshgenerator/selection/blockborder.cpp
index d3c96f7..b60a880 100644
--- a/src/input/parsers/meshgenerator/selection/blockborder.cpp
+++ b/src/input/parsers/meshgenerator/selection/blockborder.cpp
@@ -136,7 +136,7 @@ BlockBorder BlockBorder::intersect(const BlockSettings &block) const
 
 CubeEdge BlockBorder::getEdge(const BlockSettings &block) const
 {
-    auto eq = [&] (const esint &a, const esint &b) {
+    auto eq = [&] (const long &a, const long &b) {
         return a == b;
     };
 
@@ -208,7 +208,7 @@ CubeEdge BlockBorder::getEdge(const BlockSettings &block) const
 
 CubeFace BlockBorder::getFace(const BlockSettings &block) const
 {
-    auto eq = [&] (const double &a, const double &b) {
+    auto eq = [&] (const long &a, const long &b) {
         return a == b;
     };
 
diff --git a/src/input/parsers/meshgenerator/selection/blockborder.h b/src/input/parsers/meshgenerator/selection/blockborder.h
index 0a1fcb4..470b4b0 100644
--- a/src/input/parsers/meshgenerator/selection/blockborder.h
+++ b/src/input/parsers/meshgenerator/selection/blockborder.h
@@ -15,7 +15,7 @@ struct BlockGeneratorConfiguration;
 struct BlockBorder {
     BlockBorder(const std::string &interval, const BlockGeneratorConfiguration &block);
 
-    Triple<esint> start, end;
+    Triple<long> start, end;
     Triple<bool> excludeStart, excludeEnd;
 
     size_t dimension() const;
-- 
2.43.0


From 93f873862dd6041fe778722a5bd4f4ea928252b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:31 +0000
Subject: [PATCH 64/67] fix: borders of blocks are rounded in the same way as
 borders of regions

---
 .../meshgenerator/primitives/blocksettings.cpp     | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/input/parsers/meshgenerator/primitives/blocksettings.cpp b/src/input/parsers/meshgenerator/primitives/blocksettings.cpp
index 57edc70..54916a1 100644
--- a/src/input/parsers/meshgenerator/primitives/blocksettings.cpp
+++ b/src/input/parsers/meshgenerator/primitives/blocksettings.cpp
@@ -12,11 +12,15 @@ BlockSettings::BlockSettings(const BlockGeneratorConfiguration &configuration)
     domains  = Triple<size_t>(configuration.domains_x, configuration.domains_y, configuration.domains_z);
     elements = Triple<size_t>(configuration.elements_x, configuration.elements_y, configuration.elements_z);
 
-    start = Triple<long>(configuration.start_x.evaluator->evaluate() / MeshGenerator::precision, configuration.start_y.evaluator->evaluate() / MeshGenerator::precision, configuration.start_z.evaluator->evaluate() / MeshGenerator::precision);
-    end   = Triple<long>(
-            (long)std::round((configuration.start_x.evaluator->evaluate() + configuration.length_x.evaluator->evaluate()) / (.1 * MeshGenerator::precision)) / 10,
-            (long)std::round((configuration.start_y.evaluator->evaluate() + configuration.length_y.evaluator->evaluate()) / (.1 * MeshGenerator::precision)) / 10,
-            (long)std::round((configuration.start_z.evaluator->evaluate() + configuration.length_z.evaluator->evaluate()) / (.1 * MeshGenerator::precision)) / 10);
+    // the same rounding as borders of regions
+    start = Triple<double>(
+            configuration.start_x.evaluator->evaluate() / MeshGenerator::precision,
+            configuration.start_y.evaluator->evaluate() / MeshGenerator::precision,
+            configuration.start_z.evaluator->evaluate() / MeshGenerator::precision).round();
+    end   = Triple<double>(
+            (configuration.start_x.evaluator->evaluate() + configuration.length_x.evaluator->evaluate()) / MeshGenerator::precision,
+            (configuration.start_y.evaluator->evaluate() + configuration.length_y.evaluator->evaluate()) / MeshGenerator::precision,
+            (configuration.start_z.evaluator->evaluate() + configuration.length_z.evaluator->evaluate()) / MeshGenerator::precision).round();
 
     projection_x = configuration.projection_x.evaluator;
     projection_y = configuration.projection_y.evaluator;
-- 
2.43.0


From 041b1f1593d06c22ccc170c88bff30b5d8437be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:31 +0000
Subject: [PATCH 65/67] fix: nodes are compared with borders of regions with
 the precision of the generator

---
 .../meshgenerator/primitives/block.cpp        | 27 +++++++++----------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/input/parsers/meshgenerator/primitives/block.cpp b/src/input/parsers/meshgenerator/primitives/block.cpp
index 2c9d39e..8eafd00 100644
--- a/src/input/parsers/meshgenerator/primitives/block.cpp
+++ b/src/input/parsers/meshgenerator/primitives/block.cpp
@@ -245,22 +245,19 @@ bool BlockGenerator::region(
     // get start, end node
     Triple<double> nStart = istart * (nend - nbegin);
     Triple<double> nEnd   = iend   * (nend - nbegin);
+    // coordinates are compared with the precision of the generator
+    Triple<double> eps = Triple<double>(lastNode) / (_block.end - _block.start);
     // shrink interval to the closest nodes
-    nbegin = nStart.ceil();
-    nend = nEnd.floor();
-
-    // If interval is open, checks whether min, max node should be modev
-    Triple<double> cStart = nStart.ceil();
-    Triple<double> fEnd   = nEnd.floor();
-    nStart = (nStart / MeshGenerator::precision).ceil();
-    nEnd   = (nEnd   / MeshGenerator::precision).floor();
-
-    if (intersection.excludeStart.x && cStart.x / MeshGenerator::precision == nStart.x) { nbegin.x++; }
-    if (intersection.excludeStart.y && cStart.y / MeshGenerator::precision == nStart.y) { nbegin.y++; }
-    if (intersection.excludeStart.z && cStart.z / MeshGenerator::precision == nStart.z) { nbegin.z++; }
-    if (intersection.excludeEnd.x && fEnd.x / MeshGenerator::precision == nEnd.x) { nend.x--; }
-    if (intersection.excludeEnd.y && fEnd.y / MeshGenerator::precision == nEnd.y) { nend.y--; }
-    if (intersection.excludeEnd.z && fEnd.z / MeshGenerator::precision == nEnd.z) { nend.z--; }
+    nbegin = (nStart - eps).ceil();
+    nend = (nEnd + eps).floor();
+
+    // If interval is open, checks whether min, max node should be moved
+    if (intersection.excludeStart.x && std::fabs(nStart.x - nbegin.x) <= eps.x) { nbegin.x++; }
+    if (intersection.excludeStart.y && std::fabs(nStart.y - nbegin.y) <= eps.y) { nbegin.y++; }
+    if (intersection.excludeStart.z && std::fabs(nStart.z - nbegin.z) <= eps.z) { nbegin.z++; }
+    if (intersection.excludeEnd.x && std::fabs(nEnd.x - nend.x) <= eps.x) { nend.x--; }
+    if (intersection.excludeEnd.y && std::fabs(nEnd.y - nend.y) <= eps.y) { nend.y--; }
+    if (intersection.excludeEnd.z && std::fabs(nEnd.z - nend.z) <= eps.z) { nend.z--; }
 
     // No matter what above happen, neighbor nodes have to match! Check it again
     if (intersection.start.x == _block.start.x) { nbegin.x = intersection.excludeStart.x ? 1 : 0; }
-- 
2.43.0


From 636288f074bd513028ce52ece7b116f247010850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:31 +0000
Subject: [PATCH 66/67] fix: blocks touching a node region by an edge or a
 corner list their nodes

---
 .../meshgenerator/primitives/block.cpp        | 26 ++++++++++++-------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/input/parsers/meshgenerator/primitives/block.cpp b/src/input/parsers/meshgenerator/primitives/block.cpp
index 8eafd00..39a5718 100644
--- a/src/input/parsers/meshgenerator/primitives/block.cpp
+++ b/src/input/parsers/meshgenerator/primitives/block.cpp
@@ -293,16 +293,24 @@ void BlockGenerator::nodesRegion(const BlockBorder &border, std::vector<esint> &
         return;
     }
 
-    CubeEdge edge;
-    auto pushEdge = [&] (std::vector<esint> &indices) {
-        _element->pushNodes(nodes, indices, edge);
-    };
-
     CubeFace face;
     auto pushFace = [&] (std::vector<esint> &indices) {
         _element->pushNodes(nodes, indices, face);
     };
 
+    // a region can touch the block only by an edge or by a corner
+    auto pushNodes = [&] () {
+        Triple<size_t> size = (_block.domains * _block.elements * (Triple<size_t>(_element->subnodes) - 1) + 1).toSize();
+        Triple<size_t> offset;
+        for (offset.z = nbegin.z; offset.z <= nend.z; offset.z++) {
+            for (offset.y = nbegin.y; offset.y <= nend.y; offset.y++) {
+                for (offset.x = nbegin.x; offset.x <= nend.x; offset.x++) {
+                    nodes.push_back((offset * size).sum());
+                }
+            }
+        }
+    };
+
     auto restriction = [&] (Triple<size_t> &offset) {
         offset.x = offset.x < nbegin.x ? nbegin.x : nend.x < offset.x ? nend.x : offset.x;
         offset.y = offset.y < nbegin.y ? nbegin.y : nend.y < offset.y ? nend.y : offset.y;
@@ -312,9 +320,9 @@ void BlockGenerator::nodesRegion(const BlockBorder &border, std::vector<esint> &
     switch (intersection.dimension()) {
 
     case 1:
-        edge = intersection.getEdge(_block);
-        forEachElement(ebegin, eend, pushEdge, restriction);
-        utils::sortAndRemoveDuplicates(nodes);
+        if (intersection.getEdge(_block) != CubeEdge::NONE) {
+            pushNodes();
+        }
         break;
     case 2:
         face = intersection.getFace(_block);
@@ -323,7 +331,7 @@ void BlockGenerator::nodesRegion(const BlockBorder &border, std::vector<esint> &
         break;
 
     case 0:
-        // NOT INTERSECTED IN THIS PROCESS
+        pushNodes();
         break;
     case 3:
         eslog::error("Implement a selection of nodes inside 3D interval.\n");
-- 
2.43.0


From f5b0fc373040429c7d6b6892e07dadce8cfe45e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:31 +0000
Subject: [PATCH 67/67] fix: generated nodes without elements are removed from
 node regions

---
 src/input/builders/generatedinput.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/input/builders/generatedinput.cpp b/src/input/builders/generatedinput.cpp
index 5192066..39b30a6 100644
--- a/src/input/builders/generatedinput.cpp
+++ b/src/input/builders/generatedinput.cpp
@@ -98,7 +98,7 @@ void GeneratedInput::removeDanglingNodes()
     utils::sortAndRemoveDuplicates(usedNodes);
 
     std::vector<Point> coordinates;
-    std::vector<esint> nIDs, ndist, noffset(_meshData.nIDs.size());
+    std::vector<esint> nIDs, ndist, noffset(_meshData.nIDs.size(), -1);
     std::vector<int> nranks;
 
     ndist.push_back(0);
@@ -117,9 +117,13 @@ void GeneratedInput::removeDanglingNodes()
     }
 
     for (auto it = _meshData.nregions.begin(); it != _meshData.nregions.end(); ++it) {
+        size_t size = 0;
         for (size_t i = 0; i < it->second.size(); i++) {
-            it->second[i] = noffset[it->second[i]];
+            if (noffset[it->second[i]] != -1) {
+                it->second[size++] = noffset[it->second[i]];
+            }
         }
+        it->second.resize(size);
     }
 
     _meshData.nIDs.swap(nIDs);
-- 
2.43.0

