From ed64bdba3b9633d871360865484b0787f8bdf06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:46 +0000
Subject: [PATCH 01/20] fix: keep the edge listed by its source when
 setEdgeSource is refused

setEdgeSource removed the edge from its old source before adding it to the
new one. When the new source is an action, the addition throws and the edge
stayed in the graph, with its old source, without being listed by it.
---
 gegelatilib/src/tpg/tpgGraph.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gegelatilib/src/tpg/tpgGraph.cpp b/gegelatilib/src/tpg/tpgGraph.cpp
index 75a6451..9bd3854 100644
--- a/gegelatilib/src/tpg/tpgGraph.cpp
+++ b/gegelatilib/src/tpg/tpgGraph.cpp
@@ -286,15 +286,18 @@ bool TPG::TPGGraph::setEdgeSource(const TPGEdge& edge, const TPGVertex& newSrc)
     auto iterNewSrc = findVertex(&newSrc);
     auto iterEdge = findEdge(&edge);
     if (iterNewSrc != this->vertices.end() && iterEdge != this->edges.end()) {
-        // Unregister the edge from the old source
+        // Move the edge from the old source to the new one
         const TPG::TPGVertex* oldSrc = iterEdge->get()->getSource();
         auto iterOldSrc = findVertex(oldSrc);
         // finding the vertex should not fail. Otherwise, the exception for
         // next line would be well deserved since it means an edge in the
         // graph is connected to a vertex not in the graph.
-        (*iterOldSrc)->removeOutgoingEdge(iterEdge->get());
-        // Register the edge to the new source
-        (*iterNewSrc)->addOutgoingEdge(iterEdge->get());
+        if (*iterOldSrc != *iterNewSrc) {
+            // Register the edge to the new source first: this may throw if the
+            // new source is an action, and must then leave the edge untouched.
+            (*iterNewSrc)->addOutgoingEdge(iterEdge->get());
+            (*iterOldSrc)->removeOutgoingEdge(iterEdge->get());
+        }
         // Set the destination
         iterEdge->get()->setSource(*(iterNewSrc));
         return true;
-- 
2.43.0


From 74025eea410a7b8c371197e375193bf2190e4231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:57 +0000
Subject: [PATCH 02/20] fix: take no parameter from an ill-formed configuration
 file

---
 gegelatilib/src/file/parametersParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gegelatilib/src/file/parametersParser.cpp b/gegelatilib/src/file/parametersParser.cpp
index 7ed970a..21baeac 100644
--- a/gegelatilib/src/file/parametersParser.cpp
+++ b/gegelatilib/src/file/parametersParser.cpp
@@ -58,6 +58,8 @@ void File::ParametersParser::readConfigFile(const char* path, Json::Value& root)
     if (!parseFromStream(builder, ifs, &root, &errs)) {
         std::cout << errs << std::endl;
         std::cerr << "Ignoring ill-formed config file " << path << std::endl;
+        // Drop whatever was parsed before the error
+        root = Json::Value();
     }
 }
 
-- 
2.43.0


From 3c2a525391379266605d4e1a4b676ebce9f63892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:21 +0000
Subject: [PATCH 03/20] fix: invalidate the cached hash when an array is
 assigned

---
 gegelatilib/include/data/primitiveTypeArray.h   | 3 +++
 gegelatilib/include/data/primitiveTypeArray2D.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/gegelatilib/include/data/primitiveTypeArray.h b/gegelatilib/include/data/primitiveTypeArray.h
index 5fab7d4..bd001d4 100644
--- a/gegelatilib/include/data/primitiveTypeArray.h
+++ b/gegelatilib/include/data/primitiveTypeArray.h
@@ -228,6 +228,9 @@ namespace Data {
             for (auto i = 0; i < this->nbElements; i++) {
                 this->data.at(i) = other.data.at(i);
             }
+
+            // Invalidate the cached hash
+            this->invalidCachedHash = true;
         }
         return *this;
     }
diff --git a/gegelatilib/include/data/primitiveTypeArray2D.h b/gegelatilib/include/data/primitiveTypeArray2D.h
index d22f9d7..0e1b6a8 100644
--- a/gegelatilib/include/data/primitiveTypeArray2D.h
+++ b/gegelatilib/include/data/primitiveTypeArray2D.h
@@ -230,6 +230,9 @@ namespace Data {
             for (auto i = 0; i < this->nbElements; i++) {
                 this->data.at(i) = other.data.at(i);
             }
+
+            // Invalidate the cached hash
+            this->invalidCachedHash = true;
         }
         return *this;
     }
-- 
2.43.0


From e759dfd96d2951351cfeafde06f6d8bcc5a9cb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:21 +0000
Subject: [PATCH 04/20] fix: refuse reading a two-dimensional view that is not
 bound to data

---
 gegelatilib/include/data/array2DWrapper.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gegelatilib/include/data/array2DWrapper.h b/gegelatilib/include/data/array2DWrapper.h
index 5139710..86666b7 100644
--- a/gegelatilib/include/data/array2DWrapper.h
+++ b/gegelatilib/include/data/array2DWrapper.h
@@ -285,6 +285,9 @@ namespace Data {
     UntypedSharedPtr Array2DWrapper<T>::getDataAt(const std::type_info& type,
                                                   const size_t address) const
     {
+        if (this->containerPtr == nullptr) {
+            throw std::runtime_error("Null pointer access.");
+        }
 #ifndef NDEBUG
         // Throw exception in case of invalid arguments.
         ArrayWrapper<T>::checkAddressAndType(type, address);
-- 
2.43.0


From 239353cf304ec635c07894729f754a26d4e2ee41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:33 +0000
Subject: [PATCH 05/20] fix: only look at the queue of jobs while holding its
 mutex

---
 gegelatilib/src/learn/parallelLearningAgent.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/gegelatilib/src/learn/parallelLearningAgent.cpp b/gegelatilib/src/learn/parallelLearningAgent.cpp
index 95a0013..a306b88 100644
--- a/gegelatilib/src/learn/parallelLearningAgent.cpp
+++ b/gegelatilib/src/learn/parallelLearningAgent.cpp
@@ -108,15 +108,14 @@ void Learn::ParallelLearningAgent::slaveEvalJobThread(
     std::unique_ptr<TPG::TPGExecutionEngine> tee =
         this->tpg->getFactory().createTPGExecutionEngine(privateEnv, NULL);
 
-    int i = 0;
     // Pop a job
-    while (!jobsToProcess.empty()) { // Thread safe access to size
-        i++;
-        bool doProcess = false;
+    bool doProcess;
+    do {
+        doProcess = false;
         std::shared_ptr<Learn::Job> jobToProcess;
         { // Mutuel exclusion zone
             std::lock_guard<std::mutex> lock(rootsToProcessMutex);
-            if (!jobsToProcess.empty()) { // Additional verification after lock
+            if (!jobsToProcess.empty()) {
                 jobToProcess = jobsToProcess.front();
                 jobsToProcess.pop();
                 doProcess = true;
@@ -125,7 +124,6 @@ void Learn::ParallelLearningAgent::slaveEvalJobThread(
 
         // Processing to do?
         if (doProcess) {
-            doProcess = false;
             // Dedicated archive for the root
             Archive* temporaryArchive = NULL;
             if (mode == LearningMode::TRAINING) {
@@ -154,7 +152,7 @@ void Learn::ParallelLearningAgent::slaveEvalJobThread(
                 }
             }
         }
-    }
+    } while (doProcess);
 
     // Clean up
     if (!useMainEnvironment) {
-- 
2.43.0


From cf5dd8e02b731cb4e3ff2089c657980dd2b8005c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:33 +0000
Subject: [PATCH 06/20] fix: number data handlers built by several threads
 atomically

---
 gegelatilib/include/data/dataHandler.h | 3 ++-
 gegelatilib/src/data/dataHandler.cpp   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/gegelatilib/include/data/dataHandler.h b/gegelatilib/include/data/dataHandler.h
index c7b84b1..9ed7f25 100644
--- a/gegelatilib/include/data/dataHandler.h
+++ b/gegelatilib/include/data/dataHandler.h
@@ -38,6 +38,7 @@
 #ifndef DATA_HANDLER_H
 #define DATA_HANDLER_H
 
+#include <atomic>
 #include <functional>
 #include <memory>
 #include <typeinfo>
@@ -57,7 +58,7 @@ namespace Data {
         /**
          * \brief Static count used to initialize the id of each DataHandler.
          */
-        static size_t count;
+        static std::atomic<size_t> count;
 
         /**
          * \brief Identifier of each DataHandler.
diff --git a/gegelatilib/src/data/dataHandler.cpp b/gegelatilib/src/data/dataHandler.cpp
index e03af5c..c5ebd79 100644
--- a/gegelatilib/src/data/dataHandler.cpp
+++ b/gegelatilib/src/data/dataHandler.cpp
@@ -39,7 +39,7 @@
 
 #include "data/dataHandler.h"
 
-size_t Data::DataHandler::count = 0;
+std::atomic<size_t> Data::DataHandler::count{0};
 
 Data::DataHandler::DataHandler()
     : id{count++}, cachedHash(), invalidCachedHash(true){};
-- 
2.43.0


From d8669e2919967ff06a9aaca305ada358d5a2dafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:44 +0000
Subject: [PATCH 07/20] fix: keep address space caches private to each thread

---
 gegelatilib/include/data/array2DWrapper.h | 42 +++++++++--------------
 gegelatilib/include/data/arrayWrapper.h   | 31 +++++++----------
 2 files changed, 29 insertions(+), 44 deletions(-)

diff --git a/gegelatilib/include/data/array2DWrapper.h b/gegelatilib/include/data/array2DWrapper.h
index 86666b7..f3b99e2 100644
--- a/gegelatilib/include/data/array2DWrapper.h
+++ b/gegelatilib/include/data/array2DWrapper.h
@@ -66,25 +66,6 @@ namespace Data {
      */
     template <class T> class Array2DWrapper : public ArrayWrapper<T>
     {
-      private:
-        /**
-         * \brief Caching mechanism for storing addressSpace for different
-         * types.
-         *
-         * This map stores for each data type the size of the addressSpace for
-         * the Array2DWrapper. The purpose of this cache is to accelerate
-         * the numerous access to the addressSpace for different data types, by
-         * performing it only once per data type requested by the Instructions,
-         * through the ProgramExecutionEngine.
-         *
-         * This map is updated and used by the getAddressSpace method.
-         *
-         * Like the getAddressSpace method of the 2D array, this map stores all
-         * type dimensions.
-         */
-        mutable std::map<std::type_index, std::tuple<size_t, size_t, size_t>>
-            cachedAddressSpace;
-
       protected:
         /// Number of columns of the 2D array.
         size_t width;
@@ -217,9 +198,20 @@ namespace Data {
     size_t Array2DWrapper<T>::getAddressSpace(const std::type_info& type,
                                               size_t* dim1, size_t* dim2) const
     {
+        // Cache of the addressSpace and dimensions for each data type, width and
+        // height, to accelerate the numerous accesses made by the
+        // ProgramExecutionEngine. As several threads may execute Programs on
+        // the same object, each thread has its own cache.
+        static thread_local std::map<
+            std::tuple<std::type_index, size_t, size_t>,
+            std::tuple<size_t, size_t, size_t>>
+            cachedAddressSpace;
+
         // Has the result been cached
-        auto iter = this->cachedAddressSpace.find(type);
-        if (iter != this->cachedAddressSpace.end()) {
+        const std::tuple<std::type_index, size_t, size_t> key{
+            type, this->width, this->height};
+        auto iter = cachedAddressSpace.find(key);
+        if (iter != cachedAddressSpace.end()) {
             if (dim1 != nullptr) {
                 *dim1 = std::get<1>(iter->second);
             }
@@ -232,8 +224,8 @@ namespace Data {
         size_t result = 0;
         // The parent function is not used to avoid performing 2 regex matches.
         if (type == typeid(T)) {
-            this->cachedAddressSpace.emplace(
-                type, std::make_tuple(this->nbElements, 0, 0));
+            cachedAddressSpace.emplace(
+                key, std::make_tuple(this->nbElements, 0, 0));
             result = this->nbElements;
         }
 
@@ -272,8 +264,8 @@ namespace Data {
                     if (dim2 != nullptr) {
                         *dim2 = typeW;
                     }
-                    this->cachedAddressSpace.emplace(
-                        type, std::make_tuple(result, typeH, typeW));
+                    cachedAddressSpace.emplace(
+                        key, std::make_tuple(result, typeH, typeW));
                 }
             }
         }
diff --git a/gegelatilib/include/data/arrayWrapper.h b/gegelatilib/include/data/arrayWrapper.h
index ec26b4d..c40676e 100644
--- a/gegelatilib/include/data/arrayWrapper.h
+++ b/gegelatilib/include/data/arrayWrapper.h
@@ -72,21 +72,6 @@ namespace Data {
                       "Template class PrimitiveTypeArray<T> can only be used "
                       "for primitive types.");
 
-      private:
-        /**
-         * \brief Caching mechanism for storing addressSpace for different
-         * types.
-         *
-         * This map stores for each data type the size of the addressSpace for
-         * the PrimitiveTypeArray. The purpose of this cache is to accelerate
-         * the numerous access to the addressSpace for different data types, by
-         * performing it only once per data type requested by the Instructions,
-         * through the ProgramExecutionEngine.
-         *
-         * This map is updated and used by the getAddressSpace method.
-         */
-        mutable std::map<std::type_index, size_t> cachedAddressSpace;
-
       protected:
         /**
          * \brief Number of elements contained pointer vector.
@@ -273,14 +258,22 @@ namespace Data {
     template <class T>
     size_t ArrayWrapper<T>::getAddressSpace(const std::type_info& type) const
     {
+        // Cache of the addressSpace for each data type and number of elements,
+        // to accelerate the numerous accesses made by the
+        // ProgramExecutionEngine. As several threads may execute Programs on
+        // the same object, each thread has its own cache.
+        static thread_local std::map<std::pair<std::type_index, size_t>, size_t>
+            cachedAddressSpace;
+
         // Has the addresSpaceSize been cached
-        auto iter = this->cachedAddressSpace.find(type);
-        if (iter != this->cachedAddressSpace.end()) {
+        const std::pair<std::type_index, size_t> key{type, this->nbElements};
+        auto iter = cachedAddressSpace.find(key);
+        if (iter != cachedAddressSpace.end()) {
             return iter->second;
         }
 
         if (type == typeid(T)) {
-            this->cachedAddressSpace.emplace(type, this->nbElements);
+            cachedAddressSpace.emplace(key, this->nbElements);
             return this->nbElements;
         }
 
@@ -295,7 +288,7 @@ namespace Data {
             int size = std::atoi(cm[2].str().c_str());
             if (size <= this->nbElements) {
                 size_t result = this->nbElements - size + 1;
-                this->cachedAddressSpace.emplace(type, result);
+                cachedAddressSpace.emplace(key, result);
                 return result;
             }
         }
-- 
2.43.0


From b55a3c0ee931977e38cf50cd2e05b70b4815c754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:31 +0000
Subject: [PATCH 08/20] fix: clone the environments before any of them is used
 by a thread

---
 gegelatilib/include/data/array2DWrapper.h     | 12 +++----
 .../include/learn/parallelLearningAgent.h     |  7 ++--
 .../src/learn/parallelLearningAgent.cpp       | 32 +++++++++----------
 3 files changed, 25 insertions(+), 26 deletions(-)

diff --git a/gegelatilib/include/data/array2DWrapper.h b/gegelatilib/include/data/array2DWrapper.h
index f3b99e2..691c1fe 100644
--- a/gegelatilib/include/data/array2DWrapper.h
+++ b/gegelatilib/include/data/array2DWrapper.h
@@ -198,8 +198,8 @@ namespace Data {
     size_t Array2DWrapper<T>::getAddressSpace(const std::type_info& type,
                                               size_t* dim1, size_t* dim2) const
     {
-        // Cache of the addressSpace and dimensions for each data type, width and
-        // height, to accelerate the numerous accesses made by the
+        // Cache of the addressSpace and dimensions for each data type, width
+        // and height, to accelerate the numerous accesses made by the
         // ProgramExecutionEngine. As several threads may execute Programs on
         // the same object, each thread has its own cache.
         static thread_local std::map<
@@ -208,8 +208,8 @@ namespace Data {
             cachedAddressSpace;
 
         // Has the result been cached
-        const std::tuple<std::type_index, size_t, size_t> key{
-            type, this->width, this->height};
+        const std::tuple<std::type_index, size_t, size_t> key{type, this->width,
+                                                              this->height};
         auto iter = cachedAddressSpace.find(key);
         if (iter != cachedAddressSpace.end()) {
             if (dim1 != nullptr) {
@@ -224,8 +224,8 @@ namespace Data {
         size_t result = 0;
         // The parent function is not used to avoid performing 2 regex matches.
         if (type == typeid(T)) {
-            cachedAddressSpace.emplace(
-                key, std::make_tuple(this->nbElements, 0, 0));
+            cachedAddressSpace.emplace(key,
+                                       std::make_tuple(this->nbElements, 0, 0));
             result = this->nbElements;
         }
 
diff --git a/gegelatilib/include/learn/parallelLearningAgent.h b/gegelatilib/include/learn/parallelLearningAgent.h
index 67d5c04..22576ba 100644
--- a/gegelatilib/include/learn/parallelLearningAgent.h
+++ b/gegelatilib/include/learn/parallelLearningAgent.h
@@ -143,8 +143,8 @@ namespace Learn {
          * Mutex protecting the results. \param[in,out] archiveMap Map
          * storing the exhaustiveArchive to be merged. \param[in]
          * archiveMapMutex Mutex protecting the archiveMap.
-         * \param[in] useMainEnvironment Boolean that is true if we use the
-         * declared LearningEnvironment, otherwise the method will clone it.
+         * \param[in] privateLearningEnvironment LearningEnvironment only used
+         * by this thread.
          */
         void slaveEvalJobThread(
             uint64_t generationNumber, LearningMode mode,
@@ -155,7 +155,8 @@ namespace Learn {
                 resultsPerRootMap,
             std::mutex& resultsPerRootMapMutex,
             std::map<uint64_t, Archive*>& archiveMap,
-            std::mutex& archiveMapMutex, bool useMainEnvironment);
+            std::mutex& archiveMapMutex,
+            LearningEnvironment& privateLearningEnvironment);
 
         /**
          * \brief Method to merge several Archive created in parallel
diff --git a/gegelatilib/src/learn/parallelLearningAgent.cpp b/gegelatilib/src/learn/parallelLearningAgent.cpp
index a306b88..24f959b 100644
--- a/gegelatilib/src/learn/parallelLearningAgent.cpp
+++ b/gegelatilib/src/learn/parallelLearningAgent.cpp
@@ -37,6 +37,7 @@
 
 #include <algorithm>
 #include <iterator>
+#include <memory>
 #include <mutex>
 #include <queue>
 #include <thread>
@@ -92,17 +93,11 @@ void Learn::ParallelLearningAgent::slaveEvalJobThread(
                                  std::shared_ptr<Job>>>& resultsPerRootMap,
     std::mutex& resultsPerRootMapMutex,
     std::map<uint64_t, Archive*>& archiveMap, std::mutex& archiveMapMutex,
-    bool useMainEnvironment)
+    LearningEnvironment& privateLearningEnvironment)
 {
-
-    // Clone learningEnvironment
-    LearningEnvironment* privateLearningEnvironment =
-        useMainEnvironment ? &this->learningEnvironment
-                           : this->learningEnvironment.clone();
-
     // Create a TPGExecutionEngine
     Environment privateEnv(this->env.getInstructionSet(),
-                           privateLearningEnvironment->getDataSources(),
+                           privateLearningEnvironment.getDataSources(),
                            this->env.getNbRegisters(),
                            this->env.getNbConstant());
     std::unique_ptr<TPG::TPGExecutionEngine> tee =
@@ -135,7 +130,7 @@ void Learn::ParallelLearningAgent::slaveEvalJobThread(
 
             std::shared_ptr<EvaluationResult> avgScore =
                 this->evaluateJob(*tee, *jobToProcess, generationNumber, mode,
-                                  *privateLearningEnvironment);
+                                  privateLearningEnvironment);
 
             { // Store result Mutual exclusion zone
                 std::lock_guard<std::mutex> lock(resultsPerRootMapMutex);
@@ -153,11 +148,6 @@ void Learn::ParallelLearningAgent::slaveEvalJobThread(
             }
         }
     } while (doProcess);
-
-    // Clean up
-    if (!useMainEnvironment) {
-        delete privateLearningEnvironment;
-    }
 }
 
 void Learn::ParallelLearningAgent::mergeArchiveMap(
@@ -244,21 +234,29 @@ void Learn::ParallelLearningAgent::evaluateAllRootsInParallelExecute(
     std::mutex resultsPerRootMutex;
     std::mutex archiveMapMutex;
 
+    // Clone the learningEnvironment for each thread before any of them starts,
+    // as the main environment can not be copied while it is being used.
+    std::vector<std::unique_ptr<LearningEnvironment>> privateEnvironments;
+    for (auto i = 0; i < (this->maxNbThreads - 1); i++) {
+        privateEnvironments.emplace_back(this->learningEnvironment.clone());
+    }
+
     // Create the threads
     std::vector<std::thread> threads;
-    for (auto i = 0; i < (this->maxNbThreads - 1); i++) {
+    for (auto& privateEnvironment : privateEnvironments) {
         threads.emplace_back(std::thread(
             &ParallelLearningAgent::slaveEvalJobThread, this, generationNumber,
             mode, std::ref(jobsToProcess), std::ref(rootsToProcessMutex),
             std::ref(resultsPerJobMap), std::ref(resultsPerRootMutex),
-            std::ref(archiveMap), std::ref(archiveMapMutex), false));
+            std::ref(archiveMap), std::ref(archiveMapMutex),
+            std::ref(*privateEnvironment)));
     }
 
     // Work in the main thread also, using the main environment
     this->slaveEvalJobThread(generationNumber, mode, jobsToProcess,
                              rootsToProcessMutex, resultsPerJobMap,
                              resultsPerRootMutex, archiveMap, archiveMapMutex,
-                             true);
+                             this->learningEnvironment);
 
     // Join the threads
     for (auto& thread : threads) {
-- 
2.43.0


From 333e3375a38e62320b51f2db1b46192869d07f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:31 +0000
Subject: [PATCH 09/20] fix: tell classification and adversarial environments
 the iteration and generation they are reset for

---
 gegelatilib/include/learn/classificationLearningAgent.h | 2 +-
 gegelatilib/src/learn/adversarialLearningAgent.cpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gegelatilib/include/learn/classificationLearningAgent.h b/gegelatilib/include/learn/classificationLearningAgent.h
index 978d11b..5204f88 100644
--- a/gegelatilib/include/learn/classificationLearningAgent.h
+++ b/gegelatilib/include/learn/classificationLearningAgent.h
@@ -172,7 +172,7 @@ namespace Learn {
             uint64_t hash = hasher(generationNumber) ^ hasher(i);
 
             // Reset the learning Environment
-            le.reset(hash, mode);
+            le.reset(hash, mode, i, generationNumber);
 
             uint64_t nbActions = 0;
             while (!le.isTerminal() &&
diff --git a/gegelatilib/src/learn/adversarialLearningAgent.cpp b/gegelatilib/src/learn/adversarialLearningAgent.cpp
index 66c5103..477cd5d 100644
--- a/gegelatilib/src/learn/adversarialLearningAgent.cpp
+++ b/gegelatilib/src/learn/adversarialLearningAgent.cpp
@@ -140,7 +140,7 @@ std::shared_ptr<Learn::EvaluationResult> Learn::AdversarialLearningAgent::
         uint64_t hash = hasher(generationNumber) ^ hasher(i);
 
         // Reset the learning Environment
-        ale.reset(hash, mode);
+        ale.reset(hash, mode, i, generationNumber);
 
         uint64_t nbActions = 0;
 
-- 
2.43.0


From f2e0e454728bea24958a93e430cd2ee7364ff248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:31 +0000
Subject: [PATCH 10/20] fix: forget the records of removed individuals on init
 and keepBestPolicy

---
 gegelatilib/include/learn/adversarialLearningAgent.h | 12 ++++++++++++
 gegelatilib/include/learn/learningAgent.h            |  4 ++--
 gegelatilib/src/learn/adversarialLearningAgent.cpp   | 12 ++++++++++++
 gegelatilib/src/learn/learningAgent.cpp              |  9 ++++++---
 4 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/gegelatilib/include/learn/adversarialLearningAgent.h b/gegelatilib/include/learn/adversarialLearningAgent.h
index 0af9f3a..d5d01cc 100644
--- a/gegelatilib/include/learn/adversarialLearningAgent.h
+++ b/gegelatilib/include/learn/adversarialLearningAgent.h
@@ -239,6 +239,18 @@ namespace Learn {
         std::shared_ptr<Learn::Job> makeJob(const TPG::TPGVertex* vertex,
                                             Learn::LearningMode mode, int idx,
                                             TPG::TPGGraph* tpgGraph) override;
+
+        /**
+         * \brief Specialization of the init method which also forgets the
+         * champions of a previous training.
+         */
+        void init(uint64_t seed = 0) override;
+
+        /**
+         * \brief Specialization of the keepBestPolicy method which also
+         * forgets the champions, as they may have been removed.
+         */
+        void keepBestPolicy() override;
     };
 } // namespace Learn
 
diff --git a/gegelatilib/include/learn/learningAgent.h b/gegelatilib/include/learn/learningAgent.h
index 6fcadab..0d0fbc3 100644
--- a/gegelatilib/include/learn/learningAgent.h
+++ b/gegelatilib/include/learn/learningAgent.h
@@ -389,7 +389,7 @@ namespace Learn {
          * If the TPGVertex referenced in the bestRoot attribute is no longer
          * a TPGVertex of the TPGGraph, nothing happens.
          */
-        void keepBestPolicy();
+        virtual void keepBestPolicy();
 
         /**
          * \brief Takes a given TPGVertex and creates a job containing it.
@@ -433,7 +433,7 @@ namespace Learn {
          *
          * \param[in] seed the seed given to the TPGMutator.
          */
-        void init(uint64_t seed = 0);
+        virtual void init(uint64_t seed = 0);
     };
 }; // namespace Learn
 
diff --git a/gegelatilib/src/learn/adversarialLearningAgent.cpp b/gegelatilib/src/learn/adversarialLearningAgent.cpp
index 477cd5d..0b596f0 100644
--- a/gegelatilib/src/learn/adversarialLearningAgent.cpp
+++ b/gegelatilib/src/learn/adversarialLearningAgent.cpp
@@ -260,3 +260,15 @@ std::shared_ptr<Learn::Job> Learn::AdversarialLearningAgent::makeJob(
     throw std::runtime_error(
         "Method not supported in AdversarialLearningAgent.");
 }
+
+void Learn::AdversarialLearningAgent::init(uint64_t seed)
+{
+    ParallelLearningAgent::init(seed);
+    this->champions.clear();
+}
+
+void Learn::AdversarialLearningAgent::keepBestPolicy()
+{
+    ParallelLearningAgent::keepBestPolicy();
+    this->champions.clear();
+}
diff --git a/gegelatilib/src/learn/learningAgent.cpp b/gegelatilib/src/learn/learningAgent.cpp
index 2c74dea..5796f5a 100644
--- a/gegelatilib/src/learn/learningAgent.cpp
+++ b/gegelatilib/src/learn/learningAgent.cpp
@@ -78,8 +78,8 @@ void Learn::LearningAgent::init(uint64_t seed)
     // Clear the archive
     this->archive.clear();
 
-    // Clear the best root
-    this->bestRoot = {nullptr, nullptr};
+    // Clear the best root and the results of the previous training
+    this->forgetPreviousResults();
 }
 
 void Learn::LearningAgent::addLogger(Log::LALogger& logger)
@@ -418,7 +418,8 @@ double Learn::LearningAgent::getBestScoreLastGen() const
 void Learn::LearningAgent::keepBestPolicy()
 {
     // Evaluate all roots
-    if (this->tpg->hasVertex(*this->bestRoot.first)) {
+    if (this->bestRoot.first != nullptr &&
+        this->tpg->hasVertex(*this->bestRoot.first)) {
         auto bestRootVertex = this->bestRoot.first;
 
         // Remove all but the best root from the tpg
@@ -427,6 +428,8 @@ void Learn::LearningAgent::keepBestPolicy()
             for (auto root : roots) {
                 if (root != bestRootVertex) {
                     tpg->removeVertex(*root);
+                    // Removed stored result (if any)
+                    this->resultsPerRoot.erase(root);
                 }
             }
         }
-- 
2.43.0


From f26497b1ffd6aaceec6848cfc6f61517412dc7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:03 +0000
Subject: [PATCH 11/20] fix: keep adversarial validation from changing the
 champions and random draws of the training

---
 gegelatilib/src/learn/adversarialLearningAgent.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gegelatilib/src/learn/adversarialLearningAgent.cpp b/gegelatilib/src/learn/adversarialLearningAgent.cpp
index 0b596f0..6d1a434 100644
--- a/gegelatilib/src/learn/adversarialLearningAgent.cpp
+++ b/gegelatilib/src/learn/adversarialLearningAgent.cpp
@@ -50,7 +50,12 @@ Learn::AdversarialLearningAgent::evaluateAllRoots(uint64_t generationNumber,
     }
     std::multimap<std::shared_ptr<EvaluationResult>, const TPG::TPGVertex*>
         results;
+    // Only training evaluations elect the champions.
+    auto trainingChampions = champions;
     evaluateAllRootsInParallel(generationNumber, mode, results);
+    if (mode != LearningMode::TRAINING) {
+        champions = trainingChampions;
+    }
     return results;
 }
 
@@ -233,7 +238,10 @@ std::queue<std::shared_ptr<Learn::Job>> Learn::AdversarialLearningAgent::
         for (auto& team : championsTeams) {
             // puts the root at each possible location in the team
             for (int16_t i = 0; i < agentsPerEvaluation; i++) {
-                archiveSeed = this->rng.getUnsignedInt64(0, UINT64_MAX);
+                // Archiving is deactivated, and needs no seed, out of training
+                archiveSeed = (mode == LearningMode::TRAINING)
+                                  ? this->rng.getUnsignedInt64(0, UINT64_MAX)
+                                  : 0;
                 auto job = std::make_shared<Learn::AdversarialJob>(
                     Learn::AdversarialJob({}, archiveSeed, index++, i));
 
-- 
2.43.0


From ac9d6f2934a749f302643482616d40095dbd2823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:03 +0000
Subject: [PATCH 12/20] fix: do not elect more initial champions than there are
 roots

---
 gegelatilib/src/learn/adversarialLearningAgent.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gegelatilib/src/learn/adversarialLearningAgent.cpp b/gegelatilib/src/learn/adversarialLearningAgent.cpp
index 6d1a434..322d0e2 100644
--- a/gegelatilib/src/learn/adversarialLearningAgent.cpp
+++ b/gegelatilib/src/learn/adversarialLearningAgent.cpp
@@ -197,6 +197,7 @@ std::queue<std::shared_ptr<Learn::Job>> Learn::AdversarialLearningAgent::
     // if champions is empty fills it with the first roots come
     if (champions.size() == 0) {
         for (int i = 0;
+             i < roots.size() &&
              i <= (double)roots.size() * (1.0 - params.ratioDeletedRoots);
              i++) {
             champions.emplace_back(roots[i]);
-- 
2.43.0


From a401271e08bfeeab7f96b0ce5014b220d4a8acf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:03 +0000
Subject: [PATCH 13/20] fix: keep the score of a class without any evaluation
 defined

---
 gegelatilib/src/learn/classificationEvaluationResult.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gegelatilib/src/learn/classificationEvaluationResult.cpp b/gegelatilib/src/learn/classificationEvaluationResult.cpp
index 6228d59..e761b04 100644
--- a/gegelatilib/src/learn/classificationEvaluationResult.cpp
+++ b/gegelatilib/src/learn/classificationEvaluationResult.cpp
@@ -65,6 +65,13 @@ Learn::EvaluationResult& Learn::ClassificationEvaluationResult::operator+=(
         }
 
         for (auto idx = 0; idx < this->scorePerClass.size(); idx++) {
+            // There is nothing to weigh for a class without any evaluation
+            if (this->nbEvaluationPerClass.at(idx) +
+                    otherEval.nbEvaluationPerClass.at(idx) ==
+                0) {
+                continue;
+            }
+
             // Weighted sum of scores.
             this->scorePerClass.at(idx) =
                 this->scorePerClass.at(idx) *
-- 
2.43.0


From f233a215b06f067293af32067908cfa098959bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:19 +0000
Subject: [PATCH 14/20] fix: do not report the absence of cycles after
 reporting one

---
 gegelatilib/src/log/cycleDetectionLALogger.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gegelatilib/src/log/cycleDetectionLALogger.cpp b/gegelatilib/src/log/cycleDetectionLALogger.cpp
index 9f20e80..33317c6 100644
--- a/gegelatilib/src/log/cycleDetectionLALogger.cpp
+++ b/gegelatilib/src/log/cycleDetectionLALogger.cpp
@@ -112,6 +112,7 @@ void Log::CycleDetectionLALogger::logAfterPopulateTPG()
         // This happens when a connected sub-graph has no root, which indicates
         // that the subgraph has a cycle.
         *this << "A cycle was detected in the TPG.";
+        return;
     }
 
     // If this point of the algorithm is reached, no cycle were detected
-- 
2.43.0


From 7ca5cec225d4e46a74d376eb32b762e3ee2d7802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:37 +0000
Subject: [PATCH 15/20] fix: move the factory along with the graph it belongs
 to

---
 gegelatilib/include/tpg/tpgGraph.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gegelatilib/include/tpg/tpgGraph.h b/gegelatilib/include/tpg/tpgGraph.h
index a1dfd1a..a8ce053 100644
--- a/gegelatilib/include/tpg/tpgGraph.h
+++ b/gegelatilib/include/tpg/tpgGraph.h
@@ -88,6 +88,7 @@ namespace TPG {
             using std::swap;
             swap(a.vertices, b.vertices);
             swap(a.edges, b.edges);
+            swap(a.factory, b.factory);
         }
 
         /**
@@ -306,7 +307,7 @@ namespace TPG {
         const Environment& env;
 
         /// TPGFactory of the TPGGraph
-        const std::unique_ptr<TPGFactory> factory;
+        std::unique_ptr<TPGFactory> factory;
 
         /**
          * \brief Set of TPGVertex composing the TPGGraph.
-- 
2.43.0


From 7499d39f270f5175fa7fe0ab8cda1bbebd8b9bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:23 +0000
Subject: [PATCH 16/20] fix: give up the champions removed by the decimation

---
 .../include/learn/adversarialLearningAgent.h    | 12 ++++++++++++
 .../src/learn/adversarialLearningAgent.cpp      | 17 +++++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/gegelatilib/include/learn/adversarialLearningAgent.h b/gegelatilib/include/learn/adversarialLearningAgent.h
index d5d01cc..02ca33c 100644
--- a/gegelatilib/include/learn/adversarialLearningAgent.h
+++ b/gegelatilib/include/learn/adversarialLearningAgent.h
@@ -246,6 +246,18 @@ namespace Learn {
          */
         void init(uint64_t seed = 0) override;
 
+        /**
+         * \brief Specialization of the decimateWorstRoots method which also
+         * gives up the champions removed from the TPGGraph.
+         *
+         * TPGAction roots are never removed. When some are among the worst
+         * roots, TPGTeam roots that were elected champions are removed
+         * instead.
+         */
+        void decimateWorstRoots(
+            std::multimap<std::shared_ptr<EvaluationResult>,
+                          const TPG::TPGVertex*>& results) override;
+
         /**
          * \brief Specialization of the keepBestPolicy method which also
          * forgets the champions, as they may have been removed.
diff --git a/gegelatilib/src/learn/adversarialLearningAgent.cpp b/gegelatilib/src/learn/adversarialLearningAgent.cpp
index 322d0e2..0e887a2 100644
--- a/gegelatilib/src/learn/adversarialLearningAgent.cpp
+++ b/gegelatilib/src/learn/adversarialLearningAgent.cpp
@@ -35,6 +35,7 @@
  */
 
 #include <fstream>
+#include <algorithm>
 #include <memory>
 
 #include "learn/adversarialLearningAgent.h"
@@ -276,6 +277,22 @@ void Learn::AdversarialLearningAgent::init(uint64_t seed)
     this->champions.clear();
 }
 
+void Learn::AdversarialLearningAgent::decimateWorstRoots(
+    std::multimap<std::shared_ptr<EvaluationResult>, const TPG::TPGVertex*>&
+        results)
+{
+    ParallelLearningAgent::decimateWorstRoots(results);
+
+    auto vertices = tpg->getVertices();
+    champions.erase(
+        std::remove_if(champions.begin(), champions.end(),
+                       [&vertices](const TPG::TPGVertex* champion) {
+                           return std::find(vertices.begin(), vertices.end(),
+                                            champion) == vertices.end();
+                       }),
+        champions.end());
+}
+
 void Learn::AdversarialLearningAgent::keepBestPolicy()
 {
     ParallelLearningAgent::keepBestPolicy();
-- 
2.43.0


From d47f682f48dbd30c15cb5dd0c34d3d8f8c805d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:33 +0000
Subject: [PATCH 17/20] fix: reject a maximum initial number of outgoing edges
 below two

---
 gegelatilib/include/mutator/tpgMutator.h | 3 ++-
 gegelatilib/src/mutator/tpgMutator.cpp   | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/gegelatilib/include/mutator/tpgMutator.h b/gegelatilib/include/mutator/tpgMutator.h
index 5c347ce..607c15f 100644
--- a/gegelatilib/include/mutator/tpgMutator.h
+++ b/gegelatilib/include/mutator/tpgMutator.h
@@ -68,7 +68,8 @@ namespace Mutator {
          * \param[in,out] graph the initialized TPGGraph.
          * \param[in] params the Parameters for the mutation.
          * \param[in] rng Random Number Generator used in the mutation process.
-         * \throw std::runtime_error if maxInitOutgoingEdges exceeds nbAction.
+         * \throw std::runtime_error if maxInitOutgoingEdges exceeds nbAction
+         *        or is lower than 2.
          *        Or if nbAction is smaller than 1.
          */
         void initRandomTPG(TPG::TPGGraph& graph,
diff --git a/gegelatilib/src/mutator/tpgMutator.cpp b/gegelatilib/src/mutator/tpgMutator.cpp
index cf6be20..51f385c 100644
--- a/gegelatilib/src/mutator/tpgMutator.cpp
+++ b/gegelatilib/src/mutator/tpgMutator.cpp
@@ -66,6 +66,10 @@ void Mutator::TPGMutator::initRandomTPG(
     if (params.tpg.nbActions < 2) {
         throw std::runtime_error("A TPG with a single action makes no sense.");
     }
+    if (params.tpg.maxInitOutgoingEdges < 2) {
+        throw std::runtime_error("Maximum initial number of outgoing edges "
+                                 "cannot be lower than 2.");
+    }
     // Empty graph
     graph.clear();
 
-- 
2.43.0


From bcfee8476123f58510f7e74580269b9e334ae35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:33 +0000
Subject: [PATCH 18/20] fix: throw when no edge can be picked instead of
 drawing from none

---
 gegelatilib/include/mutator/tpgMutator.h | 1 +
 gegelatilib/src/mutator/tpgMutator.cpp   | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/gegelatilib/include/mutator/tpgMutator.h b/gegelatilib/include/mutator/tpgMutator.h
index 607c15f..276a9fe 100644
--- a/gegelatilib/include/mutator/tpgMutator.h
+++ b/gegelatilib/include/mutator/tpgMutator.h
@@ -103,6 +103,7 @@ namespace Mutator {
          * \param[in] team the TPGTeam whose outgoingEdges will be altered.
          * \param[in] preExistingEdge the TPGEdge candidates for cloning.
          * \param[in] rng Random Number Generator used in the mutation process.
+         * \throw std::runtime_error if none of the candidates can be picked.
          */
         void addRandomEdge(
             TPG::TPGGraph& graph, const TPG::TPGTeam& team,
diff --git a/gegelatilib/src/mutator/tpgMutator.cpp b/gegelatilib/src/mutator/tpgMutator.cpp
index 51f385c..aa5eeae 100644
--- a/gegelatilib/src/mutator/tpgMutator.cpp
+++ b/gegelatilib/src/mutator/tpgMutator.cpp
@@ -197,6 +197,9 @@ void Mutator::TPGMutator::addRandomEdge(
     // (This code assumes that the set of pickable edge is never empty..
     // otherwise it will throw an exception. Possible solution if needed
     // initialize an entirely new program and pick a random target.)
+    if (pickableEdges.empty()) {
+        throw std::runtime_error("There is no edge to pick.");
+    }
     std::list<const TPG::TPGEdge*>::iterator iter = pickableEdges.begin();
     std::advance(iter, rng.getUnsignedInt64(0, pickableEdges.size() - 1));
     const TPG::TPGEdge* pickedEdge = *iter;
-- 
2.43.0


From a362b47ac3d8a0f5de8f98bc49247c0cd1ec9655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:30 +0000
Subject: [PATCH 19/20] fix: keep the exporter usable when it cannot be
 redirected to a new file

---
 gegelatilib/include/file/tpgGraphDotExporter.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/gegelatilib/include/file/tpgGraphDotExporter.h b/gegelatilib/include/file/tpgGraphDotExporter.h
index 1c1d61c..d534477 100644
--- a/gegelatilib/include/file/tpgGraphDotExporter.h
+++ b/gegelatilib/include/file/tpgGraphDotExporter.h
@@ -199,15 +199,16 @@ namespace File {
          */
         void setNewFilePath(const char* newFilePath)
         {
-            //  Close previous file
-            fclose(pFile);
-
-            // open new one;
-            if ((pFile = fopen(newFilePath, "w")) == NULL) {
-                pFile = NULL;
+            // open new file
+            FILE* newFile = fopen(newFilePath, "w");
+            if (newFile == NULL) {
                 throw std::runtime_error("Could not open file " +
                                          std::string(newFilePath));
             }
+
+            //  Close previous file
+            fclose(pFile);
+            pFile = newFile;
         }
 
         /**
-- 
2.43.0


From 222c7b39bac0f813224ec3982bd1ff70c207e554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:22 +0000
Subject: [PATCH 20/20] fix: report parameter and statistics files that cannot
 be written

---
 gegelatilib/src/file/parametersParser.cpp           | 3 +++
 gegelatilib/src/tpg/instrumented/executionStats.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/gegelatilib/src/file/parametersParser.cpp b/gegelatilib/src/file/parametersParser.cpp
index 21baeac..a92e5ba 100644
--- a/gegelatilib/src/file/parametersParser.cpp
+++ b/gegelatilib/src/file/parametersParser.cpp
@@ -395,6 +395,9 @@ void File::ParametersParser::writeParametersToJson(
 
     // Write to the output stream
     std::ofstream writtenFile(path);
+    if (!writtenFile.is_open()) {
+        throw std::runtime_error("Could not open file " + std::string(path));
+    }
     Json::StreamWriterBuilder writerFactory;
     // Set a precision to 6 digits after the point.
     writerFactory.settings_["precision"] = 6U;
diff --git a/gegelatilib/src/tpg/instrumented/executionStats.cpp b/gegelatilib/src/tpg/instrumented/executionStats.cpp
index cd8b744..a830cce 100644
--- a/gegelatilib/src/tpg/instrumented/executionStats.cpp
+++ b/gegelatilib/src/tpg/instrumented/executionStats.cpp
@@ -253,6 +253,9 @@ void TPG::ExecutionStats::writeStatsToJson(const char* filePath,
     }
 
     std::ofstream outputFile(filePath);
+    if (!outputFile.is_open()) {
+        throw std::runtime_error("Could not open file " + std::string(filePath));
+    }
 
     Json::Value root;
 
-- 
2.43.0

