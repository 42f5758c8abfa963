From 82f49b7a5dd800f891475b9a9cf547130232119e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:52 +0000
Subject: [PATCH 01/64] fix: matching dereferences the end iterator of a leaf
 node without visible edges

---
 include/marco/Modeling/Matching.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/marco/Modeling/Matching.h b/include/marco/Modeling/Matching.h
index e8c3bc2..f390069 100644
--- a/include/marco/Modeling/Matching.h
+++ b/include/marco/Modeling/Matching.h
@@ -1898,6 +1898,15 @@ private:
         continue;
       }
 
+      if (getVertexVisibilityDegreeUpTo(v1, 1) == 0) {
+        // The only incident edge of the current node has been removed by the
+        // simplifications performed in the previous iterations, but the node
+        // itself has not been fully matched.
+
+        LLVM_DEBUG(llvm::dbgs() << "First vertex has no visible edges\n");
+        continue;
+      }
+
       EdgeDescriptor edgeDescriptor = getFirstOutVisibleEdge(v1);
       Edge &edge = getBaseGraph()[edgeDescriptor];
 
-- 
2.43.0


From 691b74d845cce3123e09f88567837dbcf9789426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:52 +0000
Subject: [PATCH 02/64] fix: the search of augmenting paths revisits the
 already explored indices

---
 include/marco/Modeling/Matching.h | 81 +++++++++++++++++++------------
 1 file changed, 49 insertions(+), 32 deletions(-)

diff --git a/include/marco/Modeling/Matching.h b/include/marco/Modeling/Matching.h
index f390069..b9c5ab6 100644
--- a/include/marco/Modeling/Matching.h
+++ b/include/marco/Modeling/Matching.h
@@ -1042,6 +1042,25 @@ public:
 
   auto getVisitedEquations() const { return visitedEquations.getArrayRef(); }
 };
+
+/// The indices of the nodes that have already been reached while searching the
+/// augmenting paths.
+template <typename VertexDescriptor>
+class ExploredIndices {
+  std::mutex mutex;
+  llvm::DenseMap<VertexDescriptor, IndexSet> explored;
+
+public:
+  /// Mark some indices of a node as explored.
+  /// Returns the ones that were not already explored.
+  IndexSet take(VertexDescriptor vertex, const IndexSet &indices) {
+    std::lock_guard lock(mutex);
+    IndexSet &exploredIndices = explored[vertex];
+    IndexSet result = indices - exploredIndices;
+    exploredIndices += result;
+    return result;
+  }
+};
 } // namespace traversal
 
 namespace result {
@@ -1107,6 +1126,7 @@ protected:
   using BFSStep = traversal::bfs::Step<Graph, Variable, Equation>;
   using Frontier = traversal::bfs::Frontier<BFSStep>;
   using Visits = traversal::Visits<VertexDescriptor>;
+  using ExploredIndices = traversal::ExploredIndices<VertexDescriptor>;
   using Flow = traversal::Flow<Graph, Variable, Equation>;
   using AugmentingPath = traversal::AugmentingPath<Flow>;
 
@@ -2413,6 +2433,14 @@ protected:
     std::mutex newFrontierMutex;
     std::mutex pathsMutex;
 
+    // The indices already reached by the search. Reaching them again can not
+    // lead to any new augmenting path.
+    ExploredIndices explored;
+
+    for (const std::shared_ptr<BFSStep> &step : frontier) {
+      explored.take(step->getNode(), step->getCandidates());
+    }
+
     while (!frontier.empty() && paths.empty()) {
       Frontier newFrontier;
       sortFrontier(frontier);
@@ -2422,8 +2450,8 @@ protected:
         std::vector<std::shared_ptr<BFSStep>> localFrontier;
         std::vector<std::shared_ptr<BFSStep>> localPaths;
 
-        expandFrontier(step, traversableEdges, localFrontier, localPaths,
-                       visits);
+        expandFrontier(step, traversableEdges, explored, localFrontier,
+                       localPaths, visits);
 
         if (!localFrontier.empty()) {
           std::lock_guard<std::mutex> lock(newFrontierMutex);
@@ -2512,6 +2540,7 @@ private:
 
   void expandFrontier(const std::shared_ptr<BFSStep> &step,
                       const TraversableEdges &traversableEdges,
+                      ExploredIndices &explored,
                       std::vector<std::shared_ptr<BFSStep>> &newFrontier,
                       std::vector<std::shared_ptr<BFSStep>> &paths,
                       Visits *visits = nullptr) const {
@@ -2527,25 +2556,6 @@ private:
       addVisit(*visits, vertexDescriptor, step->getCandidates());
     }
 
-    auto containsFn = [&](VertexDescriptor node, const IndexSet &indices) {
-      const BFSStep *currentStep = step.get();
-
-      while (currentStep) {
-        if (currentStep->getNode() == node &&
-            currentStep->getCandidates() == indices) {
-          return true;
-        }
-
-        if (currentStep->hasPrevious()) {
-          currentStep = currentStep->getPrevious();
-        } else {
-          currentStep = nullptr;
-        }
-      }
-
-      return false;
-    };
-
     for (EdgeDescriptor edgeDescriptor :
          traversableEdges.lookup(vertexDescriptor)) {
       VertexDescriptor nextNode = edgeDescriptor.from == vertexDescriptor
@@ -2585,15 +2595,19 @@ private:
           auto matched = solution.filterColumns(unmatchedScalarVariables);
           IndexSet indices = solution.flattenRows();
 
-          if (!containsFn(nextNode, indices)) {
-            if (!matched.empty()) {
-              paths.push_back(std::make_shared<BFSStep>(
-                  getBaseGraph(), step, edgeDescriptor, nextNode, indices,
-                  matched));
-            } else {
+          if (!matched.empty()) {
+            paths.push_back(
+                std::make_shared<BFSStep>(getBaseGraph(), step, edgeDescriptor,
+                                          nextNode, indices, matched));
+          } else {
+            indices = explored.take(nextNode, indices);
+
+            if (!indices.empty()) {
+              MCIM flow = solution.filterColumns(indices);
+
               newFrontier.push_back(std::make_shared<BFSStep>(
-                  getBaseGraph(), step, edgeDescriptor, nextNode, indices,
-                  solution));
+                  getBaseGraph(), step, edgeDescriptor, nextNode,
+                  std::move(indices), std::move(flow)));
             }
           }
         }
@@ -2619,12 +2633,15 @@ private:
         });
 
         for (auto solution : solutions) {
-          IndexSet indices = solution.flattenColumns();
+          IndexSet indices =
+              explored.take(nextNode, solution.flattenColumns());
+
+          if (!indices.empty()) {
+            MCIM flow = solution.filterRows(indices);
 
-          if (!containsFn(nextNode, indices)) {
             newFrontier.push_back(std::make_shared<BFSStep>(
                 getBaseGraph(), step, edgeDescriptor, nextNode,
-                std::move(indices), solution));
+                std::move(indices), std::move(flow)));
           }
         }
       }
-- 
2.43.0


From aa0b29d09a8b00ec102496c4e027c44db02a1ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:52 +0000
Subject: [PATCH 03/64] fix: account for all the visits of an augmenting path
 to the same node

---
 include/marco/Modeling/Matching.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/marco/Modeling/Matching.h b/include/marco/Modeling/Matching.h
index b9c5ab6..6e8a9bc 100644
--- a/include/marco/Modeling/Matching.h
+++ b/include/marco/Modeling/Matching.h
@@ -2371,7 +2371,7 @@ protected:
                 newVisits[curStep->getNode()] += touchedIndices;
               }
             } else {
-              newVisits[curStep->getNode()] = std::move(touchedIndices);
+              newVisits[curStep->getNode()] += touchedIndices;
             }
 
             // Move backwards inside the candidate augmenting path.
-- 
2.43.0


From f2e2223307d1642217ec67c7b7ad5ecc4fd98704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:52 +0000
Subject: [PATCH 04/64] fix: subtraction of incidence matrices drops keys
 mapped to different values

---
 lib/Modeling/MCIM.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/Modeling/MCIM.cpp b/lib/Modeling/MCIM.cpp
index ac67f56..bfe676d 100644
--- a/lib/Modeling/MCIM.cpp
+++ b/lib/Modeling/MCIM.cpp
@@ -323,8 +323,19 @@ MCIM &MCIM::operator-=(const MCIM &rhs) {
           continue;
         }
 
+        // The two access functions may map a common key to different values.
+        // Only the keys leading to the same value have to be removed.
         IndexSet commonKeys = lhsKeys.intersect(rhsKeys);
-        group->removeKeys(commonKeys);
+        IndexSet coincidentKeys;
+
+        for (Point key : commonKeys) {
+          if (group->getAccessFunction().map(key) ==
+              rhsGroup->getAccessFunction().map(key)) {
+            coincidentKeys += key;
+          }
+        }
+
+        group->removeKeys(coincidentKeys);
       }
     }
   }
-- 
2.43.0


From 3b2c3a505c0e4113066edd6a4dcb6f7aecc35888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:52 +0000
Subject: [PATCH 05/64] fix: setting an element of an incidence matrix alters
 other elements

---
 lib/Modeling/MCIMGroupGeneric.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/lib/Modeling/MCIMGroupGeneric.cpp b/lib/Modeling/MCIMGroupGeneric.cpp
index 0ef8999..3daba34 100644
--- a/lib/Modeling/MCIMGroupGeneric.cpp
+++ b/lib/Modeling/MCIMGroupGeneric.cpp
@@ -54,17 +54,21 @@ bool MCIMGroupGeneric::has(const Point &key, const Point &value) const {
 }
 
 bool MCIMGroupGeneric::set(const Point &key, const Point &value) {
-  IndexSet inverseKeys =
-      getAccessFunction().inverseMap(IndexSet(value), IndexSet(key));
-  addKeys(inverseKeys);
-  return !inverseKeys.empty();
+  if (!getAccessFunction().map(key).contains(value)) {
+    return false;
+  }
+
+  addKeys(IndexSet(key));
+  return true;
 }
 
 bool MCIMGroupGeneric::unset(const Point &key, const Point &value) {
-  IndexSet inverseKeys =
-      getAccessFunction().inverseMap(IndexSet(value), IndexSet(key));
-  removeKeys(inverseKeys);
-  return !inverseKeys.empty();
+  if (!getAccessFunction().map(key).contains(value)) {
+    return false;
+  }
+
+  removeKeys(IndexSet(key));
+  return true;
 }
 
 std::unique_ptr<MCIMGroup>
-- 
2.43.0


From d9a860eabf571f4125ac8d50ec14a15cd5bab25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:52 +0000
Subject: [PATCH 06/64] fix: mapping and inversion of roto-translations with
 repeated, unused or constant dimensions

---
 .../AccessFunctionRotoTranslation.cpp         | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/lib/Modeling/AccessFunctionRotoTranslation.cpp b/lib/Modeling/AccessFunctionRotoTranslation.cpp
index 682dbde..6a9ee78 100644
--- a/lib/Modeling/AccessFunctionRotoTranslation.cpp
+++ b/lib/Modeling/AccessFunctionRotoTranslation.cpp
@@ -183,6 +183,15 @@ AccessFunctionRotoTranslation::map(const MultidimensionalRange &indices) const {
 }
 
 IndexSet AccessFunctionRotoTranslation::map(const IndexSet &indices) const {
+  llvm::SmallVector<size_t, 3> usages;
+  countVariablesUsages(usages);
+
+  if (llvm::any_of(usages, [](size_t usage) { return usage > 1; })) {
+    // The results are not independent from each other (e.g. '(i)[i, i]'), and
+    // therefore the accessed indices may not be a multidimensional range.
+    return AccessFunctionAffineMap::map(indices);
+  }
+
   llvm::SmallVector<MultidimensionalRange> mapped;
 
   for (const MultidimensionalRange &range :
@@ -237,7 +246,11 @@ AccessFunctionRotoTranslation::inverseMap(const IndexSet &accessedIndices,
 
     auto reducedAccessFunction = AccessFunctionAffineMap::build(reducedDimsMap);
     auto reducedParentIndices = parentIndices.slice(usedDimensions);
-    auto reducedAccessedIndices = accessedIndices.slice(usedResults);
+
+    // The constant results are going to be discarded, and therefore the
+    // accessed indices which are not compatible with them must be ignored.
+    auto reducedAccessedIndices =
+        accessedIndices.intersect(map(parentIndices)).slice(usedResults);
 
     IndexSet reducedInverseMap = reducedAccessFunction->inverseMap(
         reducedAccessedIndices, reducedParentIndices);
@@ -269,7 +282,9 @@ AccessFunctionRotoTranslation::inverseMap(const IndexSet &accessedIndices,
       }
     }
 
-    return {mapped};
+    // The used dimensions may come from a parent range that is different from
+    // the one providing the unused dimensions.
+    return IndexSet(mapped).intersect(parentIndices);
   }
 
   return AccessFunction::inverseMap(accessedIndices, parentIndices);
-- 
2.43.0


From 54c78e24a77a90e8976891d75426200ae438e9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:00 +0000
Subject: [PATCH 07/64] fix: index sets built from ranges may contain the same
 index multiple times

The search of the already added ranges possibly overlapping with the current
one stopped at the first range being disjoint along every dimension, despite
the previous ones being possibly overlapping.
---
 lib/Modeling/IndexSet.cpp | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/lib/Modeling/IndexSet.cpp b/lib/Modeling/IndexSet.cpp
index e872d07..d585ef7 100644
--- a/lib/Modeling/IndexSet.cpp
+++ b/lib/Modeling/IndexSet.cpp
@@ -150,26 +150,20 @@ void IndexSet::setFromRanges(llvm::ArrayRef<MultidimensionalRange> ranges) {
 
   // Ensure that the ranges don't overlap.
   llvm::SmallVector<MultidimensionalRange> nonOverlappingRanges;
+  llvm::SmallVector<size_t> possibleOverlaps;
 
   for (const MultidimensionalRange &current : sorted) {
-    if (nonOverlappingRanges.empty()) {
-      nonOverlappingRanges.push_back(current);
-      continue;
-    }
-
-    size_t possibleOverlapIndex = nonOverlappingRanges.size();
-
-    while (possibleOverlapIndex > 0 &&
-           current.anyDimensionOverlaps(
-               nonOverlappingRanges[possibleOverlapIndex - 1])) {
-      --possibleOverlapIndex;
-    }
+    // The ranges are visited in ascending order, and therefore the ones that
+    // end before the beginning of the current one (along the first dimension)
+    // can't overlap neither with it, nor with the following ones.
+    llvm::erase_if(possibleOverlaps, [&](size_t index) {
+      return nonOverlappingRanges[index][0].getEnd() <= current[0].getBegin();
+    });
 
     llvm::SmallVector<MultidimensionalRange> differences;
     differences.push_back(current);
 
-    for (size_t i = possibleOverlapIndex, e = nonOverlappingRanges.size();
-         i < e; ++i) {
+    for (size_t i : possibleOverlaps) {
       const MultidimensionalRange &other = nonOverlappingRanges[i];
       llvm::SmallVector<MultidimensionalRange> newDifferences;
 
@@ -184,13 +178,14 @@ void IndexSet::setFromRanges(llvm::ArrayRef<MultidimensionalRange> ranges) {
       differences = std::move(newDifferences);
     }
 
-    llvm::append_range(nonOverlappingRanges, std::move(differences));
-
-    llvm::sort(
-        std::next(std::begin(nonOverlappingRanges), possibleOverlapIndex),
-        std::end(nonOverlappingRanges));
+    for (MultidimensionalRange &difference : differences) {
+      possibleOverlaps.push_back(nonOverlappingRanges.size());
+      nonOverlappingRanges.push_back(std::move(difference));
+    }
   }
 
+  llvm::sort(nonOverlappingRanges);
+
   assert(llvm::none_of(nonOverlappingRanges,
                        [&](const MultidimensionalRange &range) {
                          for (const MultidimensionalRange &other :
-- 
2.43.0


From ec04c07f1be28c6223fde038c52e5d2ee03984d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:00 +0000
Subject: [PATCH 08/64] fix: removals from the R-tree lose elements and access
 freed nodes

The nodes to be visited or collapsed were recorded before modifying the tree,
and used after having been erased, moved or split. The objects of the collapsed
nodes were lost when the parent node had no more children.
---
 include/marco/Modeling/RTree.h | 243 +++++++++++++++++----------------
 lib/Modeling/IndexSet.cpp      |  30 ++--
 2 files changed, 138 insertions(+), 135 deletions(-)

diff --git a/include/marco/Modeling/RTree.h b/include/marco/Modeling/RTree.h
index 47318da..b0c771c 100644
--- a/include/marco/Modeling/RTree.h
+++ b/include/marco/Modeling/RTree.h
@@ -603,21 +603,7 @@ public:
 
     assert(shape.rank() == allowedRank && "Incompatible rank");
 
-    if (!getRoot()) {
-      Node *newRoot = setRoot(std::make_unique<Node>(nullptr, shape));
-      newRoot->add(std::move(obj));
-      postObjectInsertionHook(*newRoot);
-    } else {
-      // Find position for the new object.
-      Node *node = chooseLeaf(getRoot(), shape);
-
-      // Add the object to the leaf node.
-      node->add(std::move(obj));
-      postObjectInsertionHook(*node);
-
-      // Split and collapse nodes, if necessary.
-      adjustTree(node);
-    }
+    insertObject(Object(std::move(obj)));
 
     // Check that all the invariants are respected.
     assert(isValid());
@@ -636,28 +622,17 @@ public:
     }
 
     const MultidimensionalRange &shape = getShape(obj);
-    llvm::SmallVector<Node *> overlappingLeafNodes;
-
-    walkOverlappingLeafNodes(
-        shape, [&](Node &node) { overlappingLeafNodes.push_back(&node); });
 
-    for (Node *node : overlappingLeafNodes) {
-      bool modified = false;
-      llvm::SmallVector<Object> newObjects;
+    // The structure of the tree may change after each removal. The leaves are
+    // therefore searched again after each modification.
+    while (Node *node = findOverlappingLeafNode(shape, [&](const Object &object) {
+             return RTreeInfo<T>::isEqual(obj, *object);
+           })) {
+      llvm::erase_if(node->objects, [&](const Object &object) {
+        return RTreeInfo<T>::isEqual(obj, *object);
+      });
 
-      for (Object &object : node->objects) {
-        if (RTreeInfo<T>::isEqual(obj, *object)) {
-          modified = true;
-        } else {
-          newObjects.push_back(std::move(object));
-        }
-      }
-
-      node->objects = std::move(newObjects);
-
-      if (modified) {
-        adjustTree(node);
-      }
+      adjustTree(node);
     }
   }
 
@@ -666,6 +641,11 @@ public:
       return;
     }
 
+    if (static_cast<const RTreeCRTP *>(&other) == this) {
+      clear();
+      return;
+    }
+
     using OverlappingNodePair = std::pair<const Node *, const Node *>;
     llvm::SmallVector<OverlappingNodePair> overlappingNodePairs;
     llvm::SmallVector<std::reference_wrapper<const Object>> overlappingObjects;
@@ -841,16 +821,21 @@ protected:
     while (nodes.size() > maxElements) {
       llvm::SmallVector<std::unique_ptr<Node>> newNodes;
 
-      for (size_t i = 0, e = nodes.size(); i < e; i += maxElements) {
+      // Evenly distribute the children, so that no parent node gets less than
+      // the minimum amount of elements.
+      size_t numOfParents = (nodes.size() + maxElements - 1) / maxElements;
+      size_t numOfChildren = nodes.size() / numOfParents;
+      size_t remainingChildren = nodes.size() % numOfParents;
+
+      for (size_t i = 0, position = 0; i < numOfParents; ++i) {
         auto &parent = newNodes.emplace_back(
-            std::make_unique<Node>(nullptr, nodes[i]->getBoundary()));
+            std::make_unique<Node>(nullptr, nodes[position]->getBoundary()));
 
-        for (size_t j = 0; j < maxElements; ++j) {
-          if (i + j >= e) {
-            break;
-          }
+        size_t last =
+            position + numOfChildren + (i < remainingChildren ? 1 : 0);
 
-          parent->add(std::move(nodes[i + j]));
+        for (; position < last; ++position) {
+          parent->add(std::move(nodes[position]));
         }
 
         parent->recalcBoundary();
@@ -892,6 +877,61 @@ protected:
     return root.get();
   }
 
+  /// Insert an object into the tree.
+  void insertObject(Object object) {
+    if (!getRoot()) {
+      Node *newRoot =
+          setRoot(std::make_unique<Node>(nullptr, object.getBoundary()));
+
+      newRoot->add(std::move(object));
+      postObjectInsertionHook(*newRoot);
+      return;
+    }
+
+    // Find position for the new object.
+    Node *node = chooseLeaf(getRoot(), object.getBoundary());
+
+    // Add the object to the leaf node.
+    node->add(std::move(object));
+    postObjectInsertionHook(*node);
+
+    // Split and collapse nodes, if necessary.
+    adjustTree(node);
+  }
+
+  /// Get a leaf node having at least an object that overlaps the range and
+  /// satisfies the given condition. Return a null pointer if there is none.
+  Node *findOverlappingLeafNode(
+      const MultidimensionalRange &range,
+      llvm::function_ref<bool(const Object &)> condition) {
+    llvm::SmallVector<Node *> nodes;
+
+    if (getRoot()) {
+      nodes.push_back(getRoot());
+    }
+
+    while (!nodes.empty()) {
+      Node *node = nodes.pop_back_val();
+
+      if (!node->getBoundary().overlaps(range)) {
+        continue;
+      }
+
+      if (llvm::any_of(node->objects, [&](const Object &object) {
+            return object.getBoundary().overlaps(range) && condition(object);
+          })) {
+        return node;
+      }
+
+      for (auto &child :
+           llvm::make_range(node->children.rbegin(), node->children.rend())) {
+        nodes.push_back(child.get());
+      }
+    }
+
+    return nullptr;
+  }
+
   /// Update the boundary of a given node and propagate changes upwards in the
   /// tree.
   static void updateBoundaries(Node *node) {
@@ -1041,94 +1081,57 @@ protected:
     return result;
   }
 
-  /// Collapse a node and its ancestors, if needed. The remaining objects and
-  /// subtrees are relocated.
+  /// Collapse a node and its ancestors, if needed. The objects of the removed
+  /// subtrees are inserted again into the tree.
   void collapseNodeAndPropagate(Node *node) {
-    if (node->isRoot()) {
-      return;
+    llvm::SmallVector<Object> objectsToRelocate;
+
+    // Remove the nodes with too few elements, from the bottom to the top.
+    while (!node->isRoot() && node->fanOut() < minElements) {
+      collectObjects(*node, objectsToRelocate);
+
+      // The node itself will be erased, and any usage of 'node' will be
+      // invalid. Therefore, we need to store the reference to the parent
+      // elsewhere.
+      Node *parent = node->getParent();
+      removeChild(parent, node);
+      node = parent;
     }
 
-    // Additional nodes to be collapsed may be obtained during the process.
-    llvm::SmallVector<Node *> nodesToCollapse;
-    nodesToCollapse.push_back(node);
-
-    while (!nodesToCollapse.empty()) {
-      node = nodesToCollapse.pop_back_val();
-
-      // Move the objects out of the node being removed.
-      // This is done only once, as the nodes that will be possibly visited
-      // later will not be leaves.
-      llvm::SmallVector<Object> objectsToRelocate = std::move(node->objects);
-
-      while (!node->isRoot() && node->fanOut() < minElements) {
-        // The nodes to be relocated.
-        llvm::SmallVector<std::unique_ptr<Node>> nodesToRelocate;
-
-        // Move the objects out of the node being removed.
-        for (auto &child : node->children) {
-          nodesToRelocate.push_back(std::move(child));
-        }
-
-        // Remove the node from the list of children of the parent.
-        // The node itself will be erased, and any usage of 'node' will be
-        // invalid. Therefore, we need to store the reference to the parent
-        // elsewhere.
-        Node *parent = node->getParent();
-        removeChild(parent, node);
-
-        // Relocate the orphaned objects.
-        if (!objectsToRelocate.empty() && !parent->children.empty()) {
-          for (Object &object : objectsToRelocate) {
-            // Find the new position.
-            Node *destination = chooseLeaf(parent, object.getBoundary());
-
-            // Add the value to the leaf node.
-            destination->add(std::move(object));
-            postObjectInsertionHook(*destination);
-
-            if (destination->fanOut() > maxElements) {
-              // Split the node.
-              splitNodeAndPropagate(destination);
-            } else if (destination->fanOut() < minElements) {
-              // Schedule the node for removal.
-              nodesToCollapse.push_back(destination);
-            } else {
-              updateBoundaries(destination);
-            }
-          }
+    if (node->fanOut() == 0) {
+      // Only the root is allowed to get here without any element.
+      assert(node->isRoot());
+      setRoot(nullptr);
+    } else {
+      updateBoundaries(node);
 
-          objectsToRelocate.clear();
-        }
+      while (getRoot()->children.size() == 1) {
+        std::unique_ptr<Node> newRoot = std::move(getRoot()->children.front());
+        setRoot(std::move(newRoot));
+      }
+    }
 
-        // Relocate the orphaned nodes.
-        for (auto &nodeToRelocate : nodesToRelocate) {
-          // Find the new position.
-          Node *destination = chooseDestinationNode(
-              parent->children, nodeToRelocate->getBoundary());
+    // Relocate the orphaned objects.
+    for (Object &object : objectsToRelocate) {
+      insertObject(std::move(object));
+    }
+  }
 
-          // Add the value to the leaf node.
-          destination->add(std::move(nodeToRelocate));
+  /// Move the objects out of a subtree.
+  static void collectObjects(Node &subtree,
+                             llvm::SmallVectorImpl<Object> &objects) {
+    llvm::SmallVector<Node *> nodes;
+    nodes.push_back(&subtree);
 
-          if (destination->fanOut() > maxElements) {
-            // Split the node.
-            splitNodeAndPropagate(destination);
-          } else {
-            updateBoundaries(destination);
-          }
-        }
+    while (!nodes.empty()) {
+      Node *node = nodes.pop_back_val();
 
-        // Move towards the root of the tree.
-        node = parent;
+      for (Object &object : node->objects) {
+        objects.push_back(std::move(object));
       }
 
-      // Update the boundaries.
-      updateBoundaries(node);
-
-      assert(objectsToRelocate.empty() &&
-             "Not all objects have been relocated");
-
-      if (getRoot() && getRoot()->children.size() == 1) {
-        setRoot(std::move(getRoot()->children.front()));
+      for (auto &child : node->children) {
+        nodes.push_back(child.get());
       }
     }
   }
diff --git a/lib/Modeling/IndexSet.cpp b/lib/Modeling/IndexSet.cpp
index d585ef7..fce259a 100644
--- a/lib/Modeling/IndexSet.cpp
+++ b/lib/Modeling/IndexSet.cpp
@@ -312,32 +312,32 @@ void IndexSet::remove(const MultidimensionalRange &other) {
     return;
   }
 
-  llvm::SmallVector<Node *> overlappingNodes;
+  // The structure of the tree may change after each removal. The leaves are
+  // therefore searched again after each modification, and the remaining parts
+  // of the removed ranges are inserted only at the end.
+  llvm::SmallVector<MultidimensionalRange> differences;
 
-  walkOverlappingLeafNodes(
-      other, [&](Node &node) { overlappingNodes.push_back(&node); });
-
-  for (Node *node : overlappingNodes) {
+  while (Node *node = findOverlappingLeafNode(
+             other, [](const Object &object) { return true; })) {
     assert(node->isLeaf());
-    bool modified = false;
-
-    llvm::SmallVector<Object> differences;
+    llvm::SmallVector<Object> remaining;
 
     for (Object &value : node->objects) {
       if (value->overlaps(other)) {
-        modified = true;
         llvm::append_range(differences, value->subtract(other));
       } else {
-        differences.emplace_back(std::move(value));
+        remaining.push_back(std::move(value));
       }
     }
 
-    node->objects = std::move(differences);
+    node->objects = std::move(remaining);
 
-    if (modified) {
-      // Split and collapse nodes, if necessary.
-      adjustTree(node);
-    }
+    // Split and collapse nodes, if necessary.
+    adjustTree(node);
+  }
+
+  for (MultidimensionalRange &difference : differences) {
+    RTreeCRTP::insert(std::move(difference));
   }
 
   assert(isValid());
-- 
2.43.0


From 23366e61432fffaa7ac7746192c2910717e06293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:49 +0000
Subject: [PATCH 09/64] fix: equations components overlapping, cyclically
 dependent or splitting an algebraic loop

---
 include/marco/Modeling/DependencyGraph.h | 194 ++++++++++++++++-------
 1 file changed, 134 insertions(+), 60 deletions(-)

diff --git a/include/marco/Modeling/DependencyGraph.h b/include/marco/Modeling/DependencyGraph.h
index 1a76155..c7cf516 100644
--- a/include/marco/Modeling/DependencyGraph.h
+++ b/include/marco/Modeling/DependencyGraph.h
@@ -380,45 +380,49 @@ public:
         addCycleAndSplit(partitionedCycles, std::move(cycle));
       }
 
-      assert(checkEquationsPartitioning(partitionedCycles) &&
-             "Found overlapping and non-equal equation indices");
-
       using PartitionsGraph =
           internal::dependency::SingleEntryWeaklyConnectedDigraph<EquationView>;
 
-      using Partition = typename PartitionsGraph::VertexDescriptor;
       PartitionsGraph partitionsGraph;
-      llvm::DenseMap<EquationView, Partition> partitionsMap;
 
-      // Add the nodes.
-      for (const Path &path : partitionedCycles) {
-        for (const PathDependency &pathDependency : path) {
-          EquationView equationView(pathDependency.equation,
-                                    pathDependency.equationIndices);
+      // Partition the indices of the equations according to the cycles they
+      // belong to. Splitting a cycle may lead to components that still overlap,
+      // for example when the accesses are not one-to-one.
+      for (const EquationDescriptor &equation : scc) {
+        llvm::SmallVector<IndexSet> partitions;
 
-          if (!partitionsMap.contains(equationView)) {
-            auto vertexDescriptor = partitionsGraph.addVertex(equationView);
-            partitionsMap[equationView] = vertexDescriptor;
+        for (const Path &path : partitionedCycles) {
+          for (const PathDependency &pathDependency : path) {
+            if (pathDependency.equation == equation) {
+              addPartition(partitions, pathDependency.equationIndices);
+            }
           }
         }
-      }
 
-      // Add the edges.
-      for (const Path &path : partitionedCycles) {
-        EquationView first(path[0].equation, path[0].equationIndices);
-        EquationView source = first;
+        // The indices that are not part of any cycle form a separate partition.
+        IndexSet remainingIndices =
+            arrayDependencyGraph.getEquation(equation).getIterationRanges();
+
+        for (IndexSet &partition : partitions) {
+          remainingIndices -= partition;
 
-        for (size_t i = 1, e = path.size(); i < e; ++i) {
-          EquationView destination(path[i].equation, path[i].equationIndices);
-          partitionsGraph.addEdge(partitionsMap[source],
-                                  partitionsMap[destination]);
-          source = std::move(destination);
+          partitionsGraph.addVertex(
+              EquationView(equation, std::move(partition)));
         }
 
-        partitionsGraph.addEdge(partitionsMap[source], partitionsMap[first]);
+        if (!remainingIndices.empty()) {
+          partitionsGraph.addVertex(
+              EquationView(equation, std::move(remainingIndices)));
+        }
       }
 
-      // Create the cyclic SCCs.
+      // Add the dependencies among the partitions. The ones along the cycles
+      // would not be sufficient: partitions belonging to different cycles, and
+      // the indices left out of them, may in turn depend on each other.
+      addPartitionsDependencies(partitionsGraph, cachedWriteAccesses,
+                                cachedReadAccesses);
+
+      // Create the SCCs.
       auto sccBeginIt = llvm::scc_begin(
           static_cast<const PartitionsGraph *>(&partitionsGraph));
 
@@ -439,57 +443,127 @@ public:
           result.push_back(std::move(partitionsSCC));
         }
       }
+    };
 
-      // Create the SCCs for the remaining indices.
-      for (const EquationDescriptor &equation : scc) {
-        IndexSet remainingEquationIndices =
-            arrayDependencyGraph.getEquation(equation).getIterationRanges();
+    mlir::parallelForEach(getContext(), SCCs, processFn);
+    return result;
+  }
+
+private:
+  /// Add an edge from each partition to the other ones writing the variables
+  /// it reads.
+  template <typename PartitionsGraph>
+  void
+  addPartitionsDependencies(PartitionsGraph &partitionsGraph,
+                            const CachedAccesses &cachedWriteAccesses,
+                            const CachedAccesses &cachedReadAccesses) const {
+    using Partition = typename PartitionsGraph::VertexDescriptor;
+    llvm::SmallVector<Partition> partitions;
+
+    llvm::append_range(partitions,
+                       llvm::make_range(partitionsGraph.verticesBegin(),
+                                        partitionsGraph.verticesEnd()));
+
+    if (partitions.size() <= 1) {
+      return;
+    }
+
+    // Collect the indices written by each partition, grouped by variable.
+    using VariableId = typename Variable::Id;
+
+    llvm::MapVector<VariableId,
+                    llvm::SmallVector<std::pair<Partition, IndexSet>>>
+        writes;
+
+    for (Partition partition : partitions) {
+      const EquationView &view = partitionsGraph[partition];
+      auto writeAccessesIt = cachedWriteAccesses.find(*view);
+
+      if (writeAccessesIt == cachedWriteAccesses.end() ||
+          writeAccessesIt->second.empty()) {
+        continue;
+      }
+
+      IndexSet writtenIndices;
 
-        remainingEquationIndices -= visitedEquationIndices[equation];
+      for (const Access &access : writeAccessesIt->second) {
+        writtenIndices += access.getAccessFunction().map(view.getIndices());
+      }
+
+      writes[writeAccessesIt->second.front().getVariable()].emplace_back(
+          partition, std::move(writtenIndices));
+    }
 
-        if (!remainingEquationIndices.empty()) {
-          std::lock_guard<std::mutex> lock(resultMutex);
-          SCC &remainingIndicesSCC = result.emplace_back();
+    // Connect the partitions to the ones they depend on.
+    for (Partition partition : partitions) {
+      const EquationView &view = partitionsGraph[partition];
+      llvm::MapVector<VariableId, IndexSet> reads;
 
-          remainingIndicesSCC.addEquation(
-              EquationView(equation, std::move(remainingEquationIndices)));
+      if (auto readAccessesIt = cachedReadAccesses.find(*view);
+          readAccessesIt != cachedReadAccesses.end()) {
+        for (const Access &access : readAccessesIt->second) {
+          reads[access.getVariable()] +=
+              access.getAccessFunction().map(view.getIndices());
         }
       }
-    };
 
-    mlir::parallelForEach(getContext(), SCCs, processFn);
-    return result;
-  }
+      // The write accesses may refer to indices that are written by the other
+      // partitions of the same equation.
+      if (auto writeAccessesIt = cachedWriteAccesses.find(*view);
+          writeAccessesIt != cachedWriteAccesses.end()) {
+        for (const Access &access : writeAccessesIt->second) {
+          reads[access.getVariable()] +=
+              access.getAccessFunction().map(view.getIndices());
+        }
+      }
 
-private:
-  [[maybe_unused, nodiscard]] bool
-  checkEquationsPartitioning(llvm::ArrayRef<Path> cycles) const {
-    auto checkEquationFn = [&](EquationDescriptor equation,
-                               const IndexSet &indices) {
-      for (const Path &path : cycles) {
-        for (const PathDependency &pathDependency : path) {
-          if (pathDependency.equation == equation) {
-            if (pathDependency.equationIndices.overlaps(indices) &&
-                pathDependency.equationIndices != indices) {
-              return false;
-            }
+      for (const auto &[variable, readIndices] : reads) {
+        auto writesIt = writes.find(variable);
+
+        if (writesIt == writes.end()) {
+          continue;
+        }
+
+        for (const auto &[writingPartition, writtenIndices] :
+             writesIt->second) {
+          if (writingPartition != partition &&
+              readIndices.overlaps(writtenIndices)) {
+            partitionsGraph.addEdge(partition, writingPartition);
           }
         }
       }
+    }
+  }
 
-      return true;
-    };
+  /// Add some indices to a list of disjoint sets of indices, by splitting the
+  /// ones that are partially overlapped.
+  void addPartition(llvm::SmallVectorImpl<IndexSet> &partitions,
+                    IndexSet indices) const {
+    llvm::SmallVector<IndexSet> result;
 
-    for (const Path &path : cycles) {
-      for (const PathDependency &pathDependency : path) {
-        if (!checkEquationFn(pathDependency.equation,
-                             pathDependency.equationIndices)) {
-          return false;
-        }
+    for (IndexSet &partition : partitions) {
+      IndexSet common = partition.intersect(indices);
+
+      if (common.empty()) {
+        result.push_back(std::move(partition));
+        continue;
       }
+
+      IndexSet difference = partition - common;
+
+      if (!difference.empty()) {
+        result.push_back(std::move(difference));
+      }
+
+      indices -= common;
+      result.push_back(std::move(common));
+    }
+
+    if (!indices.empty()) {
+      result.push_back(std::move(indices));
     }
 
-    return true;
+    partitions = std::move(result);
   }
 
   void getEquationsCycles(
-- 
2.43.0


From 3a01777d522d1c60d7bd6849277d73bf4d29e464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:49 +0000
Subject: [PATCH 10/64] fix: endless search of cycles for loops within an array
 equation

---
 include/marco/Modeling/DependencyGraph.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/marco/Modeling/DependencyGraph.h b/include/marco/Modeling/DependencyGraph.h
index c7cf516..13be2f7 100644
--- a/include/marco/Modeling/DependencyGraph.h
+++ b/include/marco/Modeling/DependencyGraph.h
@@ -721,6 +721,17 @@ private:
                   }
 
                   cycles.push_back(std::move(*cycle));
+                } else if (llvm::any_of(
+                               extendedPath,
+                               [&](const PathDependency &dependency) {
+                                 return dependency.equation ==
+                                            writingEquation &&
+                                        dependency.equationIndices.contains(
+                                            writingEquationIndices);
+                               })) {
+                  // The path keeps looping within the same array equation.
+                  // The indices have already been explored.
+                  return;
                 }
 
                 getEquationsCycles(cycles, writesMap, cachedWriteAccesses,
-- 
2.43.0


From 8db4c54ffb0acc4fe62270fddb2ff64aba81611a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:44 +0000
Subject: [PATCH 11/64] fix: inversion of constant accesses on partially
 requested variables

---
 lib/Modeling/AccessFunctionAffineConstant.cpp | 2 +-
 lib/Modeling/AccessFunctionConstant.cpp       | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/Modeling/AccessFunctionAffineConstant.cpp b/lib/Modeling/AccessFunctionAffineConstant.cpp
index 06e702d..fc648f9 100644
--- a/lib/Modeling/AccessFunctionAffineConstant.cpp
+++ b/lib/Modeling/AccessFunctionAffineConstant.cpp
@@ -89,7 +89,7 @@ AccessFunctionAffineConstant::inverseMap(const IndexSet &accessedIndices,
     return {};
   }
 
-  if (expectedAccessedIndices.contains(accessedIndices)) {
+  if (accessedIndices.contains(expectedAccessedIndices)) {
     return parentIndices;
   }
 
diff --git a/lib/Modeling/AccessFunctionConstant.cpp b/lib/Modeling/AccessFunctionConstant.cpp
index fe7f6bd..27b1872 100644
--- a/lib/Modeling/AccessFunctionConstant.cpp
+++ b/lib/Modeling/AccessFunctionConstant.cpp
@@ -65,7 +65,8 @@ AccessFunctionConstant::inverseMap(const IndexSet &accessedIndices,
     return {};
   }
 
-  if (expectedAccessedIndices.contains(accessedIndices)) {
+  if (expectedAccessedIndices.empty() ||
+      expectedAccessedIndices.overlaps(accessedIndices)) {
     return parentIndices;
   }
 
-- 
2.43.0


From 33517f17d56a55e45e395a64153adeec0164cb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:44 +0000
Subject: [PATCH 12/64] fix: composition of accesses drops the sets of the
 left-hand side

---
 lib/Modeling/AccessFunction.cpp | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/lib/Modeling/AccessFunction.cpp b/lib/Modeling/AccessFunction.cpp
index bb03705..7678651 100644
--- a/lib/Modeling/AccessFunction.cpp
+++ b/lib/Modeling/AccessFunction.cpp
@@ -140,9 +140,6 @@ AccessFunction::combine(const AccessFunction &other) const {
   // the left-hand side.
   auto rhsWithExtraDimensions = other.getWithGivenDimensions(getNumOfResults());
 
-  size_t rhsExtraDimensions =
-      rhsWithExtraDimensions->getNumOfDims() - other.getNumOfDims();
-
   // Get the affine map of the right-hand side and keep track of the
   // additional dimensions added in the process.
   DimensionAccess::FakeDimensionsMap rhsFakeDimensionsMap;
@@ -154,37 +151,30 @@ AccessFunction::combine(const AccessFunction &other) const {
 
   // The fake dimensions of the right-hand side must be added to the
   // left-hand side and forwarded as results.
-  auto lhsWithExtraDimensions =
-      this->getWithGivenDimensions(getNumOfDims() + rhsFakeDimensionsCount);
-
-  llvm::SmallVector<std::unique_ptr<DimensionAccess>> lhsExtendedResults;
+  size_t lhsDimensionsCount = getNumOfDims() + rhsFakeDimensionsCount;
+  DimensionAccess::FakeDimensionsMap resultFakeDimensionsMap;
+  llvm::SmallVector<mlir::AffineExpr> lhsExtendedResults;
 
   for (const auto &result : getGeneralizedAccesses()) {
-    lhsExtendedResults.push_back(result->clone());
+    lhsExtendedResults.push_back(
+        result->getAffineExpr(lhsDimensionsCount, resultFakeDimensionsMap));
   }
 
   for (size_t i = 0; i < rhsFakeDimensionsCount; ++i) {
-    lhsExtendedResults.push_back(std::make_unique<DimensionAccessDimension>(
-        getContext(), getNumOfDims() + i));
+    lhsExtendedResults.push_back(
+        mlir::getAffineDimExpr(getNumOfDims() + i, getContext()));
   }
 
-  auto lhsWithExtraResults = AccessFunction::build(
-      getContext(), lhsWithExtraDimensions->getNumOfDims(), lhsExtendedResults);
-
-  // Get the left-hand side affine map.
-  DimensionAccess::FakeDimensionsMap lhsFakeDimensionsMap;
-
   auto lhsAffineMap =
-      lhsWithExtraResults->getExtendedAffineMap(lhsFakeDimensionsMap);
+      mlir::AffineMap::get(lhsDimensionsCount + resultFakeDimensionsMap.size(),
+                           0, lhsExtendedResults, getContext());
 
   // Compose the accesses.
   mlir::AffineMap combinedAffineMap = rhsAffineMap.compose(lhsAffineMap);
 
   // Determine the fake dimensions of the result.
-  DimensionAccess::FakeDimensionsMap resultFakeDimensionsMap;
-
   for (size_t i = 0; i < rhsFakeDimensionsCount; ++i) {
-    size_t rhsDimension = other.getNumOfDims() + rhsExtraDimensions + i;
+    size_t rhsDimension = rhsWithExtraDimensions->getNumOfDims() + i;
     size_t lhsDimension = getNumOfDims() + i;
 
     resultFakeDimensionsMap[lhsDimension] = rhsFakeDimensionsMap[rhsDimension];
-- 
2.43.0


From 918cbf748aa4b772bc1fca984319d3fa431848bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:44 +0000
Subject: [PATCH 13/64] fix: generic accesses with dependent iteration spaces
 are mapped multiple times

---
 lib/Modeling/AccessFunctionGeneric.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Modeling/AccessFunctionGeneric.cpp b/lib/Modeling/AccessFunctionGeneric.cpp
index 852d309..1e8ef95 100644
--- a/lib/Modeling/AccessFunctionGeneric.cpp
+++ b/lib/Modeling/AccessFunctionGeneric.cpp
@@ -219,6 +219,8 @@ IndexSet AccessFunctionGeneric::map(const Point &point) const {
   if (!iterationSpacesWithDependencies.empty()) {
     map(mappedIndices, point, iterationSpacesWithDependencies, 0,
         currentIterationSpacePoint);
+
+    return mappedIndices;
   }
 
   // No dependencies among iteration spaces.
@@ -249,6 +251,8 @@ void AccessFunctionGeneric::map(
       map(mappedIndices, point, iterationSpaces, currentIterationSpace + 1,
           currentIterationSpacePoint);
     }
+
+    return;
   }
 
   IndexSet currentMappedIndices;
-- 
2.43.0


From b68bc99b809f506c26bbe4399d5ef1fff5be17e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:44 +0000
Subject: [PATCH 14/64] fix: comparison of generic accesses with a different
 number of results

---
 lib/Modeling/AccessFunctionGeneric.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Modeling/AccessFunctionGeneric.cpp b/lib/Modeling/AccessFunctionGeneric.cpp
index 1e8ef95..f9f8174 100644
--- a/lib/Modeling/AccessFunctionGeneric.cpp
+++ b/lib/Modeling/AccessFunctionGeneric.cpp
@@ -75,7 +75,8 @@ bool AccessFunctionGeneric::operator==(const AccessFunction &other) const {
 
 bool AccessFunctionGeneric::operator==(
     const AccessFunctionGeneric &other) const {
-  if (numOfDimensions != other.numOfDimensions) {
+  if (numOfDimensions != other.numOfDimensions ||
+      results.size() != other.results.size()) {
     return false;
   }
 
-- 
2.43.0


From ed90bb5ba177971ed66dd620b9986b4f1258a34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:44 +0000
Subject: [PATCH 15/64] fix: division of negative accesses truncates instead of
 flooring

---
 lib/Modeling/DimensionAccessDiv.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Modeling/DimensionAccessDiv.cpp b/lib/Modeling/DimensionAccessDiv.cpp
index 814b389..e118ab5 100644
--- a/lib/Modeling/DimensionAccessDiv.cpp
+++ b/lib/Modeling/DimensionAccessDiv.cpp
@@ -1,4 +1,5 @@
 #include "marco/Modeling/DimensionAccessDiv.h"
+#include "llvm/Support/MathExtras.h"
 #include "llvm/Support/raw_ostream.h"
 
 using namespace ::marco::modeling;
@@ -128,7 +129,8 @@ IndexSet DimensionAccessDiv::map(
       coordinates.clear();
 
       for (size_t i = 0, e = mappedLhsPoint.rank(); i < e; ++i) {
-        coordinates.push_back(mappedLhsPoint[i] / mappedRhsPoint[i]);
+        coordinates.push_back(
+            llvm::divideFloorSigned(mappedLhsPoint[i], mappedRhsPoint[i]));
       }
 
       result += Point(coordinates);
-- 
2.43.0


From dc0a78db9472347df8d653173a77f059223e29cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:44 +0000
Subject: [PATCH 16/64] fix: remainders introduced by the simplification of
 accesses are not handled

---
 lib/Modeling/DimensionAccess.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/lib/Modeling/DimensionAccess.cpp b/lib/Modeling/DimensionAccess.cpp
index 22b1cc6..2d574c1 100644
--- a/lib/Modeling/DimensionAccess.cpp
+++ b/lib/Modeling/DimensionAccess.cpp
@@ -90,6 +90,13 @@ DimensionAccess::build(mlir::AffineExpr expression) {
           binaryExpr.getContext(), DimensionAccess::build(binaryExpr.getLHS()),
           DimensionAccess::build(binaryExpr.getRHS()));
     }
+
+    if (kind == mlir::AffineExprKind::Mod) {
+      // The simplification of affine expressions may introduce remainders.
+      auto lhs = DimensionAccess::build(binaryExpr.getLHS());
+      auto rhs = DimensionAccess::build(binaryExpr.getRHS());
+      return *lhs - *(*(*lhs / *rhs) * *rhs);
+    }
   }
 
   llvm_unreachable("Unexpected expression type");
@@ -146,6 +153,17 @@ DimensionAccess::getDimensionAccessFromExtendedMap(
           DimensionAccess::getDimensionAccessFromExtendedMap(
               binaryExpr.getRHS(), fakeDimensionsMap));
     }
+
+    if (kind == mlir::AffineExprKind::Mod) {
+      // The simplification of affine expressions may introduce remainders.
+      auto lhs = DimensionAccess::getDimensionAccessFromExtendedMap(
+          binaryExpr.getLHS(), fakeDimensionsMap);
+
+      auto rhs = DimensionAccess::getDimensionAccessFromExtendedMap(
+          binaryExpr.getRHS(), fakeDimensionsMap);
+
+      return *lhs - *(*(*lhs / *rhs) * *rhs);
+    }
   }
 
   llvm_unreachable("Unexpected expression type");
-- 
2.43.0


From cad5f3c9b3880b6e677a650965ffc8368da1690c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:44 +0000
Subject: [PATCH 17/64] fix: unsetting an element drops the unrelated groups of
 the incidence matrix

---
 lib/Modeling/MCIM.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Modeling/MCIM.cpp b/lib/Modeling/MCIM.cpp
index bfe676d..83c4538 100644
--- a/lib/Modeling/MCIM.cpp
+++ b/lib/Modeling/MCIM.cpp
@@ -461,10 +461,10 @@ void MCIM::unset(const Point &equation, const Point &variable) {
   std::vector<std::unique_ptr<MCIMGroup>> newGroups;
 
   for (auto &group : groups) {
-    if (group->unset(equation, variable)) {
-      if (!group->empty()) {
-        newGroups.push_back(std::move(group));
-      }
+    group->unset(equation, variable);
+
+    if (!group->empty()) {
+      newGroups.push_back(std::move(group));
     }
   }
 
-- 
2.43.0


From 7620b6828c877ba745809ce737a6ef7e2a157b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:44 +0000
Subject: [PATCH 18/64] fix: change of variable space mangles the points of
 incidence matrices

---
 lib/Modeling/MCIM.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/Modeling/MCIM.cpp b/lib/Modeling/MCIM.cpp
index 83c4538..5427729 100644
--- a/lib/Modeling/MCIM.cpp
+++ b/lib/Modeling/MCIM.cpp
@@ -187,14 +187,15 @@ void MCIM::setVariableSpace(std::shared_ptr<const IndexSet> newVariableSpace) {
     llvm::SmallVector<Range> ranges;
 
     IndexSet intersection = newVariableSpace->intersect(
-        multidimRange.takeFirstDimensions(newVariableSpace->rank()));
+        multidimRange.takeLastDimensions(newVariableSpace->rank()));
 
     for (const MultidimensionalRange &intersectionMultidimRange :
          llvm::make_range(intersection.rangesBegin(),
                           intersection.rangesEnd())) {
-      newPoints +=
-          intersectionMultidimRange.append(multidimRange.takeLastDimensions(
-              points.rank() - newVariableSpace->rank()));
+      newPoints += multidimRange
+                       .takeFirstDimensions(points.rank() -
+                                            newVariableSpace->rank())
+                       .append(intersectionMultidimRange);
     }
   }
 
-- 
2.43.0


From c2da33b949fa7b84f69d6d659c7abdc916e3970d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 19/64] fix: change of space of incidence matrices loses points
 and keeps stale elements

---
 lib/Modeling/MCIM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Modeling/MCIM.cpp b/lib/Modeling/MCIM.cpp
index 5427729..1c227ed 100644
--- a/lib/Modeling/MCIM.cpp
+++ b/lib/Modeling/MCIM.cpp
@@ -563,7 +563,7 @@ MCIM MCIM::withSpace(std::shared_ptr<const IndexSet> newEquationSpace,
   MCIM result(newEquationSpace, newVariableSpace);
 
   auto filterKeysFn = [&](const MCIMGroup &group) -> IndexSet {
-    if (!getVariableSpace().contains(*newVariableSpace)) {
+    if (!newVariableSpace->contains(getVariableSpace())) {
       auto filteredGroup = group.filterValues(*newVariableSpace);
       return filteredGroup->getKeys().intersect(*newEquationSpace);
     }
-- 
2.43.0


From 564c5127d17a1241e34e041a2eaf0ad7db23fd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 20/64] fix: subtraction of incidence matrices keeps the points
 covered by groups

---
 lib/Modeling/MCIM.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/lib/Modeling/MCIM.cpp b/lib/Modeling/MCIM.cpp
index 1c227ed..f12c195 100644
--- a/lib/Modeling/MCIM.cpp
+++ b/lib/Modeling/MCIM.cpp
@@ -365,6 +365,23 @@ MCIM &MCIM::operator-=(const MCIM &rhs) {
     }
   }
 
+  // Remove the extra points that are covered by the groups.
+  for (const auto &rhsGroup : rhs.groups) {
+    if (points.empty()) {
+      break;
+    }
+
+    IndexSet candidates = points.intersect(
+        rhsGroup->getKeys().append(rhsGroup->getValues()));
+
+    for (Point point : candidates) {
+      if (rhsGroup->has(point.takeFront(getEquationSpace().rank()),
+                        point.takeBack(getVariableSpace().rank()))) {
+        points -= point;
+      }
+    }
+  }
+
   points -= rhs.points;
 
   assert(std::all_of(rhs.indicesBegin(), rhs.indicesEnd(),
@@ -581,7 +598,7 @@ MCIM MCIM::withSpace(std::shared_ptr<const IndexSet> newEquationSpace,
     }
   }
 
-  if (!result.points.empty()) {
+  if (!points.empty()) {
     result.points =
         points.intersect(newEquationSpace->append(*newVariableSpace));
   }
-- 
2.43.0


From 6a19d8be0cdf05ea1354e0166c17b26a2c6463d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 21/64] fix: local matching skips access functions and never
 ends

---
 lib/Modeling/LocalMatchingSolutionsVAF.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/Modeling/LocalMatchingSolutionsVAF.cpp b/lib/Modeling/LocalMatchingSolutionsVAF.cpp
index cf72495..6426ca4 100644
--- a/lib/Modeling/LocalMatchingSolutionsVAF.cpp
+++ b/lib/Modeling/LocalMatchingSolutionsVAF.cpp
@@ -400,7 +400,6 @@ void VAFSolutions::fetchNext() {
   if (generator == nullptr) {
     if (currentAccessFunction < accessFunctions.size()) {
       generator = getGenerator(*accessFunctions[currentAccessFunction++]);
-      ++currentAccessFunction;
     }
   }
 
-- 
2.43.0


From efcd29505fb438ab669bc4ce1c1a40ca8a5a8c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 22/64] fix: local matching ignores the constant accesses to
 multiple elements

---
 lib/Modeling/LocalMatchingSolutionsVAF.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Modeling/LocalMatchingSolutionsVAF.cpp b/lib/Modeling/LocalMatchingSolutionsVAF.cpp
index 6426ca4..e5798e9 100644
--- a/lib/Modeling/LocalMatchingSolutionsVAF.cpp
+++ b/lib/Modeling/LocalMatchingSolutionsVAF.cpp
@@ -487,7 +487,7 @@ VAFSolutions::getSolutionsAmount(const AccessFunctionAffineConstant &) const {
 
 size_t VAFSolutions::getSolutionsAmount(
     const AccessFunctionConstant &accessFunction) const {
-  return equationIndices->size() * accessFunction.map(IndexSet()).size();
+  return equationIndices->size() * accessFunction.map(*equationIndices).size();
 }
 
 size_t VAFSolutions::getSolutionsAmount(
-- 
2.43.0


From 463c6574a2f3ba6b4d2cc9a1de879a50b83c20f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 23/64] fix: comparator of access functions is not a strict
 weak ordering

---
 lib/Modeling/LocalMatchingSolutionsVAF.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Modeling/LocalMatchingSolutionsVAF.cpp b/lib/Modeling/LocalMatchingSolutionsVAF.cpp
index e5798e9..c376334 100644
--- a/lib/Modeling/LocalMatchingSolutionsVAF.cpp
+++ b/lib/Modeling/LocalMatchingSolutionsVAF.cpp
@@ -454,7 +454,7 @@ bool VAFSolutions::compareAccessFunctions(
   size_t lhsUniqueUsages = llvm::count_if(lhsUsages, counter);
   size_t rhsUniqueUsages = llvm::count_if(rhsUsages, counter);
 
-  return lhsUniqueUsages >= rhsUniqueUsages;
+  return lhsUniqueUsages > rhsUniqueUsages;
 }
 
 size_t
-- 
2.43.0


From 41d3dc35382163779a7a3da49e53a04789d9c599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 24/64] fix: incidence matrices bind together all the elements
 accessed by an equation

---
 lib/Modeling/MCIM.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/lib/Modeling/MCIM.cpp b/lib/Modeling/MCIM.cpp
index f12c195..9f5f862 100644
--- a/lib/Modeling/MCIM.cpp
+++ b/lib/Modeling/MCIM.cpp
@@ -1,5 +1,6 @@
 #include "marco/Modeling/MCIM.h"
 #include "marco/Modeling/AccessFunction.h"
+#include "marco/Modeling/AccessFunctionEmpty.h"
 #include "marco/Modeling/LocalMatchingSolutions.h"
 #include "llvm/ADT/iterator_range.h"
 #include "llvm/Support/Casting.h"
@@ -416,6 +417,22 @@ void MCIM::apply(const MultidimensionalRange &equations,
 void MCIM::apply(const IndexSet &equations, const AccessFunction &access) {
   assert(getEquationSpace().contains(equations));
 
+  if (!access.isAffine() && !access.isa<AccessFunctionEmpty>()) {
+    // The access function may map an equation to multiple variables. In this
+    // case the elements can't be represented by a group, because they would be
+    // all bound to the same key.
+    for (Point equation : equations) {
+      IndexSet variables =
+          access.map(equation).intersect(getVariableSpace());
+
+      if (!variables.empty()) {
+        points += IndexSet(equation).append(variables);
+      }
+    }
+
+    return;
+  }
+
   IndexSet filteredEquations = access.inverseMap(
       access.map(equations).intersect(getVariableSpace()), equations);
 
-- 
2.43.0


From e0c5f582ac583bef5d9285edf11d57bc62cb7b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:42 +0000
Subject: [PATCH 25/64] fix: scalar equations reading multiple elements have no
 dependencies

---
 include/marco/Modeling/ScalarEquationsDependencyGraph.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/marco/Modeling/ScalarEquationsDependencyGraph.h b/include/marco/Modeling/ScalarEquationsDependencyGraph.h
index 040c75f..3e10c39 100644
--- a/include/marco/Modeling/ScalarEquationsDependencyGraph.h
+++ b/include/marco/Modeling/ScalarEquationsDependencyGraph.h
@@ -268,13 +268,8 @@ private:
                  readIndices.rangesBegin(), readIndices.rangesEnd())) {
           writeInfosIt->second.walkOverlappingObjects(
               readIndicesRange, [&](const WriteInfo &writeInfo) {
-                const MultidimensionalRange &writtenIndices =
-                    writeInfo.getWrittenVariableIndices();
-
-                if (readIndices == writtenIndices) {
-                  std::lock_guard edgeLockGuard(graphMutex);
-                  graph->addEdge(equationDescriptor, writeInfo.getEquation());
-                }
+                std::lock_guard edgeLockGuard(graphMutex);
+                graph->addEdge(equationDescriptor, writeInfo.getEquation());
               });
         }
       }
-- 
2.43.0


From f8884d55494ba3155fc39ea478963448bb20c369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:42 +0000
Subject: [PATCH 26/64] fix: cycle search mishandles the reads of multiple
 elements

---
 include/marco/Modeling/DependencyGraph.h | 41 ++++++++++++++++++++----
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/include/marco/Modeling/DependencyGraph.h b/include/marco/Modeling/DependencyGraph.h
index 13be2f7..e4046b4 100644
--- a/include/marco/Modeling/DependencyGraph.h
+++ b/include/marco/Modeling/DependencyGraph.h
@@ -762,6 +762,30 @@ private:
     return writingEquationIndices;
   }
 
+  /// Get the subset of the equation indices that lead to a read of at least
+  /// one of the given indices of a variable.
+  IndexSet getReadingEquationIndices(const Access &readAccess,
+                                     const IndexSet &variableIndices,
+                                     const IndexSet &equationIndices) const {
+    const AccessFunction &accessFunction = readAccess.getAccessFunction();
+
+    if (accessFunction.isAffine()) {
+      return accessFunction.inverseMap(variableIndices, equationIndices);
+    }
+
+    // The function may access multiple elements at once, and the accesses that
+    // involve just some of the requested elements have to be preserved.
+    llvm::SmallVector<Point> points;
+
+    for (Point point : equationIndices) {
+      if (accessFunction.map(point).overlaps(variableIndices)) {
+        points.push_back(std::move(point));
+      }
+    }
+
+    return {points};
+  }
+
   void restrictPathIndicesForward(Path &path, size_t startingPoint) const {
     PathDependency *previous = &path[startingPoint];
 
@@ -769,7 +793,9 @@ private:
       PathDependency *current = &path[i];
 
       // Propagate the indices read by the previous equation.
-      current->writtenVariableIndices = previous->readVariableIndices;
+      current->writtenVariableIndices =
+          current->writtenVariableIndices.intersect(
+              previous->readVariableIndices);
 
       // Compute the indices of the equation that lead to that write access.
       IndexSet newEquationIndices =
@@ -784,8 +810,9 @@ private:
 
       current->equationIndices = std::move(newEquationIndices);
 
-      current->readVariableIndices =
-          current->readAccess.getAccessFunction().map(current->equationIndices);
+      current->readVariableIndices = current->readVariableIndices.intersect(
+          current->readAccess.getAccessFunction().map(
+              current->equationIndices));
 
       previous = current;
     }
@@ -804,8 +831,9 @@ private:
       // Compute the indices of the equation that lead to that read access.
       const Access &readAccess = current->readAccess;
 
-      IndexSet newEquationIndices = readAccess.getAccessFunction().inverseMap(
-          current->readVariableIndices, current->equationIndices);
+      IndexSet newEquationIndices =
+          getReadingEquationIndices(readAccess, current->readVariableIndices,
+                                    current->equationIndices);
 
       if (newEquationIndices == current->equationIndices) {
         // Stop iterating through the path.
@@ -953,7 +981,8 @@ private:
     node.equationIndices = indices;
     node.writtenVariableIndices =
         node.writeAccess.getAccessFunction().map(indices);
-    node.readVariableIndices = node.readAccess.getAccessFunction().map(indices);
+    node.readVariableIndices = node.readVariableIndices.intersect(
+        node.readAccess.getAccessFunction().map(indices));
   }
 };
 } // namespace marco::modeling
-- 
2.43.0


From 67a0e25451f79cacc49f69bfe17a48e0b80516f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:50 +0000
Subject: [PATCH 27/64] fix: report malformed expressions instead of
 dereferencing a null node

---
 lib/Parser/BaseModelica/Parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 3445248..9bd351e 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1457,7 +1457,11 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parsePrimary() {
     result = std::move(newResult);
   }
 
-  assert(result != nullptr);
+  if (!result) {
+    // No expression starts with the current token.
+    emitUnexpectedTokenError(lookahead[0], TokenKind::Identifier);
+    return std::nullopt;
+  }
 
   if (lookahead[0].isa<TokenKind::LSquare>()) {
     TRY(arraySubscripts, parseArraySubscripts());
-- 
2.43.0


From fc6238c35844a4f58ade7b001fa22a0e051819d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:50 +0000
Subject: [PATCH 28/64] fix: accept global component references in expressions

---
 lib/Parser/BaseModelica/Parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 9bd351e..e0e764d 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1439,7 +1439,8 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parsePrimary() {
     newResult->setArguments(functionCallArgs->getValue());
     result = std::move(newResult);
 
-  } else if (lookahead[0].isa<TokenKind::Identifier>()) {
+  } else if (lookahead[0].isa<TokenKind::Identifier>() ||
+             lookahead[0].isa<TokenKind::Dot>()) {
     TRY(identifier, parseComponentReference());
     loc.end = (*identifier)->getLocation().end;
 
-- 
2.43.0


From d348804afbf7859b988234dd9ee8ca9ee92c78ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:50 +0000
Subject: [PATCH 29/64] fix: endless parsing of malformed or interleaved class
 bodies

---
 lib/Parser/BaseModelica/Parser.cpp | 41 +++++++++++-------------------
 1 file changed, 15 insertions(+), 26 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index e0e764d..ef79c03 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -221,13 +221,9 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseClassDefinition() {
   llvm::SmallVector<std::unique_ptr<ASTNode>, 3> algorithms;
   llvm::SmallVector<std::unique_ptr<ASTNode>, 3> innerClasses;
 
-  // Whether the first elements list is allowed to be encountered or not.
-  // In fact, the class definition allows a first elements list definition
-  // and then others more if preceded by "public" or "protected", but no
-  // more "lone" definitions are allowed if any of those keywords are
-  // encountered.
-
-  bool firstElementListParsable = true;
+  // Whether the elements being encountered are public or protected. An elements
+  // list can be interleaved by nested classes, and thus be parsed in pieces.
+  bool publicSection = true;
 
   while (!lookahead[0].isa<TokenKind::End>() &&
          !lookahead[0].isa<TokenKind::Annotation>() &&
@@ -269,33 +265,26 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseClassDefinition() {
     }
 
     if (accept<TokenKind::Public>()) {
-      TRY(elementList, parseElementList(true));
-
-      for (auto &element : *elementList) {
-        members.push_back(std::move(element));
-      }
-
-      firstElementListParsable = false;
+      publicSection = true;
       continue;
     }
 
     if (accept<TokenKind::Protected>()) {
-      TRY(elementList, parseElementList(false));
-
-      for (auto &element : *elementList) {
-        members.push_back(std::move(element));
-      }
-
-      firstElementListParsable = false;
+      publicSection = false;
       continue;
     }
 
-    if (firstElementListParsable) {
-      TRY(elementList, parseElementList(true));
+    if (lookahead[0].isa<TokenKind::Initial>() ||
+        lookahead[0].isa<TokenKind::EndOfFile>()) {
+      // Neither a section nor an element.
+      emitUnexpectedTokenError(lookahead[0], TokenKind::End);
+      return std::nullopt;
+    }
+
+    TRY(elementList, parseElementList(publicSection));
 
-      for (auto &element : *elementList) {
-        members.push_back(std::move(element));
-      }
+    for (auto &element : *elementList) {
+      members.push_back(std::move(element));
     }
   }
 
-- 
2.43.0


From 8a8186c66fbb255423f9b7459948acc3a3f0c4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:50 +0000
Subject: [PATCH 30/64] fix: check the kind of a token before reading its text

---
 lib/Parser/BaseModelica/Parser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index ef79c03..fc32f1f 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1871,8 +1871,8 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseVariableType() {
   std::unique_ptr<ASTNode> result;
 
   const bool globalLookup = accept<TokenKind::Dot>();
-  const std::string name = lookahead[0].getString();
   EXPECT(TokenKind::Identifier);
+  const std::string name = getString();
   SourceRange loc = getLocation();
 
   if (name == "String") {
@@ -1892,9 +1892,9 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseVariableType() {
     path.push_back(name);
 
     while (accept<TokenKind::Dot>()) {
-      loc.end = lookahead[0].getLocation().end;
-      path.push_back(lookahead[0].getString());
       EXPECT(TokenKind::Identifier);
+      loc.end = getLocation().end;
+      path.push_back(getString());
     }
 
     result = std::make_unique<UserDefinedType>(loc);
@@ -1941,8 +1941,8 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseTermModification() {
 
   do {
     accept<TokenKind::Each>();
-    const std::string lastIndentifier = lookahead[0].getString();
     EXPECT(TokenKind::Identifier);
+    const std::string lastIndentifier = getString();
     EXPECT(TokenKind::EqualityOperator);
 
     if (lastIndentifier == "start") {
-- 
2.43.0


From c54da42105ee99750357b82a9dd584926a76a051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:50 +0000
Subject: [PATCH 31/64] fix: report redeclarations as unsupported instead of
 running into undefined behaviour

---
 lib/Parser/BaseModelica/Parser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index fc32f1f..d7e6864 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -496,13 +496,15 @@ Parser::parseElementModification(bool each, bool final) {
 }
 
 ParseResult<std::unique_ptr<ASTNode>> Parser::parseElementRedeclaration() {
-  llvm_unreachable("Not implemented");
+  // Not implemented.
+  emitUnexpectedTokenError(lookahead[0], TokenKind::Identifier);
   return std::nullopt;
 }
 
 ParseResult<std::unique_ptr<ASTNode>>
 Parser::parseElementReplaceable(bool each, bool final) {
-  llvm_unreachable("Not implemented");
+  // Not implemented.
+  emitUnexpectedTokenError(lookahead[0], TokenKind::Identifier);
   return std::nullopt;
 }
 
-- 
2.43.0


From a66a426cee5c20465769f5f1e88698de4e2ce09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:50 +0000
Subject: [PATCH 32/64] fix: reject derivative definitions of classes that are
 not functions

---
 lib/Parser/BaseModelica/Parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index d7e6864..f6a2940 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -187,9 +187,9 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseClassDefinition() {
   loc.end = name->getLocation().end;
   result->setLocation(loc);
 
-  if (accept<TokenKind::EqualityOperator>()) {
+  if (result->isa<StandardFunction>() &&
+      accept<TokenKind::EqualityOperator>()) {
     // Function derivative
-    assert(result->isa<StandardFunction>());
     EXPECT(TokenKind::Der);
     EXPECT(TokenKind::LPar);
 
-- 
2.43.0


From 38f7444d9f574845fba61f72f00c7b3fd49c3eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:50 +0000
Subject: [PATCH 33/64] fix: parse initial algorithm sections

---
 lib/Parser/BaseModelica/Parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index f6a2940..e189063 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -509,6 +509,7 @@ Parser::parseElementReplaceable(bool each, bool final) {
 }
 
 ParseResult<std::unique_ptr<ASTNode>> Parser::parseAlgorithmSection() {
+  const bool initial = accept<TokenKind::Initial>();
   EXPECT(TokenKind::Algorithm);
   SourceRange loc = getLocation();
 
@@ -517,6 +518,7 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseAlgorithmSection() {
   while (!lookahead[0].isa<TokenKind::End>() &&
          !lookahead[0].isa<TokenKind::Public>() &&
          !lookahead[0].isa<TokenKind::Protected>() &&
+         !lookahead[0].isa<TokenKind::Initial>() &&
          !lookahead[0].isa<TokenKind::Equation>() &&
          !lookahead[0].isa<TokenKind::Algorithm>() &&
          !lookahead[0].isa<TokenKind::External>() &&
@@ -529,6 +531,7 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseAlgorithmSection() {
   }
 
   auto result = std::make_unique<Algorithm>(loc);
+  result->setInitial(initial);
   result->setStatements(statements);
   return static_cast<std::unique_ptr<ASTNode>>(std::move(result));
 }
-- 
2.43.0


From 18a6d0aa1623ddf03fa2f0fd56f589c25e6de88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:50 +0000
Subject: [PATCH 34/64] fix: when-equations are closed by 'end when'

---
 lib/Parser/BaseModelica/Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index e189063..6b1cc8e 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -989,7 +989,7 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseWhenEquation() {
   }
 
   EXPECT(TokenKind::End);
-  EXPECT(TokenKind::If);
+  EXPECT(TokenKind::When);
   loc.end = getLocation().end;
 
   auto result = std::make_unique<WhenEquation>(loc);
-- 
2.43.0


From 3ac8c263ffb65468b714e3cf5ebfdcd39ebeea32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:50 +0000
Subject: [PATCH 35/64] fix: accept class annotations right after the elements

---
 lib/Parser/BaseModelica/Parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 6b1cc8e..58d07f3 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1793,6 +1793,7 @@ Parser::parseElementList(bool publicSection) {
          !lookahead[0].isa<TokenKind::Model>() &&
          !lookahead[0].isa<TokenKind::Package>() &&
          !lookahead[0].isa<TokenKind::Record>() &&
+         !lookahead[0].isa<TokenKind::Annotation>() &&
          !lookahead[0].isa<TokenKind::External>()) {
     TRY(member, parseElement(publicSection));
     EXPECT(TokenKind::Semicolon);
-- 
2.43.0


From f7903d477d7f52ca38ac8f5d7fd501a9e708712e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:50 +0000
Subject: [PATCH 36/64] fix: accept array dimensions given by expressions
 starting with an integer

---
 lib/Parser/BaseModelica/Parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 58d07f3..79897fd 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1929,7 +1929,9 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseArrayDimension() {
 
   if (accept<TokenKind::Colon>()) {
     result->setSize(-1);
-  } else if (lookahead[0].isa<TokenKind::Integer>()) {
+  } else if (lookahead[0].isa<TokenKind::Integer>() &&
+             (lookahead[1].isa<TokenKind::Comma>() ||
+              lookahead[1].isa<TokenKind::RSquare>())) {
     result->setSize(lookahead[0].getInt());
     EXPECT(TokenKind::Integer);
   } else {
-- 
2.43.0


From 91c65804e30c9b2e4267f4ebbca17e0dd78b59c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:51 +0000
Subject: [PATCH 37/64] fix: accept call statements without arguments

---
 lib/Parser/BaseModelica/Parser.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 79897fd..64efbbc 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -653,12 +653,9 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseStatement() {
 
   TRY(destination, parseComponentReference());
 
-  if (accept<TokenKind::LPar>()) {
+  if (lookahead[0].isa<TokenKind::LPar>()) {
     SourceRange loc = (*destination)->getLocation();
-    TRY(functionArguments, parseFunctionArguments());
-    EXPECT(TokenKind::RPar);
-
-    auto callee = std::make_unique<ComponentReference>(loc);
+    TRY(functionArguments, parseFunctionCallArgs());
     loc.end = getLocation().end;
     auto result = std::make_unique<CallStatement>(loc);
 
-- 
2.43.0


From 01da6a5e5475917e6ab4d1bd4e5155fc58b776b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:51 +0000
Subject: [PATCH 38/64] fix: reject missing and trailing commas in lists of
 expressions

---
 lib/Parser/BaseModelica/Parser.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 64efbbc..f45707c 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -377,13 +377,11 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseExternalFunctionCall() {
   // Function arguments.
   llvm::SmallVector<std::unique_ptr<ASTNode>> args;
 
-  while (!lookahead[0].isa<TokenKind::RPar>()) {
-    TRY(arg, parseExpression());
-    args.push_back(std::move(*arg));
-
-    if (!lookahead[0].isa<TokenKind::RPar>()) {
-      EXPECT(TokenKind::Comma);
-    }
+  if (!lookahead[0].isa<TokenKind::RPar>()) {
+    do {
+      TRY(arg, parseExpression());
+      args.push_back(std::move(*arg));
+    } while (accept<TokenKind::Comma>());
   }
 
   result->setArguments(std::move(args));
@@ -1717,7 +1715,10 @@ Parser::parseOutputExpressionList() {
 
     TRY(expression, parseExpression());
     expressions.push_back(std::move(*expression));
-    accept<TokenKind::Comma>();
+
+    if (!lookahead[0].isa<TokenKind::RPar>()) {
+      EXPECT(TokenKind::Comma);
+    }
   }
 
   SourceRange loc = getCursorLocation();
-- 
2.43.0


From 87d6abf1ec939867d76537326c36a387f24d3d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:51 +0000
Subject: [PATCH 39/64] fix: accept empty class modifications

---
 lib/Parser/BaseModelica/Parser.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index f45707c..b193d69 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -426,12 +426,18 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseModification() {
 ParseResult<std::unique_ptr<ASTNode>> Parser::parseClassModification() {
   EXPECT(TokenKind::LPar);
   SourceRange loc = getLocation();
-  TRY(argumentList, parseArgumentList());
+  std::vector<std::unique_ptr<ASTNode>> arguments;
+
+  if (!lookahead[0].isa<TokenKind::RPar>()) {
+    TRY(argumentList, parseArgumentList());
+    arguments = std::move(argumentList->getValue());
+  }
+
   EXPECT(TokenKind::RPar);
   loc.end = getLocation().end;
 
   auto result = std::make_unique<ClassModification>(loc);
-  result->setArguments(**argumentList);
+  result->setArguments(arguments);
   return static_cast<std::unique_ptr<ASTNode>>(std::move(result));
 }
 
-- 
2.43.0


From ffe6427691e044482e84dd02aa4f63d8b89fae6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:41 +0000
Subject: [PATCH 40/64] fix: null characters silently hide the rest of the
 source file

---
 include/marco/Lexer/Lexer.h        | 18 ++++++++++--------
 lib/Parser/BaseModelica/Parser.cpp |  7 +++++++
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/marco/Lexer/Lexer.h b/include/marco/Lexer/Lexer.h
index 6208016..ec1c615 100644
--- a/include/marco/Lexer/Lexer.h
+++ b/include/marco/Lexer/Lexer.h
@@ -3,7 +3,6 @@
 
 #include "marco/Lexer/Location.h"
 #include "llvm/ADT/StringRef.h"
-#include <functional>
 #include <memory>
 
 namespace marco::lexer {
@@ -62,11 +61,8 @@ public:
 
   explicit Lexer(std::shared_ptr<SourceFile> file)
       : StateMachine(file, *file->getBuffer()->getBufferStart()),
-        getNext([iter = file->getBuffer()->getBufferStart()]() mutable -> char {
-          iter++;
-          return *iter;
-        }),
-        lastChar(*file->getBuffer()->getBufferStart()) {}
+        iter(file->getBuffer()->getBufferStart()),
+        bufferEnd(file->getBuffer()->getBufferEnd()), lastChar(*iter) {}
 
   /// Advance the reading of the input text by one character until the state
   /// machine provides a token. The lexer will not be advanced if a string
@@ -78,7 +74,7 @@ public:
 
     while (!token) {
       if (lastChar != '\0') {
-        lastChar = getNext();
+        lastChar = *++iter;
       }
 
       token = StateMachine::step(lastChar);
@@ -87,6 +83,11 @@ public:
     return *token;
   }
 
+  /// Get whether the end of the input text has been reached. If not, despite the
+  /// end of file has been returned by the state machine, then the text contains
+  /// a string terminator and what follows it has not been read.
+  bool isEndOfBuffer() const { return iter == bufferEnd; }
+
   /// Returns a iterator operating on this lexer that has as value
   /// the current value of the state machine.
   detail::IteratorLexer<Lexer> begin() {
@@ -99,7 +100,8 @@ public:
   }
 
 private:
-  std::function<char()> getNext;
+  const char *iter;
+  const char *bufferEnd;
   char lastChar;
 };
 } // namespace marco::lexer
diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index b193d69..db84c96 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -99,6 +99,13 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseRoot() {
     classes.push_back(std::move(*classDefinition));
   }
 
+  if (!lexer.isEndOfBuffer()) {
+    // A null character is hiding the remaining part of the source.
+    emitUnexpectedTokenError(Token(TokenKind::Error, lookahead[0].getLocation()),
+                             TokenKind::EndOfFile);
+    return std::nullopt;
+  }
+
   auto root = std::make_unique<Root>(SourceRange::unknown());
   root->setInnerClasses(classes);
   return static_cast<std::unique_ptr<ASTNode>>(std::move(root));
-- 
2.43.0


From 434faeb99bd2089244e8c597d7e635141090d37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:41 +0000
Subject: [PATCH 41/64] fix: detect the end of multi-line comments, and
 comments that never end

---
 .../marco/Parser/BaseModelica/StateMachine.h  |  1 +
 lib/Parser/BaseModelica/StateMachine.cpp      | 22 +++++++++++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/marco/Parser/BaseModelica/StateMachine.h b/include/marco/Parser/BaseModelica/StateMachine.h
index 17855dd..f9a1a03 100644
--- a/include/marco/Parser/BaseModelica/StateMachine.h
+++ b/include/marco/Parser/BaseModelica/StateMachine.h
@@ -39,6 +39,7 @@ public:
     ParsingFloatExponent,
     ParsingString,
     ParsingSingleLineComment,
+    ParsingMultiLineCommentBegin,
     ParsingMultiLineComment,
     ParsingBackSlash,
     ParsingQIdentifierBackSlash,
diff --git a/lib/Parser/BaseModelica/StateMachine.cpp b/lib/Parser/BaseModelica/StateMachine.cpp
index 6f5c754..dbbf6b7 100644
--- a/lib/Parser/BaseModelica/StateMachine.cpp
+++ b/lib/Parser/BaseModelica/StateMachine.cpp
@@ -347,13 +347,24 @@ StateMachine::scan<StateMachine::State::ParsingSingleLineComment>() {
 
 template <>
 std::optional<Token>
-StateMachine::scan<StateMachine::State::ParsingMultiLineComment>() {
+StateMachine::scan<StateMachine::State::ParsingMultiLineCommentBegin>() {
+  // The asterisk opening the comment can't be also the one closing it.
   setTokenEndPosition();
+  state = State::ParsingMultiLineComment;
+  return std::nullopt;
+}
 
-  if (next == '\0') {
-    state = State::Normal;
+template <>
+std::optional<Token>
+StateMachine::scan<StateMachine::State::ParsingMultiLineComment>() {
+  if (current == '\0') {
+    state = State::End;
+    error = "reached end of file while parsing a comment";
+    return makeToken(TokenKind::Error, getError());
   }
 
+  setTokenEndPosition();
+
   if (current == '*' && next == '/') {
     state = State::IgnoredCharacter;
   }
@@ -518,7 +529,7 @@ std::optional<Token> StateMachine::scan<StateMachine::State::Normal>() {
   }
 
   if (current == '/' && next == '*') {
-    state = State::ParsingMultiLineComment;
+    state = State::ParsingMultiLineCommentBegin;
     return std::nullopt;
   }
 
@@ -663,6 +674,9 @@ std::optional<Token> StateMachine::step(char c) {
   case State::ParsingSingleLineComment:
     return scan<State::ParsingSingleLineComment>();
 
+  case State::ParsingMultiLineCommentBegin:
+    return scan<State::ParsingMultiLineCommentBegin>();
+
   case State::ParsingMultiLineComment:
     return scan<State::ParsingMultiLineComment>();
 
-- 
2.43.0


From 220d9047393658b02f7d8b127465ddcfca9dc728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:41 +0000
Subject: [PATCH 42/64] fix: floating point literals swallow the characters
 following them

---
 lib/Parser/BaseModelica/StateMachine.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/lib/Parser/BaseModelica/StateMachine.cpp b/lib/Parser/BaseModelica/StateMachine.cpp
index dbbf6b7..5b5505a 100644
--- a/lib/Parser/BaseModelica/StateMachine.cpp
+++ b/lib/Parser/BaseModelica/StateMachine.cpp
@@ -187,6 +187,12 @@ std::optional<Token> StateMachine::scan<StateMachine::State::ParsingNumber>() {
   }
 
   if (current == '.') {
+    if (!isDigit(next) && next != 'E' && next != 'e') {
+      // There are no fractional digits.
+      state = State::Normal;
+      return makeToken(TokenKind::FloatingPoint, getFloat());
+    }
+
     state = State::ParsingFloat;
     return std::nullopt;
   }
@@ -222,10 +228,7 @@ std::optional<Token> StateMachine::scan<StateMachine::State::ParsingNumber>() {
 
 template <>
 std::optional<Token> StateMachine::scan<StateMachine::State::ParsingFloat>() {
-  if (std::isspace(current) || current == '\0') {
-    state = State::Normal;
-    return makeToken(TokenKind::FloatingPoint, getFloat());
-  }
+  setTokenEndPosition();
 
   if (isDigit(current)) {
     numberLexer.addLower(current - '0');
@@ -242,6 +245,10 @@ std::optional<Token> StateMachine::scan<StateMachine::State::ParsingFloat>() {
       state = State::ParsingFloatExponent;
       return std::nullopt;
     }
+
+    state = State::Normal;
+    error = "missing exponent in floating point number";
+    return makeToken(TokenKind::Error, getError());
   }
 
   if (isDigit(next) || next == 'E' || next == 'e') {
@@ -249,7 +256,6 @@ std::optional<Token> StateMachine::scan<StateMachine::State::ParsingFloat>() {
   }
 
   state = State::Normal;
-  setTokenEndPosition();
   return makeToken(TokenKind::FloatingPoint, getFloat());
 }
 
-- 
2.43.0


From 10c4d2771ffe977cd61c003171b05f8fd981ad01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:41 +0000
Subject: [PATCH 43/64] fix: endless reading of literals with many digits, and
 silent overflows

---
 include/marco/Lexer/FloatLexer.h         | 18 ++++++++++++++++--
 include/marco/Lexer/IntegerLexer.h       | 21 ++++++++++++++++++---
 lib/Parser/BaseModelica/StateMachine.cpp |  6 ++++++
 3 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/include/marco/Lexer/FloatLexer.h b/include/marco/Lexer/FloatLexer.h
index fc012bc..85e0a27 100644
--- a/include/marco/Lexer/FloatLexer.h
+++ b/include/marco/Lexer/FloatLexer.h
@@ -11,10 +11,19 @@ template <unsigned int Base>
 class FloatLexer {
 public:
   /// Concatenate the number to the integer part.
-  void addUpper(int i) { upperPart += i; }
+  void addUpper(int i) {
+    upperPart += i;
+    upperValue = upperValue * Base + i;
+  }
 
   /// Concatenate the number to the rational part.
   void addLower(int i) {
+    // Digits beyond the ones an integer can hold do not affect the value.
+    if (lowerPart.get() >
+        std::numeric_limits<int64_t>::max() / (Base * Base)) {
+      return;
+    }
+
     lowerPart += i;
 
     if (i != 0) {
@@ -41,6 +50,9 @@ public:
   /// Return the X part to make it compatible with the IntegerLexer.
   int64_t getUpperPart() const { return upperPart.get(); }
 
+  /// Return whether the X part is too big to be represented by an integer.
+  bool hasUpperPartOverflow() const { return upperPart.hasOverflow(); }
+
   /// Returns upper.lower * (base ^ (sign * exponent)).
   double get() const {
     int64_t mantissaNormalizer = 1;
@@ -49,7 +61,7 @@ public:
       mantissaNormalizer *= Base;
     }
 
-    double toReturn = upperPart.get();
+    double toReturn = upperValue;
     toReturn += static_cast<double>(lowerPart.get()) /
                 (mantissaNormalizer * std::pow(Base, fractionalLeadingZeros));
 
@@ -68,6 +80,7 @@ public:
 
   void reset() {
     upperPart.reset();
+    upperValue = 0;
     lowerPart.reset();
     hasExponential = false;
     exponential.reset();
@@ -78,6 +91,7 @@ public:
 
 private:
   IntegerLexer<Base> upperPart;
+  double upperValue = 0;
   IntegerLexer<Base> lowerPart;
   bool hasExponential = false;
   IntegerLexer<Base> exponential;
diff --git a/include/marco/Lexer/IntegerLexer.h b/include/marco/Lexer/IntegerLexer.h
index 6b5c75d..f3bf0f1 100644
--- a/include/marco/Lexer/IntegerLexer.h
+++ b/include/marco/Lexer/IntegerLexer.h
@@ -2,6 +2,7 @@
 #define MARCO_LEXER_INTEGERLEXER_H
 
 #include <cstdint>
+#include <limits>
 
 namespace marco::lexer {
 /// An integer lexer is a object that can be feed with
@@ -17,18 +18,32 @@ public:
 
   /// Adds the next element to the integer.
   IntegerLexer operator+=(int i) {
-    value = value * Base;
-    value = value + i;
+    if (value > (std::numeric_limits<int64_t>::max() - i) / Base) {
+      overflow = true;
+      value = std::numeric_limits<int64_t>::max();
+    } else {
+      value = value * Base;
+      value = value + i;
+    }
+
     return *this;
   }
 
   /// Returns the currently built value.
   int64_t get() const { return value; }
 
-  void reset() { value = 0; }
+  /// Returns whether the integer is too big to be represented, in which case the
+  /// current value is the biggest one.
+  bool hasOverflow() const { return overflow; }
+
+  void reset() {
+    value = 0;
+    overflow = false;
+  }
 
 private:
   int64_t value;
+  bool overflow{false};
 };
 } // namespace marco::lexer
 
diff --git a/lib/Parser/BaseModelica/StateMachine.cpp b/lib/Parser/BaseModelica/StateMachine.cpp
index 5b5505a..9c5427c 100644
--- a/lib/Parser/BaseModelica/StateMachine.cpp
+++ b/lib/Parser/BaseModelica/StateMachine.cpp
@@ -220,6 +220,12 @@ std::optional<Token> StateMachine::scan<StateMachine::State::ParsingNumber>() {
 
   if (!isAcceptable(next)) {
     state = State::Normal;
+
+    if (numberLexer.hasUpperPartOverflow()) {
+      error = "integer literal too big";
+      return makeToken(TokenKind::Error, getError());
+    }
+
     return makeToken(TokenKind::Integer, getInt());
   }
 
-- 
2.43.0


From 47c00d6965b39193fe0330675e73a9e69e77a13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:11 +0000
Subject: [PATCH 44/64] fix: storage for the branches of if-equations and
 when-equations

Setting the equations of an elseif / elsewhen branch resized the list of
the main branch, and then wrote past the end of the actual list.
---
 lib/AST/BaseModelica/IfEquation.cpp   | 4 ++--
 lib/AST/BaseModelica/WhenEquation.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/AST/BaseModelica/IfEquation.cpp b/lib/AST/BaseModelica/IfEquation.cpp
index 4f9b0c4..9a96319 100644
--- a/lib/AST/BaseModelica/IfEquation.cpp
+++ b/lib/AST/BaseModelica/IfEquation.cpp
@@ -156,8 +156,8 @@ const Equation *IfEquation::getElseIfEquation(size_t condition,
 
 void IfEquation::setElseIfEquations(
     size_t condition, llvm::ArrayRef<std::unique_ptr<ASTNode>> nodes) {
-  if (condition > ifEquations.size()) {
-    ifEquations.resize(condition + 1);
+  if (condition >= elseIfEquations.size()) {
+    elseIfEquations.resize(condition + 1);
   }
 
   elseIfEquations[condition].clear();
diff --git a/lib/AST/BaseModelica/WhenEquation.cpp b/lib/AST/BaseModelica/WhenEquation.cpp
index e537bfc..e90afc6 100644
--- a/lib/AST/BaseModelica/WhenEquation.cpp
+++ b/lib/AST/BaseModelica/WhenEquation.cpp
@@ -158,8 +158,8 @@ const Equation *WhenEquation::getElseWhenEquation(size_t condition,
 
 void WhenEquation::setElseWhenEquations(
     size_t condition, llvm::ArrayRef<std::unique_ptr<ASTNode>> nodes) {
-  if (condition > whenEquations.size()) {
-    whenEquations.resize(condition + 1);
+  if (condition >= elseWhenEquations.size()) {
+    elseWhenEquations.resize(condition + 1);
   }
 
   elseWhenEquations[condition].clear();
-- 
2.43.0


From 1f931e31f83a2f481e1f9e8687f86b9c7f8b8506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:11 +0000
Subject: [PATCH 45/64] fix: when-equations are mistaken for if-equations

The node was given the kind of if-equations, and therefore was cast to a
class with which it has nothing in common.
---
 lib/AST/BaseModelica/WhenEquation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/AST/BaseModelica/WhenEquation.cpp b/lib/AST/BaseModelica/WhenEquation.cpp
index e90afc6..c62d2be 100644
--- a/lib/AST/BaseModelica/WhenEquation.cpp
+++ b/lib/AST/BaseModelica/WhenEquation.cpp
@@ -6,7 +6,7 @@ using namespace ::marco::ast::bmodelica;
 
 namespace marco::ast::bmodelica {
 WhenEquation::WhenEquation(SourceRange location)
-    : Equation(ASTNodeKind::Equation_If, std::move(location)) {}
+    : Equation(ASTNodeKind::Equation_When, std::move(location)) {}
 
 WhenEquation::WhenEquation(const WhenEquation &other) : Equation(other) {
   setWhenCondition(other.whenCondition->clone());
-- 
2.43.0


From 00bbfa60b22daa48a497f802410bb80c830d9716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:35 +0000
Subject: [PATCH 46/64] fix: endless search of cycles for loops reading
 multiple elements

The indices on the path are restricted while the path gets extended. The check
about the indices being already on the path was thus escaped by the loops in
which an equation reads multiple elements of the variable it writes.
---
 include/marco/Modeling/DependencyGraph.h | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/include/marco/Modeling/DependencyGraph.h b/include/marco/Modeling/DependencyGraph.h
index e4046b4..56ac5b8 100644
--- a/include/marco/Modeling/DependencyGraph.h
+++ b/include/marco/Modeling/DependencyGraph.h
@@ -721,17 +721,19 @@ private:
                   }
 
                   cycles.push_back(std::move(*cycle));
-                } else if (llvm::any_of(
-                               extendedPath,
-                               [&](const PathDependency &dependency) {
-                                 return dependency.equation ==
-                                            writingEquation &&
-                                        dependency.equationIndices.contains(
-                                            writingEquationIndices);
-                               })) {
-                  // The path keeps looping within the same array equation.
-                  // The indices have already been explored.
-                  return;
+                } else {
+                  // The path may be looping within the same array equation.
+                  // Do not explore again the indices that are already part of
+                  // it.
+                  for (const PathDependency &dependency : extendedPath) {
+                    if (dependency.equation == writingEquation) {
+                      writingEquationIndices -= dependency.equationIndices;
+                    }
+                  }
+
+                  if (writingEquationIndices.empty()) {
+                    return;
+                  }
                 }
 
                 getEquationsCycles(cycles, writesMap, cachedWriteAccesses,
-- 
2.43.0


From 536ffcb94dd405f3682bd5f4ccc50d86e198fb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:14 +0000
Subject: [PATCH 47/64] fix: zero with a big exponent is read as not-a-number

---
 include/marco/Lexer/FloatLexer.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/marco/Lexer/FloatLexer.h b/include/marco/Lexer/FloatLexer.h
index 85e0a27..60dffeb 100644
--- a/include/marco/Lexer/FloatLexer.h
+++ b/include/marco/Lexer/FloatLexer.h
@@ -71,7 +71,9 @@ public:
       exp *= -1;
     }
 
-    if (hasExponential) {
+    // Zero stays such also when the scaling factor is too big to be
+    // represented.
+    if (hasExponential && toReturn != 0) {
       toReturn *= std::pow(Base, exp);
     }
 
-- 
2.43.0


From 6119d738b99e98454339efdfde2f0da45403bfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 48/64] fix: statement 'when' is closed by 'then', not by
 'loop'

---
 lib/Parser/BaseModelica/Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index db84c96..0e3aa96 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1021,7 +1021,7 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseWhenStatement() {
   SourceRange loc = getLocation();
 
   TRY(condition, parseExpression());
-  EXPECT(TokenKind::Loop);
+  EXPECT(TokenKind::Then);
 
   std::vector<std::unique_ptr<ASTNode>> statements;
 
-- 
2.43.0


From 13c55dba1ab9c35b02f27d38d7b81efc7c0e6ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 49/64] fix: bounds of the variable filters are truncated to 32
 bits

---
 include/marco/VariableFilter/Parser.h | 2 +-
 lib/VariableFilter/Parser.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/marco/VariableFilter/Parser.h b/include/marco/VariableFilter/Parser.h
index 6a07d2d..f540916 100644
--- a/include/marco/VariableFilter/Parser.h
+++ b/include/marco/VariableFilter/Parser.h
@@ -27,7 +27,7 @@ public:
 
   std::optional<Range> parseArrayRange();
 
-  std::optional<int> parseArrayIndex();
+  std::optional<int64_t> parseArrayIndex();
 
   std::optional<DerivativeExpression> parseDer();
 
diff --git a/lib/VariableFilter/Parser.cpp b/lib/VariableFilter/Parser.cpp
index e047c78..498b6cb 100644
--- a/lib/VariableFilter/Parser.cpp
+++ b/lib/VariableFilter/Parser.cpp
@@ -202,7 +202,7 @@ std::optional<Range> Parser::parseArrayRange() {
   return Range(*lowerBound, *upperBound);
 }
 
-std::optional<int> Parser::parseArrayIndex() {
+std::optional<int64_t> Parser::parseArrayIndex() {
   if (accept<TokenKind::Dollar>()) {
     return Range::kUnbounded;
   }
-- 
2.43.0


From 0208bd6edf4b178fc67f6cee5f0d894058644a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 50/64] fix: the result type of an array multiplied by a scalar
 is not inferred

---
 lib/Dialect/BaseModelica/IR/Ops.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/Dialect/BaseModelica/IR/Ops.cpp b/lib/Dialect/BaseModelica/IR/Ops.cpp
index f436769..3b21837 100644
--- a/lib/Dialect/BaseModelica/IR/Ops.cpp
+++ b/lib/Dialect/BaseModelica/IR/Ops.cpp
@@ -3806,6 +3806,16 @@ mlir::LogicalResult MulOp::inferReturnTypes(
     return mlir::success();
   }
 
+  if (lhsShapedType && isScalar(rhsType)) {
+    mlir::Type resultElementType =
+        getMostGenericScalarType(lhsShapedType.getElementType(), rhsType);
+
+    returnTypes.push_back(mlir::RankedTensorType::get(lhsShapedType.getShape(),
+                                                      resultElementType));
+
+    return mlir::success();
+  }
+
   if (lhsShapedType && rhsShapedType) {
     mlir::Type resultElementType = getMostGenericScalarType(
         lhsShapedType.getElementType(), rhsShapedType.getElementType());
-- 
2.43.0


From 08ab4eda78a198a18583c7b5a9d62e1a3daee079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:36 +0000
Subject: [PATCH 51/64] fix: equations scheduled backward are executed one
 index too high

---
 .../BaseModelica/Transforms/EquationExplicitation.cpp     | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/BaseModelica/Transforms/EquationExplicitation.cpp b/lib/Dialect/BaseModelica/Transforms/EquationExplicitation.cpp
index ad5df36..7415e34 100644
--- a/lib/Dialect/BaseModelica/Transforms/EquationExplicitation.cpp
+++ b/lib/Dialect/BaseModelica/Transforms/EquationExplicitation.cpp
@@ -390,9 +390,13 @@ EquationFunctionOp EquationExplicitationPass::createEquationFunction(
             induction.getLoc(), rewriter.getIndexType(), induction,
             lowerBounds[i]);
 
-        mlir::Value mappedInduction = rewriter.create<mlir::arith::SubIOp>(
+        // The upper bound is exclusive.
+        mlir::Value lastIndex = rewriter.create<mlir::arith::SubIOp>(
             induction.getLoc(), rewriter.getIndexType(), upperBounds[i],
-            offset);
+            oneValue);
+
+        mlir::Value mappedInduction = rewriter.create<mlir::arith::SubIOp>(
+            induction.getLoc(), rewriter.getIndexType(), lastIndex, offset);
 
         shiftedInductions.push_back(mappedInduction);
       }
-- 
2.43.0


From 5bb065640fa05620335462e919ea829a4e07cb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:33 +0000
Subject: [PATCH 52/64] fix: an element is extracted from derivatives that are
 arrays

---
 .../BaseModelica/Transforms/DerivativesMaterialization.cpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Dialect/BaseModelica/Transforms/DerivativesMaterialization.cpp b/lib/Dialect/BaseModelica/Transforms/DerivativesMaterialization.cpp
index d474ef7..877eb64 100644
--- a/lib/Dialect/BaseModelica/Transforms/DerivativesMaterialization.cpp
+++ b/lib/Dialect/BaseModelica/Transforms/DerivativesMaterialization.cpp
@@ -180,7 +180,7 @@ mlir::LogicalResult removeDerOps(mlir::Region &region, ModelOp modelOp,
 
     if (auto tensorType =
             mlir::dyn_cast<mlir::TensorType>(replacement.getType());
-        tensorType && tensorType.hasRank()) {
+        tensorType && tensorType.hasRank() && tensorType.getRank() == 0) {
       replacement = rewriter.create<TensorExtractOp>(
           derOp.getLoc(), replacement, mlir::ValueRange());
     }
-- 
2.43.0


From 3fdd6f1645949df467b0a5a586d6cbfa85bb54a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:45 +0000
Subject: [PATCH 53/64] fix: equations lose their match when a leading
 single-valued induction is eliminated

---
 .../SingleValuedInductionElimination.cpp      | 31 ++++++++++++++-----
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/lib/Dialect/BaseModelica/Transforms/SingleValuedInductionElimination.cpp b/lib/Dialect/BaseModelica/Transforms/SingleValuedInductionElimination.cpp
index 3f65d65..5ac85d9 100644
--- a/lib/Dialect/BaseModelica/Transforms/SingleValuedInductionElimination.cpp
+++ b/lib/Dialect/BaseModelica/Transforms/SingleValuedInductionElimination.cpp
@@ -137,17 +137,34 @@ mlir::LogicalResult SingleValuedInductionEliminationPass::processEquation(
 
       remainingIndices -= MultidimensionalRange(removedRanges);
 
-      if (newRanges.empty()) {
-        if (mlir::failed(newInstance.setIndices({}, symbolTableCollection))) {
+      auto &newProperties = newInstance.getProperties();
+
+      if (newProperties.match) {
+        // Take the matched indices from the original equation, because the
+        // accesses of the reduced one refer to fewer inductions.
+        llvm::SmallVector<VariableAccess> accesses;
+        llvm::SmallVector<VariableAccess> writeAccesses;
+
+        if (mlir::failed(
+                equation.getAccesses(accesses, symbolTableCollection)) ||
+            mlir::failed(equation.getWriteAccesses(
+                writeAccesses, symbolTableCollection, accesses))) {
           return mlir::failure();
         }
-      } else {
-        if (mlir::failed(newInstance.setIndices(
-                IndexSet(MultidimensionalRange(newRanges)),
-                symbolTableCollection))) {
-          return mlir::failure();
+
+        newProperties.match.indices = {};
+
+        for (const VariableAccess &writeAccess : writeAccesses) {
+          newProperties.match.indices +=
+              writeAccess.getAccessFunction().map(IndexSet(range));
         }
       }
+
+      newProperties.indices = {};
+
+      if (!newRanges.empty()) {
+        newProperties.indices += MultidimensionalRange(newRanges);
+      }
     }
   }
 
-- 
2.43.0


From 08df8dc1f3dc77692ccb790b714512f940752c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:43 +0000
Subject: [PATCH 54/64] fix: accesses through integer casts are not recognised

---
 lib/Dialect/BaseModelica/IR/Dialect.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/Dialect/BaseModelica/IR/Dialect.cpp b/lib/Dialect/BaseModelica/IR/Dialect.cpp
index 390396c..525983b 100644
--- a/lib/Dialect/BaseModelica/IR/Dialect.cpp
+++ b/lib/Dialect/BaseModelica/IR/Dialect.cpp
@@ -436,6 +436,15 @@ getDimensionAccess(const llvm::DenseMap<mlir::Value, unsigned int>
           value.getContext(), getIntegerFromAttribute(attr));
     }
 
+    if (auto op = mlir::dyn_cast<CastOp>(definingOp)) {
+      // Casts among integer types do not modify the value.
+      if (mlir::isa<mlir::IndexType, IntegerType>(op.getValue().getType()) &&
+          mlir::isa<mlir::IndexType, IntegerType>(op.getType())) {
+        return getDimensionAccess(explicitInductionsPositionMap,
+                                  additionalInductions, op.getValue());
+      }
+    }
+
     if (auto op = mlir::dyn_cast<NegateOp>(definingOp)) {
       auto operand = getDimensionAccess(explicitInductionsPositionMap,
                                         additionalInductions, op.getOperand());
-- 
2.43.0


From 94e14a5ed188bf0524a519e8b5cde9324b5f1b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:33 +0000
Subject: [PATCH 55/64] fix: blocks writing the same variable are executed in
 any order

---
 .../Transforms/ScheduleParallelization.cpp    | 33 +++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/BaseModelica/Transforms/ScheduleParallelization.cpp b/lib/Dialect/BaseModelica/Transforms/ScheduleParallelization.cpp
index fd21a2b..08257a4 100644
--- a/lib/Dialect/BaseModelica/Transforms/ScheduleParallelization.cpp
+++ b/lib/Dialect/BaseModelica/Transforms/ScheduleParallelization.cpp
@@ -237,8 +237,37 @@ mlir::LogicalResult ScheduleParallelizationPass::parallelizeBlocks(
           continue;
         }
 
-        dependantBlocks[writingBlock.writingEntity].insert(readingBlock);
-        inDegrees[readingBlock]++;
+        if (dependantBlocks[writingBlock.writingEntity].insert(readingBlock)) {
+          inDegrees[readingBlock]++;
+        }
+      }
+    }
+  }
+
+  // Keep the order among the blocks writing the same elements (e.g. the one
+  // setting the start values of a variable, and the one determining its actual
+  // initial values).
+  llvm::DenseMap<ScheduleBlockOp, size_t> positions;
+
+  for (ScheduleBlockOp block : blocks) {
+    positions.try_emplace(block, positions.size());
+  }
+
+  for (ScheduleBlockOp block : blocks) {
+    for (const Variable &writtenVariable :
+         block.getProperties().writtenVariables) {
+      auto writtenVariableOp = symbolTableCollection.lookupSymbolIn<VariableOp>(
+          modelOp, writtenVariable.name);
+
+      for (const auto &writingBlock :
+           writesMap.getWrites(writtenVariableOp, writtenVariable.indices)) {
+        if (positions[writingBlock.writingEntity] >= positions[block]) {
+          continue;
+        }
+
+        if (dependantBlocks[writingBlock.writingEntity].insert(block)) {
+          inDegrees[block]++;
+        }
       }
     }
   }
-- 
2.43.0


From d75d394b6faa08474ac9134e11dbc58850a45bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:55 +0000
Subject: [PATCH 56/64] fix: only the last block writing a scalar variable is
 remembered

A variable can be written by several blocks, for instance by the one
applying its start value as guess and by the one solving an initial
equation. The map of the writes kept just one of them for scalar
variables, so that no dependency was recorded with respect to the others.
---
 include/marco/Dialect/BaseModelica/IR/Dialect.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/marco/Dialect/BaseModelica/IR/Dialect.h b/include/marco/Dialect/BaseModelica/IR/Dialect.h
index aa900a8..e23156a 100644
--- a/include/marco/Dialect/BaseModelica/IR/Dialect.h
+++ b/include/marco/Dialect/BaseModelica/IR/Dialect.h
@@ -98,7 +98,9 @@ struct WritesMapRTreeEntry {
 
 template <typename Variable, typename WritingEntity>
 class WritesMap {
-  using ScalarMap = llvm::DenseMap<VariableOp, WritingEntity>;
+  using ScalarMap =
+      llvm::DenseMap<Variable, llvm::SmallVector<WritingEntity, 1>>;
+
   using RTreeObject = WritesMapRTreeEntry<WritingEntity>;
 
   using ArrayMap =
@@ -136,7 +138,9 @@ public:
       auto it = scalarMap.find(variable);
 
       if (it != scalarMap.end()) {
-        uniqueEntities[it->second] = {};
+        for (const WritingEntity &writingEntity : it->second) {
+          uniqueEntities[writingEntity] = {};
+        }
       }
     } else {
       auto it = arrayMap.find(variable);
@@ -166,7 +170,7 @@ public:
   void addWrite(const Variable &variable, const IndexSet &variableIndices,
                 WritingEntity writingEntity) {
     if (variableIndices.empty()) {
-      scalarMap[variable] = writingEntity;
+      scalarMap[variable].push_back(writingEntity);
     } else {
       for (const MultidimensionalRange &variableRange : llvm::make_range(
                variableIndices.rangesBegin(), variableIndices.rangesEnd())) {
-- 
2.43.0


From 9b08c0785f498a1f85bb4af9288ae7e22166d95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:22 +0000
Subject: [PATCH 57/64] fix: cyclic scalar equations of an array equation are
 scheduled as if they were independent

---
 .../Modeling/ScalarEquationsDependencyGraph.h | 26 ++++++++++++++
 include/marco/Modeling/Scheduling.h           | 35 +++++++++++--------
 2 files changed, 47 insertions(+), 14 deletions(-)

diff --git a/include/marco/Modeling/ScalarEquationsDependencyGraph.h b/include/marco/Modeling/ScalarEquationsDependencyGraph.h
index 3e10c39..12a7a9d 100644
--- a/include/marco/Modeling/ScalarEquationsDependencyGraph.h
+++ b/include/marco/Modeling/ScalarEquationsDependencyGraph.h
@@ -5,6 +5,7 @@
 #include "marco/Modeling/SingleEntryWeaklyConnectedDigraph.h"
 #include "mlir/IR/Threading.h"
 #include "llvm/ADT/PostOrderIterator.h"
+#include "llvm/ADT/SCCIterator.h"
 #include <mutex>
 #include <set>
 #include <type_traits>
@@ -154,6 +155,31 @@ public:
     return result;
   }
 
+  /// Get the strongly connected components of the dependency graph, sorted in
+  /// such a way that each component follows the ones it depends on.
+  std::vector<std::vector<ScalarEquationDescriptor>> getSCCs() const {
+    std::vector<std::vector<ScalarEquationDescriptor>> result;
+
+    for (auto scc = llvm::scc_begin(&static_cast<const Graph &>(*graph)),
+              end = llvm::scc_end(&static_cast<const Graph &>(*graph));
+         scc != end; ++scc) {
+      std::vector<ScalarEquationDescriptor> equations;
+
+      for (const auto &equation : *scc) {
+        // Ignore the entry node.
+        if (equation != graph->getEntryNode()) {
+          equations.push_back(equation);
+        }
+      }
+
+      if (!equations.empty()) {
+        result.push_back(std::move(equations));
+      }
+    }
+
+    return result;
+  }
+
 private:
   std::vector<ScalarEquationDescriptor>
   addEquationsAndMapWrites(llvm::ArrayRef<EquationProperty> equations) {
diff --git a/include/marco/Modeling/Scheduling.h b/include/marco/Modeling/Scheduling.h
index 4b9ff32..f615ef3 100644
--- a/include/marco/Modeling/Scheduling.h
+++ b/include/marco/Modeling/Scheduling.h
@@ -249,21 +249,28 @@ public:
           ScalarDependencyGraph scalarDependencyGraph(getContext());
           scalarDependencyGraph.addEquations(scalarEquationViews);
 
-          for (const auto &equationDescriptor :
-               scalarDependencyGraph.postOrder()) {
-            const auto &scalarEquation =
-                scalarDependencyGraph[equationDescriptor];
-
-            llvm::SmallVector<scheduling::Direction> directions(
-                scalarEquation.getProperty().getNumOfIterationVars(),
-                scheduling::Direction::Any);
-
-            ScheduledEquation scheduledEquation(
-                *scalarEquation.getProperty(),
-                IndexSet(MultidimensionalRange(scalarEquation.getIndex())),
-                directions);
+          for (const auto &scalarSCC : scalarDependencyGraph.getSCCs()) {
+            // The scalar equations depending on each other can't be ordered,
+            // and must therefore be kept together.
+            bool isCyclic = scalarSCC.size() > 1;
+            llvm::SmallVector<ScheduledEquation> scheduledEquations;
+
+            for (const auto &equationDescriptor : scalarSCC) {
+              const auto &scalarEquation =
+                  scalarDependencyGraph[equationDescriptor];
+
+              llvm::SmallVector<scheduling::Direction> directions(
+                  scalarEquation.getProperty().getNumOfIterationVars(),
+                  isCyclic ? scheduling::Direction::Unknown
+                           : scheduling::Direction::Any);
+
+              scheduledEquations.push_back(ScheduledEquation(
+                  *scalarEquation.getProperty(),
+                  IndexSet(MultidimensionalRange(scalarEquation.getIndex())),
+                  directions));
+            }
 
-            result.emplace_back(std::move(scheduledEquation));
+            result.emplace_back(std::move(scheduledEquations));
           }
         }
       } else {
-- 
2.43.0


From 663ba57a265c2de958f284c10dee0833c1e6b9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:22 +0000
Subject: [PATCH 58/64] fix: race in the on-demand loading of the variable
 accesses

---
 .../Dialect/BaseModelica/Analysis/VariableAccessAnalysis.h  | 4 ++++
 .../BaseModelica/Analysis/VariableAccessAnalysis.cpp        | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/include/marco/Dialect/BaseModelica/Analysis/VariableAccessAnalysis.h b/include/marco/Dialect/BaseModelica/Analysis/VariableAccessAnalysis.h
index 2bd5766..f1e616c 100644
--- a/include/marco/Dialect/BaseModelica/Analysis/VariableAccessAnalysis.h
+++ b/include/marco/Dialect/BaseModelica/Analysis/VariableAccessAnalysis.h
@@ -3,6 +3,7 @@
 
 #include "marco/Dialect/BaseModelica/IR/Dialect.h"
 #include "mlir/Pass/AnalysisManager.h"
+#include <mutex>
 
 namespace mlir::bmodelica {
 class VariableAccessAnalysis {
@@ -46,6 +47,9 @@ private:
   bool initialized{false};
   bool valid{false};
 
+  /// The accesses are loaded on demand, possibly by multiple threads.
+  std::mutex mutex;
+
   /// The list of all the accesses performed by the equation.
   llvm::SmallVector<VariableAccess, 10> accesses;
 };
diff --git a/lib/Dialect/BaseModelica/Analysis/VariableAccessAnalysis.cpp b/lib/Dialect/BaseModelica/Analysis/VariableAccessAnalysis.cpp
index e670df8..a29c927 100644
--- a/lib/Dialect/BaseModelica/Analysis/VariableAccessAnalysis.cpp
+++ b/lib/Dialect/BaseModelica/Analysis/VariableAccessAnalysis.cpp
@@ -10,6 +10,8 @@ VariableAccessAnalysis::VariableAccessAnalysis(EquationTemplateOp op)
 
 mlir::LogicalResult VariableAccessAnalysis::initialize(
     mlir::SymbolTableCollection &symbolTableCollection) {
+  std::lock_guard<std::mutex> lockGuard(mutex);
+
   if (initialized) {
     return mlir::success();
   }
@@ -24,6 +26,7 @@ mlir::LogicalResult VariableAccessAnalysis::initialize(
 }
 
 void VariableAccessAnalysis::invalidate() {
+  std::lock_guard<std::mutex> lockGuard(mutex);
   valid = false;
   accesses.clear();
 }
@@ -31,6 +34,7 @@ void VariableAccessAnalysis::invalidate() {
 std::optional<llvm::ArrayRef<VariableAccess>>
 VariableAccessAnalysis::getAccesses(
     mlir::SymbolTableCollection &symbolTableCollection) {
+  std::lock_guard<std::mutex> lockGuard(mutex);
   assert(initialized && "Variable access analysis not initialized");
 
   if (!valid) {
@@ -44,6 +48,8 @@ VariableAccessAnalysis::getAccesses(
 
 mlir::LogicalResult VariableAccessAnalysis::loadAccesses(
     mlir::SymbolTableCollection &symbolTableCollection) {
+  accesses.clear();
+
   if (mlir::failed(
           equationTemplate.getAccesses(accesses, symbolTableCollection))) {
     return mlir::failure();
-- 
2.43.0


From b3d7029b6317596407864b58a80b9f51dbc6d179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:46 +0000
Subject: [PATCH 59/64] fix: the derivative with respect to a variable the
 equation does not access is missing

---
 .../BaseModelica/Transforms/SCCSolvingWithKINSOL.cpp     | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/Dialect/BaseModelica/Transforms/SCCSolvingWithKINSOL.cpp b/lib/Dialect/BaseModelica/Transforms/SCCSolvingWithKINSOL.cpp
index b26a5b3..7191703 100644
--- a/lib/Dialect/BaseModelica/Transforms/SCCSolvingWithKINSOL.cpp
+++ b/lib/Dialect/BaseModelica/Transforms/SCCSolvingWithKINSOL.cpp
@@ -744,10 +744,13 @@ FunctionsBuilder::createPartialDerivativeFunction(
   auto oneSeedPosition = partialDerivativeTemplateFunctions.getVariablePos(
       equationOp.getTemplate(), independentVariable);
 
-  assert(oneSeedPosition.has_value());
-
   if (!oneSeedPosition) {
-    return nullptr;
+    // The equation does not access the variable.
+    mlir::Value zeroDerivative = rewriter.create<mlir::arith::ConstantOp>(
+        loc, rewriter.getF64FloatAttr(0));
+
+    rewriter.create<mlir::kinsol::ReturnOp>(loc, zeroDerivative);
+    return jacobianFunction;
   }
 
   rewriter.create<StoreOp>(loc, one, varSeeds[*oneSeedPosition],
-- 
2.43.0


From 470170315706e9c56453f3643b898edb47ad9207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:46 +0000
Subject: [PATCH 60/64] fix: crash when an algebraic loop contains array
 equations

---
 .../Transforms/SCCSolvingWithKINSOL.cpp       | 32 -------------------
 1 file changed, 32 deletions(-)

diff --git a/lib/Dialect/BaseModelica/Transforms/SCCSolvingWithKINSOL.cpp b/lib/Dialect/BaseModelica/Transforms/SCCSolvingWithKINSOL.cpp
index 7191703..9c684be 100644
--- a/lib/Dialect/BaseModelica/Transforms/SCCSolvingWithKINSOL.cpp
+++ b/lib/Dialect/BaseModelica/Transforms/SCCSolvingWithKINSOL.cpp
@@ -1175,42 +1175,10 @@ mlir::LogicalResult KINSOLInstance::addEquationsToKINSOL(
       equationIndices = IndexSet(Point(0));
     }
 
-    // Get the write access.
-    llvm::SmallVector<VariableAccess> writeAccesses;
-
-    if (mlir::failed(equationOp.getWriteAccesses(writeAccesses, symbolTables,
-                                                 accesses))) {
-      return mlir::failure();
-    }
-
-    llvm::sort(writeAccesses,
-               [](const VariableAccess &first, const VariableAccess &second) {
-                 if (first.getAccessFunction().isInvertible() &&
-                     !second.getAccessFunction().isInvertible()) {
-                   return true;
-                 }
-
-                 if (!first.getAccessFunction().isInvertible() &&
-                     second.getAccessFunction().isInvertible()) {
-                   return false;
-                 }
-
-                 return first < second;
-               });
-
     // Create the partial derivative template.
     for (const MultidimensionalRange &range : llvm::make_range(
              equationIndices.rangesBegin(), equationIndices.rangesEnd())) {
       // Add the equation to the KINSOL instance.
-      mlir::sundials::AccessFunctionOp accessFunctionOp =
-          functionsBuilder.getOrCreateAccessFunction(
-              rewriter, equationOp.getLoc(),
-              writeAccesses[0].getAccessFunction().getAffineMap());
-
-      if (!accessFunctionOp) {
-        return mlir::failure();
-      }
-
       auto kinsolEquation = rewriter.create<mlir::kinsol::AddEquationOp>(
           equationOp.getLoc(), identifier,
           mlir::kinsol::MultidimensionalRangeAttr::get(rewriter.getContext(),
-- 
2.43.0


From 712022c0ba9ed2dd7e1492abd68e2bad1aef6636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:46 +0000
Subject: [PATCH 61/64] fix: crash on whole-dimension accesses within algebraic
 loops

---
 .../Transforms/SCCSolvingWithKINSOL.cpp       | 23 ++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/lib/Dialect/BaseModelica/Transforms/SCCSolvingWithKINSOL.cpp b/lib/Dialect/BaseModelica/Transforms/SCCSolvingWithKINSOL.cpp
index 9c684be..342516b 100644
--- a/lib/Dialect/BaseModelica/Transforms/SCCSolvingWithKINSOL.cpp
+++ b/lib/Dialect/BaseModelica/Transforms/SCCSolvingWithKINSOL.cpp
@@ -1354,7 +1354,28 @@ mlir::LogicalResult KINSOLInstance::addVariableAccessesInfoToKINSOL(
 
     mlir::Value kinsolVariable = kinsolVariables[variablesLookup[variableOp]];
     assert(kinsolVariable != nullptr);
-    maps[kinsolVariable].insert(access.getAccessFunction().getAffineMap());
+    const AccessFunction &accessFunction = access.getAccessFunction();
+
+    if (accessFunction.isAffine()) {
+      maps[kinsolVariable].insert(accessFunction.getAffineMap());
+      continue;
+    }
+
+    // The access can't be represented by an affine map (e.g. because it covers
+    // a whole dimension of the array). Declare the accessed scalar variables
+    // one by one.
+    for (Point point : accessFunction.map(equationOp.getIterationSpace())) {
+      llvm::SmallVector<mlir::AffineExpr, 3> expressions;
+
+      for (Point::data_type coordinate : point) {
+        expressions.push_back(mlir::getAffineConstantExpr(
+            coordinate, builder.getContext()));
+      }
+
+      maps[kinsolVariable].insert(
+          mlir::AffineMap::get(accessFunction.getNumOfDims(), 0, expressions,
+                               builder.getContext()));
+    }
   }
 
   // Inform KINSOL about the discovered accesses.
-- 
2.43.0


From 77795b30e7d1bb05e88369eb37698763ccda40ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:41 +0000
Subject: [PATCH 62/64] fix: equations outside of the substituted indices are
 lost or duplicated by the solving of loops by substitution

---
 .../BaseModelica/Transforms/SCCSolvingBySubstitution.cpp   | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/Dialect/BaseModelica/Transforms/SCCSolvingBySubstitution.cpp b/lib/Dialect/BaseModelica/Transforms/SCCSolvingBySubstitution.cpp
index 872cb2d..04c01b7 100644
--- a/lib/Dialect/BaseModelica/Transforms/SCCSolvingBySubstitution.cpp
+++ b/lib/Dialect/BaseModelica/Transforms/SCCSolvingBySubstitution.cpp
@@ -586,7 +586,7 @@ mlir::LogicalResult SCCSolvingBySubstitutionPass::solveCycle(
               return mlir::failure();
             }
 
-            currentEquations.push_back(clonedOp);
+            allNewEquations.push_back(clonedOp);
           }
         }
 
@@ -598,6 +598,11 @@ mlir::LogicalResult SCCSolvingBySubstitutionPass::solveCycle(
 
         break;
       }
+
+      // Discard the equations created before the failure.
+      for (EquationInstanceOp newEquation : newEquations) {
+        rewriter.eraseOp(newEquation);
+      }
     }
 
     // Search for the remaining cycles.
-- 
2.43.0


From fc5ef34b67495df2f7ea37831c49f095425d710e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:24 +0000
Subject: [PATCH 63/64] fix: matches mixing different accesses to the same
 variable can't be told apart

---
 include/marco/Modeling/Matching.h | 106 +++++++++++++++++++++++++++---
 1 file changed, 97 insertions(+), 9 deletions(-)

diff --git a/include/marco/Modeling/Matching.h b/include/marco/Modeling/Matching.h
index 6e8a9bc..f330501 100644
--- a/include/marco/Modeling/Matching.h
+++ b/include/marco/Modeling/Matching.h
@@ -1498,10 +1498,16 @@ public:
   }
 
 protected:
-  using MatchingSolutions =
-      llvm::MapVector<typename Equation::Id::BaseId,
-                      llvm::MapVector<typename Variable::Id::BaseId,
-                                      std::pair<IndexSet, IndexSet>>>;
+  /// A part of the matching, together with the access functions which may
+  /// have led to it.
+  struct EdgeMatch {
+    MCIM matched;
+    llvm::SmallVector<std::shared_ptr<const AccessFunction>, 1> accessFunctions;
+  };
+
+  using MatchingSolutions = llvm::MapVector<
+      typename Equation::Id::BaseId,
+      llvm::MapVector<typename Variable::Id::BaseId, std::vector<EdgeMatch>>>;
 
 public:
   /// Compute a maximum matching between variables and equations.
@@ -1520,8 +1526,8 @@ public:
 
     for (const auto &equation : matchingSolutions) {
       for (const auto &variable : equation.second) {
-        result.emplace_back(equation.first, variable.second.first,
-                            variable.first, variable.second.second);
+        collectSolutions(result, equation.first, variable.first,
+                         variable.second);
       }
     }
 
@@ -1529,6 +1535,84 @@ public:
   }
 
 private:
+  /// Collect the solutions regarding an equation - variable pair.
+  /// The indices of a solution are all related by the same access function, so
+  /// that the variable indices matched by each equation index can be determined
+  /// unambiguously.
+  static void
+  collectSolutions(llvm::SmallVectorImpl<MatchingSolution> &result,
+                   const typename Equation::Id::BaseId &equationId,
+                   const typename Variable::Id::BaseId &variableId,
+                   llvm::ArrayRef<EdgeMatch> edgeMatches) {
+    llvm::SmallVector<const AccessFunction *> accessFunctions;
+    std::vector<MCIM> remaining;
+
+    for (const EdgeMatch &edgeMatch : edgeMatches) {
+      remaining.push_back(edgeMatch.matched);
+
+      for (const auto &accessFunction : edgeMatch.accessFunctions) {
+        if (llvm::none_of(accessFunctions, [&](const AccessFunction *other) {
+              return *other == *accessFunction;
+            })) {
+          accessFunctions.push_back(accessFunction.get());
+        }
+      }
+    }
+
+    while (llvm::any_of(remaining,
+                        [](const MCIM &matrix) { return !matrix.empty(); })) {
+      // Choose the access function covering most of the remaining matches.
+      std::vector<MCIM> covered;
+      IndexSet coveredEquations;
+
+      for (const AccessFunction *accessFunction : accessFunctions) {
+        std::vector<MCIM> candidates;
+        IndexSet candidateEquations;
+
+        for (size_t i = 0, e = edgeMatches.size(); i < e; ++i) {
+          MCIM uncovered = remaining[i];
+
+          if (llvm::any_of(edgeMatches[i].accessFunctions,
+                           [&](const auto &edgeAccessFunction) {
+                             return *edgeAccessFunction == *accessFunction;
+                           })) {
+            MCIM accessed(remaining[i].getEquationSpace(),
+                          remaining[i].getVariableSpace());
+
+            accessed.apply(*accessFunction);
+            uncovered -= accessed;
+          }
+
+          candidates.push_back(remaining[i] - uncovered);
+          candidateEquations += candidates.back().flattenColumns();
+        }
+
+        if (candidateEquations.size() > coveredEquations.size()) {
+          covered = std::move(candidates);
+          coveredEquations = std::move(candidateEquations);
+        }
+      }
+
+      assert(!covered.empty() && "Match not originated by any access");
+
+      if (covered.empty()) {
+        covered = remaining;
+      }
+
+      IndexSet equationIndices;
+      IndexSet variableIndices;
+
+      for (size_t i = 0, e = remaining.size(); i < e; ++i) {
+        equationIndices += covered[i].flattenColumns();
+        variableIndices += covered[i].flattenRows();
+        remaining[i] -= covered[i];
+      }
+
+      result.emplace_back(equationId, std::move(equationIndices), variableId,
+                          std::move(variableIndices));
+    }
+  }
+
   bool match(MatchingSolutions &matchingSolutions,
              const MatchingOptions &options) {
     if (options.enableLeafNodesSimplification) {
@@ -1614,9 +1698,13 @@ private:
       auto equationId = equation.getId().getBaseId();
       auto variableId = variable.getId().getBaseId();
 
-      auto &match = result[equationId][variableId];
-      match.first += edge.getMatched().flattenColumns();
-      match.second += edge.getMatched().flattenRows();
+      EdgeMatch edgeMatch{edge.getMatched(), {}};
+
+      for (const AccessFunction &accessFunction : edge.getAccessFunctions()) {
+        edgeMatch.accessFunctions.push_back(accessFunction.clone());
+      }
+
+      result[equationId][variableId].push_back(std::move(edgeMatch));
     }
   }
 
-- 
2.43.0


From f9153f8578454d0d48641f2292d8595a2704bb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:13 +0000
Subject: [PATCH 64/64] fix: wrong path of the accesses within subscripted
 expressions

---
 .../EquationExpressionOpInterfaceImpl.cpp     | 25 ++++++++++++++++---
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/lib/Dialect/BaseModelica/Transforms/EquationExpressionOpInterfaceImpl.cpp b/lib/Dialect/BaseModelica/Transforms/EquationExpressionOpInterfaceImpl.cpp
index 152c9d1..0672d65 100644
--- a/lib/Dialect/BaseModelica/Transforms/EquationExpressionOpInterfaceImpl.cpp
+++ b/lib/Dialect/BaseModelica/Transforms/EquationExpressionOpInterfaceImpl.cpp
@@ -615,6 +615,19 @@ struct TensorBroadcastOpInterface
   DEFINE_DEFAULT_IS_EQUIVALENT(TensorBroadcastOp)
 };
 
+/// Get the path of an expression on which subscriptions are applied.
+/// An access to a variable is identified by the path of its outermost
+/// subscription. The subscription is instead a step of the path if it is
+/// applied to a generic expression.
+EquationPath getSubscriptedPath(mlir::Operation *source, EquationPath path) {
+  if (mlir::isa<TensorViewOp, TensorExtractOp, SubscriptionOp, LoadOp,
+                VariableGetOp, GlobalVariableGetOp>(source)) {
+    return path;
+  }
+
+  return path + 0;
+}
+
 struct TensorViewOpInterface
     : public EquationExpressionOpInterface::ExternalModel<
           ::TensorViewOpInterface, TensorViewOp> {
@@ -668,7 +681,8 @@ struct TensorViewOpInterface
 
     return sourceOp.getEquationAccesses(
         accesses, symbolTable, explicitInductionsPositionMap,
-        additionalInductions, dimensionAccesses, std::move(path));
+        additionalInductions, dimensionAccesses,
+        getSubscriptedPath(sourceOp, std::move(path)));
   }
 };
 
@@ -725,7 +739,8 @@ struct TensorExtractOpInterface
 
     return tensorOp.getEquationAccesses(
         accesses, symbolTable, explicitInductionsPositionMap,
-        additionalInductions, dimensionAccesses, std::move(path));
+        additionalInductions, dimensionAccesses,
+        getSubscriptedPath(tensorOp, std::move(path)));
   }
 };
 
@@ -921,7 +936,8 @@ struct SubscriptionOpInterface
 
     return sourceOp.getEquationAccesses(
         accesses, symbolTable, explicitInductionsPositionMap,
-        additionalInductions, dimensionAccesses, std::move(path));
+        additionalInductions, dimensionAccesses,
+        getSubscriptedPath(sourceOp, std::move(path)));
   }
 };
 
@@ -978,7 +994,8 @@ struct LoadOpInterface
 
     return arrayOp.getEquationAccesses(
         accesses, symbolTable, explicitInductionsPositionMap,
-        additionalInductions, dimensionAccesses, std::move(path));
+        additionalInductions, dimensionAccesses,
+        getSubscriptedPath(arrayOp, std::move(path)));
   }
 };
 
-- 
2.43.0

