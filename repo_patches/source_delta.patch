From cfafb9a365cf863c1acbd6bc441978355bf61c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:12 +0000
Subject: [PATCH 01/87] fix: Range::operator!=(value) must be the negation of
 operator==

---
 lib/Modeling/Range.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Modeling/Range.cpp b/lib/Modeling/Range.cpp
index 0eb8da9..fc56a50 100644
--- a/lib/Modeling/Range.cpp
+++ b/lib/Modeling/Range.cpp
@@ -20,7 +20,7 @@ bool Range::operator==(const Range &other) const {
 }
 
 bool Range::operator!=(Range::data_type other) const {
-  return getBegin() != other && getEnd() != other + 1;
+  return !(*this == other);
 }
 
 bool Range::operator!=(const Range &other) const {
-- 
2.43.0


From e2f2ef94e2ae6ee1f56de8ee63edf8c57dfbef05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:32 +0000
Subject: [PATCH 02/87] fix: IndexSet construction from ranges stored
 overlapping ranges

---
 lib/Modeling/IndexSet.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/lib/Modeling/IndexSet.cpp b/lib/Modeling/IndexSet.cpp
index e872d07..2e118f9 100644
--- a/lib/Modeling/IndexSet.cpp
+++ b/lib/Modeling/IndexSet.cpp
@@ -151,17 +151,15 @@ void IndexSet::setFromRanges(llvm::ArrayRef<MultidimensionalRange> ranges) {
   // Ensure that the ranges don't overlap.
   llvm::SmallVector<MultidimensionalRange> nonOverlappingRanges;
 
-  for (const MultidimensionalRange &current : sorted) {
-    if (nonOverlappingRanges.empty()) {
-      nonOverlappingRanges.push_back(current);
-      continue;
-    }
+  // For each non-overlapping range, the upper bound on the first dimension
+  // among that range and all the previous ones.
+  llvm::SmallVector<Range::data_type> maxEnds;
 
+  for (const MultidimensionalRange &current : sorted) {
     size_t possibleOverlapIndex = nonOverlappingRanges.size();
 
     while (possibleOverlapIndex > 0 &&
-           current.anyDimensionOverlaps(
-               nonOverlappingRanges[possibleOverlapIndex - 1])) {
+           maxEnds[possibleOverlapIndex - 1] > current[0].getBegin()) {
       --possibleOverlapIndex;
     }
 
@@ -184,13 +182,15 @@ void IndexSet::setFromRanges(llvm::ArrayRef<MultidimensionalRange> ranges) {
       differences = std::move(newDifferences);
     }
 
-    llvm::append_range(nonOverlappingRanges, std::move(differences));
-
-    llvm::sort(
-        std::next(std::begin(nonOverlappingRanges), possibleOverlapIndex),
-        std::end(nonOverlappingRanges));
+    for (MultidimensionalRange &difference : differences) {
+      Range::data_type end = difference[0].getEnd();
+      maxEnds.push_back(maxEnds.empty() ? end : std::max(maxEnds.back(), end));
+      nonOverlappingRanges.push_back(std::move(difference));
+    }
   }
 
+  llvm::sort(nonOverlappingRanges);
+
   assert(llvm::none_of(nonOverlappingRanges,
                        [&](const MultidimensionalRange &range) {
                          for (const MultidimensionalRange &other :
-- 
2.43.0


From 547d227f0b8202a845274c6fcf4fd16525844186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:32 +0000
Subject: [PATCH 03/87] fix: R-Tree removal, collapse and bulk loading left
 dangling nodes or broken invariants

---
 include/marco/Modeling/RTree.h | 194 ++++++++++++++++-----------------
 lib/Modeling/IndexSet.cpp      |  18 +--
 2 files changed, 101 insertions(+), 111 deletions(-)

diff --git a/include/marco/Modeling/RTree.h b/include/marco/Modeling/RTree.h
index 47318da..2026303 100644
--- a/include/marco/Modeling/RTree.h
+++ b/include/marco/Modeling/RTree.h
@@ -635,29 +635,25 @@ public:
       return;
     }
 
+    // Adjusting the tree can move, split or erase the other nodes. For this
+    // reason, the tree is walked again after the modification of each leaf.
     const MultidimensionalRange &shape = getShape(obj);
-    llvm::SmallVector<Node *> overlappingLeafNodes;
 
-    walkOverlappingLeafNodes(
-        shape, [&](Node &node) { overlappingLeafNodes.push_back(&node); });
+    auto matchFn = [&](const Object &object) {
+      return RTreeInfo<T>::isEqual(obj, *object);
+    };
 
-    for (Node *node : overlappingLeafNodes) {
-      bool modified = false;
+    while (Node *node = findLeafNode(shape, matchFn)) {
       llvm::SmallVector<Object> newObjects;
 
       for (Object &object : node->objects) {
-        if (RTreeInfo<T>::isEqual(obj, *object)) {
-          modified = true;
-        } else {
+        if (!matchFn(object)) {
           newObjects.push_back(std::move(object));
         }
       }
 
       node->objects = std::move(newObjects);
-
-      if (modified) {
-        adjustTree(node);
-      }
+      adjustTree(node);
     }
   }
 
@@ -666,6 +662,11 @@ public:
       return;
     }
 
+    if (this == &other) {
+      clear();
+      return;
+    }
+
     using OverlappingNodePair = std::pair<const Node *, const Node *>;
     llvm::SmallVector<OverlappingNodePair> overlappingNodePairs;
     llvm::SmallVector<std::reference_wrapper<const Object>> overlappingObjects;
@@ -841,16 +842,20 @@ protected:
     while (nodes.size() > maxElements) {
       llvm::SmallVector<std::unique_ptr<Node>> newNodes;
 
-      for (size_t i = 0, e = nodes.size(); i < e; i += maxElements) {
-        auto &parent = newNodes.emplace_back(
-            std::make_unique<Node>(nullptr, nodes[i]->getBoundary()));
+      // Distribute the nodes evenly, so that each parent has at least the
+      // minimum number of children.
+      size_t numOfParents = (nodes.size() + maxElements - 1) / maxElements;
+      size_t numOfChildren = nodes.size() / numOfParents;
+      size_t remainingChildren = nodes.size() % numOfParents;
+      size_t pos = 0;
 
-        for (size_t j = 0; j < maxElements; ++j) {
-          if (i + j >= e) {
-            break;
-          }
+      for (size_t i = 0; i < numOfParents; ++i) {
+        auto &parent = newNodes.emplace_back(
+            std::make_unique<Node>(nullptr, nodes[pos]->getBoundary()));
 
-          parent->add(std::move(nodes[i + j]));
+        for (size_t j = 0, e = numOfChildren + (i < remainingChildren ? 1 : 0);
+             j < e; ++j) {
+          parent->add(std::move(nodes[pos++]));
         }
 
         parent->recalcBoundary();
@@ -1041,95 +1046,53 @@ protected:
     return result;
   }
 
-  /// Collapse a node and its ancestors, if needed. The remaining objects and
-  /// subtrees are relocated.
+  /// Collapse a node and its ancestors, if needed. The objects belonging to the
+  /// collapsed nodes are then inserted again into the tree.
   void collapseNodeAndPropagate(Node *node) {
-    if (node->isRoot()) {
-      return;
-    }
+    llvm::SmallVector<Object> objectsToRelocate;
 
-    // Additional nodes to be collapsed may be obtained during the process.
-    llvm::SmallVector<Node *> nodesToCollapse;
-    nodesToCollapse.push_back(node);
+    while (!node->isRoot() && node->fanOut() < minElements) {
+      extractObjects(*node, objectsToRelocate);
 
-    while (!nodesToCollapse.empty()) {
-      node = nodesToCollapse.pop_back_val();
+      // Remove the node from the list of children of the parent.
+      // The node itself will be erased, and any usage of 'node' will be
+      // invalid. Therefore, we need to store the reference to the parent
+      // elsewhere.
+      Node *parent = node->getParent();
+      removeChild(parent, node);
 
-      // Move the objects out of the node being removed.
-      // This is done only once, as the nodes that will be possibly visited
-      // later will not be leaves.
-      llvm::SmallVector<Object> objectsToRelocate = std::move(node->objects);
-
-      while (!node->isRoot() && node->fanOut() < minElements) {
-        // The nodes to be relocated.
-        llvm::SmallVector<std::unique_ptr<Node>> nodesToRelocate;
-
-        // Move the objects out of the node being removed.
-        for (auto &child : node->children) {
-          nodesToRelocate.push_back(std::move(child));
-        }
-
-        // Remove the node from the list of children of the parent.
-        // The node itself will be erased, and any usage of 'node' will be
-        // invalid. Therefore, we need to store the reference to the parent
-        // elsewhere.
-        Node *parent = node->getParent();
-        removeChild(parent, node);
-
-        // Relocate the orphaned objects.
-        if (!objectsToRelocate.empty() && !parent->children.empty()) {
-          for (Object &object : objectsToRelocate) {
-            // Find the new position.
-            Node *destination = chooseLeaf(parent, object.getBoundary());
-
-            // Add the value to the leaf node.
-            destination->add(std::move(object));
-            postObjectInsertionHook(*destination);
-
-            if (destination->fanOut() > maxElements) {
-              // Split the node.
-              splitNodeAndPropagate(destination);
-            } else if (destination->fanOut() < minElements) {
-              // Schedule the node for removal.
-              nodesToCollapse.push_back(destination);
-            } else {
-              updateBoundaries(destination);
-            }
-          }
-
-          objectsToRelocate.clear();
-        }
-
-        // Relocate the orphaned nodes.
-        for (auto &nodeToRelocate : nodesToRelocate) {
-          // Find the new position.
-          Node *destination = chooseDestinationNode(
-              parent->children, nodeToRelocate->getBoundary());
+      // Move towards the root of the tree.
+      node = parent;
+    }
 
-          // Add the value to the leaf node.
-          destination->add(std::move(nodeToRelocate));
+    if (node->fanOut() == 0) {
+      assert(node->isRoot());
+      setRoot(nullptr);
+    } else {
+      updateBoundaries(node);
+    }
 
-          if (destination->fanOut() > maxElements) {
-            // Split the node.
-            splitNodeAndPropagate(destination);
-          } else {
-            updateBoundaries(destination);
-          }
-        }
+    while (getRoot() && getRoot()->children.size() == 1) {
+      setRoot(std::move(getRoot()->children.front()));
+    }
 
-        // Move towards the root of the tree.
-        node = parent;
-      }
+    // Relocate the orphaned objects.
+    for (Object &object : objectsToRelocate) {
+      RTreeCRTP::insert(std::move(*object));
+    }
+  }
 
-      // Update the boundaries.
-      updateBoundaries(node);
+  /// Move all the objects out of a node and its descendants.
+  static void extractObjects(Node &node,
+                             llvm::SmallVectorImpl<Object> &objects) {
+    for (Object &object : node.objects) {
+      objects.push_back(std::move(object));
+    }
 
-      assert(objectsToRelocate.empty() &&
-             "Not all objects have been relocated");
+    node.objects.clear();
 
-      if (getRoot() && getRoot()->children.size() == 1) {
-        setRoot(std::move(getRoot()->children.front()));
-      }
+    for (auto &child : node.children) {
+      extractObjects(*child, objects);
     }
   }
 
@@ -1222,6 +1185,39 @@ protected:
     walkOverlappingLeafNodes(getRoot(), range, walkFn);
   }
 
+  /// Get a leaf node, among the ones overlapping with the given range, that has
+  /// at least an object satisfying the given condition. If there is no such
+  /// node, then return a null pointer.
+  Node *findLeafNode(const MultidimensionalRange &range,
+                     llvm::function_ref<bool(const Object &)> matchFn) {
+    llvm::SmallVector<Node *> nodeStack;
+
+    if (Node *root = getRoot()) {
+      nodeStack.push_back(root);
+    }
+
+    while (!nodeStack.empty()) {
+      Node *node = nodeStack.pop_back_val();
+
+      if (!node->getBoundary().overlaps(range)) {
+        continue;
+      }
+
+      if (node->isLeaf()) {
+        if (llvm::any_of(node->objects, matchFn)) {
+          return node;
+        }
+      } else {
+        for (auto &child : llvm::make_range(node->children.rbegin(),
+                                            node->children.rend())) {
+          nodeStack.push_back(child.get());
+        }
+      }
+    }
+
+    return nullptr;
+  }
+
 private:
   template <typename NodeT, typename ValueT>
   static void
diff --git a/lib/Modeling/IndexSet.cpp b/lib/Modeling/IndexSet.cpp
index 2e118f9..6d52b94 100644
--- a/lib/Modeling/IndexSet.cpp
+++ b/lib/Modeling/IndexSet.cpp
@@ -317,20 +317,16 @@ void IndexSet::remove(const MultidimensionalRange &other) {
     return;
   }
 
-  llvm::SmallVector<Node *> overlappingNodes;
+  // Adjusting the tree can move, split or erase the other nodes. For this
+  // reason, the tree is walked again after the modification of each leaf.
+  auto matchFn = [&](const Object &value) { return value->overlaps(other); };
 
-  walkOverlappingLeafNodes(
-      other, [&](Node &node) { overlappingNodes.push_back(&node); });
-
-  for (Node *node : overlappingNodes) {
+  while (Node *node = findLeafNode(other, matchFn)) {
     assert(node->isLeaf());
-    bool modified = false;
-
     llvm::SmallVector<Object> differences;
 
     for (Object &value : node->objects) {
       if (value->overlaps(other)) {
-        modified = true;
         llvm::append_range(differences, value->subtract(other));
       } else {
         differences.emplace_back(std::move(value));
@@ -339,10 +335,8 @@ void IndexSet::remove(const MultidimensionalRange &other) {
 
     node->objects = std::move(differences);
 
-    if (modified) {
-      // Split and collapse nodes, if necessary.
-      adjustTree(node);
-    }
+    // Split and collapse nodes, if necessary.
+    adjustTree(node);
   }
 
   assert(isValid());
-- 
2.43.0


From 141f8281ffeaa800d454137a0e943d4bdb2d9d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:32 +0000
Subject: [PATCH 04/87] fix: inverse map of rototranslations returned points
 outside the parent indices

When some dimensions are not used by the access function, the inverse was
composed with the ranges of all the parent indices, including the ones that
do not contain the found values of the used dimensions.
---
 lib/Modeling/AccessFunctionRotoTranslation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Modeling/AccessFunctionRotoTranslation.cpp b/lib/Modeling/AccessFunctionRotoTranslation.cpp
index 682dbde..e37609c 100644
--- a/lib/Modeling/AccessFunctionRotoTranslation.cpp
+++ b/lib/Modeling/AccessFunctionRotoTranslation.cpp
@@ -269,7 +269,9 @@ AccessFunctionRotoTranslation::inverseMap(const IndexSet &accessedIndices,
       }
     }
 
-    return {mapped};
+    // The parent ranges may be coupled to specific values of the used
+    // dimensions.
+    return IndexSet(mapped).intersect(parentIndices);
   }
 
   return AccessFunction::inverseMap(accessedIndices, parentIndices);
-- 
2.43.0


From 21c94e21b7559232c3e89f3abe2f074c21df8b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:32 +0000
Subject: [PATCH 05/87] fix: image of index sets under rototranslations
 repeating a dimension

The image of a range under accesses such as (d0) -> (d0, d0) was computed as
a box, thus including elements that are not accessed.
---
 lib/Modeling/AccessFunctionRotoTranslation.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/Modeling/AccessFunctionRotoTranslation.cpp b/lib/Modeling/AccessFunctionRotoTranslation.cpp
index e37609c..3fcec37 100644
--- a/lib/Modeling/AccessFunctionRotoTranslation.cpp
+++ b/lib/Modeling/AccessFunctionRotoTranslation.cpp
@@ -183,6 +183,14 @@ AccessFunctionRotoTranslation::map(const MultidimensionalRange &indices) const {
 }
 
 IndexSet AccessFunctionRotoTranslation::map(const IndexSet &indices) const {
+  llvm::SmallVector<size_t> usages;
+  countVariablesUsages(usages);
+
+  if (llvm::any_of(usages, [](size_t usage) { return usage > 1; })) {
+    // The results are correlated and thus the image of a range is not a range.
+    return AccessFunctionAffineMap::map(indices);
+  }
+
   llvm::SmallVector<MultidimensionalRange> mapped;
 
   for (const MultidimensionalRange &range :
-- 
2.43.0


From 4952fa00238f75a89ae2f8d95ffb5bc2e1fe21a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:39 +0000
Subject: [PATCH 06/87] fix: access functions containing a remainder aborted

The simplification of affine expressions turns d0 - (d0 floordiv 4) * 4 into
d0 mod 4, which had no corresponding dimension access.
---
 lib/Modeling/DimensionAccess.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/lib/Modeling/DimensionAccess.cpp b/lib/Modeling/DimensionAccess.cpp
index 22b1cc6..c0410e3 100644
--- a/lib/Modeling/DimensionAccess.cpp
+++ b/lib/Modeling/DimensionAccess.cpp
@@ -9,6 +9,14 @@
 
 using namespace ::marco::modeling;
 
+/// Get the access for the remainder of a division, which is introduced by the
+/// simplification of affine expressions such as d0 - (d0 floordiv 4) * 4.
+static std::unique_ptr<DimensionAccess>
+getModAccess(std::unique_ptr<DimensionAccess> lhs,
+             std::unique_ptr<DimensionAccess> rhs) {
+  return *lhs - *(*(*lhs / *rhs) * *rhs);
+}
+
 namespace marco::modeling {
 DimensionAccess::Redirect::Redirect() {}
 
@@ -90,6 +98,11 @@ DimensionAccess::build(mlir::AffineExpr expression) {
           binaryExpr.getContext(), DimensionAccess::build(binaryExpr.getLHS()),
           DimensionAccess::build(binaryExpr.getRHS()));
     }
+
+    if (kind == mlir::AffineExprKind::Mod) {
+      return getModAccess(DimensionAccess::build(binaryExpr.getLHS()),
+                          DimensionAccess::build(binaryExpr.getRHS()));
+    }
   }
 
   llvm_unreachable("Unexpected expression type");
@@ -146,6 +159,13 @@ DimensionAccess::getDimensionAccessFromExtendedMap(
           DimensionAccess::getDimensionAccessFromExtendedMap(
               binaryExpr.getRHS(), fakeDimensionsMap));
     }
+
+    if (kind == mlir::AffineExprKind::Mod) {
+      return getModAccess(DimensionAccess::getDimensionAccessFromExtendedMap(
+                              binaryExpr.getLHS(), fakeDimensionsMap),
+                          DimensionAccess::getDimensionAccessFromExtendedMap(
+                              binaryExpr.getRHS(), fakeDimensionsMap));
+    }
   }
 
   llvm_unreachable("Unexpected expression type");
-- 
2.43.0


From 76108df9c2e6ea47e480123f1cbb192ee57f901d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:39 +0000
Subject: [PATCH 07/87] fix: division of dimension accesses must agree with its
 affine expression

The access was mapped with a truncating division, while its affine expression
is a floor division, so the elements accessed depended on the representation.
---
 lib/Modeling/DimensionAccessDiv.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Modeling/DimensionAccessDiv.cpp b/lib/Modeling/DimensionAccessDiv.cpp
index 814b389..e118ab5 100644
--- a/lib/Modeling/DimensionAccessDiv.cpp
+++ b/lib/Modeling/DimensionAccessDiv.cpp
@@ -1,4 +1,5 @@
 #include "marco/Modeling/DimensionAccessDiv.h"
+#include "llvm/Support/MathExtras.h"
 #include "llvm/Support/raw_ostream.h"
 
 using namespace ::marco::modeling;
@@ -128,7 +129,8 @@ IndexSet DimensionAccessDiv::map(
       coordinates.clear();
 
       for (size_t i = 0, e = mappedLhsPoint.rank(); i < e; ++i) {
-        coordinates.push_back(mappedLhsPoint[i] / mappedRhsPoint[i]);
+        coordinates.push_back(
+            llvm::divideFloorSigned(mappedLhsPoint[i], mappedRhsPoint[i]));
       }
 
       result += Point(coordinates);
-- 
2.43.0


From 881725d26afff483758c511b3d447dd91a89457f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:39 +0000
Subject: [PATCH 08/87] fix: combining access functions lost the index sets of
 the first one

The dimensions standing for the ranges and index sets of the left-hand side
were left in the result as if they were real dimensions.
---
 lib/Modeling/AccessFunction.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Modeling/AccessFunction.cpp b/lib/Modeling/AccessFunction.cpp
index bb03705..b363c73 100644
--- a/lib/Modeling/AccessFunction.cpp
+++ b/lib/Modeling/AccessFunction.cpp
@@ -190,6 +190,10 @@ AccessFunction::combine(const AccessFunction &other) const {
     resultFakeDimensionsMap[lhsDimension] = rhsFakeDimensionsMap[rhsDimension];
   }
 
+  for (const auto &fakeDimension : lhsFakeDimensionsMap) {
+    resultFakeDimensionsMap[fakeDimension.first] = fakeDimension.second;
+  }
+
   // Remove the additional dimensions.
   return AccessFunction::fromExtendedMap(combinedAffineMap,
                                          resultFakeDimensionsMap);
-- 
2.43.0


From 3480170fd5f8fe0a2c581c6abbf6315cc7c81041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:04 +0000
Subject: [PATCH 09/87] fix: image of points through dependent index sets had
 twice the rank

The results were appended once more to the indices already mapped for each
point of the dependent iteration spaces.
---
 lib/Modeling/AccessFunctionGeneric.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Modeling/AccessFunctionGeneric.cpp b/lib/Modeling/AccessFunctionGeneric.cpp
index 852d309..1e8ef95 100644
--- a/lib/Modeling/AccessFunctionGeneric.cpp
+++ b/lib/Modeling/AccessFunctionGeneric.cpp
@@ -219,6 +219,8 @@ IndexSet AccessFunctionGeneric::map(const Point &point) const {
   if (!iterationSpacesWithDependencies.empty()) {
     map(mappedIndices, point, iterationSpacesWithDependencies, 0,
         currentIterationSpacePoint);
+
+    return mappedIndices;
   }
 
   // No dependencies among iteration spaces.
@@ -249,6 +251,8 @@ void AccessFunctionGeneric::map(
       map(mappedIndices, point, iterationSpaces, currentIterationSpace + 1,
           currentIterationSpacePoint);
     }
+
+    return;
   }
 
   IndexSet currentMappedIndices;
-- 
2.43.0


From a24cb66fd9763813eebd264fa2a60e0dae482846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:24 +0000
Subject: [PATCH 10/87] fix: generic access functions with different results
 compared equal

A function whose results are a prefix of the ones of another was considered
equal to it.
---
 lib/Modeling/AccessFunctionGeneric.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Modeling/AccessFunctionGeneric.cpp b/lib/Modeling/AccessFunctionGeneric.cpp
index 1e8ef95..a5c8deb 100644
--- a/lib/Modeling/AccessFunctionGeneric.cpp
+++ b/lib/Modeling/AccessFunctionGeneric.cpp
@@ -79,6 +79,10 @@ bool AccessFunctionGeneric::operator==(
     return false;
   }
 
+  if (getNumOfResults() != other.getNumOfResults()) {
+    return false;
+  }
+
   for (const auto &[lhsResult, rhsResult] :
        llvm::zip(getResults(), other.getResults())) {
     if (*lhsResult != *rhsResult) {
-- 
2.43.0


From ec750799e39bc552fe2ab8f9aaaf91fbf32e5805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:16 +0000
Subject: [PATCH 11/87] fix: equality of index set accesses must consider the
 dependent dimensions

---
 lib/Modeling/DimensionAccessIndices.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Modeling/DimensionAccessIndices.cpp b/lib/Modeling/DimensionAccessIndices.cpp
index 0499e55..00a44f5 100644
--- a/lib/Modeling/DimensionAccessIndices.cpp
+++ b/lib/Modeling/DimensionAccessIndices.cpp
@@ -27,7 +27,8 @@ bool DimensionAccessIndices::operator==(const DimensionAccess &other) const {
 
 bool DimensionAccessIndices::operator==(
     const DimensionAccessIndices &other) const {
-  return space == other.space && dimension == other.dimension;
+  return space == other.space && dimension == other.dimension &&
+         dimensionDependencies == other.dimensionDependencies;
 }
 
 bool DimensionAccessIndices::operator!=(const DimensionAccess &other) const {
-- 
2.43.0


From aa6060ed7911557b262581e44868480c79ae2389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:29 +0000
Subject: [PATCH 12/87] fix: inverse maps of indices that are not accessed

Given indices that are not (all) accessed from the parent ones, the inverse
maps returned points outside the parent indices, took inaccessible indices as
accessible, or discarded all the parent indices.
---
 lib/Modeling/AccessFunctionAffineConstant.cpp  | 3 ++-
 lib/Modeling/AccessFunctionConstant.cpp        | 3 ++-
 lib/Modeling/AccessFunctionRotoTranslation.cpp | 8 ++++++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/Modeling/AccessFunctionAffineConstant.cpp b/lib/Modeling/AccessFunctionAffineConstant.cpp
index 06e702d..41a025a 100644
--- a/lib/Modeling/AccessFunctionAffineConstant.cpp
+++ b/lib/Modeling/AccessFunctionAffineConstant.cpp
@@ -89,7 +89,8 @@ AccessFunctionAffineConstant::inverseMap(const IndexSet &accessedIndices,
     return {};
   }
 
-  if (expectedAccessedIndices.contains(accessedIndices)) {
+  if (accessedIndices.empty() ||
+      expectedAccessedIndices.overlaps(accessedIndices)) {
     return parentIndices;
   }
 
diff --git a/lib/Modeling/AccessFunctionConstant.cpp b/lib/Modeling/AccessFunctionConstant.cpp
index fe7f6bd..5242058 100644
--- a/lib/Modeling/AccessFunctionConstant.cpp
+++ b/lib/Modeling/AccessFunctionConstant.cpp
@@ -65,7 +65,8 @@ AccessFunctionConstant::inverseMap(const IndexSet &accessedIndices,
     return {};
   }
 
-  if (expectedAccessedIndices.contains(accessedIndices)) {
+  if (accessedIndices.empty() ||
+      expectedAccessedIndices.overlaps(accessedIndices)) {
     return parentIndices;
   }
 
diff --git a/lib/Modeling/AccessFunctionRotoTranslation.cpp b/lib/Modeling/AccessFunctionRotoTranslation.cpp
index 3fcec37..f7d9b17 100644
--- a/lib/Modeling/AccessFunctionRotoTranslation.cpp
+++ b/lib/Modeling/AccessFunctionRotoTranslation.cpp
@@ -214,7 +214,7 @@ AccessFunctionRotoTranslation::inverseMap(const IndexSet &accessedIndices,
         accessedIndices.rank() == parentIndices.rank()) {
       IndexSet mapped = inverseAccessFunction->map(accessedIndices);
       assert(map(mapped).contains(accessedIndices));
-      return mapped;
+      return mapped.intersect(parentIndices);
     }
   }
 
@@ -245,7 +245,11 @@ AccessFunctionRotoTranslation::inverseMap(const IndexSet &accessedIndices,
 
     auto reducedAccessFunction = AccessFunctionAffineMap::build(reducedDimsMap);
     auto reducedParentIndices = parentIndices.slice(usedDimensions);
-    auto reducedAccessedIndices = accessedIndices.slice(usedResults);
+
+    // Discard the indices that are not reachable before dropping the results
+    // that make them so.
+    auto reducedAccessedIndices =
+        accessedIndices.intersect(map(parentIndices)).slice(usedResults);
 
     IndexSet reducedInverseMap = reducedAccessFunction->inverseMap(
         reducedAccessedIndices, reducedParentIndices);
-- 
2.43.0


From 19d66564feb04e4ce49ce7772fc9862f458ba420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:31 +0000
Subject: [PATCH 13/87] fix: restricting the variable space of an MCIM used the
 equation dimensions

The stored points consist of the equation indices followed by the variable
ones, but the leading dimensions were compared with the variable space.
---
 lib/Modeling/MCIM.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/Modeling/MCIM.cpp b/lib/Modeling/MCIM.cpp
index ac67f56..6c7e569 100644
--- a/lib/Modeling/MCIM.cpp
+++ b/lib/Modeling/MCIM.cpp
@@ -187,14 +187,15 @@ void MCIM::setVariableSpace(std::shared_ptr<const IndexSet> newVariableSpace) {
     llvm::SmallVector<Range> ranges;
 
     IndexSet intersection = newVariableSpace->intersect(
-        multidimRange.takeFirstDimensions(newVariableSpace->rank()));
+        multidimRange.takeLastDimensions(newVariableSpace->rank()));
 
     for (const MultidimensionalRange &intersectionMultidimRange :
          llvm::make_range(intersection.rangesBegin(),
                           intersection.rangesEnd())) {
-      newPoints +=
-          intersectionMultidimRange.append(multidimRange.takeLastDimensions(
-              points.rank() - newVariableSpace->rank()));
+      newPoints += multidimRange
+                       .takeFirstDimensions(points.rank() -
+                                            newVariableSpace->rank())
+                       .append(intersectionMultidimRange);
     }
   }
 
-- 
2.43.0


From 2b67c626faac3c95d0217de6adfca0e80c6781ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:31 +0000
Subject: [PATCH 14/87] fix: MCIM::withSpace lost the points and kept removed
 variables

The points of the (always empty) result were checked instead of the existing
ones, and the groups were not filtered when the variable space is reduced.
---
 lib/Modeling/MCIM.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Modeling/MCIM.cpp b/lib/Modeling/MCIM.cpp
index 6c7e569..523440e 100644
--- a/lib/Modeling/MCIM.cpp
+++ b/lib/Modeling/MCIM.cpp
@@ -552,7 +552,7 @@ MCIM MCIM::withSpace(std::shared_ptr<const IndexSet> newEquationSpace,
   MCIM result(newEquationSpace, newVariableSpace);
 
   auto filterKeysFn = [&](const MCIMGroup &group) -> IndexSet {
-    if (!getVariableSpace().contains(*newVariableSpace)) {
+    if (!newVariableSpace->contains(getVariableSpace())) {
       auto filteredGroup = group.filterValues(*newVariableSpace);
       return filteredGroup->getKeys().intersect(*newEquationSpace);
     }
@@ -570,7 +570,7 @@ MCIM MCIM::withSpace(std::shared_ptr<const IndexSet> newEquationSpace,
     }
   }
 
-  if (!result.points.empty()) {
+  if (!points.empty()) {
     result.points =
         points.intersect(newEquationSpace->append(*newVariableSpace));
   }
-- 
2.43.0


From cc117196c34f7a4eecaec63e44b422e33dcc55c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:31 +0000
Subject: [PATCH 15/87] fix: MCIM::unset dropped the groups not containing the
 element

All the groups for which the element was not set were discarded.
---
 lib/Modeling/MCIM.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Modeling/MCIM.cpp b/lib/Modeling/MCIM.cpp
index 523440e..86ee755 100644
--- a/lib/Modeling/MCIM.cpp
+++ b/lib/Modeling/MCIM.cpp
@@ -451,10 +451,10 @@ void MCIM::unset(const Point &equation, const Point &variable) {
   std::vector<std::unique_ptr<MCIMGroup>> newGroups;
 
   for (auto &group : groups) {
-    if (group->unset(equation, variable)) {
-      if (!group->empty()) {
-        newGroups.push_back(std::move(group));
-      }
+    group->unset(equation, variable);
+
+    if (!group->empty()) {
+      newGroups.push_back(std::move(group));
     }
   }
 
-- 
2.43.0


From 22d4ce140d52df0e203fbe8e7a568e6f76d89c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:31 +0000
Subject: [PATCH 16/87] fix: difference of MCIMs removed wrong elements and
 left common ones

Keys of different groups were removed even when they were associated to
different values, and the points covered by the subtracted groups were kept.
---
 lib/Modeling/MCIM.cpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/lib/Modeling/MCIM.cpp b/lib/Modeling/MCIM.cpp
index 86ee755..1a71a96 100644
--- a/lib/Modeling/MCIM.cpp
+++ b/lib/Modeling/MCIM.cpp
@@ -324,7 +324,16 @@ MCIM &MCIM::operator-=(const MCIM &rhs) {
           continue;
         }
 
-        IndexSet commonKeys = lhsKeys.intersect(rhsKeys);
+        // The same value may be reached from different keys.
+        IndexSet commonKeys;
+
+        for (const Point &key : lhsKeys.intersect(rhsKeys)) {
+          if (group->getAccessFunction().map(key) ==
+              rhsGroup->getAccessFunction().map(key)) {
+            commonKeys += key;
+          }
+        }
+
         group->removeKeys(commonKeys);
       }
     }
@@ -356,6 +365,20 @@ MCIM &MCIM::operator-=(const MCIM &rhs) {
 
   points -= rhs.points;
 
+  // Remove the extra points that are covered by the groups.
+  for (const auto &rhsGroup : rhs.groups) {
+    IndexSet removedPoints;
+
+    for (const Point &point : points) {
+      if (rhsGroup->has(point.takeFront(getEquationSpace().rank()),
+                        point.takeBack(getVariableSpace().rank()))) {
+        removedPoints += point;
+      }
+    }
+
+    points -= removedPoints;
+  }
+
   assert(std::all_of(rhs.indicesBegin(), rhs.indicesEnd(),
                      [&](std::pair<Point, Point> coordinates) {
                        if (rhs.get(coordinates.first, coordinates.second)) {
-- 
2.43.0


From e23fb2dd7248693f55086c9767e7fc1b103929f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:33 +0000
Subject: [PATCH 17/87] fix: MCIMs whose accesses reach multiple elements kept,
 lost or added elements

---
 lib/Modeling/MCIM.cpp             | 115 +++++++++++++++++++++++-------
 lib/Modeling/MCIMGroupGeneric.cpp |  10 +--
 2 files changed, 96 insertions(+), 29 deletions(-)

diff --git a/lib/Modeling/MCIM.cpp b/lib/Modeling/MCIM.cpp
index 1a71a96..7091cc3 100644
--- a/lib/Modeling/MCIM.cpp
+++ b/lib/Modeling/MCIM.cpp
@@ -75,6 +75,38 @@ void MCIM::IndicesIterator::advance() {
 // MCIM
 //===----------------------------------------------------------------------===//
 
+/// Get the keys whose values are all among the allowed ones.
+/// If only some of the values of a key are allowed, then the key is discarded
+/// and its allowed values are added to the points.
+static IndexSet filterKeysByValues(const AccessFunction &accessFunction,
+                                   const IndexSet &keys,
+                                   const IndexSet &allowedValues,
+                                   IndexSet &points) {
+  if (accessFunction.isAffine()) {
+    // There is just one value for each key.
+    return accessFunction.inverseMap(
+        accessFunction.map(keys).intersect(allowedValues), keys);
+  }
+
+  IndexSet result;
+
+  for (const Point &key : keys) {
+    IndexSet values = accessFunction.map(key);
+    IndexSet filteredValues = values.intersect(allowedValues);
+
+    if (filteredValues == values) {
+      result += key;
+      continue;
+    }
+
+    for (const Point &value : filteredValues) {
+      points += key.append(value);
+    }
+  }
+
+  return result;
+}
+
 namespace marco::modeling::internal {
 MCIM::MCIM(MultidimensionalRange equationSpace,
            MultidimensionalRange variableSpace)
@@ -166,12 +198,12 @@ void MCIM::setVariableSpace(std::shared_ptr<const IndexSet> newVariableSpace) {
 
   variableSpace = newVariableSpace;
   std::vector<std::unique_ptr<MCIMGroup>> newGroups;
+  IndexSet newPoints;
 
   for (auto &group : groups) {
-    const AccessFunction &accessFunction = group->getAccessFunction();
-
-    IndexSet newKeys = accessFunction.inverseMap(
-        group->getValues().intersect(*newVariableSpace), group->getKeys());
+    IndexSet newKeys =
+        filterKeysByValues(group->getAccessFunction(), group->getKeys(),
+                           *newVariableSpace, newPoints);
 
     if (!newKeys.empty()) {
       group->setKeys(std::move(newKeys));
@@ -180,7 +212,6 @@ void MCIM::setVariableSpace(std::shared_ptr<const IndexSet> newVariableSpace) {
   }
 
   groups = std::move(newGroups);
-  IndexSet newPoints;
 
   for (const MultidimensionalRange &multidimRange :
        llvm::make_range(points.rangesBegin(), points.rangesEnd())) {
@@ -298,8 +329,37 @@ MCIM &MCIM::operator-=(const MCIM &rhs) {
   std::vector<std::unique_ptr<MCIMGroup>> oldGroups;
   swap(oldGroups, groups);
 
+  for (auto &group : oldGroups) {
+    if (group->getAccessFunction().isAffine()) {
+      continue;
+    }
+
+    // Only some of the values associated to a key may have to be removed.
+    IndexSet splitKeys;
+
+    for (const Point &key : group->getKeys()) {
+      IndexSet values = group->getAccessFunction().map(key);
+
+      if (llvm::any_of(values, [&](const Point &value) {
+            return rhs.get(key, value);
+          })) {
+        splitKeys += key;
+
+        for (const Point &value : values) {
+          points += key.append(value);
+        }
+      }
+    }
+
+    group->removeKeys(splitKeys);
+  }
+
   for (auto &rhsGroup : rhs.groups) {
     for (auto &group : oldGroups) {
+      if (!group->getAccessFunction().isAffine()) {
+        continue;
+      }
+
       if (group->getAccessFunction() == rhsGroup->getAccessFunction()) {
         group->removeKeys(rhsGroup->getKeys());
       } else {
@@ -317,19 +377,12 @@ MCIM &MCIM::operator-=(const MCIM &rhs) {
           continue;
         }
 
-        IndexSet rhsKeys = rhsGroup->getAccessFunction().inverseMap(
-            commonValues, rhsGroup->getKeys());
-
-        if (rhsKeys.empty()) {
-          continue;
-        }
-
         // The same value may be reached from different keys.
         IndexSet commonKeys;
 
-        for (const Point &key : lhsKeys.intersect(rhsKeys)) {
-          if (group->getAccessFunction().map(key) ==
-              rhsGroup->getAccessFunction().map(key)) {
+        for (const Point &key : lhsKeys.intersect(rhsGroup->getKeys())) {
+          if (rhsGroup->getAccessFunction().map(key).contains(
+                  group->getAccessFunction().map(key))) {
             commonKeys += key;
           }
         }
@@ -340,7 +393,7 @@ MCIM &MCIM::operator-=(const MCIM &rhs) {
   }
 
   for (auto &group : oldGroups) {
-    if (!group->empty()) {
+    if (!group->empty() && group->getAccessFunction().isAffine()) {
       // Remove the keys that overlap with the extra points.
       for (const MultidimensionalRange &range :
            llvm::make_range(rhs.points.rangesBegin(), rhs.points.rangesEnd())) {
@@ -411,8 +464,8 @@ void MCIM::apply(const MultidimensionalRange &equations,
 void MCIM::apply(const IndexSet &equations, const AccessFunction &access) {
   assert(getEquationSpace().contains(equations));
 
-  IndexSet filteredEquations = access.inverseMap(
-      access.map(equations).intersect(getVariableSpace()), equations);
+  IndexSet filteredEquations =
+      filterKeysByValues(access, equations, getVariableSpace(), points);
 
   if (!filteredEquations.empty()) {
     auto groupIt =
@@ -474,7 +527,14 @@ void MCIM::unset(const Point &equation, const Point &variable) {
   std::vector<std::unique_ptr<MCIMGroup>> newGroups;
 
   for (auto &group : groups) {
-    group->unset(equation, variable);
+    if (group->has(equation, variable)) {
+      // Preserve the other values associated to the equation.
+      for (const Point &other : group->getAccessFunction().map(equation)) {
+        points += equation.append(other);
+      }
+
+      group->removeKeys(IndexSet(equation));
+    }
 
     if (!group->empty()) {
       newGroups.push_back(std::move(group));
@@ -541,9 +601,12 @@ MCIM MCIM::filterColumns(const IndexSet &filter) const {
   MCIM result(equationSpace, variableSpace);
 
   for (const auto &group : groups) {
-    std::unique_ptr<MCIMGroup> filteredGroup = group->filterValues(filter);
+    IndexSet filteredKeys = filterKeysByValues(
+        group->getAccessFunction(), group->getKeys(), filter, result.points);
 
-    if (!filteredGroup->empty()) {
+    if (!filteredKeys.empty()) {
+      auto filteredGroup = MCIMGroup::build(group->getAccessFunction());
+      filteredGroup->addKeys(filteredKeys);
       result.addGroup(std::move(filteredGroup));
     }
   }
@@ -575,12 +638,14 @@ MCIM MCIM::withSpace(std::shared_ptr<const IndexSet> newEquationSpace,
   MCIM result(newEquationSpace, newVariableSpace);
 
   auto filterKeysFn = [&](const MCIMGroup &group) -> IndexSet {
+    IndexSet keys = group.getKeys().intersect(*newEquationSpace);
+
     if (!newVariableSpace->contains(getVariableSpace())) {
-      auto filteredGroup = group.filterValues(*newVariableSpace);
-      return filteredGroup->getKeys().intersect(*newEquationSpace);
+      return filterKeysByValues(group.getAccessFunction(), keys,
+                                *newVariableSpace, result.points);
     }
 
-    return group.getKeys().intersect(*newEquationSpace);
+    return keys;
   };
 
   for (const auto &group : groups) {
@@ -594,7 +659,7 @@ MCIM MCIM::withSpace(std::shared_ptr<const IndexSet> newEquationSpace,
   }
 
   if (!points.empty()) {
-    result.points =
+    result.points +=
         points.intersect(newEquationSpace->append(*newVariableSpace));
   }
 
diff --git a/lib/Modeling/MCIMGroupGeneric.cpp b/lib/Modeling/MCIMGroupGeneric.cpp
index 0ef8999..2f53b4f 100644
--- a/lib/Modeling/MCIMGroupGeneric.cpp
+++ b/lib/Modeling/MCIMGroupGeneric.cpp
@@ -54,10 +54,12 @@ bool MCIMGroupGeneric::has(const Point &key, const Point &value) const {
 }
 
 bool MCIMGroupGeneric::set(const Point &key, const Point &value) {
-  IndexSet inverseKeys =
-      getAccessFunction().inverseMap(IndexSet(value), IndexSet(key));
-  addKeys(inverseKeys);
-  return !inverseKeys.empty();
+  if (getAccessFunction().map(key) != IndexSet(value)) {
+    return false;
+  }
+
+  addKeys(IndexSet(key));
+  return true;
 }
 
 bool MCIMGroupGeneric::unset(const Point &key, const Point &value) {
-- 
2.43.0


From ba83a7de50b448603fe5df81a7be5dcde18b99ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:51 +0000
Subject: [PATCH 18/87] fix: every second access function was skipped among the
 local matching solutions

---
 lib/Modeling/LocalMatchingSolutionsVAF.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/Modeling/LocalMatchingSolutionsVAF.cpp b/lib/Modeling/LocalMatchingSolutionsVAF.cpp
index cf72495..6426ca4 100644
--- a/lib/Modeling/LocalMatchingSolutionsVAF.cpp
+++ b/lib/Modeling/LocalMatchingSolutionsVAF.cpp
@@ -400,7 +400,6 @@ void VAFSolutions::fetchNext() {
   if (generator == nullptr) {
     if (currentAccessFunction < accessFunctions.size()) {
       generator = getGenerator(*accessFunctions[currentAccessFunction++]);
-      ++currentAccessFunction;
     }
   }
 
-- 
2.43.0


From 3edb24d79ba4d390a666a90eb92c09ae6f9130e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:51 +0000
Subject: [PATCH 19/87] fix: ordering of access functions must be a strict weak
 ordering

---
 lib/Modeling/LocalMatchingSolutionsVAF.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Modeling/LocalMatchingSolutionsVAF.cpp b/lib/Modeling/LocalMatchingSolutionsVAF.cpp
index 6426ca4..171d487 100644
--- a/lib/Modeling/LocalMatchingSolutionsVAF.cpp
+++ b/lib/Modeling/LocalMatchingSolutionsVAF.cpp
@@ -454,7 +454,7 @@ bool VAFSolutions::compareAccessFunctions(
   size_t lhsUniqueUsages = llvm::count_if(lhsUsages, counter);
   size_t rhsUniqueUsages = llvm::count_if(rhsUsages, counter);
 
-  return lhsUniqueUsages >= rhsUniqueUsages;
+  return lhsUniqueUsages > rhsUniqueUsages;
 }
 
 size_t
-- 
2.43.0


From c3700e76fcd0c14c73255eee6af49a04759ff406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:51 +0000
Subject: [PATCH 20/87] fix: constant accesses announced no local matching
 solution

---
 lib/Modeling/LocalMatchingSolutionsVAF.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Modeling/LocalMatchingSolutionsVAF.cpp b/lib/Modeling/LocalMatchingSolutionsVAF.cpp
index 171d487..c376334 100644
--- a/lib/Modeling/LocalMatchingSolutionsVAF.cpp
+++ b/lib/Modeling/LocalMatchingSolutionsVAF.cpp
@@ -487,7 +487,7 @@ VAFSolutions::getSolutionsAmount(const AccessFunctionAffineConstant &) const {
 
 size_t VAFSolutions::getSolutionsAmount(
     const AccessFunctionConstant &accessFunction) const {
-  return equationIndices->size() * accessFunction.map(IndexSet()).size();
+  return equationIndices->size() * accessFunction.map(*equationIndices).size();
 }
 
 size_t VAFSolutions::getSolutionsAmount(
-- 
2.43.0


From 9cb3efb4e0900c1bcb0738bab5f9653c33d1984e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:46 +0000
Subject: [PATCH 21/87] fix: keep all the visits of a candidate augmenting path

A path may traverse the same array node more than once. Each traversal was
overwriting the indices touched by the other ones, and thus overlapping paths
were accepted.
---
 include/marco/Modeling/Matching.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/marco/Modeling/Matching.h b/include/marco/Modeling/Matching.h
index e8c3bc2..9773dbb 100644
--- a/include/marco/Modeling/Matching.h
+++ b/include/marco/Modeling/Matching.h
@@ -2342,7 +2342,7 @@ protected:
                 newVisits[curStep->getNode()] += touchedIndices;
               }
             } else {
-              newVisits[curStep->getNode()] = std::move(touchedIndices);
+              newVisits[curStep->getNode()] += touchedIndices;
             }
 
             // Move backwards inside the candidate augmenting path.
-- 
2.43.0


From c9d7c44e4dff7dfa4b1fe740fa118c1b79a6a367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:46 +0000
Subject: [PATCH 22/87] fix: discard leaf matching candidates left without
 edges

---
 include/marco/Modeling/Matching.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/marco/Modeling/Matching.h b/include/marco/Modeling/Matching.h
index 9773dbb..a7a1614 100644
--- a/include/marco/Modeling/Matching.h
+++ b/include/marco/Modeling/Matching.h
@@ -1999,7 +1999,11 @@ private:
 
           size_t visibilityDegree = getVertexVisibilityDegreeUpTo(v2, 2);
 
-          if (visibilityDegree == 1) {
+          if (visibilityDegree == 0) {
+            // 'v2' may already be in the candidates list. However, having no
+            // outgoing edge, it can't be simplified anymore.
+            remove(v2);
+          } else if (visibilityDegree == 1) {
             candidates.push_back(v2);
           }
         }
-- 
2.43.0


From 923b63a4371ab18b6f3d3d3d3a3d5a452de84d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:46 +0000
Subject: [PATCH 23/87] fix: allow multivalued accesses to scalarized variables

---
 include/marco/Modeling/Matching.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/marco/Modeling/Matching.h b/include/marco/Modeling/Matching.h
index a7a1614..90603d4 100644
--- a/include/marco/Modeling/Matching.h
+++ b/include/marco/Modeling/Matching.h
@@ -608,10 +608,7 @@ public:
 
         // If an equation accesses to a scalarized variable, then either the
         // access is constant (e.g., x[0]), or the equation had to be scalarized
-        // too. In both cases, the accessed variable indices consist of only one
-        // point by construction.
-        assert(accessedIndices.size() == 1);
-
+        // too. Still, the access may reach multiple points (e.g., x[0:3]).
         for (Point point : accessedIndices) {
           const auto &pointsMap = scalarVariablesIt->second;
           auto pointVariableIt = pointsMap.find(point);
-- 
2.43.0


From bd2d0ffb8ecc04cdc19fded01fa92a65b906d344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:02 +0000
Subject: [PATCH 24/87] fix: bound the search of augmenting paths

The search was enumerating all the traversals of the graph. On systems without
a full match (e.g., many equations accessing to the same scalar variable) their
number is exponential and the matching process was never terminating.
---
 include/marco/Modeling/Matching.h | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/include/marco/Modeling/Matching.h b/include/marco/Modeling/Matching.h
index 90603d4..3d4b57f 100644
--- a/include/marco/Modeling/Matching.h
+++ b/include/marco/Modeling/Matching.h
@@ -2405,9 +2405,13 @@ protected:
     std::mutex newFrontierMutex;
     std::mutex pathsMutex;
 
+    // The indices already reached by the traversals, for each node.
+    llvm::DenseMap<VertexDescriptor, IndexSet> reachedIndices;
+
     while (!frontier.empty() && paths.empty()) {
       Frontier newFrontier;
       sortFrontier(frontier);
+      pruneFrontier(frontier, reachedIndices);
       LLVM_DEBUG(frontier.dump(llvm::dbgs()));
 
       auto stepFn = [&](const std::shared_ptr<BFSStep> &step) {
@@ -2473,6 +2477,27 @@ private:
     }
   }
 
+  /// Discard the steps that do not reach any new index with respect to the
+  /// already explored ones. The shortest augmenting paths are preserved, while
+  /// the amount of explored steps is bounded by the amount of scalar elements.
+  static void pruneFrontier(
+      Frontier &frontier,
+      llvm::DenseMap<VertexDescriptor, IndexSet> &reachedIndices) {
+    Frontier result;
+
+    for (size_t i = 0, e = frontier.size(); i < e; ++i) {
+      std::shared_ptr<BFSStep> step = frontier.at(i);
+      IndexSet &reached = reachedIndices[step->getNode()];
+
+      if (!reached.contains(step->getCandidates())) {
+        reached += step->getCandidates();
+        result.push_back(std::move(step));
+      }
+    }
+
+    frontier = std::move(result);
+  }
+
   static void sortPaths(std::vector<std::shared_ptr<BFSStep>> &paths) {
     std::vector<std::shared_ptr<BFSStep>> result;
 
-- 
2.43.0


From d8f251c615bde887d55cf17627d62d5eec45c1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:51 +0000
Subject: [PATCH 25/87] fix: keep the scalar dependencies of reads spanning
 multiple elements

A scalar equation reading a slice of a variable depends on all the scalar
equations writing into that slice. Requiring the read indices to be the
written ones made these dependencies disappear.
---
 include/marco/Modeling/ScalarEquationsDependencyGraph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/marco/Modeling/ScalarEquationsDependencyGraph.h b/include/marco/Modeling/ScalarEquationsDependencyGraph.h
index 040c75f..6827381 100644
--- a/include/marco/Modeling/ScalarEquationsDependencyGraph.h
+++ b/include/marco/Modeling/ScalarEquationsDependencyGraph.h
@@ -271,7 +271,7 @@ private:
                 const MultidimensionalRange &writtenIndices =
                     writeInfo.getWrittenVariableIndices();
 
-                if (readIndices == writtenIndices) {
+                if (readIndices.overlaps(writtenIndices)) {
                   std::lock_guard edgeLockGuard(graphMutex);
                   graph->addEdge(equationDescriptor, writeInfo.getEquation());
                 }
-- 
2.43.0


From a3d5bf77ef9fc938fb0cc9a57da62a4ad7d4491a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:45 +0000
Subject: [PATCH 26/87] fix: end the search for cycles through an equation
 depending on itself

Loops involving only one array equation are not reported as cycles, but the
visit kept following them until the stack was exhausted. An example is given
by x[i] = x[10 - i] + y together with y = x[3].
---
 include/marco/Modeling/DependencyGraph.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/marco/Modeling/DependencyGraph.h b/include/marco/Modeling/DependencyGraph.h
index 1a76155..e00705e 100644
--- a/include/marco/Modeling/DependencyGraph.h
+++ b/include/marco/Modeling/DependencyGraph.h
@@ -649,6 +649,18 @@ private:
                   cycles.push_back(std::move(*cycle));
                 }
 
+                // The indices that are already on the path close a loop, and
+                // going through them again would never end.
+                for (const PathDependency &pathDependency : extendedPath) {
+                  if (pathDependency.equation == writingEquation) {
+                    writingEquationIndices -= pathDependency.equationIndices;
+                  }
+                }
+
+                if (writingEquationIndices.empty()) {
+                  return;
+                }
+
                 getEquationsCycles(cycles, writesMap, cachedWriteAccesses,
                                    cachedReadAccesses, visitedEquationIndices,
                                    writingEquation, writingEquationIndices,
-- 
2.43.0


From 6977cec9aad25799126de138df6fdd2728606a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:05 +0000
Subject: [PATCH 27/87] fix: keep the equations depending on each other in the
 same SCC

The loops found through an equation hide the other loops going through the
same indices, and the equation indices left out of the loops were never
connected to the rest. Decide the SCCs from the dependencies among all the
parts, instead of from the loops only.
---
 include/marco/Modeling/DependencyGraph.h | 134 +++++++++++++++++------
 1 file changed, 98 insertions(+), 36 deletions(-)

diff --git a/include/marco/Modeling/DependencyGraph.h b/include/marco/Modeling/DependencyGraph.h
index e00705e..7ad9d83 100644
--- a/include/marco/Modeling/DependencyGraph.h
+++ b/include/marco/Modeling/DependencyGraph.h
@@ -388,37 +388,93 @@ public:
 
       using Partition = typename PartitionsGraph::VertexDescriptor;
       PartitionsGraph partitionsGraph;
-      llvm::DenseMap<EquationView, Partition> partitionsMap;
 
-      // Add the nodes.
-      for (const Path &path : partitionedCycles) {
-        for (const PathDependency &pathDependency : path) {
-          EquationView equationView(pathDependency.equation,
-                                    pathDependency.equationIndices);
+      // Split the equations according to the cycles. The indices not involved
+      // in any cycle are kept together.
+      llvm::DenseMap<EquationDescriptor, llvm::SmallVector<Partition>>
+          equationPartitions;
+
+      for (const EquationDescriptor &equation : scc) {
+        llvm::SmallVector<IndexSet> partitionsIndices;
 
-          if (!partitionsMap.contains(equationView)) {
-            auto vertexDescriptor = partitionsGraph.addVertex(equationView);
-            partitionsMap[equationView] = vertexDescriptor;
+        partitionsIndices.push_back(
+            arrayDependencyGraph.getEquation(equation).getIterationRanges());
+
+        for (const Path &path : partitionedCycles) {
+          for (const PathDependency &pathDependency : path) {
+            if (pathDependency.equation == equation) {
+              splitIndices(partitionsIndices, pathDependency.equationIndices);
+            }
+          }
+        }
+
+        for (IndexSet &indices : partitionsIndices) {
+          if (!indices.empty()) {
+            equationPartitions[equation].push_back(partitionsGraph.addVertex(
+                EquationView(equation, std::move(indices))));
           }
         }
       }
 
       // Add the edges.
-      for (const Path &path : partitionedCycles) {
-        EquationView first(path[0].equation, path[0].equationIndices);
-        EquationView source = first;
-
-        for (size_t i = 1, e = path.size(); i < e; ++i) {
-          EquationView destination(path[i].equation, path[i].equationIndices);
-          partitionsGraph.addEdge(partitionsMap[source],
-                                  partitionsMap[destination]);
-          source = std::move(destination);
+      auto getAccessedIndices = [&](Partition partition, const Access &access) {
+        return access.getAccessFunction().map(
+            partitionsGraph[partition].getIndices());
+      };
+
+      auto addEdges = [&](Partition source, const Access &access) {
+        IndexSet readIndices = getAccessedIndices(source, access);
+        auto writingEquationsIt = writesMap.find(access.getVariable());
+
+        if (readIndices.empty() || writingEquationsIt == writesMap.end()) {
+          return;
+        }
+
+        // An equation may appear more than once among the writing ones.
+        llvm::DenseSet<EquationDescriptor> writingEquations;
+
+        for (const MultidimensionalRange &readRange : llvm::make_range(
+                 readIndices.rangesBegin(), readIndices.rangesEnd())) {
+          writingEquationsIt->second.walkOverlappingObjects(
+              readRange, [&](const WriteInfo &writeInfo) {
+                writingEquations.insert(writeInfo.getEquation());
+              });
+        }
+
+        for (EquationDescriptor writingEquation : writingEquations) {
+          for (Partition destination : equationPartitions[writingEquation]) {
+            if (source == destination) {
+              continue;
+            }
+
+            if (llvm::any_of(cachedWriteAccesses[writingEquation],
+                             [&](const Access &writeAccess) {
+                               return readIndices.overlaps(getAccessedIndices(
+                                   destination, writeAccess));
+                             })) {
+              partitionsGraph.addEdge(source, destination);
+            }
+          }
         }
+      };
 
-        partitionsGraph.addEdge(partitionsMap[source], partitionsMap[first]);
+      for (const EquationDescriptor &equation : scc) {
+        for (Partition partition : equationPartitions[equation]) {
+          for (const Access &access : cachedReadAccesses[equation]) {
+            addEdges(partition, access);
+          }
+
+          // A write access may refer to indices that are not written anymore
+          // once the equation has been split.
+          if (cachedWriteAccesses[equation].size() > 1) {
+            for (const Access &access : cachedWriteAccesses[equation]) {
+              addEdges(partition, access);
+            }
+          }
+        }
       }
 
-      // Create the cyclic SCCs.
+      // Create the SCCs.
       auto sccBeginIt = llvm::scc_begin(
           static_cast<const PartitionsGraph *>(&partitionsGraph));
 
@@ -439,22 +495,6 @@ public:
           result.push_back(std::move(partitionsSCC));
         }
       }
-
-      // Create the SCCs for the remaining indices.
-      for (const EquationDescriptor &equation : scc) {
-        IndexSet remainingEquationIndices =
-            arrayDependencyGraph.getEquation(equation).getIterationRanges();
-
-        remainingEquationIndices -= visitedEquationIndices[equation];
-
-        if (!remainingEquationIndices.empty()) {
-          std::lock_guard<std::mutex> lock(resultMutex);
-          SCC &remainingIndicesSCC = result.emplace_back();
-
-          remainingIndicesSCC.addEquation(
-              EquationView(equation, std::move(remainingEquationIndices)));
-        }
-      }
     };
 
     mlir::parallelForEach(getContext(), SCCs, processFn);
@@ -462,6 +502,28 @@ public:
   }
 
 private:
+  /// Split some disjoint indices, so that each part is either contained in the
+  /// given indices or does not overlap them.
+  void splitIndices(llvm::SmallVectorImpl<IndexSet> &partitions,
+                    const IndexSet &indices) const {
+    llvm::SmallVector<IndexSet> result;
+
+    for (const IndexSet &partition : partitions) {
+      IndexSet commonIndices = partition.intersect(indices);
+      IndexSet difference = partition - commonIndices;
+
+      if (!commonIndices.empty()) {
+        result.push_back(std::move(commonIndices));
+      }
+
+      if (!difference.empty()) {
+        result.push_back(std::move(difference));
+      }
+    }
+
+    partitions = std::move(result);
+  }
+
   [[maybe_unused, nodiscard]] bool
   checkEquationsPartitioning(llvm::ArrayRef<Path> cycles) const {
     auto checkEquationFn = [&](EquationDescriptor equation,
-- 
2.43.0


From 8d19795407add33ceaf9f394ee9839b621617cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:05 +0000
Subject: [PATCH 28/87] fix: abandon the paths with no equation indices while
 searching for cycles

With several write accesses, the one being considered may not lead to the
indices for which the equation has been reached. The path has no indices left
and following it never ends.
---
 include/marco/Modeling/DependencyGraph.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/marco/Modeling/DependencyGraph.h b/include/marco/Modeling/DependencyGraph.h
index 7ad9d83..0027992 100644
--- a/include/marco/Modeling/DependencyGraph.h
+++ b/include/marco/Modeling/DependencyGraph.h
@@ -699,6 +699,16 @@ private:
                 restrictPathIndicesBackward(extendedPath,
                                             extendedPath.size() - 1);
 
+                // The write access may not lead to the indices for which the
+                // equation has been reached.
+                if (llvm::any_of(extendedPath,
+                                 [](const PathDependency &pathDependency) {
+                                   return pathDependency.equationIndices
+                                       .empty();
+                                 })) {
+                  return;
+                }
+
                 // Check if the writing equation leads to a cycle.
                 if (auto cycle =
                         extractCycleIfAny(extendedPath, writingEquation,
-- 
2.43.0


From 0363aaf906a9ef9b70a424a69de7bda2f0e0a94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:16 +0000
Subject: [PATCH 29/87] fix: accept cycles whose parts still overlap after
 being split

The loops of equations with several write accesses may still have overlapping
indices after the split, which made the compiler abort. The equations are now
partitioned independently from that.
---
 include/marco/Modeling/DependencyGraph.h | 33 ------------------------
 1 file changed, 33 deletions(-)

diff --git a/include/marco/Modeling/DependencyGraph.h b/include/marco/Modeling/DependencyGraph.h
index 0027992..8234b6d 100644
--- a/include/marco/Modeling/DependencyGraph.h
+++ b/include/marco/Modeling/DependencyGraph.h
@@ -380,9 +380,6 @@ public:
         addCycleAndSplit(partitionedCycles, std::move(cycle));
       }
 
-      assert(checkEquationsPartitioning(partitionedCycles) &&
-             "Found overlapping and non-equal equation indices");
-
       using PartitionsGraph =
           internal::dependency::SingleEntryWeaklyConnectedDigraph<EquationView>;
 
@@ -524,36 +521,6 @@ private:
     partitions = std::move(result);
   }
 
-  [[maybe_unused, nodiscard]] bool
-  checkEquationsPartitioning(llvm::ArrayRef<Path> cycles) const {
-    auto checkEquationFn = [&](EquationDescriptor equation,
-                               const IndexSet &indices) {
-      for (const Path &path : cycles) {
-        for (const PathDependency &pathDependency : path) {
-          if (pathDependency.equation == equation) {
-            if (pathDependency.equationIndices.overlaps(indices) &&
-                pathDependency.equationIndices != indices) {
-              return false;
-            }
-          }
-        }
-      }
-
-      return true;
-    };
-
-    for (const Path &path : cycles) {
-      for (const PathDependency &pathDependency : path) {
-        if (!checkEquationFn(pathDependency.equation,
-                             pathDependency.equationIndices)) {
-          return false;
-        }
-      }
-    }
-
-    return true;
-  }
-
   void getEquationsCycles(
       llvm::SmallVectorImpl<Path> &cycles, const WritesMap &writesMap,
       CachedAccesses &cachedWriteAccesses, CachedAccesses &cachedReadAccesses,
-- 
2.43.0


From edbfdfcdbf3773c9a39d3d2e6e1b487f996c1fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:47 +0000
Subject: [PATCH 30/87] fix: match all the derivative equations created by
 index reduction

When a singular subset is differentiated, the variables matched by its
equations are replaced by their derivatives. Only the derivative of the
equation being processed was then matched, so further differentiations needed
by the other ones were missed.
---
 include/marco/Modeling/Pantelides.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/marco/Modeling/Pantelides.h b/include/marco/Modeling/Pantelides.h
index eb17a9f..3ff10bf 100644
--- a/include/marco/Modeling/Pantelides.h
+++ b/include/marco/Modeling/Pantelides.h
@@ -342,8 +342,13 @@ public:
           differentiateVisitedVariables(visits);
           differentiateVisitedEquations(visits);
 
-          equationsWorkList.push_back(
-              getEquationDerivative(equationDescriptor).descriptor);
+          // All the derivatives have to be matched, and not just the one of the
+          // current equation: the variables matched by the other visited
+          // equations have been replaced by their derivatives.
+          for (const auto &visit : visits.getVisitedEquations()) {
+            equationsWorkList.push_back(
+                getEquationDerivative(visit.first).descriptor);
+          }
         }
       } while (!augmentingPaths.empty());
     }
-- 
2.43.0


From 3bc72681a56d2c0fdee59176c43aa377eb175eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 31/87] fix: visit only the variables accessed by the traversed
 equation indices

---
 include/marco/Modeling/Matching.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/marco/Modeling/Matching.h b/include/marco/Modeling/Matching.h
index 3d4b57f..3823975 100644
--- a/include/marco/Modeling/Matching.h
+++ b/include/marco/Modeling/Matching.h
@@ -2575,7 +2575,10 @@ private:
         assert(isVariable(nextNode));
 
         if (visits) {
-          addVisit(*visits, nextNode, edge.getIncidenceMatrix().flattenRows());
+          addVisit(*visits, nextNode,
+                   edge.getIncidenceMatrix()
+                       .filterRows(step->getCandidates())
+                       .flattenRows());
         }
 
         const Variable &var = getVariableFromDescriptor(nextNode);
-- 
2.43.0


From 12ecd53ee51c1193dd428aa8b0b296b7e98ae233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 32/87] fix: extend the derivative equations to the indices
 differentiated later

---
 include/marco/Modeling/Matching.h   | 22 +++++++++++++++++++---
 include/marco/Modeling/Pantelides.h | 22 ++++++++++++++++++++++
 lib/Modeling/Matching.cpp           |  2 +-
 3 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/include/marco/Modeling/Matching.h b/include/marco/Modeling/Matching.h
index 3823975..b69c24e 100644
--- a/include/marco/Modeling/Matching.h
+++ b/include/marco/Modeling/Matching.h
@@ -545,7 +545,7 @@ public:
 
   void setIndices(std::shared_ptr<const IndexSet> newIndices) {
     assert(!newIndices->empty());
-    indices = std::move(newIndices);
+    indices = newIndices;
     setMatchableIndices(newIndices);
   }
 
@@ -680,7 +680,13 @@ public:
   void setEquationIndices(std::shared_ptr<const IndexSet> newEquationIndices) {
     incidenceMatrix.setEquationSpace(newEquationIndices);
     matchMatrix.setEquationSpace(newEquationIndices);
-    unmatchMatrix.setEquationSpace(newEquationIndices);
+
+    // Compute the incidence of the indices that have been possibly added.
+    for (const auto &accessFunction : accessFunctions) {
+      incidenceMatrix.apply(*accessFunction);
+    }
+
+    unmatchMatrix = incidenceMatrix - matchMatrix;
   }
 
   void removeEquationIndices(const IndexSet &removedIndices) {
@@ -1387,14 +1393,24 @@ protected:
   virtual void discoverAccesses(VertexDescriptor equationDescriptor) {
     const Equation &equation = getEquationFromDescriptor(equationDescriptor);
 
-    // Add an edge for each accessed variable.
+    // Add an edge for each accessed variable that is not linked yet.
     llvm::DenseMap<VertexDescriptor, EdgeDescriptor> edges;
+    llvm::DenseSet<VertexDescriptor> linkedVariables;
+
+    for (EdgeDescriptor edgeDescriptor : llvm::make_range(
+             edgesBegin(equationDescriptor), edgesEnd(equationDescriptor))) {
+      linkedVariables.insert(edgeDescriptor.to);
+    }
 
     for (const auto &access : equation.getVariableAccesses()) {
       if (auto variableDescriptor =
               getVariableDescriptorFromId(access.getVariable())) {
         Variable &variable = getVariableFromDescriptor(*variableDescriptor);
 
+        if (linkedVariables.contains(*variableDescriptor)) {
+          continue;
+        }
+
         if (edges.find(*variableDescriptor) == edges.end()) {
           Edge edge(equation.getId(), variable.getId(),
                     equation.getIndicesPtr(), variable.getIndicesPtr());
diff --git a/include/marco/Modeling/Pantelides.h b/include/marco/Modeling/Pantelides.h
index 3ff10bf..c550b62 100644
--- a/include/marco/Modeling/Pantelides.h
+++ b/include/marco/Modeling/Pantelides.h
@@ -467,6 +467,9 @@ private:
 
       assert(optionalDescriptor);
       differentiatedEquationDescriptor = *optionalDescriptor;
+
+      addEquationIndices(differentiatedEquationDescriptor,
+                         indicesToBeDifferentiated);
     } else {
       differentiatedEquationDescriptor =
           this->addEquation(std::move(differentiatedEquation));
@@ -477,6 +480,25 @@ private:
     addEquationDerivative(equationDescriptor, differentiatedEquationDescriptor,
                           indicesToBeDifferentiated);
   }
+
+  /// Extend an equation to further indices, while preserving its matches.
+  void addEquationIndices(VertexDescriptor equationDescriptor,
+                          const IndexSet &newIndices) {
+    Equation &equation = this->getEquationFromDescriptor(equationDescriptor);
+
+    equation.setIndices(std::make_shared<const IndexSet>(equation.getIndices() +
+                                                         newIndices));
+
+    for (EdgeDescriptor edgeDescriptor :
+         llvm::make_range(this->edgesBegin(equationDescriptor),
+                          this->edgesEnd(equationDescriptor))) {
+      Edge &edge = this->getBaseGraph()[edgeDescriptor];
+      edge.setEquationIndices(equation.getIndicesPtr());
+    }
+
+    // The new indices may access variables that were not accessed before.
+    this->discoverAccesses(equationDescriptor);
+  }
 };
 } // namespace internal::pantelides
 } // namespace marco::modeling
diff --git a/lib/Modeling/Matching.cpp b/lib/Modeling/Matching.cpp
index d3d57e5..1d5c223 100644
--- a/lib/Modeling/Matching.cpp
+++ b/lib/Modeling/Matching.cpp
@@ -14,7 +14,7 @@ const IndexSet &Matchable::getMatchableIndices() const {
 void Matchable::setMatchableIndices(std::shared_ptr<const IndexSet> indices) {
   matchableIndices = indices;
   matched = matched.intersect(*indices);
-  unmatched = unmatched.intersect(*indices);
+  unmatched = *indices - matched;
 }
 
 const IndexSet &Matchable::getMatched() const { return matched; }
-- 
2.43.0


From a5fdc5d9a5195c32de973040ccd634e3a496b04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:25 +0000
Subject: [PATCH 33/87] fix: let linked vertices be filtered

---
 include/marco/Modeling/Graph.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/marco/Modeling/Graph.h b/include/marco/Modeling/Graph.h
index 3940429..74c61de 100644
--- a/include/marco/Modeling/Graph.h
+++ b/include/marco/Modeling/Graph.h
@@ -505,7 +505,10 @@ public:
   using value_type = VertexDescriptor;
   using difference_type = std::ptrdiff_t;
   using pointer = VertexDescriptor *;
-  using reference = VertexDescriptor &;
+
+  // The descriptors are created on the fly, and thus the reference type is not
+  // an actual reference.
+  using reference = VertexDescriptor;
 
 private:
   LinkedVerticesIterator(const Graph &graph, BaseEdgeIterator current)
-- 
2.43.0


From b7caab345d42033da213dceb0e6fabfad4deed24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:07 +0000
Subject: [PATCH 34/87] fix: undirected graphs have each self-loop once

---
 include/marco/Modeling/Graph.h | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/include/marco/Modeling/Graph.h b/include/marco/Modeling/Graph.h
index 74c61de..25af379 100644
--- a/include/marco/Modeling/Graph.h
+++ b/include/marco/Modeling/Graph.h
@@ -506,8 +506,8 @@ public:
   using difference_type = std::ptrdiff_t;
   using pointer = VertexDescriptor *;
 
-  // The descriptors are created on the fly, and thus the reference type is not
-  // an actual reference.
+  // The descriptors are created on the fly, and thus the 'reference' type can't
+  // be an actual reference.
   using reference = VertexDescriptor;
 
 private:
@@ -656,11 +656,9 @@ public:
 
   /// Get the number of edges.
   size_t edgesCount() const {
-    if (directed) {
-      return edges.size();
-    }
-
-    return edges.size() / 2;
+    // Each edge has its own property. In case of undirected graph, the property
+    // is shared by the wrappers representing the two directions.
+    return edgeProperties.size();
   }
 
   /// Add a vertex to the graph.
@@ -686,12 +684,12 @@ public:
       for (Edge *incomingEdge : incomingEdges.second) {
         otherVertex.removeEdge(*incomingEdge);
 
-        if (directed) {
-          // Deallocate the edge property only in case of directed graph. In
-          // case of undirected graph, the edge property will be deallocated
-          // while visiting the outgoing edges (in an undirected graph the edge
-          // property is shared between the wrapper, and a double deallocation
-          // would otherwise occur).
+        if (directed || &otherVertex == &vertex) {
+          // Deallocate the edge property only in case of directed graph, or if
+          // the edge is a self-loop. In the other cases of undirected graph,
+          // the edge property will be deallocated while visiting the outgoing
+          // edges (in an undirected graph the edge property is shared between
+          // the wrapper, and a double deallocation would otherwise occur).
           edgeProperties.remove(**incomingEdge);
           delete **incomingEdge;
         }
@@ -785,9 +783,9 @@ public:
     assert(edgeInsertion);
     dest.addIncomingEdge(&src, ptr);
 
-    if (!directed) {
+    if (!directed && &src != &dest) {
       // If the graph is undirected, add also the edge going from the
-      // destination to the source.
+      // destination to the source. Self-loops are already their own inverse.
       auto *inversePtr = new Edge(src, edgeProperty);
       edges.insert(inversePtr);
 
-- 
2.43.0


From c0caf471da4763b4a495f8137540757f41cb11b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:07 +0000
Subject: [PATCH 35/87] fix: end floating point numbers where they end

---
 lib/Parser/BaseModelica/StateMachine.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/lib/Parser/BaseModelica/StateMachine.cpp b/lib/Parser/BaseModelica/StateMachine.cpp
index 6f5c754..b2b462b 100644
--- a/lib/Parser/BaseModelica/StateMachine.cpp
+++ b/lib/Parser/BaseModelica/StateMachine.cpp
@@ -187,8 +187,15 @@ std::optional<Token> StateMachine::scan<StateMachine::State::ParsingNumber>() {
   }
 
   if (current == '.') {
-    state = State::ParsingFloat;
-    return std::nullopt;
+    if (isDigit(next) || next == 'E' || next == 'e') {
+      state = State::ParsingFloat;
+      return std::nullopt;
+    }
+
+    // There is neither a fractional part nor an exponent, and thus the next
+    // character doesn't belong to the number.
+    state = State::Normal;
+    return makeToken(TokenKind::FloatingPoint, getFloat());
   }
 
   if (current == 'E' || current == 'e') {
@@ -222,10 +229,7 @@ std::optional<Token> StateMachine::scan<StateMachine::State::ParsingNumber>() {
 
 template <>
 std::optional<Token> StateMachine::scan<StateMachine::State::ParsingFloat>() {
-  if (std::isspace(current) || current == '\0') {
-    state = State::Normal;
-    return makeToken(TokenKind::FloatingPoint, getFloat());
-  }
+  setTokenEndPosition();
 
   if (isDigit(current)) {
     numberLexer.addLower(current - '0');
@@ -242,6 +246,10 @@ std::optional<Token> StateMachine::scan<StateMachine::State::ParsingFloat>() {
       state = State::ParsingFloatExponent;
       return std::nullopt;
     }
+
+    state = State::Normal;
+    error = "missing exponent in floating point number";
+    return makeToken(TokenKind::Error, getError());
   }
 
   if (isDigit(next) || next == 'E' || next == 'e') {
@@ -249,7 +257,6 @@ std::optional<Token> StateMachine::scan<StateMachine::State::ParsingFloat>() {
   }
 
   state = State::Normal;
-  setTokenEndPosition();
   return makeToken(TokenKind::FloatingPoint, getFloat());
 }
 
-- 
2.43.0


From 8b1c3c6a880d9179eefae227539f7e83b6148e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:07 +0000
Subject: [PATCH 36/87] fix: end multi-line comments at their end only

---
 .../marco/Parser/BaseModelica/StateMachine.h  |  1 +
 lib/Parser/BaseModelica/StateMachine.cpp      | 23 +++++++++++++++----
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/marco/Parser/BaseModelica/StateMachine.h b/include/marco/Parser/BaseModelica/StateMachine.h
index 17855dd..f9a1a03 100644
--- a/include/marco/Parser/BaseModelica/StateMachine.h
+++ b/include/marco/Parser/BaseModelica/StateMachine.h
@@ -39,6 +39,7 @@ public:
     ParsingFloatExponent,
     ParsingString,
     ParsingSingleLineComment,
+    ParsingMultiLineCommentBegin,
     ParsingMultiLineComment,
     ParsingBackSlash,
     ParsingQIdentifierBackSlash,
diff --git a/lib/Parser/BaseModelica/StateMachine.cpp b/lib/Parser/BaseModelica/StateMachine.cpp
index b2b462b..7f0cf68 100644
--- a/lib/Parser/BaseModelica/StateMachine.cpp
+++ b/lib/Parser/BaseModelica/StateMachine.cpp
@@ -354,13 +354,25 @@ StateMachine::scan<StateMachine::State::ParsingSingleLineComment>() {
 
 template <>
 std::optional<Token>
-StateMachine::scan<StateMachine::State::ParsingMultiLineComment>() {
+StateMachine::scan<StateMachine::State::ParsingMultiLineCommentBegin>() {
+  // Skip the asterisk that begins the comment, so that it is not considered
+  // also as part of the sequence ending it.
   setTokenEndPosition();
+  state = State::ParsingMultiLineComment;
+  return std::nullopt;
+}
 
-  if (next == '\0') {
-    state = State::Normal;
+template <>
+std::optional<Token>
+StateMachine::scan<StateMachine::State::ParsingMultiLineComment>() {
+  if (current == '\0') {
+    state = State::End;
+    error = "reached end of file while parsing a comment";
+    return makeToken(TokenKind::Error, getError());
   }
 
+  setTokenEndPosition();
+
   if (current == '*' && next == '/') {
     state = State::IgnoredCharacter;
   }
@@ -525,7 +537,7 @@ std::optional<Token> StateMachine::scan<StateMachine::State::Normal>() {
   }
 
   if (current == '/' && next == '*') {
-    state = State::ParsingMultiLineComment;
+    state = State::ParsingMultiLineCommentBegin;
     return std::nullopt;
   }
 
@@ -670,6 +682,9 @@ std::optional<Token> StateMachine::step(char c) {
   case State::ParsingSingleLineComment:
     return scan<State::ParsingSingleLineComment>();
 
+  case State::ParsingMultiLineCommentBegin:
+    return scan<State::ParsingMultiLineCommentBegin>();
+
   case State::ParsingMultiLineComment:
     return scan<State::ParsingMultiLineComment>();
 
-- 
2.43.0


From 309bccf48328d07fcb1e15884ef7e44527eec5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:07 +0000
Subject: [PATCH 37/87] fix: reject integer literals that are out of range

---
 include/marco/Lexer/FloatLexer.h         |  3 +++
 include/marco/Lexer/IntegerLexer.h       | 18 +++++++++++++++++-
 lib/Parser/BaseModelica/StateMachine.cpp |  6 ++++++
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/include/marco/Lexer/FloatLexer.h b/include/marco/Lexer/FloatLexer.h
index fc012bc..a1b256e 100644
--- a/include/marco/Lexer/FloatLexer.h
+++ b/include/marco/Lexer/FloatLexer.h
@@ -41,6 +41,9 @@ public:
   /// Return the X part to make it compatible with the IntegerLexer.
   int64_t getUpperPart() const { return upperPart.get(); }
 
+  /// Returns whether the upper part is too large to be represented as integer.
+  bool hasUpperPartOverflow() const { return upperPart.hasOverflow(); }
+
   /// Returns upper.lower * (base ^ (sign * exponent)).
   double get() const {
     int64_t mantissaNormalizer = 1;
diff --git a/include/marco/Lexer/IntegerLexer.h b/include/marco/Lexer/IntegerLexer.h
index 6b5c75d..bda76c7 100644
--- a/include/marco/Lexer/IntegerLexer.h
+++ b/include/marco/Lexer/IntegerLexer.h
@@ -2,6 +2,7 @@
 #define MARCO_LEXER_INTEGERLEXER_H
 
 #include <cstdint>
+#include <limits>
 
 namespace marco::lexer {
 /// An integer lexer is a object that can be feed with
@@ -17,6 +18,14 @@ public:
 
   /// Adds the next element to the integer.
   IntegerLexer operator+=(int i) {
+    constexpr int64_t max = std::numeric_limits<int64_t>::max();
+
+    if (value > (max - i) / static_cast<int64_t>(Base)) {
+      value = max;
+      overflow = true;
+      return *this;
+    }
+
     value = value * Base;
     value = value + i;
     return *this;
@@ -25,10 +34,17 @@ public:
   /// Returns the currently built value.
   int64_t get() const { return value; }
 
-  void reset() { value = 0; }
+  /// Returns whether the integer is too large to be represented.
+  bool hasOverflow() const { return overflow; }
+
+  void reset() {
+    value = 0;
+    overflow = false;
+  }
 
 private:
   int64_t value;
+  bool overflow{false};
 };
 } // namespace marco::lexer
 
diff --git a/lib/Parser/BaseModelica/StateMachine.cpp b/lib/Parser/BaseModelica/StateMachine.cpp
index 7f0cf68..64da2fa 100644
--- a/lib/Parser/BaseModelica/StateMachine.cpp
+++ b/lib/Parser/BaseModelica/StateMachine.cpp
@@ -221,6 +221,12 @@ std::optional<Token> StateMachine::scan<StateMachine::State::ParsingNumber>() {
 
   if (!isAcceptable(next)) {
     state = State::Normal;
+
+    if (numberLexer.hasUpperPartOverflow()) {
+      error = "integer number out of range";
+      return makeToken(TokenKind::Error, getError());
+    }
+
     return makeToken(TokenKind::Integer, getInt());
   }
 
-- 
2.43.0


From 7159e811b43c6068a257e3293697b9c2312374df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:07 +0000
Subject: [PATCH 38/87] fix: convert floating point literals exactly

---
 include/marco/Lexer/FloatLexer.h              | 66 ++++++++-----------
 .../marco/Parser/BaseModelica/StateMachine.h  |  4 ++
 lib/Parser/BaseModelica/StateMachine.cpp      | 20 ++++--
 3 files changed, 49 insertions(+), 41 deletions(-)

diff --git a/include/marco/Lexer/FloatLexer.h b/include/marco/Lexer/FloatLexer.h
index a1b256e..ceda8b8 100644
--- a/include/marco/Lexer/FloatLexer.h
+++ b/include/marco/Lexer/FloatLexer.h
@@ -2,7 +2,8 @@
 #define MARCO_LEXER_FLOATLEXER_H
 
 #include "marco/Lexer/IntegerLexer.h"
-#include <cmath>
+#include <cstdlib>
+#include <string>
 
 namespace marco::lexer {
 /// Used to build floats in the form upper.lower * (base ^ exponent) as
@@ -10,26 +11,24 @@ namespace marco::lexer {
 template <unsigned int Base>
 class FloatLexer {
 public:
+  static_assert(Base == 10, "Only decimal numbers are supported");
+
   /// Concatenate the number to the integer part.
-  void addUpper(int i) { upperPart += i; }
+  void addUpper(int i) {
+    upperPart += i;
+    mantissa.insert(mantissa.end() - fractionalDigits - 1, toDigit(i));
+  }
 
   /// Concatenate the number to the rational part.
   void addLower(int i) {
-    lowerPart += i;
-
-    if (i != 0) {
-      leadingZero = false;
-    }
-
-    if (leadingZero) {
-      ++fractionalLeadingZeros;
-    }
+    mantissa.push_back(toDigit(i));
+    ++fractionalDigits;
   }
 
   /// Concatenate the number to the exponent part.
   void addExponential(int i) {
     hasExponential = true;
-    exponential += i;
+    exponential.push_back(toDigit(i));
   }
 
   /// Set the exponent sign to + if true, - if false.
@@ -45,48 +44,41 @@ public:
   bool hasUpperPartOverflow() const { return upperPart.hasOverflow(); }
 
   /// Returns upper.lower * (base ^ (sign * exponent)).
+  /// The conversion is performed on the whole number, as combining the parts
+  /// would introduce rounding errors and overflows.
   double get() const {
-    int64_t mantissaNormalizer = 1;
-
-    while (mantissaNormalizer <= lowerPart.get()) {
-      mantissaNormalizer *= Base;
-    }
-
-    double toReturn = upperPart.get();
-    toReturn += static_cast<double>(lowerPart.get()) /
-                (mantissaNormalizer * std::pow(Base, fractionalLeadingZeros));
-
-    auto exp = exponential.get();
-
-    if (!expSign) {
-      exp *= -1;
-    }
+    std::string number = mantissa;
 
     if (hasExponential) {
-      toReturn *= std::pow(Base, exp);
+      number += expSign ? "e+" : "e-";
+      number += exponential.empty() ? "0" : exponential;
     }
 
-    return toReturn;
+    return std::strtod(number.c_str(), nullptr);
   }
 
   void reset() {
     upperPart.reset();
-    lowerPart.reset();
+    mantissa = ".";
+    fractionalDigits = 0;
     hasExponential = false;
-    exponential.reset();
+    exponential.clear();
     expSign = true;
-    leadingZero = true;
-    fractionalLeadingZeros = 0;
   }
 
+private:
+  static char toDigit(int i) { return static_cast<char>('0' + i); }
+
 private:
   IntegerLexer<Base> upperPart;
-  IntegerLexer<Base> lowerPart;
+
+  // The digits of the integer and rational parts, separated by a dot.
+  std::string mantissa{"."};
+  size_t fractionalDigits{0};
+
   bool hasExponential = false;
-  IntegerLexer<Base> exponential;
+  std::string exponential;
   bool expSign = true;
-  bool leadingZero = true;
-  int fractionalLeadingZeros = 0;
 };
 } // namespace marco::lexer
 
diff --git a/include/marco/Parser/BaseModelica/StateMachine.h b/include/marco/Parser/BaseModelica/StateMachine.h
index f9a1a03..cabedd3 100644
--- a/include/marco/Parser/BaseModelica/StateMachine.h
+++ b/include/marco/Parser/BaseModelica/StateMachine.h
@@ -105,6 +105,10 @@ private:
   void setTokenBeginPosition();
   void setTokenEndPosition();
 
+  /// Create the token for the floating point number that has been scanned, or
+  /// an error token if the number is too large to be represented.
+  Token makeFloatingPointToken();
+
   Token makeToken(TokenKind kind);
 
   template <typename T>
diff --git a/lib/Parser/BaseModelica/StateMachine.cpp b/lib/Parser/BaseModelica/StateMachine.cpp
index 64da2fa..6912f4d 100644
--- a/lib/Parser/BaseModelica/StateMachine.cpp
+++ b/lib/Parser/BaseModelica/StateMachine.cpp
@@ -1,4 +1,5 @@
 #include "marco/Parser/BaseModelica/StateMachine.h"
+#include <cmath>
 
 using namespace ::marco;
 using namespace ::marco::parser::bmodelica;
@@ -195,7 +196,7 @@ std::optional<Token> StateMachine::scan<StateMachine::State::ParsingNumber>() {
     // There is neither a fractional part nor an exponent, and thus the next
     // character doesn't belong to the number.
     state = State::Normal;
-    return makeToken(TokenKind::FloatingPoint, getFloat());
+    return makeFloatingPointToken();
   }
 
   if (current == 'E' || current == 'e') {
@@ -263,7 +264,7 @@ std::optional<Token> StateMachine::scan<StateMachine::State::ParsingFloat>() {
   }
 
   state = State::Normal;
-  return makeToken(TokenKind::FloatingPoint, getFloat());
+  return makeFloatingPointToken();
 }
 
 template <>
@@ -301,7 +302,7 @@ StateMachine::scan<StateMachine::State::ParsingFloatExponent>() {
   if (std::isspace(current) || current == '\0') {
     state = State::Normal;
     // error = "unexpected termination of the floating point number";
-    return makeToken(TokenKind::FloatingPoint, getFloat());
+    return makeFloatingPointToken();
   }
 
   setTokenEndPosition();
@@ -315,7 +316,7 @@ StateMachine::scan<StateMachine::State::ParsingFloatExponent>() {
   }
 
   state = State::Normal;
-  return makeToken(TokenKind::FloatingPoint, getFloat());
+  return makeFloatingPointToken();
 }
 
 template <>
@@ -738,6 +739,17 @@ void StateMachine::setTokenBeginPosition() { beginPosition = currentPosition; }
 
 void StateMachine::setTokenEndPosition() { endPosition = currentPosition; }
 
+Token StateMachine::makeFloatingPointToken() {
+  double value = getFloat();
+
+  if (std::isinf(value)) {
+    error = "floating point number out of range";
+    return makeToken(TokenKind::Error, getError());
+  }
+
+  return makeToken(TokenKind::FloatingPoint, value);
+}
+
 Token StateMachine::makeToken(TokenKind kind) {
   return Token(kind, SourceRange(beginPosition, endPosition));
 }
-- 
2.43.0


From 0b2a31a3b90276ef4c9c9590f2e0b50487e3151e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:01 +0000
Subject: [PATCH 39/87] fix: stop at the end of file within quoted text

---
 lib/Parser/BaseModelica/StateMachine.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/lib/Parser/BaseModelica/StateMachine.cpp b/lib/Parser/BaseModelica/StateMachine.cpp
index 6912f4d..897d017 100644
--- a/lib/Parser/BaseModelica/StateMachine.cpp
+++ b/lib/Parser/BaseModelica/StateMachine.cpp
@@ -157,6 +157,12 @@ StateMachine::scan<StateMachine::State::ParsingIdentifier>() {
 template <>
 std::optional<Token>
 StateMachine::scan<StateMachine::State::ParsingQIdentifier>() {
+  if (current == '\0') {
+    state = State::End;
+    error = "unexpected end of file while parsing a q-identifier";
+    return makeToken(TokenKind::Error, getError());
+  }
+
   setTokenEndPosition();
 
   if (current == '\\') {
@@ -169,12 +175,6 @@ StateMachine::scan<StateMachine::State::ParsingQIdentifier>() {
     return makeToken(TokenKind::Identifier, getIdentifier());
   }
 
-  if (next == '\0') {
-    state = State::Normal;
-    error = "unexpected end of file while parsing a q-identifier";
-    return makeToken(TokenKind::Error, getError());
-  }
-
   identifier.push_back(current);
   return std::nullopt;
 }
@@ -390,6 +390,12 @@ StateMachine::scan<StateMachine::State::ParsingMultiLineComment>() {
 template <>
 std::optional<Token>
 StateMachine::scan<StateMachine::State::ParsingBackSlash>() {
+  if (current == '\0') {
+    state = State::End;
+    error = "reached end of file while parsing a string";
+    return makeToken(TokenKind::Error, getError());
+  }
+
   setTokenEndPosition();
   stringValue.push_back(escapedChar(current));
   state = State::ParsingString;
@@ -399,6 +405,12 @@ StateMachine::scan<StateMachine::State::ParsingBackSlash>() {
 template <>
 std::optional<Token>
 StateMachine::scan<StateMachine::State::ParsingQIdentifierBackSlash>() {
+  if (current == '\0') {
+    state = State::End;
+    error = "unexpected end of file while parsing a q-identifier";
+    return makeToken(TokenKind::Error, getError());
+  }
+
   setTokenEndPosition();
   identifier.push_back(escapedChar(current));
   state = State::ParsingQIdentifier;
-- 
2.43.0


From 81348c3a774a1c82601e3af1ca2aeb1a5fc21790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:09 +0000
Subject: [PATCH 40/87] fix: report the tokens that can't start an expression

---
 lib/Parser/BaseModelica/Parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 3445248..ec4bd4f 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1457,7 +1457,10 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parsePrimary() {
     result = std::move(newResult);
   }
 
-  assert(result != nullptr);
+  if (!result) {
+    emitUnexpectedTokenError(lookahead[0], TokenKind::Identifier);
+    return std::nullopt;
+  }
 
   if (lookahead[0].isa<TokenKind::LSquare>()) {
     TRY(arraySubscripts, parseArraySubscripts());
-- 
2.43.0


From 99299083a8ba0553b06325646988f7eead49f003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:09 +0000
Subject: [PATCH 41/87] fix: parse the global references within expressions

---
 lib/Parser/BaseModelica/Parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index ec4bd4f..89b5a40 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1439,7 +1439,8 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parsePrimary() {
     newResult->setArguments(functionCallArgs->getValue());
     result = std::move(newResult);
 
-  } else if (lookahead[0].isa<TokenKind::Identifier>()) {
+  } else if (lookahead[0].isa<TokenKind::Identifier>() ||
+             lookahead[0].isa<TokenKind::Dot>()) {
     TRY(identifier, parseComponentReference());
     loc.end = (*identifier)->getLocation().end;
 
-- 
2.43.0


From ae28543c9cb80a766a4b3336f4231a379f08c135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 42/87] fix: parse the class elements declared after inner
 classes

---
 lib/Parser/BaseModelica/Parser.cpp | 40 +++++++++++-------------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 89b5a40..8624a35 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -221,13 +221,11 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseClassDefinition() {
   llvm::SmallVector<std::unique_ptr<ASTNode>, 3> algorithms;
   llvm::SmallVector<std::unique_ptr<ASTNode>, 3> innerClasses;
 
-  // Whether the first elements list is allowed to be encountered or not.
-  // In fact, the class definition allows a first elements list definition
-  // and then others more if preceded by "public" or "protected", but no
-  // more "lone" definitions are allowed if any of those keywords are
-  // encountered.
+  // The visibility of the elements being declared. They are public until a
+  // "public" or "protected" keyword is encountered, and may be interleaved with
+  // the definitions of other classes.
 
-  bool firstElementListParsable = true;
+  bool publicSection = true;
 
   while (!lookahead[0].isa<TokenKind::End>() &&
          !lookahead[0].isa<TokenKind::Annotation>() &&
@@ -269,33 +267,25 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseClassDefinition() {
     }
 
     if (accept<TokenKind::Public>()) {
-      TRY(elementList, parseElementList(true));
-
-      for (auto &element : *elementList) {
-        members.push_back(std::move(element));
-      }
-
-      firstElementListParsable = false;
+      publicSection = true;
       continue;
     }
 
     if (accept<TokenKind::Protected>()) {
-      TRY(elementList, parseElementList(false));
-
-      for (auto &element : *elementList) {
-        members.push_back(std::move(element));
-      }
-
-      firstElementListParsable = false;
+      publicSection = false;
       continue;
     }
 
-    if (firstElementListParsable) {
-      TRY(elementList, parseElementList(true));
+    if (lookahead[0].isa<TokenKind::Initial>()) {
+      // Neither an equation section nor an algorithm.
+      emitUnexpectedTokenError(lookahead[1], TokenKind::Equation);
+      return std::nullopt;
+    }
+
+    TRY(elementList, parseElementList(publicSection));
 
-      for (auto &element : *elementList) {
-        members.push_back(std::move(element));
-      }
+    for (auto &element : *elementList) {
+      members.push_back(std::move(element));
     }
   }
 
-- 
2.43.0


From 1d3997390076b83e664a4e27c7116cb62fa38eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 43/87] fix: end the elements at annotations and prefixed inner
 classes

---
 lib/Parser/BaseModelica/Parser.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 8624a35..c02dfce 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -258,8 +258,11 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseClassDefinition() {
 
     if (lookahead[0].isa<TokenKind::Class>() ||
         lookahead[0].isa<TokenKind::Function>() ||
+        lookahead[0].isa<TokenKind::Impure>() ||
         lookahead[0].isa<TokenKind::Model>() ||
+        lookahead[0].isa<TokenKind::Operator>() ||
         lookahead[0].isa<TokenKind::Package>() ||
+        lookahead[0].isa<TokenKind::Pure>() ||
         lookahead[0].isa<TokenKind::Record>()) {
       TRY(innerClass, parseClassDefinition());
       innerClasses.emplace_back(std::move(*innerClass));
@@ -1785,9 +1788,13 @@ Parser::parseElementList(bool publicSection) {
          !lookahead[0].isa<TokenKind::End>() &&
          !lookahead[0].isa<TokenKind::Class>() &&
          !lookahead[0].isa<TokenKind::Function>() &&
+         !lookahead[0].isa<TokenKind::Impure>() &&
          !lookahead[0].isa<TokenKind::Model>() &&
+         !lookahead[0].isa<TokenKind::Operator>() &&
          !lookahead[0].isa<TokenKind::Package>() &&
+         !lookahead[0].isa<TokenKind::Pure>() &&
          !lookahead[0].isa<TokenKind::Record>() &&
+         !lookahead[0].isa<TokenKind::Annotation>() &&
          !lookahead[0].isa<TokenKind::External>()) {
     TRY(member, parseElement(publicSection));
     EXPECT(TokenKind::Semicolon);
-- 
2.43.0


From 1287d1b46baabd307a022261468c52a1bc3c508f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 44/87] fix: read the names of types from identifiers only

---
 lib/Parser/BaseModelica/Parser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index c02dfce..41e17bc 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1878,8 +1878,8 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseVariableType() {
   std::unique_ptr<ASTNode> result;
 
   const bool globalLookup = accept<TokenKind::Dot>();
-  const std::string name = lookahead[0].getString();
   EXPECT(TokenKind::Identifier);
+  const std::string name = getString();
   SourceRange loc = getLocation();
 
   if (name == "String") {
@@ -1899,9 +1899,9 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseVariableType() {
     path.push_back(name);
 
     while (accept<TokenKind::Dot>()) {
-      loc.end = lookahead[0].getLocation().end;
-      path.push_back(lookahead[0].getString());
       EXPECT(TokenKind::Identifier);
+      loc.end = getLocation().end;
+      path.push_back(getString());
     }
 
     result = std::make_unique<UserDefinedType>(loc);
-- 
2.43.0


From cf30d7c5143a1004c7ceb40b415b94ce9f03ab16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 45/87] fix: end the when-equations with 'end when'

---
 lib/Parser/BaseModelica/Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 41e17bc..7442e90 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -988,7 +988,7 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseWhenEquation() {
   }
 
   EXPECT(TokenKind::End);
-  EXPECT(TokenKind::If);
+  EXPECT(TokenKind::When);
   loc.end = getLocation().end;
 
   auto result = std::make_unique<WhenEquation>(loc);
-- 
2.43.0


From e4c56b6e8e0cf1d806c4b702422b928fda0192c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 46/87] fix: introduce the body of when-statements with 'then'

---
 lib/Parser/BaseModelica/Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 7442e90..313cf3e 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1012,7 +1012,7 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseWhenStatement() {
   SourceRange loc = getLocation();
 
   TRY(condition, parseExpression());
-  EXPECT(TokenKind::Loop);
+  EXPECT(TokenKind::Then);
 
   std::vector<std::unique_ptr<ASTNode>> statements;
 
-- 
2.43.0


From f04603d779c9e83a6ef919ec78292d9497eb4b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 47/87] fix: parse the call statements without arguments

---
 lib/Parser/BaseModelica/Parser.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 313cf3e..8c28a5c 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -652,19 +652,16 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseStatement() {
 
   TRY(destination, parseComponentReference());
 
-  if (accept<TokenKind::LPar>()) {
+  if (lookahead[0].isa<TokenKind::LPar>()) {
     SourceRange loc = (*destination)->getLocation();
-    TRY(functionArguments, parseFunctionArguments());
-    EXPECT(TokenKind::RPar);
-
-    auto callee = std::make_unique<ComponentReference>(loc);
-    loc.end = getLocation().end;
+    TRY(functionCallArgs, parseFunctionCallArgs());
+    loc.end = functionCallArgs->getLocation().end;
     auto result = std::make_unique<CallStatement>(loc);
 
     {
       auto call = std::make_unique<Call>(loc);
       call->setCallee(std::move(*destination));
-      call->setArguments(functionArguments->getValue());
+      call->setArguments(functionCallArgs->getValue());
       result->setCall(std::move(call));
     }
 
-- 
2.43.0


From eaf7b79323e4dd833aee2b5d287c79dc8b489ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 48/87] fix: report the unsupported redeclarations

---
 lib/Parser/BaseModelica/Parser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 8c28a5c..9c1d692 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -500,13 +500,15 @@ Parser::parseElementModification(bool each, bool final) {
 }
 
 ParseResult<std::unique_ptr<ASTNode>> Parser::parseElementRedeclaration() {
-  llvm_unreachable("Not implemented");
+  // Not implemented.
+  emitUnexpectedTokenError(lookahead[0], TokenKind::Identifier);
   return std::nullopt;
 }
 
 ParseResult<std::unique_ptr<ASTNode>>
 Parser::parseElementReplaceable(bool each, bool final) {
-  llvm_unreachable("Not implemented");
+  // Not implemented.
+  emitUnexpectedTokenError(lookahead[0], TokenKind::Identifier);
   return std::nullopt;
 }
 
-- 
2.43.0


From bca67f42abdf6c53cf80088eff30a96fa7689104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 49/87] fix: report the derivatives that aren't functions

---
 lib/Parser/BaseModelica/Parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 9c1d692..290823e 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -187,9 +187,9 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseClassDefinition() {
   loc.end = name->getLocation().end;
   result->setLocation(loc);
 
-  if (accept<TokenKind::EqualityOperator>()) {
+  if (result->isa<StandardFunction>() &&
+      accept<TokenKind::EqualityOperator>()) {
     // Function derivative
-    assert(result->isa<StandardFunction>());
     EXPECT(TokenKind::Der);
     EXPECT(TokenKind::LPar);
 
-- 
2.43.0


From 0406efed305c4e4dd2d4bbc17426fc8b26e655b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 50/87] fix: require commas among the output expressions

---
 lib/Parser/BaseModelica/Parser.cpp | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 290823e..e6d6cfd 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1705,19 +1705,21 @@ WrappedParseResult<std::vector<std::unique_ptr<ASTNode>>>
 Parser::parseOutputExpressionList() {
   std::vector<std::unique_ptr<ASTNode>> expressions;
 
-  while (!lookahead[0].isa<TokenKind::RPar>()) {
-    const SourceRange loc = lookahead[0].getLocation();
-
-    if (accept<TokenKind::Comma>()) {
-      auto expression = std::make_unique<ComponentReference>(loc);
-      expression->setDummy(true);
-      expressions.push_back(std::move(expression));
-      continue;
-    }
-
-    TRY(expression, parseExpression());
-    expressions.push_back(std::move(*expression));
-    accept<TokenKind::Comma>();
+  if (!lookahead[0].isa<TokenKind::RPar>()) {
+    do {
+      const SourceRange loc = lookahead[0].getLocation();
+
+      if (lookahead[0].isa<TokenKind::Comma>() ||
+          lookahead[0].isa<TokenKind::RPar>()) {
+        auto expression = std::make_unique<ComponentReference>(loc);
+        expression->setDummy(true);
+        expressions.push_back(std::move(expression));
+        continue;
+      }
+
+      TRY(expression, parseExpression());
+      expressions.push_back(std::move(*expression));
+    } while (accept<TokenKind::Comma>());
   }
 
   SourceRange loc = getCursorLocation();
-- 
2.43.0


From 9aafd402f716233d9d2230882677f5063007c2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 51/87] fix: parse the initial algorithms

---
 lib/Parser/BaseModelica/Parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index e6d6cfd..e9b958f 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -513,14 +513,17 @@ Parser::parseElementReplaceable(bool each, bool final) {
 }
 
 ParseResult<std::unique_ptr<ASTNode>> Parser::parseAlgorithmSection() {
+  SourceRange loc = lookahead[0].getLocation();
+  const bool initial = accept<TokenKind::Initial>();
   EXPECT(TokenKind::Algorithm);
-  SourceRange loc = getLocation();
+  loc.end = getLocation().end;
 
   llvm::SmallVector<std::unique_ptr<ASTNode>, 10> statements;
 
   while (!lookahead[0].isa<TokenKind::End>() &&
          !lookahead[0].isa<TokenKind::Public>() &&
          !lookahead[0].isa<TokenKind::Protected>() &&
+         !lookahead[0].isa<TokenKind::Initial>() &&
          !lookahead[0].isa<TokenKind::Equation>() &&
          !lookahead[0].isa<TokenKind::Algorithm>() &&
          !lookahead[0].isa<TokenKind::External>() &&
@@ -533,6 +536,7 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseAlgorithmSection() {
   }
 
   auto result = std::make_unique<Algorithm>(loc);
+  result->setInitial(initial);
   result->setStatements(statements);
   return static_cast<std::unique_ptr<ASTNode>>(std::move(result));
 }
-- 
2.43.0


From 4eb18d233ab676cf8583e29f62c5c0e4468bba18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 52/87] fix: parse the empty class modifications

---
 lib/Parser/BaseModelica/Parser.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index e9b958f..00d6b88 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -432,12 +432,18 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseModification() {
 ParseResult<std::unique_ptr<ASTNode>> Parser::parseClassModification() {
   EXPECT(TokenKind::LPar);
   SourceRange loc = getLocation();
-  TRY(argumentList, parseArgumentList());
+  std::vector<std::unique_ptr<ASTNode>> arguments;
+
+  if (!lookahead[0].isa<TokenKind::RPar>()) {
+    TRY(argumentList, parseArgumentList());
+    arguments = std::move(**argumentList);
+  }
+
   EXPECT(TokenKind::RPar);
   loc.end = getLocation().end;
 
   auto result = std::make_unique<ClassModification>(loc);
-  result->setArguments(**argumentList);
+  result->setArguments(arguments);
   return static_cast<std::unique_ptr<ASTNode>>(std::move(result));
 }
 
-- 
2.43.0


From e344c7167d3baf2bbd5395f0e5308fd7107577c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 53/87] fix: parse the dimensions that start with an integer

---
 lib/Parser/BaseModelica/Parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 00d6b88..d7c1fb2 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1941,7 +1941,9 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseArrayDimension() {
 
   if (accept<TokenKind::Colon>()) {
     result->setSize(-1);
-  } else if (lookahead[0].isa<TokenKind::Integer>()) {
+  } else if (lookahead[0].isa<TokenKind::Integer>() &&
+             (lookahead[1].isa<TokenKind::Comma>() ||
+              lookahead[1].isa<TokenKind::RSquare>())) {
     result->setSize(lookahead[0].getInt());
     EXPECT(TokenKind::Integer);
   } else {
-- 
2.43.0


From a78b518f2cb7a5eee4898fc8d4191fcafc9b9097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 54/87] fix: let the locations span the constructs they're
 given to

---
 lib/Parser/BaseModelica/Parser.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index d7c1fb2..22bc670 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -640,19 +640,22 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseStatement() {
   if (accept<TokenKind::LPar>()) {
     SourceRange loc = getLocation();
     TRY(destinations, parseOutputExpressionList());
-    loc.end = destinations->getLocation().end;
+    EXPECT(TokenKind::RPar);
+    loc.end = getLocation().end;
 
     auto destinationsTuple = std::make_unique<Tuple>(loc);
     destinationsTuple->setExpressions(**destinations);
 
-    EXPECT(TokenKind::RPar);
     EXPECT(TokenKind::AssignmentOperator);
     TRY(function, parseComponentReference());
     TRY(functionCallArgs, parseFunctionCallArgs());
 
     loc.end = functionCallArgs->getLocation().end;
 
-    auto call = std::make_unique<Call>(loc);
+    SourceRange callLoc = (*function)->getLocation();
+    callLoc.end = loc.end;
+
+    auto call = std::make_unique<Call>(callLoc);
     call->setCallee(std::move(*function));
     call->setArguments(functionCallArgs->getValue());
 
@@ -808,7 +811,7 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseIfStatement() {
       elseIfStatementsBlockLoc.end = stmnt->getLocation().end;
     }
 
-    auto elseIfBlock = std::make_unique<StatementsBlock>(statementsBlockLoc);
+    auto elseIfBlock = std::make_unique<StatementsBlock>(elseIfStatementsBlockLoc);
     elseIfBlock->setBody(elseIfStatements);
     loc.end = elseIfBlock->getLocation().end;
     elseIfBlocks.push_back(std::move(elseIfBlock));
@@ -1317,8 +1320,7 @@ WrappedParseResult<OperationKind> Parser::parseMulOperator() {
 
 ParseResult<std::unique_ptr<ASTNode>> Parser::parseFactor() {
   TRY(primary, parsePrimary());
-  SourceRange loc = getLocation();
-  loc.end = (*primary)->getLocation().end;
+  SourceRange loc = (*primary)->getLocation();
 
   auto result = std::move(*primary);
 
@@ -1566,12 +1568,11 @@ Parser::parseFunctionArguments() {
     EXPECT(TokenKind::For);
     TRY(forIndices, parseForIndices());
 
-    auto reductionArg = std::make_unique<ReductionFunctionArgument>(
-        (*firstArgExpression)->getLocation());
-
-    SourceRange loc = reductionArg->getLocation();
+    SourceRange loc = (*firstArgExpression)->getLocation();
     loc.end = (*forIndices).getLocation().end;
 
+    auto reductionArg = std::make_unique<ReductionFunctionArgument>(loc);
+
     reductionArg->setExpression(std::move(*firstArgExpression));
     reductionArg->setForIndices(forIndices->getValue());
     arguments.push_back(std::move(reductionArg));
@@ -1948,6 +1949,7 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseArrayDimension() {
     EXPECT(TokenKind::Integer);
   } else {
     TRY(expression, parseExpression());
+    result->setLocation((*expression)->getLocation());
     result->setSize(std::move(*expression));
   }
 
-- 
2.43.0


From e58c507adeb8d3073382277b0ba69bd17d631896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:08 +0000
Subject: [PATCH 55/87] fix: make room for the equations of the alternative
 branches

---
 lib/AST/BaseModelica/IfEquation.cpp   | 4 ++--
 lib/AST/BaseModelica/WhenEquation.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/AST/BaseModelica/IfEquation.cpp b/lib/AST/BaseModelica/IfEquation.cpp
index 4f9b0c4..9a96319 100644
--- a/lib/AST/BaseModelica/IfEquation.cpp
+++ b/lib/AST/BaseModelica/IfEquation.cpp
@@ -156,8 +156,8 @@ const Equation *IfEquation::getElseIfEquation(size_t condition,
 
 void IfEquation::setElseIfEquations(
     size_t condition, llvm::ArrayRef<std::unique_ptr<ASTNode>> nodes) {
-  if (condition > ifEquations.size()) {
-    ifEquations.resize(condition + 1);
+  if (condition >= elseIfEquations.size()) {
+    elseIfEquations.resize(condition + 1);
   }
 
   elseIfEquations[condition].clear();
diff --git a/lib/AST/BaseModelica/WhenEquation.cpp b/lib/AST/BaseModelica/WhenEquation.cpp
index e537bfc..e90afc6 100644
--- a/lib/AST/BaseModelica/WhenEquation.cpp
+++ b/lib/AST/BaseModelica/WhenEquation.cpp
@@ -158,8 +158,8 @@ const Equation *WhenEquation::getElseWhenEquation(size_t condition,
 
 void WhenEquation::setElseWhenEquations(
     size_t condition, llvm::ArrayRef<std::unique_ptr<ASTNode>> nodes) {
-  if (condition > whenEquations.size()) {
-    whenEquations.resize(condition + 1);
+  if (condition >= elseWhenEquations.size()) {
+    elseWhenEquations.resize(condition + 1);
   }
 
   elseWhenEquations[condition].clear();
-- 
2.43.0


From 89eb1ab5535f2c43566d52f588688ffb252274c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:18 +0000
Subject: [PATCH 56/87] fix: own the arguments of cloned class modifications

---
 lib/AST/BaseModelica/Modification.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/AST/BaseModelica/Modification.cpp b/lib/AST/BaseModelica/Modification.cpp
index fbedeba..fcffdf4 100644
--- a/lib/AST/BaseModelica/Modification.cpp
+++ b/lib/AST/BaseModelica/Modification.cpp
@@ -127,9 +127,7 @@ ClassModification::ClassModification(SourceRange location)
 
 ClassModification::ClassModification(const ClassModification &other)
     : ASTNode(other) {
-  for (const auto &arg : other.arguments) {
-    this->arguments.push_back(arg->clone());
-  }
+  setArguments(other.arguments);
 }
 
 ClassModification::~ClassModification() = default;
-- 
2.43.0


From 03e6c47909060c3a08e1c7e0f3490c2bdd4cca06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:49 +0000
Subject: [PATCH 57/87] fix: tell the when-equations from the if-equations

---
 lib/AST/BaseModelica/WhenEquation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/AST/BaseModelica/WhenEquation.cpp b/lib/AST/BaseModelica/WhenEquation.cpp
index e90afc6..c62d2be 100644
--- a/lib/AST/BaseModelica/WhenEquation.cpp
+++ b/lib/AST/BaseModelica/WhenEquation.cpp
@@ -6,7 +6,7 @@ using namespace ::marco::ast::bmodelica;
 
 namespace marco::ast::bmodelica {
 WhenEquation::WhenEquation(SourceRange location)
-    : Equation(ASTNodeKind::Equation_If, std::move(location)) {}
+    : Equation(ASTNodeKind::Equation_When, std::move(location)) {}
 
 WhenEquation::WhenEquation(const WhenEquation &other) : Equation(other) {
   setWhenCondition(other.whenCondition->clone());
-- 
2.43.0


From 6f2fab800ea7611011c3726ac76e1345d1899afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:48 +0000
Subject: [PATCH 58/87] fix: order the edges of a graph

Each edge with its source preceding its destination was less than itself.
---
 include/marco/Modeling/Graph.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/marco/Modeling/Graph.h b/include/marco/Modeling/Graph.h
index 25af379..b2c74cb 100644
--- a/include/marco/Modeling/Graph.h
+++ b/include/marco/Modeling/Graph.h
@@ -67,11 +67,15 @@ public:
   }
 
   bool operator<(const EdgeDescriptor &other) const {
-    if (from != to) {
-      return from < to;
+    if (from != other.from) {
+      return from < other.from;
     }
 
-    return false;
+    if (to != other.to) {
+      return to < other.to;
+    }
+
+    return std::less<T *>()(value, other.value);
   }
 
   const Graph *graph;
-- 
2.43.0


From da1ce8777990772cc8ee68a044aa1f771b057be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:56 +0000
Subject: [PATCH 59/87] fix: tell the removed keys from the missing ones

The empty and the tombstone keys for the edges of a graph were equal, so that
looking for a key could stop where another one had been removed.
---
 include/marco/Modeling/Graph.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/marco/Modeling/Graph.h b/include/marco/Modeling/Graph.h
index b2c74cb..7ea1588 100644
--- a/include/marco/Modeling/Graph.h
+++ b/include/marco/Modeling/Graph.h
@@ -1273,14 +1273,16 @@ struct DenseMapInfo<marco::modeling::internal::impl::EdgeDescriptor<
 
   static Key getEmptyKey() {
     auto emptyVertex = llvm::DenseMapInfo<VertexDescriptor>::getEmptyKey();
-    return Key(nullptr, emptyVertex, emptyVertex, nullptr);
+    return Key(nullptr, emptyVertex, emptyVertex,
+               llvm::DenseMapInfo<T *>::getEmptyKey());
   }
 
   static Key getTombstoneKey() {
     auto tombstoneVertex =
         llvm::DenseMapInfo<VertexDescriptor>::getTombstoneKey();
 
-    return Key(nullptr, tombstoneVertex, tombstoneVertex, nullptr);
+    return Key(nullptr, tombstoneVertex, tombstoneVertex,
+               llvm::DenseMapInfo<T *>::getTombstoneKey());
   }
 
   static unsigned getHashValue(const Key &Val) { return hash_value(Val); }
-- 
2.43.0


From e0ca9db2f68b850cb0d50867953f06bbd55f6cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 60/87] fix: do not truncate the subscripts of variable filters

Subscripts were stored as int, so that large ones became negative and
4294967295 became an unbounded end.
---
 include/marco/VariableFilter/Parser.h | 2 +-
 lib/VariableFilter/Parser.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/marco/VariableFilter/Parser.h b/include/marco/VariableFilter/Parser.h
index 6a07d2d..f540916 100644
--- a/include/marco/VariableFilter/Parser.h
+++ b/include/marco/VariableFilter/Parser.h
@@ -27,7 +27,7 @@ public:
 
   std::optional<Range> parseArrayRange();
 
-  std::optional<int> parseArrayIndex();
+  std::optional<int64_t> parseArrayIndex();
 
   std::optional<DerivativeExpression> parseDer();
 
diff --git a/lib/VariableFilter/Parser.cpp b/lib/VariableFilter/Parser.cpp
index e047c78..498b6cb 100644
--- a/lib/VariableFilter/Parser.cpp
+++ b/lib/VariableFilter/Parser.cpp
@@ -202,7 +202,7 @@ std::optional<Range> Parser::parseArrayRange() {
   return Range(*lowerBound, *upperBound);
 }
 
-std::optional<int> Parser::parseArrayIndex() {
+std::optional<int64_t> Parser::parseArrayIndex() {
   if (accept<TokenKind::Dollar>()) {
     return Range::kUnbounded;
   }
-- 
2.43.0


From bcf453eb653aae62b0bea7c51e4bf0e106357ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 61/87] fix: keep variables that match a regex and are also
 named by subscript

The elements selected by the regular expression were lost as soon as the
filter also named some elements of the same variable.
---
 lib/VariableFilter/VariableFilter.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/VariableFilter/VariableFilter.cpp b/lib/VariableFilter/VariableFilter.cpp
index bf26e0b..08a485f 100644
--- a/lib/VariableFilter/VariableFilter.cpp
+++ b/lib/VariableFilter/VariableFilter.cpp
@@ -71,7 +71,9 @@ VariableFilter::getVariableInfo(llvm::StringRef name,
 
   bool visibility = !isEnabled();
 
-  if (matchesRegex(name)) {
+  bool isMatched = matchesRegex(name);
+
+  if (isMatched) {
     visibility = true;
   }
 
@@ -103,7 +105,10 @@ VariableFilter::getVariableInfo(llvm::StringRef name,
     }
   }
 
-  if (filters.empty()) {
+  // A variable matching a regular expression is shown as a whole, whatever
+  // elements of it are also requested by name.
+
+  if (filters.empty() || isMatched) {
     std::vector<Range> ranges;
 
     for (size_t i = ranges.size(); i < expectedRank; ++i) {
-- 
2.43.0


From a7b4478c158a9f8718304b0ac2cf17eb39ef65e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 62/87] fix: recognise object files by their extension

Extensions are given without the dot, so that ".o" never matched.
---
 lib/IO/InputFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/IO/InputFile.cpp b/lib/IO/InputFile.cpp
index 8af8ff5..58747ff 100644
--- a/lib/IO/InputFile.cpp
+++ b/lib/IO/InputFile.cpp
@@ -33,7 +33,7 @@ InputKind InputKind::getFromExtension(llvm::StringRef extension) {
     return {Language::LLVM_IR, Format::Source};
   }
 
-  if (extension == ".o") {
+  if (extension == "o") {
     return {Language::Unknown, Format::Object};
   }
 
-- 
2.43.0


From 680403f5e95da129839b105a567a278d77a8e8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 63/87] fix: define the bytecode writer of index set lists as
 declared

The definition lacked a const, so that its users could not be linked.
---
 lib/Dialect/Modeling/IR/Properties.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Dialect/Modeling/IR/Properties.cpp b/lib/Dialect/Modeling/IR/Properties.cpp
index 0339d23..16cebcb 100644
--- a/lib/Dialect/Modeling/IR/Properties.cpp
+++ b/lib/Dialect/Modeling/IR/Properties.cpp
@@ -209,7 +209,7 @@ mlir::LogicalResult readFromMlirBytecode(mlir::DialectBytecodeReader &reader,
 }
 
 void writeToMlirBytecode(mlir::DialectBytecodeWriter &writer,
-                         IndexSetsList &prop) {
+                         const IndexSetsList &prop) {
   writer.writeVarInt(prop.size());
 
   for (const IndexSet &indexSet : prop) {
-- 
2.43.0


From ef91737ef0fcce09f585e6593861425f887b33fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 64/87] fix: parse each index set of a list into a set of its
 own

The same object was moved from and parsed into again, although it kept the
rank of the previous set.
---
 lib/Dialect/Modeling/IR/Properties.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/Modeling/IR/Properties.cpp b/lib/Dialect/Modeling/IR/Properties.cpp
index 16cebcb..b89b9e3 100644
--- a/lib/Dialect/Modeling/IR/Properties.cpp
+++ b/lib/Dialect/Modeling/IR/Properties.cpp
@@ -223,9 +223,9 @@ mlir::LogicalResult parse(mlir::OpAsmParser &parser, IndexSetsList &prop) {
   }
 
   if (mlir::failed(parser.parseOptionalRSquare())) {
-    IndexSet indices;
-
     do {
+      IndexSet indices;
+
       if (mlir::failed(parse(parser, indices))) {
         return mlir::failure();
       }
-- 
2.43.0


From 401fb1e0aeb95a49a0fb8da17b576be31f66b497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 65/87] fix: report malformed index sets and ranges instead of
 aborting

Ranges without elements, sets of mixed ranks and attributes of another kind
reached assertions while parsing.
---
 lib/Dialect/Modeling/IR/Attributes.cpp | 22 ++++++++++++++++++++--
 lib/Dialect/Modeling/IR/Properties.cpp | 26 ++++++++++++++++++++++++--
 2 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/lib/Dialect/Modeling/IR/Attributes.cpp b/lib/Dialect/Modeling/IR/Attributes.cpp
index 0a093b5..c633ea7 100644
--- a/lib/Dialect/Modeling/IR/Attributes.cpp
+++ b/lib/Dialect/Modeling/IR/Attributes.cpp
@@ -4,9 +4,19 @@
 
 using namespace ::mlir::modeling;
 
+static mlir::FailureOr<Range> getRange(mlir::AsmParser &parser, llvm::SMLoc loc,
+                                       int64_t first, int64_t last) {
+  if (first > last || last == std::numeric_limits<int64_t>::max()) {
+    return parser.emitError(loc, "invalid range");
+  }
+
+  return Range(first, last + 1);
+}
+
 namespace mlir {
 mlir::FailureOr<mlir::modeling::Range>
 FieldParser<mlir::modeling::Range>::parse(mlir::AsmParser &parser) {
+  llvm::SMLoc loc = parser.getCurrentLocation();
   int64_t beginValue;
   int64_t endValue;
 
@@ -16,7 +26,7 @@ FieldParser<mlir::modeling::Range>::parse(mlir::AsmParser &parser) {
     return mlir::failure();
   }
 
-  return mlir::modeling::Range(beginValue, endValue + 1);
+  return getRange(parser, loc, beginValue, endValue);
 }
 
 mlir::AsmPrinter &operator<<(mlir::AsmPrinter &printer, const Range &range) {
@@ -27,6 +37,7 @@ mlir::AsmPrinter &operator<<(mlir::AsmPrinter &printer, const Range &range) {
 mlir::FailureOr<std::optional<mlir::modeling::Range>>
 FieldParser<std::optional<mlir::modeling::Range>>::parse(
     mlir::AsmParser &parser) {
+  llvm::SMLoc loc = parser.getCurrentLocation();
   int64_t beginValue;
   int64_t endValue;
 
@@ -39,7 +50,14 @@ FieldParser<std::optional<mlir::modeling::Range>>::parse(
     return mlir::failure();
   }
 
-  return std::optional(mlir::modeling::Range(beginValue, endValue + 1));
+  mlir::FailureOr<Range> range =
+      getRange(parser, loc, beginValue, endValue);
+
+  if (mlir::failed(range)) {
+    return mlir::failure();
+  }
+
+  return std::optional<Range>(*range);
 }
 
 mlir::AsmPrinter &operator<<(mlir::AsmPrinter &printer,
diff --git a/lib/Dialect/Modeling/IR/Properties.cpp b/lib/Dialect/Modeling/IR/Properties.cpp
index b89b9e3..ea06427 100644
--- a/lib/Dialect/Modeling/IR/Properties.cpp
+++ b/lib/Dialect/Modeling/IR/Properties.cpp
@@ -18,8 +18,20 @@ mlir::LogicalResult setPropertiesFromAttribute(
     return mlir::failure();
   }
 
-  for (MultidimensionalRangeAttr rangeAttr :
-       arrayAttr.getAsRange<MultidimensionalRangeAttr>()) {
+  for (mlir::Attribute elementAttr : arrayAttr) {
+    auto rangeAttr = mlir::dyn_cast<MultidimensionalRangeAttr>(elementAttr);
+
+    if (!rangeAttr) {
+      emitError() << "expected MultidimensionalRangeAttr within IndexSet "
+                     "property";
+      return mlir::failure();
+    }
+
+    if (!prop.empty() && prop.rank() != rangeAttr.getValue().rank()) {
+      emitError() << "incompatible ranks within IndexSet property";
+      return mlir::failure();
+    }
+
     prop += rangeAttr.getValue();
   }
 
@@ -107,6 +119,8 @@ mlir::LogicalResult parse(mlir::OpAsmParser &parser, IndexSet &prop) {
     do {
       ranges.clear();
 
+      llvm::SMLoc loc = parser.getCurrentLocation();
+
       if (parser.parseLSquare()) {
         return mlir::failure();
       }
@@ -119,9 +133,17 @@ mlir::LogicalResult parse(mlir::OpAsmParser &parser, IndexSet &prop) {
           return mlir::failure();
         }
 
+        if (begin > end || end == std::numeric_limits<int64_t>::max()) {
+          return parser.emitError(loc, "invalid range");
+        }
+
         ranges.emplace_back(begin, end + 1);
       } while (mlir::succeeded(parser.parseOptionalLSquare()));
 
+      if (!prop.empty() && prop.rank() != ranges.size()) {
+        return parser.emitError(loc, "incompatible ranks within index set");
+      }
+
       prop += MultidimensionalRange(ranges);
     } while (mlir::succeeded(parser.parseOptionalComma()));
 
-- 
2.43.0


From b5d352a4d442cffa145657078cd7853290f8f2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:13 +0000
Subject: [PATCH 66/87] fix: bulk loading of R-trees with fewer groups than
 remaining objects

---
 include/marco/Modeling/RTree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/marco/Modeling/RTree.h b/include/marco/Modeling/RTree.h
index 2026303..ddb1195 100644
--- a/include/marco/Modeling/RTree.h
+++ b/include/marco/Modeling/RTree.h
@@ -823,7 +823,7 @@ protected:
       }
 
       for (size_t i = 0; i < remainingElements; ++i) {
-        nodes[i]->objects.push_back(
+        nodes[i % numOfGroups]->objects.push_back(
             std::move(objects[numOfGroups * minElements + i]));
       }
 
-- 
2.43.0


From 9451547889e15a402a952516aaa25e598e078061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:41 +0000
Subject: [PATCH 67/87] fix: emit the contents of classes in the JSON form of
 the AST

---
 lib/AST/BaseModelica/Class.cpp    | 4 ++++
 lib/AST/BaseModelica/Function.cpp | 6 ++----
 lib/AST/BaseModelica/Model.cpp    | 2 ++
 lib/AST/BaseModelica/Package.cpp  | 2 ++
 lib/AST/BaseModelica/Record.cpp   | 2 ++
 5 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/AST/BaseModelica/Class.cpp b/lib/AST/BaseModelica/Class.cpp
index 9692b83..cfffe71 100644
--- a/lib/AST/BaseModelica/Class.cpp
+++ b/lib/AST/BaseModelica/Class.cpp
@@ -80,6 +80,10 @@ void Class::addJSONProperties(llvm::json::Object &obj) const {
     }
   }
 
+  if (hasAnnotation()) {
+    obj["annotation"] = getAnnotation()->toJSON();
+  }
+
   ASTNode::addJSONProperties(obj);
 }
 
diff --git a/lib/AST/BaseModelica/Function.cpp b/lib/AST/BaseModelica/Function.cpp
index a85b835..e62356e 100644
--- a/lib/AST/BaseModelica/Function.cpp
+++ b/lib/AST/BaseModelica/Function.cpp
@@ -62,6 +62,7 @@ llvm::json::Value PartialDerFunction::toJSON() const {
   }
 
   result["independent_variables"] = llvm::json::Array(independentVariablesJson);
+  addJSONProperties(result);
 
   addNodeKindToJSON(*this, result);
   return result;
@@ -108,10 +109,7 @@ std::unique_ptr<ASTNode> StandardFunction::clone() const {
 llvm::json::Value StandardFunction::toJSON() const {
   llvm::json::Object result;
   result["pure"] = llvm::json::Value(pure);
-
-  if (hasAnnotation()) {
-    result["annotation"] = getAnnotation()->toJSON();
-  }
+  addJSONProperties(result);
 
   addNodeKindToJSON(*this, result);
   return result;
diff --git a/lib/AST/BaseModelica/Model.cpp b/lib/AST/BaseModelica/Model.cpp
index 3a3561a..75a7483 100644
--- a/lib/AST/BaseModelica/Model.cpp
+++ b/lib/AST/BaseModelica/Model.cpp
@@ -12,6 +12,8 @@ std::unique_ptr<ASTNode> Model::clone() const {
 
 llvm::json::Value Model::toJSON() const {
   llvm::json::Object result;
+  addJSONProperties(result);
+
   addNodeKindToJSON(*this, result);
   return result;
 }
diff --git a/lib/AST/BaseModelica/Package.cpp b/lib/AST/BaseModelica/Package.cpp
index 640183d..3607254 100644
--- a/lib/AST/BaseModelica/Package.cpp
+++ b/lib/AST/BaseModelica/Package.cpp
@@ -13,6 +13,8 @@ std::unique_ptr<ASTNode> Package::clone() const {
 
 llvm::json::Value Package::toJSON() const {
   llvm::json::Object result;
+  addJSONProperties(result);
+
   addNodeKindToJSON(*this, result);
   return result;
 }
diff --git a/lib/AST/BaseModelica/Record.cpp b/lib/AST/BaseModelica/Record.cpp
index cf51baf..280e7c4 100644
--- a/lib/AST/BaseModelica/Record.cpp
+++ b/lib/AST/BaseModelica/Record.cpp
@@ -28,6 +28,8 @@ std::unique_ptr<ASTNode> Record::clone() const {
 
 llvm::json::Value Record::toJSON() const {
   llvm::json::Object result;
+  addJSONProperties(result);
+
   addNodeKindToJSON(*this, result);
   return result;
 }
-- 
2.43.0


From 70b72e68a2745730d49e1902fdce0fb7d863f01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:41 +0000
Subject: [PATCH 68/87] fix: emit the dimensions of types in the JSON form of
 the AST

---
 lib/AST/BaseModelica/Type.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/AST/BaseModelica/Type.cpp b/lib/AST/BaseModelica/Type.cpp
index f262806..fd3bb1e 100644
--- a/lib/AST/BaseModelica/Type.cpp
+++ b/lib/AST/BaseModelica/Type.cpp
@@ -100,6 +100,7 @@ std::unique_ptr<ASTNode> BuiltInType::clone() const {
 llvm::json::Value BuiltInType::toJSON() const {
   llvm::json::Object result;
   result["type"] = toString(kind);
+  addJSONProperties(result);
 
   addNodeKindToJSON(*this, result);
   return result;
@@ -142,6 +143,7 @@ llvm::json::Value UserDefinedType::toJSON() const {
   }
 
   result["path"] = llvm::json::Array(pathJson);
+  addJSONProperties(result);
 
   addNodeKindToJSON(*this, result);
   return result;
-- 
2.43.0


From 71ae356fdd29ab29b9076898ee4b22386adf95f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:41 +0000
Subject: [PATCH 69/87] fix: emit conditions and branches of statements in the
 JSON form of the AST

---
 lib/AST/BaseModelica/IfStatement.cpp    | 3 +++
 lib/AST/BaseModelica/WhenStatement.cpp  | 1 +
 lib/AST/BaseModelica/WhileStatement.cpp | 1 +
 3 files changed, 5 insertions(+)

diff --git a/lib/AST/BaseModelica/IfStatement.cpp b/lib/AST/BaseModelica/IfStatement.cpp
index faca9ed..515bc4a 100644
--- a/lib/AST/BaseModelica/IfStatement.cpp
+++ b/lib/AST/BaseModelica/IfStatement.cpp
@@ -43,6 +43,9 @@ llvm::json::Value IfStatement::toJSON() const {
     elseIfBlocksJson.push_back(block->toJSON());
   }
 
+  result["else_if_conditions"] = llvm::json::Array(elseIfConditionsJson);
+  result["else_if_blocks"] = llvm::json::Array(elseIfBlocksJson);
+
   if (hasElseBlock()) {
     result["else_block"] = getElseBlock()->toJSON();
   }
diff --git a/lib/AST/BaseModelica/WhenStatement.cpp b/lib/AST/BaseModelica/WhenStatement.cpp
index 04ad286..2df476c 100644
--- a/lib/AST/BaseModelica/WhenStatement.cpp
+++ b/lib/AST/BaseModelica/WhenStatement.cpp
@@ -21,6 +21,7 @@ std::unique_ptr<ASTNode> WhenStatement::clone() const {
 
 llvm::json::Value WhenStatement::toJSON() const {
   llvm::json::Object result;
+  result["condition"] = getCondition()->toJSON();
 
   llvm::SmallVector<llvm::json::Value> statementsJson;
 
diff --git a/lib/AST/BaseModelica/WhileStatement.cpp b/lib/AST/BaseModelica/WhileStatement.cpp
index 648bbf6..cb6613b 100644
--- a/lib/AST/BaseModelica/WhileStatement.cpp
+++ b/lib/AST/BaseModelica/WhileStatement.cpp
@@ -21,6 +21,7 @@ std::unique_ptr<ASTNode> WhileStatement::clone() const {
 
 llvm::json::Value WhileStatement::toJSON() const {
   llvm::json::Object result;
+  result["condition"] = getCondition()->toJSON();
 
   llvm::SmallVector<llvm::json::Value> statementsJson;
 
-- 
2.43.0


From 735cab26baa137307ccce1a7695e8ca96b2247bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:41 +0000
Subject: [PATCH 70/87] fix: emit the kind of call statements and external
 calls in the JSON form of the AST

---
 lib/AST/BaseModelica/ASTNode.cpp              | 6 ++++++
 lib/AST/BaseModelica/CallStatement.cpp        | 2 +-
 lib/AST/BaseModelica/ExternalFunctionCall.cpp | 2 +-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/AST/BaseModelica/ASTNode.cpp b/lib/AST/BaseModelica/ASTNode.cpp
index 1a3515c..7e13876 100644
--- a/lib/AST/BaseModelica/ASTNode.cpp
+++ b/lib/AST/BaseModelica/ASTNode.cpp
@@ -57,10 +57,14 @@ static std::string toString(ASTNodeKind kind) {
     return "constant";
   case ASTNodeKind::Expression_Operation:
     return "operation";
+  case ASTNodeKind::Expression_Reduction:
+    return "reduction";
   case ASTNodeKind::Expression_Subscript:
     return "subscript";
   case ASTNodeKind::Expression_Tuple:
     return "tuple";
+  case ASTNodeKind::ExternalFunctionCall:
+    return "external_function_call";
   case ASTNodeKind::ForIndex:
     return "for_index";
   case ASTNodeKind::FunctionArgument_Expression:
@@ -77,6 +81,8 @@ static std::string toString(ASTNodeKind kind) {
     return "assignment_statement";
   case ASTNodeKind::Statement_Break:
     return "break_statement";
+  case ASTNodeKind::Statement_Call:
+    return "call_statement";
   case ASTNodeKind::Statement_For:
     return "for_statement";
   case ASTNodeKind::Statement_If:
diff --git a/lib/AST/BaseModelica/CallStatement.cpp b/lib/AST/BaseModelica/CallStatement.cpp
index bcf5520..664d321 100644
--- a/lib/AST/BaseModelica/CallStatement.cpp
+++ b/lib/AST/BaseModelica/CallStatement.cpp
@@ -21,7 +21,7 @@ llvm::json::Value CallStatement::toJSON() const {
 
   result["call"] = getCall()->toJSON();
 
-  addJSONProperties(result);
+  addNodeKindToJSON(*this, result);
   return result;
 }
 
diff --git a/lib/AST/BaseModelica/ExternalFunctionCall.cpp b/lib/AST/BaseModelica/ExternalFunctionCall.cpp
index d780164..74dc112 100644
--- a/lib/AST/BaseModelica/ExternalFunctionCall.cpp
+++ b/lib/AST/BaseModelica/ExternalFunctionCall.cpp
@@ -39,7 +39,7 @@ llvm::json::Value ExternalFunctionCall::toJSON() const {
 
   result["args"] = llvm::json::Array(argsJson);
 
-  addJSONProperties(result);
+  addNodeKindToJSON(*this, result);
   return result;
 }
 
-- 
2.43.0


From ef9617e7c429468293ac60a6cf8bc0a7cae2a631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:53 +0000
Subject: [PATCH 71/87] fix: read the 'each' property from the start attribute

The property of whichever attribute came first was returned, but it is used
for the start value.
---
 lib/AST/BaseModelica/Modification.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/AST/BaseModelica/Modification.cpp b/lib/AST/BaseModelica/Modification.cpp
index fcffdf4..72e2a8b 100644
--- a/lib/AST/BaseModelica/Modification.cpp
+++ b/lib/AST/BaseModelica/Modification.cpp
@@ -315,6 +315,11 @@ bool ClassModification::getEachProperty() const {
     }
 
     auto *elementModification = argument->cast<ElementModification>();
+
+    if (elementModification->getName() != "start") {
+      continue;
+    }
+
     return elementModification->hasEachProperty();
   }
 
-- 
2.43.0


From 8603917e2aed6a268aea7ba0edd5fd813b9e0ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:53 +0000
Subject: [PATCH 72/87] fix: don't abort on non-uniform arrays of fixed
 properties

The property is unknown, as with any other expression that is not understood,
and the caller reports it.
---
 lib/AST/BaseModelica/Modification.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/AST/BaseModelica/Modification.cpp b/lib/AST/BaseModelica/Modification.cpp
index 72e2a8b..b74310c 100644
--- a/lib/AST/BaseModelica/Modification.cpp
+++ b/lib/AST/BaseModelica/Modification.cpp
@@ -280,9 +280,7 @@ std::optional<bool> ClassModification::getFixedProperty() const {
       // FIXME: Handle this case without special casing
       // fixed = {{{{true, true}, {true, true}}, {{true, true}, {true, ...
       const auto *array = modificationExpression->cast<ArrayConstant>();
-      auto val = isArrayUniformConstBool(array);
-      assert(val);
-      return val;
+      return isArrayUniformConstBool(array);
     }
 
     if (const auto *call = modificationExpression->dyn_cast<Call>()) {
-- 
2.43.0


From 016bb4a8df0579ebeb28ba02e2deb57fa6516bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:54 +0000
Subject: [PATCH 73/87] fix: don't take start modifications without expression
 as start values

`x(start)` and `x(start(...))` are accepted by the grammar.
---
 lib/AST/BaseModelica/Modification.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/lib/AST/BaseModelica/Modification.cpp b/lib/AST/BaseModelica/Modification.cpp
index b74310c..4c58ca2 100644
--- a/lib/AST/BaseModelica/Modification.cpp
+++ b/lib/AST/BaseModelica/Modification.cpp
@@ -11,6 +11,15 @@
 using namespace ::marco;
 using namespace ::marco::ast::bmodelica;
 
+namespace {
+/// Check whether an element modification provides the start value.
+bool isStartModification(const ElementModification &elementModification) {
+  return elementModification.getName() == "start" &&
+         elementModification.hasModification() &&
+         elementModification.getModification()->hasExpression();
+}
+} // namespace
+
 namespace marco::ast::bmodelica {
 Modification::Modification(SourceRange location)
     : ASTNode(ASTNodeKind::Modification, std::move(location)) {}
@@ -175,12 +184,9 @@ bool ClassModification::hasStartExpression() const {
 
     auto *elementModification = argument->cast<ElementModification>();
 
-    if (elementModification->getName() != "start") {
-      continue;
+    if (isStartModification(*elementModification)) {
+      return true;
     }
-
-    assert(elementModification->hasModification());
-    return true;
   }
 
   return false;
@@ -196,7 +202,7 @@ Expression *ClassModification::getStartExpression() {
 
     auto *elementModification = argument->cast<ElementModification>();
 
-    if (elementModification->getName() != "start") {
+    if (!isStartModification(*elementModification)) {
       continue;
     }
 
@@ -216,7 +222,7 @@ const Expression *ClassModification::getStartExpression() const {
 
     auto *elementModification = argument->cast<ElementModification>();
 
-    if (elementModification->getName() != "start") {
+    if (!isStartModification(*elementModification)) {
       continue;
     }
 
@@ -314,7 +320,7 @@ bool ClassModification::getEachProperty() const {
 
     auto *elementModification = argument->cast<ElementModification>();
 
-    if (elementModification->getName() != "start") {
+    if (!isStartModification(*elementModification)) {
       continue;
     }
 
-- 
2.43.0


From c6455d8ffcabbe68c155a2792d3cb2b6838c614f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:54 +0000
Subject: [PATCH 74/87] fix: don't abort on fixed modifications without
 expression

`x(fixed)`, `x(fixed(...))` and `x(fixed = fill())` are accepted by the
grammar. The property is unknown, and the caller reports it.
---
 lib/AST/BaseModelica/Modification.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/AST/BaseModelica/Modification.cpp b/lib/AST/BaseModelica/Modification.cpp
index 4c58ca2..ce50626 100644
--- a/lib/AST/BaseModelica/Modification.cpp
+++ b/lib/AST/BaseModelica/Modification.cpp
@@ -273,9 +273,16 @@ std::optional<bool> ClassModification::getFixedProperty() const {
       continue;
     }
 
-    assert(elementModification->hasModification());
+    if (!elementModification->hasModification()) {
+      return std::nullopt;
+    }
+
     const auto *modification = elementModification->getModification();
-    assert(modification->hasExpression());
+
+    if (!modification->hasExpression()) {
+      return std::nullopt;
+    }
+
     const auto *modificationExpression = modification->getExpression();
 
     if (modificationExpression->isa<Constant>()) {
@@ -293,7 +300,7 @@ std::optional<bool> ClassModification::getFixedProperty() const {
       // FIXME: Handle this case without special casing
       if (const auto *callee =
               call->getCallee()->dyn_cast<ComponentReference>()) {
-        if (callee->getName() == "fill") {
+        if (callee->getName() == "fill" && call->getNumOfArguments() > 0) {
           if (const auto *expressionArg =
                   call->getArgument(0)
                       ->dyn_cast<ExpressionFunctionArgument>()) {
-- 
2.43.0


From 27be54f08f40c75610834c5e0d4a993fa965a676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:54 +0000
Subject: [PATCH 75/87] fix: don't abort when converting real constants to
 booleans and integers

---
 include/marco/AST/BaseModelica/Constant.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/marco/AST/BaseModelica/Constant.h b/include/marco/AST/BaseModelica/Constant.h
index b8f2757..d06c2eb 100644
--- a/include/marco/AST/BaseModelica/Constant.h
+++ b/include/marco/AST/BaseModelica/Constant.h
@@ -59,6 +59,10 @@ public:
         return static_cast<T>(std::get<int64_t>(value));
       }
 
+      if (std::holds_alternative<double>(value)) {
+        return static_cast<T>(std::get<double>(value));
+      }
+
       return static_cast<T>(!std::get<std::string>(value).empty());
     } else {
       if (std::holds_alternative<bool>(value)) {
-- 
2.43.0


From 3293bbf9faba485b76625e4485ed8c98bcc07e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:54 +0000
Subject: [PATCH 76/87] fix: don't abort on inline annotations which are not
 constants

---
 lib/AST/BaseModelica/Annotation.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/AST/BaseModelica/Annotation.cpp b/lib/AST/BaseModelica/Annotation.cpp
index c23616a..9c5887c 100644
--- a/lib/AST/BaseModelica/Annotation.cpp
+++ b/lib/AST/BaseModelica/Annotation.cpp
@@ -67,8 +67,16 @@ bool Annotation::getInlineProperty() const {
     if (auto *elementModification = argument->dyn_cast<ElementModification>()) {
       if (elementModification->getName().equals_insensitive("inline") &&
           elementModification->hasModification()) {
-        const auto &modification = elementModification->getModification();
-        return modification->getExpression()->cast<Constant>()->as<bool>();
+        const auto *modification = elementModification->getModification();
+
+        if (!modification->hasExpression()) {
+          continue;
+        }
+
+        if (const auto *constant =
+                modification->getExpression()->dyn_cast<Constant>()) {
+          return constant->as<bool>();
+        }
       }
     }
   }
-- 
2.43.0


From cb4fc9a4481dab20a56ab19518ea048d62a11640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:58 +0000
Subject: [PATCH 77/87] fix: include the last element of constant ranges in
 variable accesses

The upper bound of the range attributes is inclusive, while the one of Range
is exclusive. Ranges of one element aborted, and the last element of the longer
ones was not seen by the analyses.
---
 lib/Dialect/BaseModelica/IR/Dialect.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/BaseModelica/IR/Dialect.cpp b/lib/Dialect/BaseModelica/IR/Dialect.cpp
index 390396c..a901e4f 100644
--- a/lib/Dialect/BaseModelica/IR/Dialect.cpp
+++ b/lib/Dialect/BaseModelica/IR/Dialect.cpp
@@ -416,7 +416,7 @@ getDimensionAccess(const llvm::DenseMap<mlir::Value, unsigned int>
             static_cast<Range::data_type>(rangeAttr.getUpperBound());
 
         return std::make_unique<DimensionAccessRange>(
-            value.getContext(), Range(lowerBound, upperBound));
+            value.getContext(), Range(lowerBound, upperBound + 1));
       }
 
       if (auto rangeAttr = mlir::dyn_cast<RealRangeAttr>(attr)) {
@@ -429,7 +429,7 @@ getDimensionAccess(const llvm::DenseMap<mlir::Value, unsigned int>
             rangeAttr.getUpperBound().convertToDouble());
 
         return std::make_unique<DimensionAccessRange>(
-            value.getContext(), Range(lowerBound, upperBound));
+            value.getContext(), Range(lowerBound, upperBound + 1));
       }
 
       return std::make_unique<DimensionAccessConstant>(
-- 
2.43.0


From befeaf69f360e02c1389ba5e19f863be06eb3ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:58 +0000
Subject: [PATCH 78/87] fix: infer the type of products of an array by a scalar

Only the opposite order was handled. The compilation failed not only for models
written that way, but also when a constant scalar on the left was moved to the
right during the simplification of the model.
---
 lib/Dialect/BaseModelica/IR/Ops.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/Dialect/BaseModelica/IR/Ops.cpp b/lib/Dialect/BaseModelica/IR/Ops.cpp
index f436769..3b21837 100644
--- a/lib/Dialect/BaseModelica/IR/Ops.cpp
+++ b/lib/Dialect/BaseModelica/IR/Ops.cpp
@@ -3806,6 +3806,16 @@ mlir::LogicalResult MulOp::inferReturnTypes(
     return mlir::success();
   }
 
+  if (lhsShapedType && isScalar(rhsType)) {
+    mlir::Type resultElementType =
+        getMostGenericScalarType(lhsShapedType.getElementType(), rhsType);
+
+    returnTypes.push_back(mlir::RankedTensorType::get(lhsShapedType.getShape(),
+                                                      resultElementType));
+
+    return mlir::success();
+  }
+
   if (lhsShapedType && rhsShapedType) {
     mlir::Type resultElementType = getMostGenericScalarType(
         lhsShapedType.getElementType(), rhsShapedType.getElementType());
-- 
2.43.0


From 87679c14a99dcc0bee9db6e2cf7e68c42aeede99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:17 +0000
Subject: [PATCH 79/87] fix: don't abort on equations reading neighbours of the
 elements they compute

The other elements of the matched variable, as in v[i] = 2 * v[i + 1], may
overlap the computed ones without being the same access. Only the latter have to
be collected on the left-hand side, which is what the comparison tells.
---
 lib/Dialect/BaseModelica/IR/Ops.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/Dialect/BaseModelica/IR/Ops.cpp b/lib/Dialect/BaseModelica/IR/Ops.cpp
index 3b21837..8c1e956 100644
--- a/lib/Dialect/BaseModelica/IR/Ops.cpp
+++ b/lib/Dialect/BaseModelica/IR/Ops.cpp
@@ -9360,8 +9360,6 @@ mlir::LogicalResult EquationTemplateOp::groupLeftHandSide(
       const AccessFunction &currentAccessFunction = acc.getAccessFunction();
       auto currentIndices = currentAccessFunction.map(equationIndices);
 
-      assert(requestedIndices == currentIndices ||
-             !requestedIndices.overlaps(currentIndices));
       return requestedIndices == currentIndices;
     });
 
-- 
2.43.0


From 2b4abb345fb45500add7ef58678401b38bf7dadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:18 +0000
Subject: [PATCH 80/87] fix: keep the matched indices when eliminating
 single-valued inductions

The accesses of the reduced equation were applied to indices of the original
rank, thus attributing the equation to other elements of the variable, or to none
at all.
---
 .../SingleValuedInductionElimination.cpp      | 32 +++++++++++++++----
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/lib/Dialect/BaseModelica/Transforms/SingleValuedInductionElimination.cpp b/lib/Dialect/BaseModelica/Transforms/SingleValuedInductionElimination.cpp
index 3f65d65..6bff8e9 100644
--- a/lib/Dialect/BaseModelica/Transforms/SingleValuedInductionElimination.cpp
+++ b/lib/Dialect/BaseModelica/Transforms/SingleValuedInductionElimination.cpp
@@ -137,16 +137,34 @@ mlir::LogicalResult SingleValuedInductionEliminationPass::processEquation(
 
       remainingIndices -= MultidimensionalRange(removedRanges);
 
-      if (newRanges.empty()) {
-        if (mlir::failed(newInstance.setIndices({}, symbolTableCollection))) {
+      // Restrict the matched variable by using the accesses of the original
+      // equation, as the ones of the new equation have a different rank.
+      if (equation.getProperties().match) {
+        llvm::SmallVector<VariableAccess> accesses;
+        llvm::SmallVector<VariableAccess> writeAccesses;
+
+        if (mlir::failed(
+                equation.getAccesses(accesses, symbolTableCollection)) ||
+            mlir::failed(equation.getWriteAccesses(
+                writeAccesses, symbolTableCollection, accesses))) {
           return mlir::failure();
         }
-      } else {
-        if (mlir::failed(newInstance.setIndices(
-                IndexSet(MultidimensionalRange(newRanges)),
-                symbolTableCollection))) {
-          return mlir::failure();
+
+        IndexSet matchedIndices;
+
+        for (const VariableAccess &writeAccess : writeAccesses) {
+          matchedIndices += writeAccess.getAccessFunction().map(
+              IndexSet(MultidimensionalRange(removedRanges)));
         }
+
+        newInstance.getProperties().match.indices = std::move(matchedIndices);
+      }
+
+      if (newRanges.empty()) {
+        newInstance.getProperties().indices = {};
+      } else {
+        newInstance.getProperties().indices =
+            IndexSet(MultidimensionalRange(newRanges));
       }
     }
   }
-- 
2.43.0


From 7389f2b90bc7f25be9d765f7b88fe6bc9979b4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:18 +0000
Subject: [PATCH 81/87] fix: iterate backwards over the same indices as
 forwards

The upper bound of an equation function is exclusive, and the loops scheduled
backwards ranged over the indices following the ones of the equation.
---
 .../BaseModelica/Transforms/EquationExplicitation.cpp     | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/BaseModelica/Transforms/EquationExplicitation.cpp b/lib/Dialect/BaseModelica/Transforms/EquationExplicitation.cpp
index ad5df36..4d4cfcf 100644
--- a/lib/Dialect/BaseModelica/Transforms/EquationExplicitation.cpp
+++ b/lib/Dialect/BaseModelica/Transforms/EquationExplicitation.cpp
@@ -390,9 +390,13 @@ EquationFunctionOp EquationExplicitationPass::createEquationFunction(
             induction.getLoc(), rewriter.getIndexType(), induction,
             lowerBounds[i]);
 
-        mlir::Value mappedInduction = rewriter.create<mlir::arith::SubIOp>(
+        // The upper bound is exclusive.
+        mlir::Value lastValue = rewriter.create<mlir::arith::SubIOp>(
             induction.getLoc(), rewriter.getIndexType(), upperBounds[i],
-            offset);
+            oneValue);
+
+        mlir::Value mappedInduction = rewriter.create<mlir::arith::SubIOp>(
+            induction.getLoc(), rewriter.getIndexType(), lastValue, offset);
 
         shiftedInductions.push_back(mappedInduction);
       }
-- 
2.43.0


From 5fed0e88d952d0aadbe86e85725cb17fa6732284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:18 +0000
Subject: [PATCH 82/87] fix: don't build ranges without dimensions for scalar
 states in algorithms

---
 .../BaseModelica/Transforms/DerivativesMaterialization.cpp   | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/Dialect/BaseModelica/Transforms/DerivativesMaterialization.cpp b/lib/Dialect/BaseModelica/Transforms/DerivativesMaterialization.cpp
index d474ef7..a9c07cf 100644
--- a/lib/Dialect/BaseModelica/Transforms/DerivativesMaterialization.cpp
+++ b/lib/Dialect/BaseModelica/Transforms/DerivativesMaterialization.cpp
@@ -303,6 +303,11 @@ IndexSet shapeToIndexSet(llvm::ArrayRef<int64_t> shape) {
   IndexSet result;
   llvm::SmallVector<Range, 3> ranges;
 
+  if (shape.empty()) {
+    // Scalar variables have no indices.
+    return result;
+  }
+
   for (int64_t dimension : shape) {
     ranges.push_back(Range(0, dimension));
   }
-- 
2.43.0


From 346946033a705af8dd96fd87ddc54770d22c1ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:18 +0000
Subject: [PATCH 83/87] fix: don't promote to parameters the variables of
 algorithms using the time

The usage of the time was looked for only in the equations, and not in the
functions obtained from the algorithms of the model.
---
 .../Transforms/VariablesPromotion.cpp         | 40 +++++++++++++++++--
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/lib/Dialect/BaseModelica/Transforms/VariablesPromotion.cpp b/lib/Dialect/BaseModelica/Transforms/VariablesPromotion.cpp
index 686ec1b..b999c2c 100644
--- a/lib/Dialect/BaseModelica/Transforms/VariablesPromotion.cpp
+++ b/lib/Dialect/BaseModelica/Transforms/VariablesPromotion.cpp
@@ -35,6 +35,38 @@ private:
 };
 } // namespace
 
+/// Check whether the 'time' variable is used within an operation, or within the
+/// functions being called by it. Functions may use it when they have been
+/// obtained from the algorithms of a model.
+static bool usesTime(mlir::ModuleOp moduleOp,
+                     mlir::SymbolTableCollection &symbolTableCollection,
+                     llvm::DenseSet<mlir::Operation *> &visited,
+                     mlir::Operation *op) {
+  if (!visited.insert(op).second) {
+    return false;
+  }
+
+  auto walkResult = op->walk([&](mlir::Operation *nestedOp) {
+    if (mlir::isa<TimeOp>(nestedOp)) {
+      return mlir::WalkResult::interrupt();
+    }
+
+    if (auto callOp = mlir::dyn_cast<CallOp>(nestedOp)) {
+      mlir::Operation *callee =
+          callOp.getFunction(moduleOp, symbolTableCollection);
+
+      if (callee &&
+          usesTime(moduleOp, symbolTableCollection, visited, callee)) {
+        return mlir::WalkResult::interrupt();
+      }
+    }
+
+    return mlir::WalkResult::advance();
+  });
+
+  return walkResult.wasInterrupted();
+}
+
 void VariablesPromotionPass::runOnOperation() {
   llvm::SmallVector<ModelOp, 1> modelOps;
 
@@ -431,11 +463,11 @@ mlir::LogicalResult VariablesPromotionPass::processModelOp(ModelOp modelOp) {
 
       // Check if the equation uses the 'time' variable. If it does, then it
       // must not be promoted to an initial equation.
-      bool timeUsage = false;
-
-      equation->op.getTemplate().walk([&](TimeOp timeOp) { timeUsage = true; });
+      llvm::DenseSet<mlir::Operation *> visitedOps;
 
-      if (timeUsage) {
+      if (usesTime(modelOp->getParentOfType<mlir::ModuleOp>(),
+                   symbolTableCollection, visitedOps,
+                   equation->op.getTemplate())) {
         promotable = false;
         break;
       }
-- 
2.43.0


From e11f4f628e484ddeb1e0a06e9461362a698c0eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:34 +0000
Subject: [PATCH 84/87] fix: allow the derivation of whole arrays

An element can be extracted from the derivative, without further indices, only
when its rank is zero.
---
 .../BaseModelica/Transforms/DerivativesMaterialization.cpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Dialect/BaseModelica/Transforms/DerivativesMaterialization.cpp b/lib/Dialect/BaseModelica/Transforms/DerivativesMaterialization.cpp
index a9c07cf..6ffc7e0 100644
--- a/lib/Dialect/BaseModelica/Transforms/DerivativesMaterialization.cpp
+++ b/lib/Dialect/BaseModelica/Transforms/DerivativesMaterialization.cpp
@@ -180,7 +180,7 @@ mlir::LogicalResult removeDerOps(mlir::Region &region, ModelOp modelOp,
 
     if (auto tensorType =
             mlir::dyn_cast<mlir::TensorType>(replacement.getType());
-        tensorType && tensorType.hasRank()) {
+        tensorType && tensorType.hasRank() && tensorType.getRank() == 0) {
       replacement = rewriter.create<TensorExtractOp>(
           derOp.getLoc(), replacement, mlir::ValueRange());
     }
-- 
2.43.0


From e4905f7f11022f739b9e591e5a311b4c8de2ff58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:35 +0000
Subject: [PATCH 85/87] fix: accept constant indices into dimensions of unknown
 size

The verifiers of the accesses to tensors and arrays compared them with the value
which marks the sizes known only at run time.
---
 lib/Dialect/BaseModelica/IR/Ops.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/Dialect/BaseModelica/IR/Ops.cpp b/lib/Dialect/BaseModelica/IR/Ops.cpp
index 8c1e956..bb307e4 100644
--- a/lib/Dialect/BaseModelica/IR/Ops.cpp
+++ b/lib/Dialect/BaseModelica/IR/Ops.cpp
@@ -725,7 +725,7 @@ mlir::LogicalResult TensorExtractOp::verify() {
         }
 
         if (int64_t dimSize = getTensor().getType().getDimSize(i);
-            *index >= dimSize) {
+            dimSize != mlir::ShapedType::kDynamic && *index >= dimSize) {
           return emitOpError() << "out of bounds access (index = " << *index
                                << ", dimension = " << dimSize << ")";
         }
@@ -1028,7 +1028,8 @@ mlir::LogicalResult LoadOp::verify() {
           return emitOpError() << "invalid index (" << *index << ")";
         }
 
-        if (int64_t dimSize = getArrayType().getDimSize(i); *index >= dimSize) {
+        if (int64_t dimSize = getArrayType().getDimSize(i);
+            dimSize != mlir::ShapedType::kDynamic && *index >= dimSize) {
           return emitOpError() << "out of bounds access (index = " << *index
                                << ", dimension = " << dimSize << ")";
         }
@@ -1126,7 +1127,8 @@ mlir::LogicalResult StoreOp::verify() {
           return emitOpError() << "invalid index (" << *index << ")";
         }
 
-        if (int64_t dimSize = getArrayType().getDimSize(i); *index >= dimSize) {
+        if (int64_t dimSize = getArrayType().getDimSize(i);
+            dimSize != mlir::ShapedType::kDynamic && *index >= dimSize) {
           return emitOpError() << "out of bounds access (index = " << *index
                                << ", dimension = " << dimSize << ")";
         }
-- 
2.43.0


From eefb47888bc4f989fa742879b6e32b65d2f62b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:43 +0000
Subject: [PATCH 86/87] fix: take the range of the second iterator of a
 reduction into account

---
 .../Transforms/EquationExpressionOpInterfaceImpl.cpp            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Dialect/BaseModelica/Transforms/EquationExpressionOpInterfaceImpl.cpp b/lib/Dialect/BaseModelica/Transforms/EquationExpressionOpInterfaceImpl.cpp
index 152c9d1..a3926e6 100644
--- a/lib/Dialect/BaseModelica/Transforms/EquationExpressionOpInterfaceImpl.cpp
+++ b/lib/Dialect/BaseModelica/Transforms/EquationExpressionOpInterfaceImpl.cpp
@@ -301,7 +301,7 @@ struct ReductionOpInterface
         if (indices.empty()) {
           indices = {MultidimensionalRange(range)};
         } else {
-          indices = indices.append(IndexSet());
+          indices = indices.append(IndexSet(MultidimensionalRange(range)));
         }
 
         auto currentDimension = static_cast<int64_t>(indices.rank() - 1);
-- 
2.43.0


From dc382f0c4e9a436ce186264911877d22b74e9021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:27 +0000
Subject: [PATCH 87/87] fix: map the generic accesses of scalar equations

---
 lib/Modeling/AccessFunctionGeneric.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/Modeling/AccessFunctionGeneric.cpp b/lib/Modeling/AccessFunctionGeneric.cpp
index a5c8deb..a78bbc5 100644
--- a/lib/Modeling/AccessFunctionGeneric.cpp
+++ b/lib/Modeling/AccessFunctionGeneric.cpp
@@ -275,6 +275,12 @@ void AccessFunctionGeneric::map(
 }
 
 IndexSet AccessFunctionGeneric::map(const IndexSet &indices) const {
+  if (getNumOfDims() == 0) {
+    // There are no points to iterate on, but the function may still access the
+    // indices of its own iteration spaces.
+    return map(Point());
+  }
+
   IndexSet mappedIndices;
 
   for (Point point : indices) {
-- 
2.43.0

