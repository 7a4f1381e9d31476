From 66da4515274577a98fadc0b5da9e610d8bfb9c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:31 +0000
Subject: [PATCH 01/78] fix: do not add a second root feature to a model

Adding a RootFeature next to the existing root only failed in the final
consistency check and left the model with two roots.
---
 include/vara/Feature/FeatureModelTransaction.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index 1946bc1..c63da5a 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -305,6 +305,9 @@ public:
   }
 
   Result<FTErrorCode, Feature *> operator()(FeatureModel &FM) {
+    if (FM.getRoot() && llvm::isa<RootFeature>(*NewFeature)) {
+      return INCONSISTENT;
+    }
     auto *InsertedFeature = addFeature(FM, std::move(NewFeature));
     if (!InsertedFeature) {
       return ALREADY_PRESENT;
-- 
2.43.0


From 5532c70b2b0d1ce4eda3bae601ea6d1880dc6894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:31 +0000
Subject: [PATCH 02/78] fix: removeRelationship only removes a relationship of
 the feature itself

The lookup expanded through child features, so the relationship of a
descendant was torn apart, and a feature without any relationship
dereferenced an end iterator.
---
 include/vara/Feature/FeatureModelTransaction.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index c63da5a..0638157 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -466,7 +466,11 @@ public:
       return MISSING_PARENT;
     }
 
-    auto Relationships = P->getChildren<Relationship>();
+    // Relationships of other features further down in the tree stay untouched.
+    auto Relationships = P->getChildren<Relationship>(1);
+    if (Relationships.empty()) {
+      return MISSING_CHILD;
+    }
     Relationship *R = *Relationships.begin();
 
     removeEdge(*P, *R);
-- 
2.43.0


From 5d95dc45a1b94d2102fe1a6d226928eb144272bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:31 +0000
Subject: [PATCH 03/78] fix: addRelationship handles unknown parents and
 existing relationships

An unknown parent was dereferenced, and members of an existing
relationship of the parent tripped an assertion.
---
 include/vara/Feature/FeatureModelTransaction.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index 0638157..1dad6ea 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -405,23 +405,27 @@ public:
   }
 
   Result<FTErrorCode, Relationship *> operator()(FeatureModel &FM) {
-    auto *InsertedRelationship =
-        addRelationship(FM, std::make_unique<Relationship>(Kind));
-    if (!InsertedRelationship) {
-      return ERROR;
-    }
-
     auto *P = std::visit(
         Overloaded{
             [&FM](const std::string &Name) { return FM.getFeature(Name); },
             [](Feature *Ptr) { return Ptr; },
         },
         Parent);
+    if (!P) {
+      return MISSING_PARENT;
+    }
+
+    auto *InsertedRelationship =
+        addRelationship(FM, std::make_unique<Relationship>(Kind));
+    if (!InsertedRelationship) {
+      return ERROR;
+    }
 
     setParent(*InsertedRelationship, *P);
     addEdge(*P, *InsertedRelationship);
 
-    for (auto *C : P->getChildren<Feature>()) {
+    // Features that already belong to another relationship stay there.
+    for (auto *C : P->getChildren<Feature>(1)) {
       assert(P->hasEdgeTo(*C) && C->hasEdgeFrom(*P));
       removeEdge(*P, *C);
       addEdge(*InsertedRelationship, *C);
-- 
2.43.0


From 522d14b680f534ba0311821fcf1df52ac5201918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:31 +0000
Subject: [PATCH 04/78] fix: addChild rejects edges that would close a cycle

Moving a feature below one of its own descendants cut both of them off
the tree without being noticed by the consistency check.
---
 include/vara/Feature/FeatureModelTransaction.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index 1dad6ea..718110f 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -794,8 +794,10 @@ public:
       return MISSING_PARENT;
     }
 
-    if (C == P) {
-      return RECURSIVE_EDGE;
+    for (auto *Ancestor = P; Ancestor; Ancestor = Ancestor->getParent()) {
+      if (C == Ancestor) {
+        return RECURSIVE_EDGE;
+      }
     }
 
     if (C->getParent()) {
-- 
2.43.0


From 51d61d9eb37b3f4183e436e9dc9558f0288c9836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:31 +0000
Subject: [PATCH 05/78] fix: refuse to remove the root of a model

Removing the root dereferenced its non-existing parent.
---
 include/vara/Feature/FeatureModelTransaction.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index 718110f..a4a2224 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -356,6 +356,12 @@ public:
     if (!F) {
       return MISSING_FEATURE;
     }
+    if (!Recursive && !F->getChildren<Feature>().empty()) {
+      return NON_LEAF_NODE;
+    }
+    if (F == FM.getRoot()) {
+      return INCONSISTENT;
+    }
 
     if (Recursive) {
       for (auto *C : F->getChildren<Feature>()) {
@@ -368,9 +374,6 @@ public:
         removeRelationship(FM, R);
       }
     } else {
-      if (!F->getChildren<Feature>().empty()) {
-        return NON_LEAF_NODE;
-      }
       if (!F->getChildren<Relationship>().empty()) {
         removeRelationship(FM, *F->getChildren<Relationship>().begin());
       }
-- 
2.43.0


From 83e9aa39be7302b5762188290a6f332842809590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:31 +0000
Subject: [PATCH 06/78] fix: remove all relationships of a removed leaf feature

Only one of several empty relationships was removed together with their
parent, the others kept a dangling parent.
---
 include/vara/Feature/FeatureModelTransaction.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index a4a2224..dbc4d4c 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -369,14 +369,10 @@ public:
           return E;
         }
       }
-      for (auto *R : F->getChildren<Relationship>()) {
-        removeEdge(*F, *R);
-        removeRelationship(FM, R);
-      }
-    } else {
-      if (!F->getChildren<Relationship>().empty()) {
-        removeRelationship(FM, *F->getChildren<Relationship>().begin());
-      }
+    }
+    for (auto *R : F->getChildren<Relationship>()) {
+      removeEdge(*F, *R);
+      removeRelationship(FM, R);
     }
 
     removeEdge(*F->getParent(), *F);
-- 
2.43.0


From f0ed46d023fa4c45018fb55c4396ad7092ff9dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:31 +0000
Subject: [PATCH 07/78] fix: report locations of unknown features, ignore
 unknown locations

addLocation and removeLocation dereferenced unknown features, and removing
a location a feature does not have erased past the end.
---
 include/vara/Feature/Feature.h                |  3 +-
 .../vara/Feature/FeatureModelTransaction.h    | 36 ++++++++++---------
 2 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/include/vara/Feature/Feature.h b/include/vara/Feature/Feature.h
index d44e9ec..484d5e4 100644
--- a/include/vara/Feature/Feature.h
+++ b/include/vara/Feature/Feature.h
@@ -99,7 +99,8 @@ public:
 
   std::vector<FeatureSourceRange>::iterator
   removeLocation(const FeatureSourceRange &Fsr) {
-    return Locations.erase(std::find(Locations.begin(), Locations.end(), Fsr));
+    auto Loc = std::find(Locations.begin(), Locations.end(), Fsr);
+    return Loc != Locations.end() ? Locations.erase(Loc) : Loc;
   }
 
   bool updateLocation(const FeatureSourceRange &OldFsr,
diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index dbc4d4c..b5ff4e0 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -511,14 +511,16 @@ public:
   }
 
   Result<FTErrorCode> operator()(FeatureModel &FM) {
-    addLocation(*std::visit(Overloaded{
-                                [&FM](const std::string &Name) {
-                                  return FM.getFeature(Name);
-                                },
-                                [](Feature *Ptr) { return Ptr; },
-                            },
-                            F),
-                FSR);
+    auto *ActualF = std::visit(
+        Overloaded{
+            [&FM](const std::string &Name) { return FM.getFeature(Name); },
+            [](Feature *Ptr) { return Ptr; },
+        },
+        F);
+    if (!ActualF) {
+      return MISSING_FEATURE;
+    }
+    addLocation(*ActualF, FSR);
     return Ok();
   }
 
@@ -546,14 +548,16 @@ public:
   }
 
   Result<FTErrorCode> operator()(FeatureModel &FM) {
-    removeLocation(*std::visit(Overloaded{
-                                   [&FM](const std::string &Name) {
-                                     return FM.getFeature(Name);
-                                   },
-                                   [](Feature *Ptr) { return Ptr; },
-                               },
-                               F),
-                   FSR);
+    auto *ActualF = std::visit(
+        Overloaded{
+            [&FM](const std::string &Name) { return FM.getFeature(Name); },
+            [](Feature *Ptr) { return Ptr; },
+        },
+        F);
+    if (!ActualF) {
+      return MISSING_FEATURE;
+    }
+    removeLocation(*ActualF, FSR);
     return Ok();
   }
 
-- 
2.43.0


From 69a28544c09bb618bfe5c6024c8ebfb2f2068706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:31 +0000
Subject: [PATCH 08/78] fix: do not keep constraints that mention unknown
 features

addConstraint reported MISSING_FEATURE, but the constraint stayed in the
model and its other features pointed to it.
---
 include/vara/Feature/FeatureModelTransaction.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index b5ff4e0..4498dec 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -586,6 +586,10 @@ public:
   }
 
   Result<FTErrorCode, Constraint *> operator()(FeatureModel &FM) {
+    auto FeaturesPresent = CheckFeaturesVisitor(&FM);
+    if (!NewConstraint->constraint()->accept(FeaturesPresent)) {
+      return MISSING_FEATURE;
+    }
     auto *InsertedConstraint = addConstraint(FM, std::move(NewConstraint));
     if (!InsertedConstraint) {
       return ERROR;
@@ -598,6 +602,19 @@ public:
   }
 
 private:
+  class CheckFeaturesVisitor : public ConstraintVisitor {
+
+  public:
+    CheckFeaturesVisitor(FeatureModel *FM) : FM(FM) {}
+
+    bool visit(PrimaryFeatureConstraint *C) override {
+      return FM->getFeature(C->getFeature()->getName());
+    };
+
+  private:
+    FeatureModel *FM;
+  };
+
   class AddConstraintToModelVisitor : public ConstraintVisitor {
 
   public:
-- 
2.43.0


From 608c3e9c01259fdd78efae3ffce202606b0a5462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 09/78] fix: remove constraints together with the features they
 mention

Removing a feature left its constraints in the model, pointing to the
destroyed feature.
---
 lib/Feature/FeatureModel.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/lib/Feature/FeatureModel.cpp b/lib/Feature/FeatureModel.cpp
index 56a1040..b3aae7c 100644
--- a/lib/Feature/FeatureModel.cpp
+++ b/lib/Feature/FeatureModel.cpp
@@ -6,6 +6,7 @@
 #include "llvm/Support/MemoryBuffer.h"
 
 #include <algorithm>
+#include <set>
 
 //===----------------------------------------------------------------------===//
 //                          FeatureModel
@@ -31,6 +32,33 @@ Feature *FeatureModel::addFeature(std::unique_ptr<Feature> NewFeature) {
 }
 
 void FeatureModel::removeFeature(Feature &F) {
+  // A constraint can not outlive a feature it mentions.
+  std::set<Constraint *> Obsolete;
+  for (auto *C : F.constraints()) {
+    Obsolete.insert(C->getRoot());
+  }
+  class DetachVisitor : public ConstraintVisitor {
+  public:
+    bool visit(PrimaryFeatureConstraint *C) override {
+      C->getFeature()->removeConstraintNonPreserve(C);
+      return true;
+    }
+  };
+  for (auto *C : Obsolete) {
+    DetachVisitor V;
+    C->accept(V);
+  }
+  auto EraseObsolete = [&Obsolete](auto &Constraints) {
+    Constraints.erase(std::remove_if(Constraints.begin(), Constraints.end(),
+                                     [&Obsolete](const auto &C) {
+                                       return Obsolete.count(C->constraint());
+                                     }),
+                      Constraints.end());
+  };
+  EraseObsolete(BooleanConstraints);
+  EraseObsolete(NonBooleanConstraints);
+  EraseObsolete(MixedConstraints);
+
   if (&F == Root) {
     Root = nullptr;
   }
-- 
2.43.0


From 72fc669db9cee3998344e0cef460865046bffe5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 10/78] fix: copy transactions do not dereference features
 missing in the copy

Operations on unknown features dereferenced a null pointer; a new feature
whose parent is not part of the copy was silently attached to the root.
---
 .../vara/Feature/FeatureModelTransaction.h    | 58 +++++++------------
 1 file changed, 22 insertions(+), 36 deletions(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index 4498dec..c70dc1f 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -870,8 +870,12 @@ protected:
     if (Parent) {
       // To correctly add a parent, we need to translate it to a Feature in
       // our copied FeatureModel
+      auto *CopiedParent = translateFeature(*Parent);
+      if (!CopiedParent) {
+        return MISSING_PARENT;
+      }
       return FeatureModelModification::makeModification<AddFeatureToModel>(
-          std::move(NewFeature), translateFeature(*Parent))(*FM);
+          std::move(NewFeature), CopiedParent)(*FM);
     }
 
     return FeatureModelModification::makeModification<AddFeatureToModel>(
@@ -882,13 +886,7 @@ protected:
     assert(FM && "FeatureModel is null.");
 
     FeatureModelModification::makeModification<RemoveFeatureFromModel>(
-        translateFeature(*std::visit(Overloaded{
-                                         [this](const std::string &Name) {
-                                           return FM->getFeature(Name);
-                                         },
-                                         [](Feature *Ptr) { return Ptr; },
-                                     },
-                                     F)),
+        translateFeature(F),
         Recursive)(*FM);
   }
 
@@ -900,39 +898,21 @@ protected:
     }
 
     return FeatureModelModification::makeModification<AddRelationshipToModel>(
-        Kind, translateFeature(*std::visit(Overloaded{
-                                               [this](const std::string &Name) {
-                                                 return FM->getFeature(Name);
-                                               },
-                                               [](Feature *Ptr) { return Ptr; },
-                                           },
-                                           Parent)))(*FM);
+        Kind, translateFeature(Parent))(*FM);
   }
 
   void removeRelationshipImpl(const FeatureVariantTy &F) {
     assert(FM && "Feature model is null.");
 
     FeatureModelModification::makeModification<RemoveRelationshipFromModel>(
-        translateFeature(*std::visit(Overloaded{
-                                         [this](const std::string &Name) {
-                                           return FM->getFeature(Name);
-                                         },
-                                         [](Feature *Ptr) { return Ptr; },
-                                     },
-                                     F)))(*FM);
+        translateFeature(F))(*FM);
   }
 
   void addLocationImpl(const FeatureVariantTy &F, FeatureSourceRange FSR) {
     assert(FM && "FeatureModel is null.");
 
     FeatureModelModification::makeModification<AddLocationToFeature>(
-        translateFeature(*std::visit(Overloaded{
-                                         [this](const std::string &Name) {
-                                           return FM->getFeature(Name);
-                                         },
-                                         [](Feature *Ptr) { return Ptr; },
-                                     },
-                                     F)),
+        translateFeature(F),
         std::move(FSR))(*FM);
   }
 
@@ -940,13 +920,7 @@ protected:
     assert(FM && "FeatureModel is null.");
 
     FeatureModelModification::makeModification<RemoveLocationFromFeature>(
-        translateFeature(*std::visit(Overloaded{
-                                         [this](const std::string &Name) {
-                                           return FM->getFeature(Name);
-                                         },
-                                         [](Feature *Ptr) { return Ptr; },
-                                     },
-                                     F)),
+        translateFeature(F),
         FSR)(*FM);
   }
 
@@ -1001,6 +975,18 @@ private:
     return FM->getFeature(F.getName());
   }
 
+  /// \returns nullptr, if there is no such Feature in our copied FeatureModel
+  [[nodiscard]] Feature *translateFeature(const FeatureVariantTy &F) {
+    return std::visit(
+        Overloaded{
+            [this](const std::string &Name) { return FM->getFeature(Name); },
+            [this](Feature *Ptr) {
+              return Ptr ? translateFeature(*Ptr) : nullptr;
+            },
+        },
+        F);
+  }
+
   std::unique_ptr<FeatureModel> FM;
 };
 
-- 
2.43.0


From 6434681a3b46ce53020a1df4a5de636a627a9c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 11/78] fix: execute addChild in copy transactions

The modification was built, but never applied to the copy.
---
 .../vara/Feature/FeatureModelTransaction.h    | 42 +++++++++++++++++--
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index c70dc1f..406e58c 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -964,9 +964,14 @@ protected:
         *FM);
   }
 
-  static void addChildImpl(const FeatureTreeNodeVariantTy &Parent,
-                           const FeatureTreeNodeVariantTy &Child) {
-    FeatureModelModification::makeModification<AddChild>(Parent, Child);
+  Result<FTErrorCode> addChildImpl(const FeatureTreeNodeVariantTy &Parent,
+                                   const FeatureTreeNodeVariantTy &Child) {
+    if (!FM) {
+      return ERROR;
+    }
+
+    return FeatureModelModification::makeModification<AddChild>(
+        translateNode(Parent), translateNode(Child))(*FM);
   }
 
 private:
@@ -987,6 +992,37 @@ private:
         F);
   }
 
+  /// Find the node of our copied FeatureModel that corresponds to \p N.
+  ///
+  /// \returns nullptr, if there is no such node
+  [[nodiscard]] FeatureTreeNode *
+  translateNode(const FeatureTreeNodeVariantTy &N) {
+    if (const auto *Name = std::get_if<std::string>(&N)) {
+      return FM->getFeature(*Name);
+    }
+    auto *Node = std::get<FeatureTreeNode *>(N);
+    if (auto *F = llvm::dyn_cast_or_null<Feature>(Node)) {
+      return translateFeature(*F);
+    }
+    for (const auto &R : std::as_const(*FM).relationships()) {
+      if (R.get() == Node) {
+        return Node; // is already part of our copied FeatureModel
+      }
+    }
+    auto *R = llvm::dyn_cast_or_null<Relationship>(Node);
+    auto *P = R ? llvm::dyn_cast_or_null<Feature>(R->getParent()) : nullptr;
+    auto *CopiedParent = P ? translateFeature(*P) : nullptr;
+    if (CopiedParent) {
+      for (auto *C : CopiedParent->children()) {
+        auto *CopiedR = llvm::dyn_cast<Relationship>(C);
+        if (CopiedR && CopiedR->getKind() == R->getKind()) {
+          return CopiedR;
+        }
+      }
+    }
+    return nullptr;
+  }
+
   std::unique_ptr<FeatureModel> FM;
 };
 
-- 
2.43.0


From 40a5c28c055e15de02273a1ebf2f70b416c65ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:16 +0000
Subject: [PATCH 12/78] fix: copy output string and step function of features

Both were lost when cloning a model and when merging two models.
---
 lib/Feature/FeatureModel.cpp            | 12 ++++++++----
 lib/Feature/FeatureModelTransaction.cpp |  9 +++++++--
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/lib/Feature/FeatureModel.cpp b/lib/Feature/FeatureModel.cpp
index b3aae7c..aa1a33e 100644
--- a/lib/Feature/FeatureModel.cpp
+++ b/lib/Feature/FeatureModel.cpp
@@ -90,14 +90,18 @@ std::unique_ptr<FeatureModel> FeatureModel::clone() const {
     case Feature::FeatureKind::FK_BINARY:
       if (auto *F = llvm::dyn_cast<BinaryFeature>(KV.getValue().get()); F) {
         FMB.makeFeature<BinaryFeature>(F->getName().str(), F->isOptional(),
-                                       std::move(SourceRanges));
+                                       std::move(SourceRanges),
+                                       F->getOutputString().str());
       }
       break;
     case Feature::FeatureKind::FK_NUMERIC:
       if (auto *F = llvm::dyn_cast<NumericFeature>(KV.getValue().get()); F) {
-        FMB.makeFeature<NumericFeature>(F->getName().str(), F->getValues(),
-                                        F->isOptional(),
-                                        std::move(SourceRanges));
+        FMB.makeFeature<NumericFeature>(
+            F->getName().str(), F->getValues(), F->isOptional(),
+            std::move(SourceRanges), F->getOutputString().str(),
+            F->getStepFunction()
+                ? std::make_unique<StepFunction>(*F->getStepFunction())
+                : nullptr);
       }
       break;
     }
diff --git a/lib/Feature/FeatureModelTransaction.cpp b/lib/Feature/FeatureModelTransaction.cpp
index 3e005f5..dd89229 100644
--- a/lib/Feature/FeatureModelTransaction.cpp
+++ b/lib/Feature/FeatureModelTransaction.cpp
@@ -208,13 +208,18 @@ mergeFeatureModels(FeatureModel &FM1, FeatureModel &FM2, bool Strict) {
     return std::make_unique<BinaryFeature>(
         F.getName().str(), F.isOptional(),
         std::vector<FeatureSourceRange>(F.getLocationsBegin(),
-                                        F.getLocationsEnd()));
+                                        F.getLocationsEnd()),
+        F.getOutputString().str());
   case Feature::FeatureKind::FK_NUMERIC:
     if (auto *NF = llvm::dyn_cast<NumericFeature>(&F)) {
       return std::make_unique<NumericFeature>(
           F.getName().str(), NF->getValues(), F.isOptional(),
           std::vector<FeatureSourceRange>(F.getLocationsBegin(),
-                                          F.getLocationsEnd()));
+                                          F.getLocationsEnd()),
+          F.getOutputString().str(),
+          NF->getStepFunction()
+              ? std::make_unique<StepFunction>(*NF->getStepFunction())
+              : nullptr);
     }
     break;
   case Feature::FeatureKind::FK_ROOT:
-- 
2.43.0


From 8d5bba5ffc860f233786909b1a6bc61f7d4830cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:16 +0000
Subject: [PATCH 13/78] fix: clone the locations of the root feature

---
 lib/Feature/FeatureModel.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/Feature/FeatureModel.cpp b/lib/Feature/FeatureModel.cpp
index aa1a33e..0a82e54 100644
--- a/lib/Feature/FeatureModel.cpp
+++ b/lib/Feature/FeatureModel.cpp
@@ -141,6 +141,11 @@ std::unique_ptr<FeatureModel> FeatureModel::clone() const {
   //  valid.
   auto FM = FMB.buildFeatureModel();
   assert(FM);
+  if (this->getRoot() && FM) {
+    for (const auto &Location : this->getRoot()->getLocations()) {
+      FM->getRoot()->addLocation(Location);
+    }
+  }
   return FM;
 }
 
-- 
2.43.0


From aa6405a86d9f6f9785d77a10423b92cf39374dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:16 +0000
Subject: [PATCH 14/78] fix: clone models with a renamed root and another
 feature called root

---
 lib/Feature/FeatureModel.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/Feature/FeatureModel.cpp b/lib/Feature/FeatureModel.cpp
index 0a82e54..94bcfcb 100644
--- a/lib/Feature/FeatureModel.cpp
+++ b/lib/Feature/FeatureModel.cpp
@@ -75,6 +75,11 @@ std::unique_ptr<FeatureModel> FeatureModel::clone() const {
   FMB.setCommit(this->getCommit().str());
   FMB.setPath(this->getPath().string());
 
+  // Replace the default root first, as its name may belong to another feature.
+  if (this->getRoot()) {
+    FMB.makeRoot(this->getRoot()->getName().str());
+  }
+
   for (const auto &KV : this->Features) {
     std::vector<FeatureSourceRange> SourceRanges(
         KV.getValue()->getLocations().begin(),
@@ -85,7 +90,6 @@ std::unique_ptr<FeatureModel> FeatureModel::clone() const {
       FMB.makeFeature<Feature>(KV.getValue()->getName().str());
       break;
     case Feature::FeatureKind::FK_ROOT:
-      FMB.makeRoot(KV.getValue()->getName().str());
       break;
     case Feature::FeatureKind::FK_BINARY:
       if (auto *F = llvm::dyn_cast<BinaryFeature>(KV.getValue().get()); F) {
-- 
2.43.0


From 8b9f83ae9d71c040b1904df3915b9f6670d67992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:16 +0000
Subject: [PATCH 15/78] fix: clone only moves members of a relationship into
 its clone

Other children of the same parent ended up in the cloned relationship.
---
 lib/Feature/FeatureModel.cpp | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/lib/Feature/FeatureModel.cpp b/lib/Feature/FeatureModel.cpp
index 94bcfcb..e88f63b 100644
--- a/lib/Feature/FeatureModel.cpp
+++ b/lib/Feature/FeatureModel.cpp
@@ -116,12 +116,6 @@ std::unique_ptr<FeatureModel> FeatureModel::clone() const {
     }
   }
 
-  for (const auto &Rel : this->Relationships) {
-    if (auto *P = llvm::dyn_cast_or_null<Feature>(Rel->getParent())) {
-      FMB.emplaceRelationship(Rel->getKind(), P->getName().str());
-    }
-  }
-
   // We can use recursive cloning on constraints, as we can rely on the
   // builder to update pointers into the feature model correctly if invoked
   // afterwards.
@@ -145,6 +139,29 @@ std::unique_ptr<FeatureModel> FeatureModel::clone() const {
   //  valid.
   auto FM = FMB.buildFeatureModel();
   assert(FM);
+
+  // Only the members of a relationship are moved into its clone, as the parent
+  // may have further children.
+  for (const auto &Rel : this->Relationships) {
+    auto *P = llvm::dyn_cast_or_null<Feature>(Rel->getParent());
+    if (!P) {
+      continue;
+    }
+    auto *ClonedP = FM->getFeature(P->getName());
+    auto *ClonedRel =
+        FM->addRelationship(std::make_unique<Relationship>(Rel->getKind()));
+    ClonedRel->setParent(ClonedP);
+    ClonedP->addEdge(ClonedRel);
+    for (auto *C : Rel->children()) {
+      if (auto *F = llvm::dyn_cast<Feature>(C)) {
+        auto *ClonedF = FM->getFeature(F->getName());
+        ClonedP->removeEdge(ClonedF);
+        ClonedRel->addEdge(ClonedF);
+        ClonedF->setParent(ClonedRel);
+      }
+    }
+  }
+
   if (this->getRoot() && FM) {
     for (const auto &Location : this->getRoot()->getLocations()) {
       FM->getRoot()->addLocation(Location);
-- 
2.43.0


From 415d9a624f13bbe76a1ab3a0bdbac27a321ccd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:44 +0000
Subject: [PATCH 16/78] fix: do not access the last token of an empty
 constraint text

---
 include/vara/Feature/ConstraintParser.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/vara/Feature/ConstraintParser.h b/include/vara/Feature/ConstraintParser.h
index 57f8aa9..34f15ef 100644
--- a/include/vara/Feature/ConstraintParser.h
+++ b/include/vara/Feature/ConstraintParser.h
@@ -129,9 +129,11 @@ public:
     }
 
     // ensure last token is always either EOF or an error
-    if (auto Kind = TokenList.back().getKind();
-        Kind != ConstraintToken::ConstraintTokenKind::END_OF_FILE &&
-        Kind != ConstraintToken::ConstraintTokenKind::ERROR) {
+    if (TokenList.empty() ||
+        (TokenList.back().getKind() !=
+             ConstraintToken::ConstraintTokenKind::END_OF_FILE &&
+         TokenList.back().getKind() !=
+             ConstraintToken::ConstraintTokenKind::ERROR)) {
       TokenList.push_back(
           ConstraintToken(ConstraintToken::ConstraintTokenKind::END_OF_FILE));
     }
-- 
2.43.0


From e00adc733f1d090d5599adee5d1215bd35f0dbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:44 +0000
Subject: [PATCH 17/78] fix: reject the byte 0xff in constraints

---
 include/vara/Feature/ConstraintParser.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/vara/Feature/ConstraintParser.h b/include/vara/Feature/ConstraintParser.h
index 34f15ef..d6a15b4 100644
--- a/include/vara/Feature/ConstraintParser.h
+++ b/include/vara/Feature/ConstraintParser.h
@@ -154,7 +154,6 @@ private:
     }
 
     switch (Str.front()) {
-    case EOF:
     case '\0':
       return {
           ConstraintToken(ConstraintToken::ConstraintTokenKind::END_OF_FILE),
-- 
2.43.0


From 05260e8252668d0f8eb43b97cf96071df3e89083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:44 +0000
Subject: [PATCH 18/78] fix: only lex signs as part of a number within its
 exponent

---
 include/vara/Feature/ConstraintParser.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/vara/Feature/ConstraintParser.h b/include/vara/Feature/ConstraintParser.h
index d6a15b4..7002168 100644
--- a/include/vara/Feature/ConstraintParser.h
+++ b/include/vara/Feature/ConstraintParser.h
@@ -245,9 +245,18 @@ private:
   }
 
   static ResultTy munchNumber(const llvm::StringRef &Str) {
-    auto Munch = Str.take_while([](auto C) {
-      return llvm::isDigit(C) || C == 'e' || C == 'E' || C == '+' || C == '-';
-    });
+    auto Munch = Str.take_while(llvm::isDigit);
+
+    // include exponent of scientific notation
+    auto Suffix = Str.drop_front(Munch.size());
+    if (Suffix.consume_front("e") || Suffix.consume_front("E")) {
+      if (!Suffix.consume_front("+")) {
+        Suffix.consume_front("-");
+      }
+      if (auto Exponent = Suffix.take_while(llvm::isDigit); !Exponent.empty()) {
+        Munch = llvm::StringRef(Str.data(), Exponent.end() - Str.begin());
+      }
+    }
 
     return {ConstraintToken(ConstraintToken::ConstraintTokenKind::NUMBER,
                             Munch.lower()),
-- 
2.43.0


From 3eee17f55da5b3e60153ef6f2f291aa1667e0ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:44 +0000
Subject: [PATCH 19/78] fix: parse the operators ^ and / of printed constraints

---
 include/vara/Feature/ConstraintParser.h | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/vara/Feature/ConstraintParser.h b/include/vara/Feature/ConstraintParser.h
index 7002168..3982281 100644
--- a/include/vara/Feature/ConstraintParser.h
+++ b/include/vara/Feature/ConstraintParser.h
@@ -54,8 +54,10 @@ public:
     OR,
     PLUS,
     R_PAR,
+    SLASH,
     STAR,
-    WHITESPACE
+    WHITESPACE,
+    XOR
   };
 
   ConstraintToken(ConstraintTokenKind Kind) : Kind(Kind) {}
@@ -71,6 +73,7 @@ public:
 
   [[nodiscard]] PrecedenceTy calcPrecedence() const {
     switch (Kind) {
+    case ConstraintTokenKind::SLASH:
     case ConstraintTokenKind::STAR:
       return 1;
     case ConstraintTokenKind::PLUS:
@@ -87,6 +90,7 @@ public:
     case ConstraintTokenKind::AND:
       return 5;
     case ConstraintTokenKind::OR:
+    case ConstraintTokenKind::XOR:
       return 6;
     case ConstraintTokenKind::IMPLIES:
       return 7;
@@ -173,6 +177,10 @@ private:
       return {ConstraintToken(ConstraintToken::ConstraintTokenKind::NEG), 1};
     case '*':
       return {ConstraintToken(ConstraintToken::ConstraintTokenKind::STAR), 1};
+    case '/':
+      return {ConstraintToken(ConstraintToken::ConstraintTokenKind::SLASH), 1};
+    case '^':
+      return {ConstraintToken(ConstraintToken::ConstraintTokenKind::XOR), 1};
     case '&':
       return {ConstraintToken(ConstraintToken::ConstraintTokenKind::AND), 1};
     case '|':
@@ -372,7 +380,9 @@ private:
       case ConstraintToken::ConstraintTokenKind::NOT_EQUAL:
       case ConstraintToken::ConstraintTokenKind::OR:
       case ConstraintToken::ConstraintTokenKind::PLUS:
-      case ConstraintToken::ConstraintTokenKind::STAR: {
+      case ConstraintToken::ConstraintTokenKind::SLASH:
+      case ConstraintToken::ConstraintTokenKind::STAR:
+      case ConstraintToken::ConstraintTokenKind::XOR: {
         auto NextPrecedence = peek().calcPrecedence();
         if (NextPrecedence >= Precedence) {
           return LHS;
@@ -449,6 +459,10 @@ private:
         consume(ConstraintToken::ConstraintTokenKind::STAR);
         return createConstraint<MultiplicationConstraint>(
             std::move(LHS), NestingLevel + 1, Precedence);
+      case ConstraintToken::ConstraintTokenKind::SLASH:
+        consume(ConstraintToken::ConstraintTokenKind::SLASH);
+        return createConstraint<DivisionConstraint>(
+            std::move(LHS), NestingLevel + 1, Precedence);
       case ConstraintToken::ConstraintTokenKind::PLUS:
         consume(ConstraintToken::ConstraintTokenKind::PLUS);
         return createConstraint<AdditionConstraint>(
@@ -473,6 +487,10 @@ private:
         consume(ConstraintToken::ConstraintTokenKind::OR);
         return createConstraint<OrConstraint>(std::move(LHS), NestingLevel + 1,
                                               Precedence);
+      case ConstraintToken::ConstraintTokenKind::XOR:
+        consume(ConstraintToken::ConstraintTokenKind::XOR);
+        return createConstraint<XorConstraint>(std::move(LHS), NestingLevel + 1,
+                                               Precedence);
       case ConstraintToken::ConstraintTokenKind::IMPLIES:
         consume(ConstraintToken::ConstraintTokenKind::IMPLIES);
         return createConstraint<ImpliesConstraint>(
@@ -516,7 +534,9 @@ private:
       case ConstraintToken::ConstraintTokenKind::NOT_EQUAL:
       case ConstraintToken::ConstraintTokenKind::OR:
       case ConstraintToken::ConstraintTokenKind::PLUS:
+      case ConstraintToken::ConstraintTokenKind::SLASH:
       case ConstraintToken::ConstraintTokenKind::STAR:
+      case ConstraintToken::ConstraintTokenKind::XOR:
         llvm::errs()
             << "Syntax error: Unexpected token before unary expression.\n";
         return nullptr;
-- 
2.43.0


From 38b5473dad42b96e4de3a190991a6a183716ac32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:44 +0000
Subject: [PATCH 20/78] fix: parse negative integers in constraints

---
 include/vara/Feature/ConstraintParser.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/vara/Feature/ConstraintParser.h b/include/vara/Feature/ConstraintParser.h
index 3982281..0ecf64c 100644
--- a/include/vara/Feature/ConstraintParser.h
+++ b/include/vara/Feature/ConstraintParser.h
@@ -530,7 +530,6 @@ private:
       case ConstraintToken::ConstraintTokenKind::IMPLIES:
       case ConstraintToken::ConstraintTokenKind::LESS:
       case ConstraintToken::ConstraintTokenKind::LESS_EQUAL:
-      case ConstraintToken::ConstraintTokenKind::MINUS:
       case ConstraintToken::ConstraintTokenKind::NOT_EQUAL:
       case ConstraintToken::ConstraintTokenKind::OR:
       case ConstraintToken::ConstraintTokenKind::PLUS:
@@ -551,6 +550,16 @@ private:
         assert(peek().getValue().has_value());
         return std::make_unique<PrimaryIntegerConstraint>(
             parseInteger(*next().getValue(), Line));
+      case ConstraintToken::ConstraintTokenKind::MINUS:
+        // sign of a negative integer
+        consume(ConstraintToken::ConstraintTokenKind::MINUS);
+        if (peek().getKind() != ConstraintToken::ConstraintTokenKind::NUMBER) {
+          llvm::errs()
+              << "Syntax error: Unexpected token before unary expression.\n";
+          return nullptr;
+        }
+        return std::make_unique<PrimaryIntegerConstraint>(
+            parseInteger("-" + *next().getValue(), Line));
       case ConstraintToken::ConstraintTokenKind::NOT:
         consume(ConstraintToken::ConstraintTokenKind::NOT);
         return createConstraint<NotConstraint>(NestingLevel + 1,
-- 
2.43.0


From af4a4e4cf0a35871573020149c5f2747cd85901a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 21/78] fix: escape nested constraints in HTML

---
 include/vara/Feature/Constraint.h | 49 +++++--------------------------
 1 file changed, 8 insertions(+), 41 deletions(-)

diff --git a/include/vara/Feature/Constraint.h b/include/vara/Feature/Constraint.h
index 45062aa..5dc6115 100644
--- a/include/vara/Feature/Constraint.h
+++ b/include/vara/Feature/Constraint.h
@@ -1,8 +1,10 @@
 #ifndef VARA_FEATURE_CONSTRAINT_H
 #define VARA_FEATURE_CONSTRAINT_H
 
+#include "llvm/ADT/StringExtras.h"
 #include "llvm/ADT/StringRef.h"
 #include "llvm/Support/FormatVariadic.h"
+#include "llvm/Support/raw_ostream.h"
 
 #include <cassert>
 #include <memory>
@@ -78,7 +80,12 @@ public:
 
   [[nodiscard]] virtual std::string toString() const = 0;
 
-  [[nodiscard]] virtual std::string toHTML() const { return toString(); }
+  [[nodiscard]] virtual std::string toHTML() const {
+    std::string Str;
+    llvm::raw_string_ostream OS(Str);
+    llvm::printHTMLEscaped(toString(), OS);
+    return OS.str();
+  }
 
   virtual bool accept(ConstraintVisitor &V) = 0;
 
@@ -175,11 +182,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} &amp; {1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_AND;
   }
@@ -246,11 +248,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} =&gt; {1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_IMPLIES;
   }
@@ -273,11 +270,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} =&gt; !{1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_EXCLUDES;
   }
@@ -301,11 +293,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} &lt;=&gt; {1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_EQUIVALENCE;
   }
@@ -418,11 +405,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} &lt; {1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_LESS;
   }
@@ -445,11 +427,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} &gt; {1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_GREATER;
   }
@@ -472,11 +449,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} &lt;= {1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_LESS_EQUAL;
   }
@@ -500,11 +472,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} &gt;= {1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_GREATER_EQUAL;
   }
-- 
2.43.0


From 1e82ea9ecb1c98a5e32fa57b07dab839cd41b653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 22/78] fix: do not build constraints from moved operands

---
 include/vara/Feature/ConstraintBuilder.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/vara/Feature/ConstraintBuilder.h b/include/vara/Feature/ConstraintBuilder.h
index b21a249..7cd91d3 100644
--- a/include/vara/Feature/ConstraintBuilder.h
+++ b/include/vara/Feature/ConstraintBuilder.h
@@ -132,7 +132,11 @@ public:
       llvm::errs() << "Syntax error: Incomplete constraint.\n";
       return nullptr;
     }
-    return Root->build();
+    auto Constraint = Root->build();
+    // The operands are moved into the constraint, so start over.
+    Root = nullptr;
+    Head = &Root;
+    return Constraint;
   }
 
   /// Parenthesizes intermediate constraint.
-- 
2.43.0


From 9b0f7919559230d7d2114f18f676de3aad4081b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:47 +0000
Subject: [PATCH 23/78] fix: write the output string of features to XML

---
 lib/Feature/FeatureModelWriter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index e75d9d8..422bf04 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -310,6 +310,14 @@ int FeatureModelXmlWriter::writeFeature(xmlTextWriterPtr Writer,
                                  charToUChar(Feature1.getName().data()));
   CHECK_RC
 
+  // output string
+  if (!Feature1.getOutputString().empty()) {
+    RC = xmlTextWriterWriteElement(
+        Writer, XmlConstants::OUTPUTSTRING,
+        charToUChar(Feature1.getOutputString().data()));
+    CHECK_RC
+  }
+
   // parent
   if (Feature1.getParentFeature()) {
     RC = xmlTextWriterWriteElement(
-- 
2.43.0


From 7535ea877a683d04c89ff56375a02afa4cbf4eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:09 +0000
Subject: [PATCH 24/78] fix: write the step function of numeric features to XML

---
 include/vara/Feature/StepFunction.h | 31 +++++++++++++++++++++++------
 lib/Feature/FeatureModelWriter.cpp  |  6 ++++++
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/include/vara/Feature/StepFunction.h b/include/vara/Feature/StepFunction.h
index 19464f4..1bdb90e 100644
--- a/include/vara/Feature/StepFunction.h
+++ b/include/vara/Feature/StepFunction.h
@@ -1,11 +1,15 @@
 #ifndef VARA_FEATURE_STEPFUNCTION_H
 #define VARA_FEATURE_STEPFUNCTION_H
 
+#include "llvm/ADT/StringRef.h"
 #include "llvm/Support/ErrorHandling.h"
+#include "llvm/Support/Format.h"
 #include "llvm/Support/FormatVariadic.h"
+#include "llvm/Support/raw_ostream.h"
 
 #include <cmath>
 #include <memory>
+#include <string>
 #include <variant>
 
 namespace vara::feature {
@@ -62,30 +66,45 @@ public:
       switch (Op) {
       case StepOperation::ADDITION:
         return llvm::formatv("{0} + {1}", std::get<std::string>(LHS),
-                             std::get<double>(RHS));
+                             toString(std::get<double>(RHS)));
       case StepOperation::MULTIPLICATION:
         return llvm::formatv("{0} * {1}", std::get<std::string>(LHS),
-                             std::get<double>(RHS));
+                             toString(std::get<double>(RHS)));
       case StepOperation::EXPONENTIATION:
         return llvm::formatv("{0} ^ {1}", std::get<std::string>(LHS),
-                             std::get<double>(RHS));
+                             toString(std::get<double>(RHS)));
       }
     }
     assert(std::holds_alternative<double>(LHS));
     switch (Op) {
     case StepOperation::ADDITION:
-      return llvm::formatv("{0} + {1}", std::get<double>(LHS),
+      return llvm::formatv("{0} + {1}", toString(std::get<double>(LHS)),
                            std::get<std::string>(RHS));
     case StepOperation::MULTIPLICATION:
-      return llvm::formatv("{0} * {1}", std::get<double>(LHS),
+      return llvm::formatv("{0} * {1}", toString(std::get<double>(LHS)),
                            std::get<std::string>(RHS));
     case StepOperation::EXPONENTIATION:
-      return llvm::formatv("{0} ^ {1}", std::get<double>(LHS),
+      return llvm::formatv("{0} ^ {1}", toString(std::get<double>(LHS)),
                            std::get<std::string>(RHS));
     }
   }
 
 private:
+  /// Shortest decimal notation which denotes exactly \p Number.
+  [[nodiscard]] static std::string toString(double Number) {
+    std::string Str;
+    double Value = 0;
+    for (int Precision = 0; Precision <= 1074; ++Precision) {
+      Str.clear();
+      llvm::raw_string_ostream(Str)
+          << llvm::format("%.*f", Precision, Number);
+      if (llvm::StringRef(Str).getAsDouble(Value) || Value == Number) {
+        break;
+      }
+    }
+    return Str;
+  }
+
   StepOperation Op;
   OperandVariantType LHS;
   OperandVariantType RHS;
diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index 422bf04..9486678 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -449,6 +449,12 @@ int FeatureModelXmlWriter::writeFeature(xmlTextWriterPtr Writer,
                                      charToUChar(Str.data()));
       CHECK_RC
     }
+    if (NF->getStepFunction()) {
+      RC = xmlTextWriterWriteElement(
+          Writer, XmlConstants::STEPFUNCTION,
+          charToUChar(NF->getStepFunction()->toString().data()));
+      CHECK_RC
+    }
   }
 
   // locations?
-- 
2.43.0


From e2ee9fa185414359975cae38d620e03a4f28c87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 25/78] fix: write revision ranges and member offsets of
 locations to XML

---
 lib/Feature/FeatureModelWriter.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index 9486678..d5657d6 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -492,6 +492,23 @@ int FeatureModelXmlWriter::writeSourceRange(xmlTextWriterPtr Writer,
   }
   CHECK_RC
 
+  if (auto *Revisions = Location.revisionRange()) {
+    RC = xmlTextWriterStartElement(Writer, XmlConstants::REVISIONRANGE);
+    CHECK_RC
+    RC = xmlTextWriterWriteElement(
+        Writer, XmlConstants::INTRODUCED,
+        charToUChar(Revisions->introducingCommit().data()));
+    CHECK_RC
+    if (Revisions->hasRemovingCommit()) {
+      RC = xmlTextWriterWriteElement(
+          Writer, XmlConstants::REMOVED,
+          charToUChar(Revisions->removingCommit().data()));
+      CHECK_RC
+    }
+    RC = xmlTextWriterEndElement(Writer); // REVISIONRANGE
+    CHECK_RC
+  }
+
   RC = xmlTextWriterWriteElement(
       Writer, XmlConstants::PATH,
       charToUChar(Location.getPath().string().data()));
@@ -531,6 +548,12 @@ int FeatureModelXmlWriter::writeSourceRange(xmlTextWriterPtr Writer,
   RC = xmlTextWriterEndElement(Writer); // END
   CHECK_RC
 
+  if (auto *MemberOffset = Location.getMemberOffset()) {
+    RC = xmlTextWriterWriteElement(Writer, XmlConstants::MEMBEROFFSET,
+                                   charToUChar(MemberOffset->toString().data()));
+    CHECK_RC
+  }
+
   RC = xmlTextWriterEndElement(Writer); // SOURCERANGE
   return RC;
 }
-- 
2.43.0


From a5f94261b5dfdb3ea38956b5922bb5a9d548dfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 26/78] fix: refuse to write locations without start or end to
 XML

---
 lib/Feature/FeatureModelWriter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index d5657d6..737d60e 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -477,6 +477,11 @@ int FeatureModelXmlWriter::writeSourceRange(xmlTextWriterPtr Writer,
                                             FeatureSourceRange &Location) {
   int RC;
 
+  if (!Location.hasStart() || !Location.hasEnd()) {
+    llvm::errs() << "Location without start or end can not be written.\n";
+    return -1;
+  }
+
   RC = xmlTextWriterStartElement(Writer, XmlConstants::SOURCERANGE);
   CHECK_RC
 
-- 
2.43.0


From 1ee4e17579c14df95e443b8123406d2d9274f0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 27/78] fix: write listed values outside of the range of int to
 XML

---
 lib/Feature/FeatureModelWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index 737d60e..277fbaf 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -439,7 +439,7 @@ int FeatureModelXmlWriter::writeFeature(xmlTextWriterPtr Writer,
     } else {
       auto Values = std::get<NumericFeature::ValueListType>(ValueVariant);
       std::string Str;
-      std::for_each(std::begin(Values), std::end(Values) - 1, [&Str](int X) {
+      std::for_each(std::begin(Values), std::end(Values) - 1, [&Str](int64_t X) {
         Str.append(std::to_string(X));
         Str.push_back(';');
       });
-- 
2.43.0


From 55a18702d38b98a5771f685d266a39ad1b09b440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 28/78] fix: only write boolean constraints as implied and
 excluded options

---
 include/vara/Feature/FeatureModelWriter.h |  2 +-
 lib/Feature/FeatureModelWriter.cpp        | 49 ++++++++++-------------
 2 files changed, 23 insertions(+), 28 deletions(-)

diff --git a/include/vara/Feature/FeatureModelWriter.h b/include/vara/Feature/FeatureModelWriter.h
index e24c56f..0068455 100644
--- a/include/vara/Feature/FeatureModelWriter.h
+++ b/include/vara/Feature/FeatureModelWriter.h
@@ -50,7 +50,7 @@ private:
   int writeBooleanConstraints(xmlTextWriterPtr Writer);
   int writeNonBooleanConstraints(xmlTextWriterPtr Writer);
   int writeMixedConstraints(xmlTextWriterPtr Writer);
-  static int writeFeature(xmlTextWriterPtr Writer, Feature &Feature1);
+  int writeFeature(xmlTextWriterPtr Writer, Feature &Feature1);
   static int writeSourceRange(xmlTextWriterPtr Writer,
                               FeatureSourceRange &Location);
 
diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index 277fbaf..3366ae7 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -299,6 +299,18 @@ int FeatureModelXmlWriter::writeMixedConstraints(xmlTextWriterPtr Writer) {
   return RC;
 }
 
+/// \returns feature B, if \p C consists of the features \p A and B.
+static Feature *getImplied(const Feature &A, BinaryConstraint &C) {
+  const auto *LHS =
+      llvm::dyn_cast<PrimaryFeatureConstraint>(C.getLeftOperand());
+  auto *RHS = llvm::dyn_cast<PrimaryFeatureConstraint>(C.getRightOperand());
+  if (LHS && RHS && LHS->getFeature() &&
+      LHS->getFeature()->getName() == A.getName()) {
+    return RHS->getFeature();
+  }
+  return nullptr;
+}
+
 int FeatureModelXmlWriter::writeFeature(xmlTextWriterPtr Writer,
                                         Feature &Feature1) {
   int RC;
@@ -347,18 +359,10 @@ int FeatureModelXmlWriter::writeFeature(xmlTextWriterPtr Writer,
   // implications
   deprecated::OrderedFeatureVector Implications;
 
-  for (const auto *C : Feature1.implications()) {
-    if (const auto *LHS =
-            llvm::dyn_cast<PrimaryFeatureConstraint>(C->getLeftOperand());
-        LHS) {
-      if (const auto *RHS =
-              llvm::dyn_cast<PrimaryFeatureConstraint>(C->getRightOperand());
-          RHS) {
-        if (LHS->getFeature() &&
-            LHS->getFeature()->getName() == Feature1.getName() &&
-            RHS->getFeature()) {
-          Implications.insert(RHS->getFeature());
-        }
+  for (const auto &C : FM.booleanConstraints()) {
+    if (auto *Implies = llvm::dyn_cast<ImpliesConstraint>(C->constraint())) {
+      if (auto *F = getImplied(Feature1, *Implies)) {
+        Implications.insert(F);
       }
     }
   }
@@ -385,21 +389,12 @@ int FeatureModelXmlWriter::writeFeature(xmlTextWriterPtr Writer,
     ES.erase(&Feature1);
     Excludes.insert(ES.begin(), ES.end());
   }
-  for (const auto *C : Feature1.excludes()) {
-    if (const auto *LHS =
-            llvm::dyn_cast<PrimaryFeatureConstraint>(C->getLeftOperand());
-        LHS) {
-      if (const auto *RHS =
-              llvm::dyn_cast<PrimaryFeatureConstraint>(C->getRightOperand());
-          RHS) {
-        if (LHS->getFeature() &&
-            LHS->getFeature()->getName() == Feature1.getName() &&
-            RHS->getFeature()) {
-          if (std::find(Excludes.begin(), Excludes.end(), RHS->getFeature()) ==
-              Excludes.end()) {
-            Excludes.insert(RHS->getFeature());
-          }
-        }
+  for (const auto &C : FM.booleanConstraints()) {
+    if (auto *E = llvm::dyn_cast<ExcludesConstraint>(C->constraint())) {
+      if (auto *F = getImplied(Feature1, *E);
+          F && std::find(Excludes.begin(), Excludes.end(), F) ==
+                   Excludes.end()) {
+        Excludes.insert(F);
       }
     }
   }
-- 
2.43.0


From b7fecb973a5fb53eb3d11658bb90814d8effd58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 29/78] fix: keep locations of the root when reading XML

---
 include/vara/Feature/FeatureModelParser.h | 1 +
 lib/Feature/FeatureModelParser.cpp        | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/include/vara/Feature/FeatureModelParser.h b/include/vara/Feature/FeatureModelParser.h
index 6807d6c..9325aba 100644
--- a/include/vara/Feature/FeatureModelParser.h
+++ b/include/vara/Feature/FeatureModelParser.h
@@ -62,6 +62,7 @@ public:
 private:
   std::string Xml;
   FeatureModelBuilder FMB;
+  std::vector<FeatureSourceRange> RootLocations;
 
   Result<FTErrorCode> parseConfigurationOption(xmlNode *Node, bool Num);
   Result<FTErrorCode> parseOptions(xmlNode *Node, bool Num);
diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 1ea029c..bd0861a 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -137,6 +137,7 @@ FeatureModelXmlParser::parseConfigurationOption(xmlNode *Node,
   // XML has those names specified as root nodes
   if (Name == "root" || Name == "base") {
     FMB.makeRoot(Name);
+    RootLocations = std::move(SourceRanges);
   } else if (Num) {
     if (Values.empty()) {
       FMB.makeFeature<NumericFeature>(Name, std::make_pair(MinValue, MaxValue),
@@ -398,6 +399,13 @@ std::unique_ptr<FeatureModel> FeatureModelXmlParser::buildFeatureModel() {
 
   auto FM = FMB.buildFeatureModel();
   if (FM) {
+    if (!RootLocations.empty()) {
+      auto Transaction = FeatureModelModifyTransaction::openTransaction(*FM);
+      for (const auto &Location : RootLocations) {
+        Transaction.addLocation(FM->getRoot(), Location);
+      }
+      Transaction.commit();
+    }
     detectXMLAlternatives(*FM);
   }
 
-- 
2.43.0


From e255e566ce2dc2232423e1120b71f6166996993f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:31 +0000
Subject: [PATCH 30/78] fix: write or groups and partial alternative groups to
 XML

---
 include/vara/Feature/FeatureModelWriter.h |  3 +-
 lib/Feature/FeatureModelWriter.cpp        | 82 ++++++++++++-----------
 2 files changed, 46 insertions(+), 39 deletions(-)

diff --git a/include/vara/Feature/FeatureModelWriter.h b/include/vara/Feature/FeatureModelWriter.h
index 0068455..eec63ff 100644
--- a/include/vara/Feature/FeatureModelWriter.h
+++ b/include/vara/Feature/FeatureModelWriter.h
@@ -47,7 +47,8 @@ private:
   int writeVm(xmlTextWriterPtr Writer);
   int writeBinaryFeatures(xmlTextWriterPtr Writer);
   int writeNumericFeatures(xmlTextWriterPtr Writer);
-  int writeBooleanConstraints(xmlTextWriterPtr Writer);
+  int writeBooleanConstraints(xmlTextWriterPtr Writer,
+                              const std::vector<std::string> &GroupConstraints);
   int writeNonBooleanConstraints(xmlTextWriterPtr Writer);
   int writeMixedConstraints(xmlTextWriterPtr Writer);
   int writeFeature(xmlTextWriterPtr Writer, Feature &Feature1);
diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index 3366ae7..bd9d1cb 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -87,6 +87,37 @@ int FeatureModelXmlWriter::writeFeatureModel(xmlTextWriterPtr Writer) {
   return RC;
 }
 
+/// XML only knows mandatory and optional features. Alternatives are the
+/// mandatory features of a parent which has no other children and exclude each
+/// other. In any other group with several features, the features are optional
+/// and a constraint demands to select one of them.
+static bool needsConstraint(Relationship &Group) {
+  auto Members = Group.getChildren<Feature>();
+  auto Siblings = Group.getParent()->getChildren<Feature>();
+  return Members.size() > 1 &&
+         (Group.getKind() != Relationship::RelationshipKind::RK_ALTERNATIVE ||
+          Siblings.size() > Members.size());
+}
+
+static std::vector<std::string> getGroupConstraints(const FeatureModel &FM) {
+  std::vector<std::string> Constraints;
+  for (Feature *F : FM.features()) {
+    for (auto *Group : F->getChildren<Relationship>(1)) {
+      if (needsConstraint(*Group)) {
+        auto Members = Group->getChildren<Feature>();
+        std::string Str;
+        for (Feature *M :
+             deprecated::OrderedFeatureVector(Members.begin(), Members.end())) {
+          Str = Str.empty() ? M->getName().str()
+                            : "(" + Str + " | " + M->getName().str() + ")";
+        }
+        Constraints.push_back("(" + F->getName().str() + " => " + Str + ")");
+      }
+    }
+  }
+  return Constraints;
+}
+
 int FeatureModelXmlWriter::writeVm(xmlTextWriterPtr Writer) {
   int RC;
 
@@ -109,8 +140,9 @@ int FeatureModelXmlWriter::writeVm(xmlTextWriterPtr Writer) {
   RC = writeNumericFeatures(Writer);
   CHECK_RC
 
-  if (!FM.booleanConstraints().empty()) {
-    RC = writeBooleanConstraints(Writer);
+  auto GroupConstraints = getGroupConstraints(FM);
+  if (!FM.booleanConstraints().empty() || !GroupConstraints.empty()) {
+    RC = writeBooleanConstraints(Writer, GroupConstraints);
     CHECK_RC
   }
 
@@ -162,45 +194,16 @@ int FeatureModelXmlWriter::writeNumericFeatures(xmlTextWriterPtr Writer) {
   return RC;
 }
 
-int FeatureModelXmlWriter::writeBooleanConstraints(xmlTextWriterPtr Writer) {
+int FeatureModelXmlWriter::writeBooleanConstraints(
+    xmlTextWriterPtr Writer, const std::vector<std::string> &GroupConstraints) {
   int RC;
 
   RC = xmlTextWriterStartElement(Writer, XmlConstants::BOOLEANCONSTRAINTS);
   CHECK_RC
 
-  // collect alternative groups
-  struct FeatureCompare {
-    bool operator()(Feature *F1, Feature *F2) const { return *F1 < *F2; }
-  };
-  std::set<std::set<Feature *, FeatureCompare>> AltGroups;
-  //  for (auto *F : Fm.features()) {
-  //    // skip empty groups
-  //    if (F->alternatives().begin() == F->alternatives().end()) {
-  //      continue;
-  //    }
-  //    std::set<Feature *, FeatureCompare> AltGroup(F->alternatives_begin(),
-  //                                                 F->alternatives_end());
-  //    AltGroup.insert(F);
-  //    AltGroups.insert(std::move(AltGroup));
-  //  }
-
-  for (const auto &Group : AltGroups) {
-    RC = xmlTextWriterStartElement(Writer, XmlConstants::CONSTRAINT);
-    CHECK_RC
-
-    auto F = Group.begin();
-    RC = xmlTextWriterWriteString(Writer, charToUChar((*F)->getName().data()));
-    CHECK_RC
-    ++F;
-    for (; F != Group.end(); ++F) {
-      RC = xmlTextWriterWriteString(Writer, charToUChar(" | "));
-      CHECK_RC
-      RC =
-          xmlTextWriterWriteString(Writer, charToUChar((*F)->getName().data()));
-      CHECK_RC
-    }
-
-    RC = xmlTextWriterEndElement(Writer); // CONSTRAINT
+  for (const auto &Group : GroupConstraints) {
+    RC = xmlTextWriterWriteElement(Writer, XmlConstants::CONSTRAINT,
+                                   charToUChar(Group.data()));
     CHECK_RC
   }
 
@@ -384,7 +387,9 @@ int FeatureModelXmlWriter::writeFeature(xmlTextWriterPtr Writer,
   // excludes
   deprecated::OrderedFeatureVector Excludes;
 
-  if (llvm::isa_and_nonnull<Relationship>(Feature1.getParent())) {
+  auto *Group = llvm::dyn_cast_or_null<Relationship>(Feature1.getParent());
+  if (Group &&
+      Group->getKind() == Relationship::RelationshipKind::RK_ALTERNATIVE) {
     auto ES = Feature1.getParent()->getChildren<Feature>();
     ES.erase(&Feature1);
     Excludes.insert(ES.begin(), ES.end());
@@ -414,9 +419,10 @@ int FeatureModelXmlWriter::writeFeature(xmlTextWriterPtr Writer,
   }
 
   // optional
+  bool Optional = Group ? needsConstraint(*Group) : Feature1.isOptional();
   RC = xmlTextWriterWriteElement(
       Writer, XmlConstants::OPTIONAL,
-      charToUChar((Feature1.isOptional() ? "True" : "False")));
+      charToUChar((Optional ? "True" : "False")));
   CHECK_RC
 
   // numeric elements
-- 
2.43.0


From 293d750bcab42bc0435a910d6f0c3f23b66ff472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:10 +0000
Subject: [PATCH 31/78] fix: read mixed constraints without req or exprKind
 attributes

---
 lib/Feature/FeatureModelParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index bd0861a..e0c44c9 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -254,10 +254,10 @@ FeatureModelXmlParser::parseConstraints<FeatureModel::MixedConstraint>(
 
           FMB.addConstraint(std::make_unique<FeatureModel::MixedConstraint>(
               std::move(Constraint),
-              std::string(reinterpret_cast<char *>(R.get())) == "none"
+              R && std::string(reinterpret_cast<char *>(R.get())) == "none"
                   ? FeatureModel::MixedConstraint::Req::NONE
                   : FeatureModel::MixedConstraint::Req::ALL,
-              std::string(reinterpret_cast<char *>(E.get())) == "neg"
+              E && std::string(reinterpret_cast<char *>(E.get())) == "neg"
                   ? FeatureModel::MixedConstraint::ExprKind::NEG
                   : FeatureModel::MixedConstraint::ExprKind::POS));
         } else {
-- 
2.43.0


From 79e339e69faa6238b2d3b292a190cec711e8c9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:10 +0000
Subject: [PATCH 32/78] fix: ignore blanks around the names of children in XML

---
 lib/Feature/FeatureModelParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index e0c44c9..0bde24f 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -65,7 +65,7 @@ FeatureModelXmlParser::parseConfigurationOption(xmlNode *Node,
         for (xmlNode *Child = Head->children; Child; Child = Child->next) {
           if (Child->type == XML_ELEMENT_NODE) {
             if (!xmlStrcmp(Child->name, XmlConstants::OPTIONS)) {
-              auto FeatureName = std::string(reinterpret_cast<char *>(
+              auto FeatureName = trim(reinterpret_cast<char *>(
                   std::unique_ptr<xmlChar, void (*)(void *)>(
                       xmlNodeGetContent(Child), xmlFree)
                       .get()));
-- 
2.43.0


From ae6d721c5eb890ea9c55f0e87065e39731fbd4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:10 +0000
Subject: [PATCH 33/78] fix: read listed values in scientific notation

---
 lib/Feature/FeatureModelParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 0bde24f..effc37e 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -121,7 +121,7 @@ FeatureModelXmlParser::parseConfigurationOption(xmlNode *Node,
         } else if (!xmlStrcmp(Head->name, XmlConstants::MAXVALUE)) {
           MaxValue = parseInteger(Cnt, Head->line);
         } else if (!xmlStrcmp(Head->name, XmlConstants::VALUES)) {
-          const std::regex Regex(R"(-?\d+)");
+          const std::regex Regex(R"(-?\d+([eE][+-]?\d+)?)");
           std::smatch Matches;
           for (std::string Suffix = Cnt; regex_search(Suffix, Matches, Regex);
                Suffix = Matches.suffix()) {
-- 
2.43.0


From 5954f01360cd936b77b3c04408c8def2d393a004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:15 +0000
Subject: [PATCH 34/78] fix: do not access the last token of an empty step
 function text

---
 include/vara/Feature/StepFunctionParser.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/vara/Feature/StepFunctionParser.h b/include/vara/Feature/StepFunctionParser.h
index faf7288..a5616e3 100644
--- a/include/vara/Feature/StepFunctionParser.h
+++ b/include/vara/Feature/StepFunctionParser.h
@@ -68,9 +68,10 @@ public:
     }
 
     // ensure last token is always either EOF or an error
-    if (auto Kind = TokenList.back().getKind();
-        Kind != StepFunctionToken::TokenKind::END_OF_FILE &&
-        Kind != StepFunctionToken::TokenKind::ERROR) {
+    if (TokenList.empty() ||
+        (TokenList.back().getKind() !=
+             StepFunctionToken::TokenKind::END_OF_FILE &&
+         TokenList.back().getKind() != StepFunctionToken::TokenKind::ERROR)) {
       TokenList.push_back(
           StepFunctionToken(StepFunctionToken::TokenKind::END_OF_FILE));
     }
-- 
2.43.0


From 634c45d4b6ac58fc76a0d7dc4f380d4b2690fced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:15 +0000
Subject: [PATCH 35/78] fix: reject the byte 0xff in step functions

---
 include/vara/Feature/StepFunctionParser.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/vara/Feature/StepFunctionParser.h b/include/vara/Feature/StepFunctionParser.h
index a5616e3..288ec0f 100644
--- a/include/vara/Feature/StepFunctionParser.h
+++ b/include/vara/Feature/StepFunctionParser.h
@@ -92,7 +92,6 @@ private:
     }
 
     switch (Str.front()) {
-    case EOF:
     case '\0':
       return {StepFunctionToken(StepFunctionToken::TokenKind::END_OF_FILE), 1};
     case ' ':
-- 
2.43.0


From c5b115089ada151cba03dacd27fe9175c38c14a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:15 +0000
Subject: [PATCH 36/78] fix: reject malformed numbers in step functions

---
 include/vara/Feature/StepFunctionParser.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/vara/Feature/StepFunctionParser.h b/include/vara/Feature/StepFunctionParser.h
index 288ec0f..63c0497 100644
--- a/include/vara/Feature/StepFunctionParser.h
+++ b/include/vara/Feature/StepFunctionParser.h
@@ -200,7 +200,12 @@ private:
       case StepFunctionToken::TokenKind::NUMBER:
         assert(peek().getValue().has_value());
         double Number;
-        llvm::StringRef(*next().getValue()).getAsDouble(Number);
+        if (llvm::StringRef(*peek().getValue()).getAsDouble(Number)) {
+          llvm::errs() << "Lexical error: Malformed number '"
+                       << *peek().getValue() << "'\n";
+          return std::nullopt;
+        }
+        consume(StepFunctionToken::TokenKind::NUMBER);
         return {Number};
       }
     }
-- 
2.43.0


From b37c07b7c678f45a6bb09b2c477d025adb9f9d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:08 +0000
Subject: [PATCH 37/78] fix: numeric ranges without step function or with one
 that does not proceed

A range without step function was dereferenced through a null pointer, a step
function that does not grow (e.g. x + 0.5, or x * 2 from 0) never ended.
---
 lib/Solver/Z3Solver.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index 1df128a..8abe478 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -46,7 +46,21 @@ Z3Solver::addFeature(const feature::Feature &FeatureToAdd,
       std::vector<int64_t> Vals;
       while (Step <= Range.second) {
         Vals.insert(Vals.begin(), Step);
-        Step = StepFunction->next(Step);
+        if (!StepFunction) {
+          // Without a step function, every value of the range is valid.
+          if (Step == Range.second) {
+            break;
+          }
+          Step++;
+          continue;
+        }
+        // Stop if the step function does not proceed towards the upper bound.
+        const auto Next = StepFunction->next<double>(static_cast<double>(Step));
+        if (!(Next > static_cast<double>(Step)) || Next >= 0x1p63 ||
+            static_cast<int64_t>(Next) <= Step) {
+          break;
+        }
+        Step = static_cast<int64_t>(Next);
       }
       if (auto R = addFeature(F->getName().str(), Vals); !R) {
         return R;
-- 
2.43.0


From b9b1564ac1f9614190bc2f7ae8df4f63c1e65cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:08 +0000
Subject: [PATCH 38/78] fix: report negative values of numeric features as
 numbers

Negative values were reported as s-expressions such as "(- 5)".
---
 lib/Solver/Z3Solver.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index 8abe478..b1297cb 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -255,8 +255,11 @@ Z3Solver::getCurrentConfiguration() {
   for (const auto &Entry : OptionToVariableMapping) {
     const z3::expr OptionExpr = *Entry.getValue();
     const z3::expr Value = CurrentModel->eval(OptionExpr, true);
-    Config->setConfigurationOption(Entry.getKey(),
-                                   llvm::StringRef(Value.to_string()));
+    Config->setConfigurationOption(
+        Entry.getKey(),
+        llvm::StringRef(Value.is_numeral()
+                            ? std::to_string(Value.get_numeral_int64())
+                            : Value.to_string()));
   }
   return Config;
 }
-- 
2.43.0


From a54375486585c0a607380c57afdd4bfd723e84ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:08 +0000
Subject: [PATCH 39/78] fix: add binary features without parent to the solver

---
 lib/Solver/Z3Solver.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index b1297cb..2e37a23 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -208,15 +208,19 @@ Z3Solver::getNextConfiguration() {
 Result<SolverErrorCode>
 Z3Solver::setBinaryFeatureConstraints(const feature::BinaryFeature &Feature,
                                       bool IsInAlternativeGroup) {
+  // A feature without parent is unconstrained.
+  const auto *Parent = Feature.getParentFeature();
+  if (!Parent) {
+    return Ok();
+  }
+
   // Add constraint to parent
-  Solver->add(z3::implies(
-      *OptionToVariableMapping[Feature.getName()],
-      *OptionToVariableMapping[Feature.getParentFeature()->getName()]));
+  Solver->add(z3::implies(*OptionToVariableMapping[Feature.getName()],
+                          *OptionToVariableMapping[Parent->getName()]));
 
   if (!IsInAlternativeGroup && !Feature.isOptional()) {
-    Solver->add(z3::implies(
-        *OptionToVariableMapping[Feature.getParentFeature()->getName()],
-        *OptionToVariableMapping[Feature.getName()]));
+    Solver->add(z3::implies(*OptionToVariableMapping[Parent->getName()],
+                            *OptionToVariableMapping[Feature.getName()]));
   }
 
   return Ok();
-- 
2.43.0


From 8230a35d9b1d6d82575549c730c7a875e2ab9cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:08 +0000
Subject: [PATCH 40/78] fix: add binary features below numeric features to the
 solver

The value of the numeric parent was used as condition, which z3 rejects with an
exception.
---
 lib/Solver/Z3Solver.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index 2e37a23..7345c23 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -208,8 +208,13 @@ Z3Solver::getNextConfiguration() {
 Result<SolverErrorCode>
 Z3Solver::setBinaryFeatureConstraints(const feature::BinaryFeature &Feature,
                                       bool IsInAlternativeGroup) {
-  // A feature without parent is unconstrained.
+  // Numeric features are neither selected nor deselected, i.e., the feature
+  // depends on the closest parent that is.
   const auto *Parent = Feature.getParentFeature();
+  while (Parent && llvm::isa<feature::NumericFeature>(Parent)) {
+    Parent = Parent->getParentFeature();
+  }
+  // A feature without parent is unconstrained.
   if (!Parent) {
     return Ok();
   }
-- 
2.43.0


From 6b92da7042409fdc0baa26156628be89ac588a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:08 +0000
Subject: [PATCH 41/78] fix: only add relationships between binary features
 known to the solver

Unknown features and numeric features were silently replaced by fresh boolean
variables.
---
 lib/Solver/Z3Solver.cpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index 7345c23..65ef2e6 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -138,13 +138,30 @@ Z3Solver::removeFeature(feature::Feature &FeatureToRemove) {
 Result<SolverErrorCode>
 Z3Solver::addRelationship(const feature::Relationship &R) {
   const auto *Parent =
-      reinterpret_cast<const feature::Feature *>(R.getParent());
-  auto ParentOption = Context.bool_const(Parent->getName().str().c_str());
+      llvm::dyn_cast_or_null<const feature::Feature>(R.getParent());
+  // See setBinaryFeatureConstraints
+  while (Parent && llvm::isa<feature::NumericFeature>(Parent)) {
+    Parent = Parent->getParentFeature();
+  }
+  if (!Parent) {
+    return NOT_SUPPORTED;
+  }
+  const auto ParentVariable = OptionToVariableMapping.find(Parent->getName());
+  if (ParentVariable == OptionToVariableMapping.end()) {
+    return PARENT_NOT_PRESENT;
+  }
+  const auto ParentOption = *ParentVariable->getValue();
   z3::expr_vector V(Context);
   for (const auto &Child : R.children()) {
-    const auto *ChildFeature =
-        reinterpret_cast<const feature::Feature *>(Child);
-    V.push_back(Context.bool_const(ChildFeature->getName().str().c_str()));
+    const auto *ChildFeature = llvm::dyn_cast<const feature::Feature>(Child);
+    const auto ChildVariable =
+        ChildFeature ? OptionToVariableMapping.find(ChildFeature->getName())
+                     : OptionToVariableMapping.end();
+    if (ChildVariable == OptionToVariableMapping.end() ||
+        !ChildVariable->getValue()->is_bool()) {
+      return NOT_SUPPORTED;
+    }
+    V.push_back(*ChildVariable->getValue());
   }
   switch (R.getKind()) {
   case feature::Relationship::RelationshipKind::RK_ALTERNATIVE:
-- 
2.43.0


From 2aa1e8ac96455ce56b9e59f45291dedc46dd081d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:08 +0000
Subject: [PATCH 42/78] fix: reject constraints over features unknown to the
 solver

As documented, adding a constraint fails if a feature was not added before.
Unknown features were silently replaced by fresh variables.
---
 lib/Solver/Z3Solver.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index 65ef2e6..dcabda6 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -395,13 +395,13 @@ bool Z3SolverConstraintVisitor::visit(vara::feature::UnaryConstraint *C) {
 
 bool Z3SolverConstraintVisitor::visit(
     vara::feature::PrimaryFeatureConstraint *C) {
-  if (C->getFeature()->getKind() ==
-      vara::feature::Feature::FeatureKind::FK_NUMERIC) {
-    Z3ConstraintExpression =
-        S->Context.int_const(C->getFeature()->getName().str().c_str());
-  } else {
-    Z3ConstraintExpression =
-        S->Context.bool_const(C->getFeature()->getName().str().c_str());
+  const auto Variable =
+      S->OptionToVariableMapping.find(C->getFeature()->getName());
+  if (Variable == S->OptionToVariableMapping.end()) {
+    return false;
+  }
+  Z3ConstraintExpression = *Variable->getValue();
+  if (Z3ConstraintExpression.is_bool()) {
     if (MixedConstraint) {
       VariableConstraint = VariableConstraint || !Z3ConstraintExpression;
       Z3ConstraintExpression = z3::to_expr(
-- 
2.43.0


From ca626f74e6b0fc586b1fd8b7c4c5bb8e208e7004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:09 +0000
Subject: [PATCH 43/78] fix: add groups without members to the solver

z3 asserts that the list of members is not empty.
---
 lib/Solver/Z3Solver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index dcabda6..f89552e 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -163,6 +163,10 @@ Z3Solver::addRelationship(const feature::Relationship &R) {
     }
     V.push_back(*ChildVariable->getValue());
   }
+  // A group that lost all of its members does not restrict its parent.
+  if (V.empty()) {
+    return Ok();
+  }
   switch (R.getKind()) {
   case feature::Relationship::RelationshipKind::RK_ALTERNATIVE:
     Solver->add(z3::implies(ParentOption, z3::atmost(V, 1) & z3::mk_or(V)));
-- 
2.43.0


From b1065defd414ce4c1267f2e5ddf1499a943c1e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:09 +0000
Subject: [PATCH 44/78] fix: check the types of operands before adding
 constraints to the solver

Operators applied to operands of the wrong type (e.g. a + b with binary
features, or a => n > 3 as mixed constraint) ended in an exception or assertion
of z3. In mixed constraints, binary features are now converted to numbers only
where a number is needed; other constraints are not supported.
---
 include/vara/Solver/Z3Solver.h |  9 +++++
 lib/Solver/Z3Solver.cpp        | 60 +++++++++++++++++++++++++++-------
 2 files changed, 57 insertions(+), 12 deletions(-)

diff --git a/include/vara/Solver/Z3Solver.h b/include/vara/Solver/Z3Solver.h
index 9a5772b..29b7194 100644
--- a/include/vara/Solver/Z3Solver.h
+++ b/include/vara/Solver/Z3Solver.h
@@ -161,6 +161,15 @@ public:
   bool visit(feature::PrimaryIntegerConstraint *C) override;
 
 private:
+  /// In mixed constraints, a boolean operand of a numeric operator is 1 if it
+  /// holds and 0 otherwise. All other expressions are returned as is.
+  z3::expr toNumber(const z3::expr &E);
+
+  /// Checks whether the operator can be applied on \p Left and the current
+  /// expression. Both are converted to numbers if needed and possible.
+  bool checkOperands(vara::feature::Constraint::ConstraintKind Kind,
+                     z3::expr &Left);
+
   /// The z3 constraint will be adjusted while visiting the given constraint
   z3::expr Z3ConstraintExpression;
 
diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index f89552e..a2999a5 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -298,7 +298,7 @@ Z3Solver::getCurrentConfiguration() {
 bool Z3SolverConstraintVisitor::addConstraint(vara::feature::Constraint *C,
                                               bool NegateExpr,
                                               bool RequireAll) {
-  if (C->accept(*this)) {
+  if (C->accept(*this) && Z3ConstraintExpression.is_bool()) {
     if (NegateExpr) {
       Z3ConstraintExpression = !Z3ConstraintExpression;
     }
@@ -312,12 +312,46 @@ bool Z3SolverConstraintVisitor::addConstraint(vara::feature::Constraint *C,
   return false;
 }
 
+z3::expr Z3SolverConstraintVisitor::toNumber(const z3::expr &E) {
+  if (MixedConstraint && E.is_bool()) {
+    return z3::ite(E, S->Context.int_val(1), S->Context.int_val(0));
+  }
+  return E;
+}
+
+bool Z3SolverConstraintVisitor::checkOperands(
+    vara::feature::Constraint::ConstraintKind Kind, z3::expr &Left) {
+  switch (Kind) {
+  case feature::Constraint::ConstraintKind::CK_AND:
+  case feature::Constraint::ConstraintKind::CK_EQUIVALENCE:
+  case feature::Constraint::ConstraintKind::CK_EXCLUDES:
+  case feature::Constraint::ConstraintKind::CK_IMPLIES:
+  case feature::Constraint::ConstraintKind::CK_OR:
+  case feature::Constraint::ConstraintKind::CK_XOR:
+    return Left.is_bool() && Z3ConstraintExpression.is_bool();
+  case feature::Constraint::ConstraintKind::CK_EQUAL:
+  case feature::Constraint::ConstraintKind::CK_NOT_EQUAL:
+    if (Left.is_bool() && Z3ConstraintExpression.is_bool()) {
+      return true;
+    }
+    [[fallthrough]];
+  default:
+    Left = toNumber(Left);
+    Z3ConstraintExpression = toNumber(Z3ConstraintExpression);
+    return Left.is_int() && Z3ConstraintExpression.is_int();
+  }
+}
+
 bool Z3SolverConstraintVisitor::visit(vara::feature::BinaryConstraint *C) {
 
-  const bool LHS = C->getLeftOperand()->accept(*this);
-  const z3::expr Left = Z3ConstraintExpression;
-  const bool RHS = C->getRightOperand()->accept(*this);
-  if (!LHS || !RHS) {
+  if (!C->getLeftOperand()->accept(*this)) {
+    return false;
+  }
+  z3::expr Left = Z3ConstraintExpression;
+  if (!C->getRightOperand()->accept(*this)) {
+    return false;
+  }
+  if (!checkOperands(C->getKind(), Left)) {
     return false;
   }
   switch (C->getKind()) {
@@ -386,9 +420,16 @@ bool Z3SolverConstraintVisitor::visit(vara::feature::UnaryConstraint *C) {
   }
   switch (C->getKind()) {
   case feature::Constraint::ConstraintKind::CK_NEG:
+    Z3ConstraintExpression = toNumber(Z3ConstraintExpression);
+    if (!Z3ConstraintExpression.is_int()) {
+      return false;
+    }
     Z3ConstraintExpression = -Z3ConstraintExpression;
     break;
   case feature::Constraint::ConstraintKind::CK_NOT:
+    if (!Z3ConstraintExpression.is_bool()) {
+      return false;
+    }
     Z3ConstraintExpression = !Z3ConstraintExpression;
     break;
   default:
@@ -405,13 +446,8 @@ bool Z3SolverConstraintVisitor::visit(
     return false;
   }
   Z3ConstraintExpression = *Variable->getValue();
-  if (Z3ConstraintExpression.is_bool()) {
-    if (MixedConstraint) {
-      VariableConstraint = VariableConstraint || !Z3ConstraintExpression;
-      Z3ConstraintExpression = z3::to_expr(
-          S->Context, Z3_mk_ite(S->Context, Z3ConstraintExpression,
-                                S->Context.int_val(1), S->Context.int_val(0)));
-    }
+  if (MixedConstraint && Z3ConstraintExpression.is_bool()) {
+    VariableConstraint = VariableConstraint || !Z3ConstraintExpression;
   }
   return true;
 }
-- 
2.43.0


From 1f6d2b0aa13304c115def6b45c7d42adf71cc5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:09 +0000
Subject: [PATCH 45/78] fix: isValid reports unsatisfiable models as invalid

The presence of a result was returned instead of the result.
---
 include/vara/Solver/ConfigurationFactory.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vara/Solver/ConfigurationFactory.h b/include/vara/Solver/ConfigurationFactory.h
index a4b4d2f..6cdad07 100644
--- a/include/vara/Solver/ConfigurationFactory.h
+++ b/include/vara/Solver/ConfigurationFactory.h
@@ -160,7 +160,8 @@ public:
   static bool isValid(feature::FeatureModel &Model,
                       const vara::solver::SolverType Type = SolverType::Z3) {
     auto S = SolverFactory::initializeSolver(Model, Type);
-    return S->hasValidConfigurations();
+    auto R = S->hasValidConfigurations();
+    return R && R.extractValue();
   }
 };
 
-- 
2.43.0


From e1002dc24b689868373c34ad1fe6572efcf367af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:55 +0000
Subject: [PATCH 46/78] fix: exclusive or requires one of its operands in the
 solver

Both implications excluded the case that both operands hold, and none the case
that neither does.
---
 lib/Solver/Z3Solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index a2999a5..b3f3ba5 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -403,7 +403,7 @@ bool Z3SolverConstraintVisitor::visit(vara::feature::BinaryConstraint *C) {
     break;
   case feature::Constraint::ConstraintKind::CK_XOR:
     Z3ConstraintExpression = z3::implies(Left, !Z3ConstraintExpression) &&
-                             z3::implies(Z3ConstraintExpression, !Left);
+                             z3::implies(!Z3ConstraintExpression, Left);
     break;
   default:
     llvm_unreachable(
-- 
2.43.0


From 9dfc87150e5a499ed13edef5e3ec916f3ecbe602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:34 +0000
Subject: [PATCH 47/78] fix: reject children and groups of features added as
 numbers to the solver

---
 lib/Solver/Z3Solver.cpp | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index b3f3ba5..7cedc76 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -6,6 +6,16 @@
 
 namespace vara::solver {
 
+/// Numeric features are neither selected nor deselected, i.e., a feature
+/// depends on the closest parent that is.
+static const feature::Feature *getSelectableParent(const feature::Feature &F) {
+  const auto *Parent = F.getParentFeature();
+  while (Parent && llvm::isa<feature::NumericFeature>(Parent)) {
+    Parent = Parent->getParentFeature();
+  }
+  return Parent;
+}
+
 Result<SolverErrorCode>
 Z3Solver::addFeature(const feature::Feature &FeatureToAdd,
                      bool IsInAlternativeGroup) {
@@ -73,6 +83,16 @@ Z3Solver::addFeature(const feature::Feature &FeatureToAdd,
     if (!llvm::isa<vara::feature::BinaryFeature>(&FeatureToAdd)) {
       return NOT_SUPPORTED;
     }
+    if (const auto *SelectableParent = getSelectableParent(FeatureToAdd)) {
+      const auto Variable =
+          OptionToVariableMapping.find(SelectableParent->getName());
+      if (Variable == OptionToVariableMapping.end()) {
+        return PARENT_NOT_PRESENT;
+      }
+      if (!Variable->getValue()->is_bool()) {
+        return NOT_SUPPORTED;
+      }
+    }
     addFeature(FeatureToAdd.getName().str());
     auto R = setBinaryFeatureConstraints(
         *llvm::dyn_cast<vara::feature::BinaryFeature>(&FeatureToAdd),
@@ -139,9 +159,8 @@ Result<SolverErrorCode>
 Z3Solver::addRelationship(const feature::Relationship &R) {
   const auto *Parent =
       llvm::dyn_cast_or_null<const feature::Feature>(R.getParent());
-  // See setBinaryFeatureConstraints
-  while (Parent && llvm::isa<feature::NumericFeature>(Parent)) {
-    Parent = Parent->getParentFeature();
+  if (Parent && llvm::isa<feature::NumericFeature>(Parent)) {
+    Parent = getSelectableParent(*Parent);
   }
   if (!Parent) {
     return NOT_SUPPORTED;
@@ -151,6 +170,9 @@ Z3Solver::addRelationship(const feature::Relationship &R) {
     return PARENT_NOT_PRESENT;
   }
   const auto ParentOption = *ParentVariable->getValue();
+  if (!ParentOption.is_bool()) {
+    return NOT_SUPPORTED;
+  }
   z3::expr_vector V(Context);
   for (const auto &Child : R.children()) {
     const auto *ChildFeature = llvm::dyn_cast<const feature::Feature>(Child);
@@ -229,12 +251,7 @@ Z3Solver::getNextConfiguration() {
 Result<SolverErrorCode>
 Z3Solver::setBinaryFeatureConstraints(const feature::BinaryFeature &Feature,
                                       bool IsInAlternativeGroup) {
-  // Numeric features are neither selected nor deselected, i.e., the feature
-  // depends on the closest parent that is.
-  const auto *Parent = Feature.getParentFeature();
-  while (Parent && llvm::isa<feature::NumericFeature>(Parent)) {
-    Parent = Parent->getParentFeature();
-  }
+  const auto *Parent = getSelectableParent(Feature);
   // A feature without parent is unconstrained.
   if (!Parent) {
     return Ok();
-- 
2.43.0


From 33b9835a8f4bf4c7530ff836a877514a17433669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:37 +0000
Subject: [PATCH 48/78] fix: iterate over the options of constant
 configurations

---
 include/vara/Configuration/Configuration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vara/Configuration/Configuration.h b/include/vara/Configuration/Configuration.h
index f09d957..24ddcae 100644
--- a/include/vara/Configuration/Configuration.h
+++ b/include/vara/Configuration/Configuration.h
@@ -143,7 +143,7 @@ public:
   [[nodiscard]] llvm::StringMapConstIterator<
       std::unique_ptr<ConfigurationOption>>
   begin() const {
-    return OptionMappings.end();
+    return OptionMappings.begin();
   }
 
   [[nodiscard]] llvm::StringMapIterator<std::unique_ptr<ConfigurationOption>>
-- 
2.43.0


From 47098d623a2b0a8924510cd05fd494505cef5eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:37 +0000
Subject: [PATCH 49/78] fix: read True as true in configuration options

---
 include/vara/Configuration/Configuration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vara/Configuration/Configuration.h b/include/vara/Configuration/Configuration.h
index 24ddcae..0ec80ee 100644
--- a/include/vara/Configuration/Configuration.h
+++ b/include/vara/Configuration/Configuration.h
@@ -111,7 +111,7 @@ private:
   convert(llvm::StringRef ValueToConvert) {
     // Parse the value
     if (ValueToConvert.lower() == "true" || ValueToConvert.lower() == "false") {
-      return ValueToConvert == "true";
+      return ValueToConvert.lower() == "true";
     }
     int64_t IntegerValue;
     if (!ValueToConvert.getAsInteger(0, IntegerValue)) {
-- 
2.43.0


From 5cedcde19d39381fedf6fbfe46d6856d2173645e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:31 +0000
Subject: [PATCH 50/78] fix: escape quotes and backslashes in written sample
 sets

---
 lib/Sampling/SampleSetWriter.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/Sampling/SampleSetWriter.cpp b/lib/Sampling/SampleSetWriter.cpp
index eb63dcb..dfaf785 100644
--- a/lib/Sampling/SampleSetWriter.cpp
+++ b/lib/Sampling/SampleSetWriter.cpp
@@ -25,7 +25,12 @@ std::string vara::sampling::SampleSetWriter::writeConfigurations(
           ConfigurationStringFlags.append(", ");
         }
         ConfigurationStringFlags.append("\"");
-        ConfigurationStringFlags.append(F->getOutputString().str());
+        for (const char C : F->getOutputString()) {
+          if (C == '"' || C == '\\') {
+            ConfigurationStringFlags.push_back('\\');
+          }
+          ConfigurationStringFlags.push_back(C);
+        }
         if (F->getKind() == feature::Feature::FeatureKind::FK_NUMERIC) {
           auto OptionValue =
               Configuration->configurationOptionValue(F->getName());
-- 
2.43.0


From d25220211aa0cf3e396bf7387cb5443e90a2a748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:02 +0000
Subject: [PATCH 51/78] fix: remove the youngest requested features of a
 subtree first

---
 lib/Feature/FeatureModelTransaction.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/lib/Feature/FeatureModelTransaction.cpp b/lib/Feature/FeatureModelTransaction.cpp
index dd89229..fc5736f 100644
--- a/lib/Feature/FeatureModelTransaction.cpp
+++ b/lib/Feature/FeatureModelTransaction.cpp
@@ -74,15 +74,18 @@ canBeDeletedRecursively(FeatureModel &FM, detail::FeatureVariantTy &FV,
     return std::nullopt;
   }
 
-  std::set<FeatureTreeNode *> Intersection;
-  auto AllChildrenInSubtree = ActualFeature->getChildren();
-  std::set_intersection(AllChildrenInSubtree.begin(),
-                        AllChildrenInSubtree.end(), OtherFeatures.begin(),
-                        OtherFeatures.end(),
-                        std::inserter(Intersection, Intersection.begin()));
-  // if the children are not matching the other features, the intersection is
-  // empty and we are good to go for deletion
-  return std::optional<bool>{Intersection.begin() == Intersection.end()};
+  // if none of the other features is below this one, we are good to go for
+  // deletion
+  return std::none_of(OtherFeatures.begin(), OtherFeatures.end(),
+                      [ActualFeature](FeatureTreeNode *Other) {
+                        for (auto *P = Other->getParent(); P;
+                             P = P->getParent()) {
+                          if (P == ActualFeature) {
+                            return true;
+                          }
+                        }
+                        return false;
+                      });
 }
 
 std::vector<detail::FeatureVariantTy> removeFeatures(
-- 
2.43.0


From ec130bf4d34417a0c24be7edbd301a3bf6ad955c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:02 +0000
Subject: [PATCH 52/78] fix: return the root as not deleted when removing
 features

---
 lib/Feature/FeatureModelTransaction.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Feature/FeatureModelTransaction.cpp b/lib/Feature/FeatureModelTransaction.cpp
index fc5736f..d5cfdab 100644
--- a/lib/Feature/FeatureModelTransaction.cpp
+++ b/lib/Feature/FeatureModelTransaction.cpp
@@ -113,6 +113,10 @@ std::vector<detail::FeatureVariantTy> removeFeatures(
   auto DeleteIt = std::partition(
       Begin, End,
       [&FM, Recursive, &OtherFeatures](detail::FeatureVariantTy &FV) {
+        // The root of a model cannot be removed
+        if (getActualFeature(FM, FV) == FM.getRoot()) {
+          return false;
+        }
         if (fvIsLeaf(FM, FV).value_or(false)) {
           return true;
         }
-- 
2.43.0


From 81a78c99daa2bc32ff12c158c78b2630e6865d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:02 +0000
Subject: [PATCH 53/78] fix: remove features whose groups have no members left

---
 lib/Feature/FeatureModelTransaction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Feature/FeatureModelTransaction.cpp b/lib/Feature/FeatureModelTransaction.cpp
index d5cfdab..01111ae 100644
--- a/lib/Feature/FeatureModelTransaction.cpp
+++ b/lib/Feature/FeatureModelTransaction.cpp
@@ -55,7 +55,7 @@ std::optional<bool> fvIsLeaf(FeatureModel &FM, detail::FeatureVariantTy &FV) {
   if (ActualFeature == nullptr) {
     return std::nullopt;
   }
-  return std::optional<bool>{ActualFeature->isLeaf()};
+  return std::optional<bool>{ActualFeature->getChildren<Feature>().empty()};
 }
 
 /// Checks if in recursive mode the provided Feature can be deleted or not.
-- 
2.43.0


From 7f0823f4324b93c87611c7e2fe9240cda43902a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:02 +0000
Subject: [PATCH 54/78] fix: allow for features that are requested to be
 removed twice

---
 lib/Feature/FeatureModelTransaction.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/Feature/FeatureModelTransaction.cpp b/lib/Feature/FeatureModelTransaction.cpp
index 01111ae..4712cb5 100644
--- a/lib/Feature/FeatureModelTransaction.cpp
+++ b/lib/Feature/FeatureModelTransaction.cpp
@@ -135,8 +135,12 @@ std::vector<detail::FeatureVariantTy> removeFeatures(
   // perform actual removal of deletable features
   auto Trans = FeatureModelModifyTransaction::openTransaction(FM);
   auto FeatureIt = Begin;
+  std::set<Feature *> Removed;
   while (FeatureIt != DeleteIt) {
-    Trans.removeFeature(*FeatureIt, Recursive);
+    // Features can be requested more than once
+    if (Removed.insert(getActualFeature(FM, *FeatureIt)).second) {
+      Trans.removeFeature(*FeatureIt, Recursive);
+    }
     FeatureIt = std::next(FeatureIt);
   }
   Trans.commit();
-- 
2.43.0


From 761696c6ef5d53cf22d794d2d8fc7203e9c80d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:12 +0000
Subject: [PATCH 55/78] fix: fail to merge models whose features cannot be
 added

---
 lib/Feature/FeatureModelTransaction.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/Feature/FeatureModelTransaction.cpp b/lib/Feature/FeatureModelTransaction.cpp
index 4712cb5..3a728e2 100644
--- a/lib/Feature/FeatureModelTransaction.cpp
+++ b/lib/Feature/FeatureModelTransaction.cpp
@@ -177,7 +177,11 @@ mergeFeatureModels(FeatureModel &FM1, FeatureModel &FM2, bool Strict) {
     Trans.abort();
     return nullptr;
   }
-  return *Trans.commit();
+  auto Merged = Trans.commit();
+  if (!Merged) {
+    return nullptr;
+  }
+  return Merged.extractValue();
 }
 
 [[nodiscard]] bool mergeSubtree(FeatureModelCopyTransaction &Trans,
@@ -201,7 +205,9 @@ mergeFeatureModels(FeatureModel &FM1, FeatureModel &FM2, bool Strict) {
     if (!Copy) {
       return false;
     }
-    Trans.addFeature(std::move(Copy), F.getParentFeature());
+    if (!Trans.addFeature(std::move(Copy), F.getParentFeature())) {
+      return false;
+    }
   }
 
   // copy children if missing
-- 
2.43.0


From f8807963b0435124214ed8af6a5f1f5e1e4abda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:12 +0000
Subject: [PATCH 56/78] fix: compare the names of parents exactly when merging
 models

---
 lib/Feature/FeatureModelTransaction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Feature/FeatureModelTransaction.cpp b/lib/Feature/FeatureModelTransaction.cpp
index 3a728e2..bb99732 100644
--- a/lib/Feature/FeatureModelTransaction.cpp
+++ b/lib/Feature/FeatureModelTransaction.cpp
@@ -254,7 +254,7 @@ mergeFeatureModels(FeatureModel &FM1, FeatureModel &FM2, bool Strict) {
   }
   if (F1.getKind() != Feature::FeatureKind::FK_ROOT &&
       F2.getKind() != Feature::FeatureKind::FK_ROOT) {
-    if (*(F1.getParentFeature()) != *(F2.getParentFeature())) {
+    if (F1.getParentFeature()->getName() != F2.getParentFeature()->getName()) {
       return false;
     }
   }
-- 
2.43.0


From 918c59bcaf007ebd9e8816d7cd4b1c591af2ac09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:12 +0000
Subject: [PATCH 57/78] fix: compare output strings and step functions when
 merging strictly

---
 lib/Feature/FeatureModelTransaction.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/Feature/FeatureModelTransaction.cpp b/lib/Feature/FeatureModelTransaction.cpp
index bb99732..9792e24 100644
--- a/lib/Feature/FeatureModelTransaction.cpp
+++ b/lib/Feature/FeatureModelTransaction.cpp
@@ -272,6 +272,9 @@ mergeFeatureModels(FeatureModel &FM1, FeatureModel &FM2, bool Strict) {
   if (F1.getKind() == Feature::FeatureKind::FK_ROOT) {
     return true;
   }
+  if (F1.getOutputString() != F2.getOutputString()) {
+    return false;
+  }
   if (F1.getParent()->getKind() != F2.getParent()->getKind()) {
     return false;
   }
@@ -280,7 +283,11 @@ mergeFeatureModels(FeatureModel &FM1, FeatureModel &FM2, bool Strict) {
   }
   if (const auto *NF1 = llvm::dyn_cast<NumericFeature>(&F1)) {
     if (const auto *NF2 = llvm::dyn_cast<NumericFeature>(&F2)) {
-      return NF1->getValues() == NF2->getValues();
+      auto *Step1 = NF1->getStepFunction();
+      auto *Step2 = NF2->getStepFunction();
+      return NF1->getValues() == NF2->getValues() &&
+             (Step1 && Step2 ? Step1->toString() == Step2->toString()
+                             : Step1 == Step2);
     }
   }
   return false;
-- 
2.43.0


From 7c97bb8c57bbd0973345dad0b6c339997ac7f543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:36 +0000
Subject: [PATCH 58/78] fix: read SXFM models without name

---
 lib/Feature/FeatureModelParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index effc37e..187c928 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -513,7 +513,9 @@ bool FeatureModelSxfmParser::parseVm(xmlNode *Node) {
   // Parse the name first.
   {
     UniqueXmlChar Cnt(xmlGetProp(Node, XmlConstants::NAME), xmlFree);
-    FMB.setVmName(std::string(reinterpret_cast<char *>(Cnt.get())));
+    if (Cnt) {
+      FMB.setVmName(std::string(reinterpret_cast<char *>(Cnt.get())));
+    }
   }
   // After the feature model tag, some metadata is provided.
   // Currently, we skip the metadata and continue with parsing the feature tree
-- 
2.43.0


From d9570805324fe5879902dedafe168a574ebcc013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:36 +0000
Subject: [PATCH 59/78] fix: reject wrong indentation and missing types in SXFM

---
 lib/Feature/FeatureModelParser.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 187c928..d3f13d6 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -599,11 +599,26 @@ bool FeatureModelSxfmParser::parseFeatureTree(xmlNode *FeatureTree) {
           checkedNarrowingSignConversion(IndentationString.count(Indentation));
       int Diff = CurrentIndentationLevel - LastIndentationLevel;
 
+      // Nothing but the indentation may precede the colon, and there has to be
+      // something behind it
+      if (CurrentIndentationLevel * Indentation.length() !=
+              IndentationString.size() ||
+          IndentationString.size() + 1 >= ToStringRef.size()) {
+        llvm::errs() << "Wrong indentation or missing type in line " << To
+                     << "\n";
+        return false;
+      }
+
       // Remember the root indentation for later checks
       if (LastIndentationLevel == -1) {
         RootIndentation = CurrentIndentationLevel;
       }
 
+      if (CurrentIndentationLevel < RootIndentation) {
+        llvm::errs() << "Less indentation than the root in line " << To << "\n";
+        return false;
+      }
+
       if ((LastIndentationLevel != -1) && Diff > 1) {
         llvm::errs() << "Indentation error in feature tree in line " << To
                      << "\n";
-- 
2.43.0


From 0b132a1aa9fe2023c10ab782606dc3dc1cd98fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:36 +0000
Subject: [PATCH 60/78] fix: reject SXFM models without exactly one root

---
 lib/Feature/FeatureModelParser.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index d3f13d6..1774b43 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -661,6 +661,13 @@ bool FeatureModelSxfmParser::parseFeatureTree(xmlNode *FeatureTree) {
             << To << "'\n";
         return false;
       }
+
+      // The root comes first and there is only one
+      if (IsRoot != (LastIndentationLevel == -1)) {
+        llvm::errs() << "The root has to be the first feature:'" << To << "'\n";
+        return false;
+      }
+
       // Extract the name
       Name =
           ToStringRef.substr(Pos + 1, ToStringRef.find(' ', Pos + 1) - Pos - 1)
-- 
2.43.0


From 695ec9da51b98ca2f219ce8d4a5bd711b77cc5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:36 +0000
Subject: [PATCH 61/78] fix: names of SXFM groups with identifiers

---
 lib/Feature/FeatureModelParser.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 1774b43..8a2cc69 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -697,6 +697,13 @@ bool FeatureModelSxfmParser::parseFeatureTree(xmlNode *FeatureTree) {
       if (Name.find_first_of('(') != std::string::npos) {
         Name = Name.substr(0, Name.find('(', 0));
       }
+      Name = trim(Name);
+
+      // If there is no name, provide an artificial one
+      if (Name.empty()) {
+        OrGroupCounter++;
+        Name = "group_" + std::to_string(OrGroupCounter);
+      }
 
       // Search for identifier
       std::regex Regex(R"(\([a-zA-Z\d_]*\))");
@@ -713,12 +720,6 @@ bool FeatureModelSxfmParser::parseFeatureTree(xmlNode *FeatureTree) {
         }
       }
 
-      // If there is no name, provide an artificial one
-      if (Name.empty()) {
-        OrGroupCounter++;
-        Name = "group_" + std::to_string(OrGroupCounter);
-      }
-
       // Create the feature
       if (IsRoot) {
         FMB.makeRoot(Name);
-- 
2.43.0


From 4a6e9babb1f5b6f4c8df30808c258f99544d6c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:36 +0000
Subject: [PATCH 62/78] fix: only replace whole identifiers in SXFM constraints

---
 lib/Feature/FeatureModelParser.cpp | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 8a2cc69..b394084 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -787,13 +787,6 @@ bool FeatureModelSxfmParser::parseConstraints(xmlNode *Constraints) {
       UniqueXmlChar(xmlNodeGetContent(Constraints), xmlFree).get()));
   std::string To;
 
-  // Prepare the identifiers for later replacement
-  std::vector<std::string> Keys;
-  Keys.reserve(IdentifierMap.size());
-  std::for_each(IdentifierMap.begin(), IdentifierMap.end(),
-                [&Keys](const auto &Entry) { Keys.push_back(Entry.first); });
-  std::sort(Keys.begin(), Keys.end(), std::greater<std::string>{});
-
   while (std::getline(Ss, To)) {
     // Ignore if a line is empty
     if (To.empty() || std::all_of(To.begin(), To.end(), isspace)) {
@@ -817,16 +810,18 @@ bool FeatureModelSxfmParser::parseConstraints(xmlNode *Constraints) {
 
     // In the following lines, we replace all identifiers by the real feature
     // name
-    for (auto &Key : Keys) {
-      std::string Value = IdentifierMap[Key];
-      if (Value == Key) {
-        continue;
+    for (size_t Begin = 0; Begin < CnfFormula.size(); ++Begin) {
+      size_t End = Begin;
+      while (End < CnfFormula.size() &&
+             (llvm::isAlnum(CnfFormula[End]) || CnfFormula[End] == '_')) {
+        ++End;
       }
-      auto FoundPos = CnfFormula.find(Key);
-      while (FoundPos != std::string::npos) {
-        CnfFormula = CnfFormula.replace(FoundPos, Key.length(), Value);
-        FoundPos = CnfFormula.find(Key);
+      auto Entry = IdentifierMap.find(CnfFormula.substr(Begin, End - Begin));
+      if (End != Begin && Entry != IdentifierMap.end()) {
+        CnfFormula.replace(Begin, End - Begin, Entry->second);
+        End = Begin + Entry->second.size();
       }
+      Begin = End;
     }
 
     // Replace 'or' by '|' and 'and' by '&'
-- 
2.43.0


From d0684e1e4ed067263fa47f6eb3fb1721cc7ac32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:36 +0000
Subject: [PATCH 63/78] fix: reject SXFM constraints that cannot be parsed

---
 lib/Feature/FeatureModelParser.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index b394084..507ea1a 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -837,10 +837,13 @@ bool FeatureModelSxfmParser::parseConstraints(xmlNode *Constraints) {
       }
     }
 
-    if (auto Constraint = ConstraintParser(CnfFormula).buildConstraint()) {
-      FMB.addConstraint(std::make_unique<FeatureModel::BooleanConstraint>(
-          std::move(Constraint)));
+    auto Constraint = ConstraintParser(CnfFormula).buildConstraint();
+    if (!Constraint) {
+      llvm::errs() << "Failed to parse constraint '" << To << "'\n";
+      return false;
     }
+    FMB.addConstraint(std::make_unique<FeatureModel::BooleanConstraint>(
+        std::move(Constraint)));
   }
 
   return true;
-- 
2.43.0


From aa591cca23c2b3819aeed60b300e1d51b0538d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:36 +0000
Subject: [PATCH 64/78] fix: reject unterminated cardinalities in SXFM

---
 lib/Feature/FeatureModelParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 507ea1a..a2f33ac 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -857,7 +857,8 @@ std::optional<std::tuple<int, int>> FeatureModelSxfmParser::extractCardinality(
   // Search for the first occurrence of '['; then read in the min cardinality
   // until the comma. Afterwards, read in the max cardinality until ']'
   std::string::size_type Pos = StringToExtractFrom.find_first_of('[');
-  if (Pos == std::string::npos) {
+  if (Pos == std::string::npos ||
+      StringToExtractFrom.find(']', Pos) == std::string::npos) {
     llvm::errs() << "No cardinality given in or group!\n";
     return {};
   }
-- 
2.43.0


From c2a257bd1860627cdda73759f75031440fccc408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:53 +0000
Subject: [PATCH 65/78] fix: do not drop the first character of SXFM names

---
 lib/Feature/FeatureModelParser.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index a2f33ac..4da5cc5 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -669,22 +669,22 @@ bool FeatureModelSxfmParser::parseFeatureTree(xmlNode *FeatureTree) {
       }
 
       // Extract the name
-      Name =
-          ToStringRef.substr(Pos + 1, ToStringRef.find(' ', Pos + 1) - Pos - 1)
-              .str();
+      llvm::StringRef Remainder = ToStringRef.substr(Pos);
+      if (!Remainder.empty() && !llvm::isSpace(Remainder.front())) {
+        llvm::errs() << "Missing blank in front of the name:'" << To << "'\n";
+        return false;
+      }
+      Remainder = Remainder.trim();
+      Name = Remainder.substr(0, Remainder.find(' ')).str();
 
       // Remove the cardinality
       if (Name.find_first_of('[') != std::string::npos) {
-        Name = ToStringRef
-                   .substr(Pos + 1, ToStringRef.find('[', Pos + 1) - Pos - 1)
-                   .str();
+        Name = Remainder.substr(0, Remainder.find('[')).str();
 
         if (Name.empty()) {
           // In this case, the name could also be after the cardinality.
           // According to the examples provided by S.P.L.O.T., this is a valid
           // format.
-          auto Remainder =
-              ToStringRef.substr(Pos + 1, ToStringRef.size() - Pos - 1);
           auto Tokens = Remainder.split(' ');
           if (!Tokens.second.empty()) {
             Name = Tokens.second.str();
-- 
2.43.0


From 15e50c23162ff473e37924b108b72c352c3330ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:53 +0000
Subject: [PATCH 66/78] fix: reject SXFM models without features

---
 lib/Feature/FeatureModelParser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 4da5cc5..8da1bc1 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -766,6 +766,11 @@ bool FeatureModelSxfmParser::parseFeatureTree(xmlNode *FeatureTree) {
       LastIndentationLevel = CurrentIndentationLevel;
     }
 
+    if (LastIndentationLevel == -1) {
+      llvm::errs() << "Failed to read in feature tree. Is it empty?\n";
+      return false;
+    }
+
     // Add the remaining or groups
     for (auto &OrGroup : OrGroupMapping) {
       FMB.emplaceRelationship(std::get<1>(OrGroup.second),
-- 
2.43.0


From 962c69b0907235c5113f18e01375750888af4156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 67/78] fix: read SXFM features whose name contains their
 identifier

---
 lib/Feature/FeatureModelParser.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 8da1bc1..b8bdb9e 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -714,10 +714,6 @@ bool FeatureModelSxfmParser::parseFeatureTree(xmlNode *FeatureTree) {
         std::string Identifier = (*Match).str();
         Identifier = Identifier.substr(1, Identifier.size() - 2);
         IdentifierMap[Identifier] = Name;
-        if (Identifier != Name && Name.find(Identifier) != std::string::npos) {
-          llvm::errs() << "Name must not contain ID:'" << Name << "'\n";
-          return false;
-        }
       }
 
       // Create the feature
-- 
2.43.0


From 9ed796049c0ea111654e28c231faca6fb27ef737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:20 +0000
Subject: [PATCH 68/78] fix: escape the labels of features in graphs as HTML

---
 include/vara/Feature/FeatureModel.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/vara/Feature/FeatureModel.h b/include/vara/Feature/FeatureModel.h
index 3928e59..4376816 100644
--- a/include/vara/Feature/FeatureModel.h
+++ b/include/vara/Feature/FeatureModel.h
@@ -9,6 +9,7 @@
 #include "vara/Utils/UniqueIterator.h"
 
 #include "llvm/ADT/SmallSet.h"
+#include "llvm/ADT/StringExtras.h"
 #include "llvm/ADT/StringMap.h"
 #include "llvm/Support/GraphWriter.h"
 
@@ -578,11 +579,19 @@ struct GraphWriter<vara::feature::FeatureModel *> {
     }
   }
 
+  /// Labels of features are HTML-like, so that escapes for quoted strings do not
+  /// apply.
+  static std::string escapeHTML(StringRef Text) {
+    std::string Str;
+    raw_string_ostream OS(Str);
+    printHTMLEscaped(Text, OS);
+    return OS.str();
+  }
+
   static std::string buildFeatureLabel(vara::feature::Feature *F) {
     std::stringstream CS;
     for (const auto &C : F->constraints()) {
-      CS << "<tr><td>" << DOT::EscapeString(C->getRoot()->toHTML())
-         << "</td></tr>";
+      CS << "<tr><td>" << C->getRoot()->toHTML() << "</td></tr>";
     }
 
     std::stringstream LS;
@@ -590,7 +599,7 @@ struct GraphWriter<vara::feature::FeatureModel *> {
       LS << "<hr/>";
       for (const auto &Location : F->getLocations()) {
         LS << llvm::formatv("<tr><td><b>{0}</b></td></tr>",
-                            DOT::EscapeString(Location.toString()))
+                            escapeHTML(Location.toString()))
                   .str();
       }
     }
@@ -600,8 +609,8 @@ struct GraphWriter<vara::feature::FeatureModel *> {
         "cellborder=\"0\" "
         "cellpadding=\"5\">{0}{1}{2}</table>>",
         llvm::formatv("<tr><td><b>{0} (Flag: {1})</b></td></tr>",
-                      DOT::EscapeString(F->getName().str()),
-                      F->getOutputString().trim().str()),
+                      escapeHTML(F->getName()),
+                      escapeHTML(F->getOutputString().trim())),
         CS.str(), LS.str());
   }
 
-- 
2.43.0


From 95bd9dc5027f84d846d6542f49d1d4b0f4e6597b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 69/78] fix: reject XML models that violate the DTD

---
 lib/Feature/FeatureModelParser.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index b8bdb9e..228d3e5 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -436,8 +436,7 @@ FeatureModelParser::UniqueXmlDoc FeatureModelXmlParser::parseDoc() {
       xmlFreeDoc);
   xmlCleanupParser();
   if (Doc && Ctxt->valid) {
-    xmlValidateDtd(&Ctxt->vctxt, Doc.get(), createDtd().get());
-    if (Ctxt->vctxt.valid) {
+    if (xmlValidateDtd(&Ctxt->vctxt, Doc.get(), createDtd().get())) {
       return Doc;
     }
     llvm::errs() << "Failed to validate DTD.\n";
-- 
2.43.0


From c0cdf99285fd6b6a794d9b90521fcd398f77e44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 70/78] fix: reject models whose root element is not a model

---
 lib/Feature/FeatureModelParser.cpp | 7 +++++--
 lib/Feature/SxfmConstants.h        | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 228d3e5..9251d12 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -436,7 +436,8 @@ FeatureModelParser::UniqueXmlDoc FeatureModelXmlParser::parseDoc() {
       xmlFreeDoc);
   xmlCleanupParser();
   if (Doc && Ctxt->valid) {
-    if (xmlValidateDtd(&Ctxt->vctxt, Doc.get(), createDtd().get())) {
+    if (xmlValidateDtd(&Ctxt->vctxt, Doc.get(), createDtd().get()) &&
+        !xmlStrcmp(xmlDocGetRootElement(Doc.get())->name, XmlConstants::VM)) {
       return Doc;
     }
     llvm::errs() << "Failed to validate DTD.\n";
@@ -496,7 +497,9 @@ FeatureModelSxfmParser::UniqueXmlDoc FeatureModelSxfmParser::parseDoc() {
   if (Doc && Ctxt->valid) {
     // (2) validate the sxfm format by using the dtd (document type definition)
     // file
-    if (xmlValidateDtd(&Ctxt->vctxt, Doc.get(), createDtd().get())) {
+    if (xmlValidateDtd(&Ctxt->vctxt, Doc.get(), createDtd().get()) &&
+        !xmlStrcmp(xmlDocGetRootElement(Doc.get())->name,
+                   SxfmConstants::FEATURE_MODEL)) {
       // and (3) check the tree-like structure of the embedded feature model
       // as well as constraints
       return Doc;
diff --git a/lib/Feature/SxfmConstants.h b/lib/Feature/SxfmConstants.h
index 42664a5..ea26ee6 100644
--- a/lib/Feature/SxfmConstants.h
+++ b/lib/Feature/SxfmConstants.h
@@ -15,6 +15,7 @@ public:
   ~SxfmConstants() = delete;
   static inline const int WILDCARD = -1;
   static constexpr xmlChar NAME[] = "name";
+  static constexpr xmlChar FEATURE_MODEL[] = "feature_model";
   static constexpr xmlChar FEATURE_TREE[] = "feature_tree";
   static constexpr xmlChar CONSTRAINTS[] = "constraints";
   static constexpr xmlChar INDENTATION[] = "indentation_string";
-- 
2.43.0


From 49467dd1b25ada69496012092c9399f76af74148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:58 +0000
Subject: [PATCH 71/78] fix: source ranges that differ in their revisions are
 equal

FeatureSourceRange::operator== ignored the revision range, so removing or
updating a location changed the wrong one and merging dropped locations.
---
 include/vara/Feature/FeatureSourceRange.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/vara/Feature/FeatureSourceRange.h b/include/vara/Feature/FeatureSourceRange.h
index 8ef57b0..940ac74 100644
--- a/include/vara/Feature/FeatureSourceRange.h
+++ b/include/vara/Feature/FeatureSourceRange.h
@@ -44,6 +44,10 @@ public:
                                  : llvm::StringRef();
     }
 
+    inline bool operator==(const FeatureRevisionRange &Other) const {
+      return Introduced == Other.Introduced && Removed == Other.Removed;
+    }
+
   private:
     std::string Introduced;
     std::optional<std::string> Removed;
@@ -246,7 +250,8 @@ public:
   inline bool operator==(const FeatureSourceRange &Other) const {
     return CategoryKind == Other.CategoryKind and Path == Other.Path and
            Start == Other.Start and End == Other.End and
-           MemberOffset == Other.MemberOffset;
+           MemberOffset == Other.MemberOffset and
+           RevisionRange == Other.RevisionRange;
   }
 
   inline bool operator!=(const FeatureSourceRange &Other) const {
-- 
2.43.0


From 8e71290f341c272475affb75d8562843090492d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:29 +0000
Subject: [PATCH 72/78] fix: fm-viewer -verify did not exit after verifying the
 input

---
 tools/fm-viewer/FeatureModelViewer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/fm-viewer/FeatureModelViewer.cpp b/tools/fm-viewer/FeatureModelViewer.cpp
index 85e5914..cfbc5a3 100644
--- a/tools/fm-viewer/FeatureModelViewer.cpp
+++ b/tools/fm-viewer/FeatureModelViewer.cpp
@@ -65,6 +65,10 @@ int main(int Argc, char **Argv) {
     return 1;
   }
 
+  if (Verify) {
+    return 0;
+  }
+
   if (Dump) {
     FM->dump();
   } else if (!Out.empty()) {
-- 
2.43.0


From 79d8776812d5df188292d4c3ba6fc7a638736b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:29 +0000
Subject: [PATCH 73/78] fix: fm-viewer reported success when its output could
 not be written

---
 tools/fm-viewer/FeatureModelViewer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tools/fm-viewer/FeatureModelViewer.cpp b/tools/fm-viewer/FeatureModelViewer.cpp
index cfbc5a3..afd8663 100644
--- a/tools/fm-viewer/FeatureModelViewer.cpp
+++ b/tools/fm-viewer/FeatureModelViewer.cpp
@@ -73,8 +73,11 @@ int main(int Argc, char **Argv) {
     FM->dump();
   } else if (!Out.empty()) {
     llvm::errs() << "Writing '" << Out << "'...";
-    llvm::WriteGraph(FM.get(), llvm::Twine(FM->getName()), false, "",
-                     Out.getValue());
+    if (llvm::WriteGraph(FM.get(), llvm::Twine(FM->getName()), false, "",
+                         Out.getValue())
+            .empty()) {
+      return 1;
+    }
   } else {
     auto Filename = llvm::WriteGraph(FM.get(), llvm::Twine(FM->getName()));
 
-- 
2.43.0


From 584f0e2b3eaa611225fd71b76646ec76caed16ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:51 +0000
Subject: [PATCH 74/78] fix: make_binary_feature of the Python builder ignored
 whether the feature is optional

---
 bindings/python/vara-feature/pybind_FeatureModelBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/vara-feature/pybind_FeatureModelBuilder.cpp b/bindings/python/vara-feature/pybind_FeatureModelBuilder.cpp
index 06b36fb..5f9382e 100644
--- a/bindings/python/vara-feature/pybind_FeatureModelBuilder.cpp
+++ b/bindings/python/vara-feature/pybind_FeatureModelBuilder.cpp
@@ -19,7 +19,7 @@ void init_feature_model_builder_module(py::module &M) {
       .def(
           "make_binary_feature",
           [](vf::FeatureModelBuilder &FMB, std::string feature_name, bool Opt) {
-            return FMB.makeFeature<vf::BinaryFeature>(feature_name);
+            return FMB.makeFeature<vf::BinaryFeature>(feature_name, Opt);
           },
           R"pbdoc(Create a new binary `Feature` with the given `feature_name`.)pbdoc")
       .def(
-- 
2.43.0


From 2bf6bfd0bed21902aed9f50d559a482fe558f8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:51 +0000
Subject: [PATCH 75/78] fix: read lists of two values as values of numeric
 features in Python

---
 bindings/python/vara-feature/pybind_common.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/bindings/python/vara-feature/pybind_common.h b/bindings/python/vara-feature/pybind_common.h
index f9aa645..5d764a3 100644
--- a/bindings/python/vara-feature/pybind_common.h
+++ b/bindings/python/vara-feature/pybind_common.h
@@ -1,2 +1,22 @@
 #include "pybind11/stl.h"
 #include "pybind11/stl/filesystem.h"
+
+#include "vara/Feature/Feature.h"
+
+namespace pybind11::detail {
+
+/// Python lists are the values of a feature; only other pairs are ranges.
+template <>
+struct type_caster<vara::feature::NumericFeature::ValuesVariantType>
+    : variant_caster<vara::feature::NumericFeature::ValuesVariantType> {
+  bool load(handle Src, bool Convert) {
+    if (isinstance<list>(Src)) {
+      return load_alternative(
+          Src, Convert,
+          type_list<vara::feature::NumericFeature::ValueListType>{});
+    }
+    return variant_caster::load(Src, Convert);
+  }
+};
+
+} // namespace pybind11::detail
-- 
2.43.0


From 46ce598234753d7f14f8dbb07bdb8a7acaf7f5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:51 +0000
Subject: [PATCH 76/78] fix: keep feature models alive as long as Python refers
 to their parts

---
 .../python/vara-feature/pybind_Feature.cpp    | 23 +++++----
 .../vara-feature/pybind_FeatureModel.cpp      | 47 +++++++++++--------
 .../pybind_FeatureModelXmlWriter.cpp          |  2 +-
 3 files changed, 44 insertions(+), 28 deletions(-)

diff --git a/bindings/python/vara-feature/pybind_Feature.cpp b/bindings/python/vara-feature/pybind_Feature.cpp
index a06be26..4688aa8 100644
--- a/bindings/python/vara-feature/pybind_Feature.cpp
+++ b/bindings/python/vara-feature/pybind_Feature.cpp
@@ -32,7 +32,8 @@ void init_feature_module_feature_tree_node(py::module &M) {
       //===----------------------------------------------------------------===//
       // Parent
       .def("parent", &vf::FeatureTreeNode::getParent,
-           py::return_value_policy::reference, R"pbdoc(Parent feature)pbdoc")
+           py::return_value_policy::reference_internal,
+           R"pbdoc(Parent feature)pbdoc")
       .def("is_parent", &vf::FeatureTreeNode::hasEdgeFrom,
            R"pbdoc(Checks if a node is a parent of this one.)pbdoc");
 }
@@ -40,10 +41,14 @@ void init_feature_module_feature_tree_node(py::module &M) {
 void init_feature_module_feature(py::module &M) {
   py::class_<vf::Feature, vf::FeatureTreeNode>(M, "Feature")
       .def("__hash__", &vf::Feature::hash)
-      .def_property_readonly("name", &vf::Feature::getName,
-                             R"pbdoc(The name of the feature.)pbdoc")
       .def_property_readonly(
-          "output_string", &vf::Feature::getOutputString,
+          "name",
+          py::cpp_function(&vf::Feature::getName, py::keep_alive<0, 1>()),
+          R"pbdoc(The name of the feature.)pbdoc")
+      .def_property_readonly(
+          "output_string",
+          py::cpp_function(&vf::Feature::getOutputString,
+                           py::keep_alive<0, 1>()),
           R"pbdoc(Returns the output string of a feature.)pbdoc")
       .def(
           "is_root",
@@ -53,10 +58,12 @@ void init_feature_module_feature(py::module &M) {
            R"pbdoc(`True` if the feature is optional.)pbdoc")
       .def_property_readonly(
           "locations",
-          [](vf::Feature &F) {
-            return py::make_iterator(F.getLocationsBegin(),
-                                     F.getLocationsEnd());
-          },
+          py::cpp_function(
+              [](vf::Feature &F) {
+                return py::make_iterator(F.getLocationsBegin(),
+                                         F.getLocationsEnd());
+              },
+              py::keep_alive<0, 1>()),
           R"pbdoc(The mapped code locations of the feature.)pbdoc")
       .def(
           "hasLocations", &vf::Feature::hasLocations,
diff --git a/bindings/python/vara-feature/pybind_FeatureModel.cpp b/bindings/python/vara-feature/pybind_FeatureModel.cpp
index c279a25..543a303 100644
--- a/bindings/python/vara-feature/pybind_FeatureModel.cpp
+++ b/bindings/python/vara-feature/pybind_FeatureModel.cpp
@@ -55,7 +55,8 @@ void init_feature_model_module(py::module &M) {
 
   py::class_<vf::FeatureModel>(M, "FeatureModel")
       .def_property_readonly(
-          "name", &vf::FeatureModel::getName,
+          "name",
+          py::cpp_function(&vf::FeatureModel::getName, py::keep_alive<0, 1>()),
           R"pbdoc(Returns the name of the FeatureModel.)pbdoc")
       .def_property_readonly(
           "path",
@@ -68,14 +69,15 @@ void init_feature_model_module(py::module &M) {
           },
           R"pbdoc(Returns the commit associated to the FeatureModel.)pbdoc")
       .def("get_root", &vf::FeatureModel::getRoot,
-           py::return_value_policy::reference,
+           py::return_value_policy::reference_internal,
            R"pbdoc(Returns the root Feature.)pbdoc")
       .def(
           "get_feature",
           [](vf::FeatureModel &FM, const std::string &Name) {
             return FM.getFeature(Name);
           },
-          py::return_value_policy::reference, R"pbdoc(Returns Feature.)pbdoc")
+          py::return_value_policy::reference_internal,
+          R"pbdoc(Returns Feature.)pbdoc")
       .def(
           "add_binary_feature",
           [](vf::FeatureModel &FM, vf::Feature &Parent, std::string Name,
@@ -140,23 +142,30 @@ void init_feature_model_module(py::module &M) {
             return py::make_iterator(FM.begin(), FM.end());
           },
           py::keep_alive<0, 1>())
-      .def_property_readonly("booleanConstraints",
-                             [](const vf::FeatureModel &FM) {
-                               return py::make_iterator(
-                                   FM.booleanConstraints().begin(),
-                                   FM.booleanConstraints().end());
-                             })
-      .def_property_readonly("nonBooleanConstraints",
-                             [](const vf::FeatureModel &FM) {
-                               return py::make_iterator(
-                                   FM.nonBooleanConstraints().begin(),
-                                   FM.nonBooleanConstraints().end());
-                             })
       .def_property_readonly(
-          "mixedConstraints", [](const vf::FeatureModel &FM) {
-            return py::make_iterator(FM.mixedConstraints().begin(),
-                                     FM.mixedConstraints().end());
-          });
+          "booleanConstraints",
+          py::cpp_function(
+              [](const vf::FeatureModel &FM) {
+                return py::make_iterator(FM.booleanConstraints().begin(),
+                                         FM.booleanConstraints().end());
+              },
+              py::keep_alive<0, 1>()))
+      .def_property_readonly(
+          "nonBooleanConstraints",
+          py::cpp_function(
+              [](const vf::FeatureModel &FM) {
+                return py::make_iterator(FM.nonBooleanConstraints().begin(),
+                                         FM.nonBooleanConstraints().end());
+              },
+              py::keep_alive<0, 1>()))
+      .def_property_readonly(
+          "mixedConstraints",
+          py::cpp_function(
+              [](const vf::FeatureModel &FM) {
+                return py::make_iterator(FM.mixedConstraints().begin(),
+                                         FM.mixedConstraints().end());
+              },
+              py::keep_alive<0, 1>()));
   M.def(
       "loadFeatureModel",
       [](const std::filesystem::path &Path) {
diff --git a/bindings/python/vara-feature/pybind_FeatureModelXmlWriter.cpp b/bindings/python/vara-feature/pybind_FeatureModelXmlWriter.cpp
index 195910e..ba6fce6 100644
--- a/bindings/python/vara-feature/pybind_FeatureModelXmlWriter.cpp
+++ b/bindings/python/vara-feature/pybind_FeatureModelXmlWriter.cpp
@@ -11,7 +11,7 @@ namespace py = pybind11;
 
 void init_xml_writer(py::module &M) {
   py::class_<vf::FeatureModelXmlWriter>(M, "FeatureModelXmlWriter")
-      .def(py::init<const vf::FeatureModel &>())
+      .def(py::init<const vf::FeatureModel &>(), py::keep_alive<1, 2>())
       .def(
           "get_feature_model_as_string",
           [](vf::FeatureModelXmlWriter &Fmxw) {
-- 
2.43.0


From cdacd3a212bb6c0437ba13775193667bc4dd69df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:52 +0000
Subject: [PATCH 77/78] fix: Keep values and errors when results are copied

---
 include/vara/Utils/Result.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/vara/Utils/Result.h b/include/vara/Utils/Result.h
index 595f6c9..e74e15b 100644
--- a/include/vara/Utils/Result.h
+++ b/include/vara/Utils/Result.h
@@ -12,6 +12,11 @@
 
 namespace vara {
 
+/// True if constructing a \p Ty from these arguments copies or moves it.
+template <typename Ty, typename... ArgsTy>
+inline constexpr bool IsCopyOrMove =
+    sizeof...(ArgsTy) == 1 && (std::is_same_v<Ty, std::decay_t<ArgsTy>> && ...);
+
 //===----------------------------------------------------------------------===//
 //                                      Ok
 //===----------------------------------------------------------------------===//
@@ -21,7 +26,8 @@ class Ok {
 public:
   Ok(ValueTy V) : V(std::move(V)) {}
 
-  template <typename... ArgsTy>
+  template <typename... ArgsTy,
+            std::enable_if_t<!IsCopyOrMove<Ok, ArgsTy...>, bool> = true>
   Ok(ArgsTy &&...Args) : V(std::forward<ArgsTy>(Args)...) {}
 
   ValueTy operator*() & { return V; }
@@ -63,7 +69,8 @@ class Error {
 public:
   Error(ErrorTy E) : E(std::move(E)) {}
 
-  template <typename... ArgsTy>
+  template <typename... ArgsTy,
+            std::enable_if_t<!IsCopyOrMove<Error, ArgsTy...>, bool> = true>
   Error(ArgsTy &&...Args) : E(std::forward<ArgsTy>(Args)...) {}
 
   ErrorTy operator*() & { return E; }
@@ -96,14 +103,16 @@ public:
   Result(Error<ErrorTy> E) : Variant(std::move(E)) {}
 
   template <typename... ArgsTy,
-            std::enable_if_t<std::is_constructible_v<ValueTy, ArgsTy...>,
+            std::enable_if_t<!IsCopyOrMove<Result, ArgsTy...> &&
+                                 std::is_constructible_v<ValueTy, ArgsTy...>,
                              bool> = true>
   Result(ArgsTy &&...Args)
       : Variant(std::in_place_type<Ok<ValueTy>>,
                 std::forward<ArgsTy>(Args)...) {}
 
   template <typename... ArgsTy,
-            std::enable_if_t<std::is_constructible_v<ErrorTy, ArgsTy...>,
+            std::enable_if_t<!IsCopyOrMove<Result, ArgsTy...> &&
+                                 std::is_constructible_v<ErrorTy, ArgsTy...>,
                              bool> = true>
   Result(ArgsTy &&...Args)
       : Variant(std::in_place_type<Error<ErrorTy>>,
-- 
2.43.0


From e63780fafb9910d07a9f397863025e112b227d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:31 +0000
Subject: [PATCH 78/78] fix: Clone the locations of features of unknown kind

---
 include/vara/Feature/Feature.h | 4 ++--
 lib/Feature/FeatureModel.cpp   | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/vara/Feature/Feature.h b/include/vara/Feature/Feature.h
index 484d5e4..544f3d7 100644
--- a/include/vara/Feature/Feature.h
+++ b/include/vara/Feature/Feature.h
@@ -38,9 +38,9 @@ class Feature : public FeatureTreeNode {
 public:
   enum class FeatureKind { FK_BINARY, FK_NUMERIC, FK_ROOT, FK_UNKNOWN };
 
-  Feature(std::string Name)
+  Feature(std::string Name, std::vector<FeatureSourceRange> Locations = {})
       : FeatureTreeNode(NodeKind::NK_FEATURE), Kind(FeatureKind::FK_UNKNOWN),
-        Name(std::move(Name)), Opt(false) {}
+        Name(std::move(Name)), Locations(std::move(Locations)), Opt(false) {}
   Feature(const Feature &) = delete;
   Feature &operator=(const Feature &) = delete;
   Feature(Feature &&) = delete;
diff --git a/lib/Feature/FeatureModel.cpp b/lib/Feature/FeatureModel.cpp
index e88f63b..fba5192 100644
--- a/lib/Feature/FeatureModel.cpp
+++ b/lib/Feature/FeatureModel.cpp
@@ -87,7 +87,8 @@ std::unique_ptr<FeatureModel> FeatureModel::clone() const {
 
     switch (KV.getValue()->getKind()) {
     case Feature::FeatureKind::FK_UNKNOWN:
-      FMB.makeFeature<Feature>(KV.getValue()->getName().str());
+      FMB.makeFeature<Feature>(KV.getValue()->getName().str(),
+                               std::move(SourceRanges));
       break;
     case Feature::FeatureKind::FK_ROOT:
       break;
-- 
2.43.0

