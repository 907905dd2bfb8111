From b3224bfa9e307fa0da61d73096b623d7a6c280d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:59 +0000
Subject: [PATCH 01/61] fix: BySubstitution gives its own part of the right
 hand side to explicit constraints

---
 src/solver/by-substitution.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/by-substitution.cc b/src/solver/by-substitution.cc
index 3039fb4..ed4b1b7 100644
--- a/src/solver/by-substitution.cc
+++ b/src/solver/by-substitution.cc
@@ -352,7 +352,7 @@ void BySubstitution::rightHandSide(vectorIn_t rhs) {
   const size_type top = parent_t::rightHandSideSize();
   const size_type bot = explicit_.rightHandSideSize();
   parent_t::rightHandSide(rhs.head(top));
-  explicit_.rightHandSide(rhs.head(bot));
+  explicit_.rightHandSide(rhs.tail(bot));
 }
 
 vector_t BySubstitution::rightHandSide() const {
-- 
2.43.0


From 226e40e3b5f152cf59b8609f47c362e1ff577a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:59 +0000
Subject: [PATCH 02/61] fix: set the right hand side of a solver with several
 priority levels

---
 src/solver/hierarchical-iterative.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 9b153ba..76ba6be 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -562,7 +562,7 @@ bool HierarchicalIterative::isConstraintSatisfied(
 }
 
 void HierarchicalIterative::rightHandSide(vectorIn_t rightHandSide) {
-  size_type iq = 0, iv = 0;
+  size_type iq = 0;
   for (std::size_t i = 0; i < stacks_.size(); ++i) {
     Data& d = datas_[i];
     LiegroupSpacePtr_t space(d.rightHandSide.space());
@@ -570,18 +570,16 @@ void HierarchicalIterative::rightHandSide(vectorIn_t rightHandSide) {
     size_type nv = space->nv();
     pinocchio::LiegroupElementConstRef output(
         space->elementConstRef(rightHandSide.segment(iq, nq)));
-    LiegroupElementRef rhs(
-        space->elementRef(d.rightHandSide.vector().segment(iq, nq)));
+    LiegroupElementRef rhs(space->elementRef(d.rightHandSide.vector()));
 
     // d.error is used here as an intermediate storage. The value
     // computed is not the error
     d.error = output - space->neutral();  // log (rightHandSide)
     for (size_type k = 0; k < nv; ++k) {
-      if (d.comparison[iv + k] != Equality) assert(d.error[k] == 0);
+      if (d.comparison[k] != Equality) assert(d.error[k] == 0);
     }
     rhs = space->neutral() + d.error;  // exp (d.error)
     iq += nq;
-    iv += nv;
   }
   assert(iq == rightHandSide.size());
 }
-- 
2.43.0


From 5d0061ba130182e8377005f874f8ac5b02c14ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:59 +0000
Subject: [PATCH 03/61] fix: extracting a solver does not change the solver it
 is extracted from

---
 src/solver/by-substitution.cc | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/solver/by-substitution.cc b/src/solver/by-substitution.cc
index ed4b1b7..f301cc9 100644
--- a/src/solver/by-substitution.cc
+++ b/src/solver/by-substitution.cc
@@ -116,26 +116,17 @@ bool BySubstitution::add(const ImplicitPtr_t& nm, const std::size_t& priority) {
   return true;
 }
 
-// We need to replace each numerical constraint by its extracted copy as in
-// HierachicalIterative, but also to replace shared pointers to initial
-// constraints by shared pointer to extracted constraints in explicit constraint
-// set.
+// The copy constructor replaces each constraint by its copy, also in the
+// explicit constraint set of the copy. The constraints of this solver remain
+// unchanged.
 BySubstitution BySubstitution::extract(interval_t interval) {
   BySubstitution res(*this);
-  std::map<ImplicitPtr_t, ImplicitPtr_t> oldToNew;
-  NumericalConstraints_t::const_iterator oldIt = constraints_.begin();
-  for (NumericalConstraints_t::iterator newIt = res.constraints_.begin();
-       newIt != res.constraints_.end(); ++newIt) {
-    ImplicitPtr_t newC(*newIt);
-    ImplicitPtr_t oldC(*oldIt);
-    oldToNew[oldC] = newC;
-    if (newC->rightHandSideFunction()) {
-      newC->rightHandSideFunction(DifferentiableFunction::extract(
-          newC->rightHandSideFunction(), interval));
+  for (const ImplicitPtr_t& c : res.constraints_) {
+    if (c->rightHandSideFunction()) {
+      c->rightHandSideFunction(DifferentiableFunction::extract(
+          c->rightHandSideFunction(), interval));
     }
-    ++oldIt;
   }
-  explicit_.replace(oldToNew);
   return res;
 }
 
-- 
2.43.0


From 8de39c1f0de3a8888d947faee67c227e7c7b73b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:59 +0000
Subject: [PATCH 04/61] fix: isConstraintSatisfied takes inequality comparison
 types into account

---
 src/solver/hierarchical-iterative.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 76ba6be..8b2c7db 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -557,6 +557,13 @@ bool HierarchicalIterative::isConstraintSatisfied(
                          f->outputSpace());
   f->value(output, arg);
   error = output - rhs;
+  for (size_type i = 0; i < error.size(); ++i) {
+    const ComparisonType comparison(d.comparison[itIv->second + i]);
+    if (comparison == Superior)
+      compare<true, false>(error[i], d.jacobian, inequalityThreshold_);
+    else if (comparison == Inferior)
+      compare<false, false>(error[i], d.jacobian, inequalityThreshold_);
+  }
   constraint->setInactiveRowsToZero(error);
   return (error.squaredNorm() < squaredErrorThreshold_);
 }
-- 
2.43.0


From a0a35391a4ab98d46c9a87a2013bcb9422c4dd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:59 +0000
Subject: [PATCH 05/61] fix: inactive rows with inequality comparison have no
 error

---
 src/solver/hierarchical-iterative.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 8b2c7db..8f5b412 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -636,7 +636,6 @@ void HierarchicalIterative::computeValue(vectorIn_t config) const {
     assert(hpp::pinocchio::checkNormalized(d.output));
     assert(hpp::pinocchio::checkNormalized(d.rightHandSide));
     d.error = d.output - d.rightHandSide;
-    constraints.setInactiveRowsToZero(d.error);
     if (ComputeJac) {
       f.jacobian(d.jacobian, config);
       d.output.space()->dDifference_dq1<pinocchio::DerivativeTimesInput>(
@@ -644,6 +643,7 @@ void HierarchicalIterative::computeValue(vectorIn_t config) const {
     }
     applyComparison<ComputeJac>(d.comparison, d.inequalityIndices, d.error,
                                 d.jacobian, inequalityThreshold_);
+    constraints.setInactiveRowsToZero(d.error);
 
     // Copy columns that are not reduced
     if (ComputeJac) d.reducedJ = d.activeRowsOfJ.rview(d.jacobian);
-- 
2.43.0


From d756eaa4ebaefa2377370caf5a97db76c5a26016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:59 +0000
Subject: [PATCH 06/61] fix: optional last level of a solver without any level

---
 src/solver/hierarchical-iterative.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 8f5b412..89b6e7c 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -698,7 +698,8 @@ void HierarchicalIterative::getReducedJacobian(matrixOut_t J) const {
 
 void HierarchicalIterative::computeError() const {
   const std::size_t end =
-      (lastIsOptional_ ? stacks_.size() - 1 : stacks_.size());
+      (lastIsOptional_ && !stacks_.empty() ? stacks_.size() - 1
+                                           : stacks_.size());
   squaredNorm_ = 0;
   for (std::size_t i = 0; i < end; ++i) {
     const ImplicitConstraintSet::Implicits_t constraints(
@@ -839,7 +840,8 @@ std::ostream& HierarchicalIterative::print(std::ostream& os) const {
      << dimension() << iendl << "reduced dimension " << reducedDimension()
      << iendl << "free variables: " << freeVariables_ << incindent;
   const std::size_t end =
-      (lastIsOptional_ ? stacks_.size() - 1 : stacks_.size());
+      (lastIsOptional_ && !stacks_.empty() ? stacks_.size() - 1
+                                           : stacks_.size());
   for (std::size_t i = 0; i < stacks_.size(); ++i) {
     const ImplicitConstraintSet::Implicits_t constraints(
         stacks_[i].constraints());
-- 
2.43.0


From 91a9ed546675928d7732fb9eec9d68ea83b819fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:59 +0000
Subject: [PATCH 07/61] fix: initialize the descent direction when the first
 level has no active row

---
 src/solver/hierarchical-iterative.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 89b6e7c..26374f2 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -776,6 +776,8 @@ void HierarchicalIterative::computeDescentDirection() const {
     // dQ_1 = dQ_0 + P_0 * M+_1 * (-f_1(q) - J_1 * dQ_1)
     //  P_1 = P_0 * K_1
     matrix_t* projector = NULL;
+    // Levels without active rows are skipped below.
+    dqSmall_.setZero();
     for (std::size_t i = 0; i < stacks_.size(); ++i) {
       Data& d = datas_[i];
 
-- 
2.43.0


From 44bffc0376778666f61a9fe92acd01fcc8d3d98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:13 +0000
Subject: [PATCH 08/61] fix: solver with an empty priority level

---
 src/solver/hierarchical-iterative.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 26374f2..4c238ca 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -343,6 +343,8 @@ ArrayXb HierarchicalIterative::activeParameters() const {
 #endif
     const DifferentiableFunctionSet& dfs(
         dynamic_cast<const DifferentiableFunctionSet&>(stacks_[i].function()));
+    // An empty level has no active parameter (and an empty input space)
+    if (dfs.functions().empty()) continue;
     ap = ap || dfs.activeParameters();
   }
   return ap;
@@ -356,6 +358,7 @@ ArrayXb HierarchicalIterative::activeDerivativeParameters() const {
 #endif
     const DifferentiableFunctionSet& dfs(
         dynamic_cast<const DifferentiableFunctionSet&>(stacks_[i].function()));
+    if (dfs.functions().empty()) continue;
     ap = ap || dfs.activeDerivativeParameters();
   }
   return ap;
@@ -383,9 +386,10 @@ void HierarchicalIterative::update() {
     datas_[i].rightHandSide.setNeutral();
     datas_[i].error.resize(f.outputSpace()->nv());
 
-    assert(configSpace_->nv() == f.inputDerivativeSize());
-    datas_[i].jacobian.resize(f.outputDerivativeSize(),
-                              f.inputDerivativeSize());
+    // Levels below the highest priority may be empty
+    assert(f.functions().empty() ||
+           configSpace_->nv() == f.inputDerivativeSize());
+    datas_[i].jacobian.resize(f.outputDerivativeSize(), configSpace_->nv());
     datas_[i].jacobian.setZero();
     datas_[i].reducedJ.resize(datas_[i].activeRowsOfJ.nbRows(), reducedSize);
 
@@ -632,6 +636,7 @@ void HierarchicalIterative::computeValue(vectorIn_t config) const {
     const DifferentiableFunction& f = constraints.function();
     Data& d = datas_[i];
 
+    if (constraints.constraints().empty()) continue;
     f.value(d.output, config);
     assert(hpp::pinocchio::checkNormalized(d.output));
     assert(hpp::pinocchio::checkNormalized(d.rightHandSide));
-- 
2.43.0


From 941948ee7f12e3be3b55dd12fe3b1c2806cfde4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:56 +0000
Subject: [PATCH 09/61] fix: an error that is not a number is not satisfied

---
 src/explicit-constraint-set.cc       | 10 ++++++++--
 src/solver/hierarchical-iterative.cc | 18 ++++++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/explicit-constraint-set.cc b/src/explicit-constraint-set.cc
index 290d8e2..d651856 100644
--- a/src/explicit-constraint-set.cc
+++ b/src/explicit-constraint-set.cc
@@ -26,6 +26,7 @@
 // OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH
 // DAMAGE.
 
+#include <cmath>
 #include <hpp/constraints/explicit-constraint-set.hh>
 #include <hpp/constraints/explicit.hh>
 #include <hpp/constraints/matrix-view.hh>
@@ -33,6 +34,7 @@
 #include <hpp/pinocchio/liegroup.hh>
 #include <hpp/pinocchio/util.hh>
 #include <hpp/util/indent.hh>
+#include <limits>
 #include <queue>
 
 namespace hpp {
@@ -78,8 +80,12 @@ bool ExplicitConstraintSet::isSatisfied(vectorIn_t arg, vectorOut_t error,
     size_type nRows(h.outputSpace()->nv());
     assert(*(d.h_value.space()) == *(d.rhs_implicit.space()));
     error.segment(row, nRows) = d.h_value - d.rhs_implicit;
-    squaredNorm =
-        std::max(squaredNorm, error.segment(row, nRows).squaredNorm());
+    const value_type n = error.segment(row, nRows).squaredNorm();
+    // std::max would ignore an error that is not a number.
+    if (std::isnan(n))
+      squaredNorm = std::numeric_limits<value_type>::infinity();
+    else
+      squaredNorm = std::max(squaredNorm, n);
     row += nRows;
   }
   assert(row == error.size());
diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 4c238ca..c7a1efc 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -28,6 +28,7 @@
 
 #include <boost/serialization/shared_ptr.hpp>
 #include <boost/serialization/vector.hpp>
+#include <cmath>
 #include <hpp/constraints/implicit.hh>
 #include <hpp/constraints/macros.hh>
 #include <hpp/constraints/solver/hierarchical-iterative.hh>
@@ -713,8 +714,12 @@ void HierarchicalIterative::computeError() const {
     size_type iv = 0;
     for (std::size_t j = 0; j < constraints.size(); ++j) {
       size_type nv(constraints[j]->function().outputDerivativeSize());
-      squaredNorm_ =
-          std::max(squaredNorm_, d.error.segment(iv, nv).squaredNorm());
+      const value_type n = d.error.segment(iv, nv).squaredNorm();
+      // std::max would ignore an error that is not a number.
+      if (std::isnan(n))
+        squaredNorm_ = std::numeric_limits<value_type>::infinity();
+      else
+        squaredNorm_ = std::max(squaredNorm_, n);
       iv += nv;
     }
   }
@@ -759,6 +764,14 @@ void HierarchicalIterative::computeDescentDirection() const {
     dq_.setZero();
     return;
   }
+  // There is no descent direction if the linearized system is not finite.
+  for (const Data& d : datas_) {
+    if (!d.error.allFinite() || !d.reducedJ.allFinite()) {
+      dqSmall_.setZero();
+      dq_.setZero();
+      return;
+    }
+  }
   vector_t err;
   if (stacks_.size() == 1) {  // one level only
     Data& d = datas_[0];
@@ -832,6 +845,7 @@ void HierarchicalIterative::computeDescentDirection() const {
       projector = &d.PK;
     }
   }
+  if (!std::isfinite(dqSmall_.squaredNorm())) dqSmall_.setZero();
   expandDqSmall();
 }
 
-- 
2.43.0


From 3a58c40248caace3e1358bf66be892a768b326a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:37 +0000
Subject: [PATCH 10/61] fix: a solver restored from an archive has the options
 and free variables of the solver saved

---
 src/solver/by-substitution.cc        |  1 +
 src/solver/hierarchical-iterative.cc | 11 ++++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/solver/by-substitution.cc b/src/solver/by-substitution.cc
index f301cc9..33ed9fa 100644
--- a/src/solver/by-substitution.cc
+++ b/src/solver/by-substitution.cc
@@ -380,6 +380,7 @@ void BySubstitution::load(Archive& ar, const unsigned int version) {
   ar& BOOST_SERIALIZATION_NVP(space);
   explicit_.init(space);
   ar& make_nvp("base", base_object<HierarchicalIterative>(*this));
+  explicit_.errorThreshold(errorThreshold());
 }
 
 template <class Archive>
diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index c7a1efc..84ee860 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -27,6 +27,7 @@
 // DAMAGE.
 
 #include <boost/serialization/shared_ptr.hpp>
+#include <boost/serialization/utility.hpp>
 #include <boost/serialization/vector.hpp>
 #include <cmath>
 #include <hpp/constraints/implicit.hh>
@@ -905,9 +906,10 @@ void HierarchicalIterative::load(Archive& ar, const unsigned int version) {
   ar& BOOST_SERIALIZATION_NVP(maxIterations_);
   ar& BOOST_SERIALIZATION_NVP(configSpace_);
   ar& BOOST_SERIALIZATION_NVP(lastIsOptional_);
+  ar& BOOST_SERIALIZATION_NVP(solveLevelByLevel_);
   ar& BOOST_SERIALIZATION_NVP(saturate_);
 
-  saturation_.resize(configSpace_->nq());
+  saturation_.resize(configSpace_->nv());
   qSat_.resize(configSpace_->nq());
   OM_.resize(configSpace_->nv());
   OP_.resize(configSpace_->nv());
@@ -921,6 +923,10 @@ void HierarchicalIterative::load(Archive& ar, const unsigned int version) {
 
   for (std::size_t i = 0; i < constraints.size(); ++i)
     add(constraints[i], priorities[i]);
+
+  std::vector<segment_t> freeVariables;
+  ar& BOOST_SERIALIZATION_NVP(freeVariables);
+  this->freeVariables(freeVariables);
   // TODO load the right hand side.
 }
 
@@ -933,6 +939,7 @@ void HierarchicalIterative::save(Archive& ar,
   ar& BOOST_SERIALIZATION_NVP(maxIterations_);
   ar& BOOST_SERIALIZATION_NVP(configSpace_);
   ar& BOOST_SERIALIZATION_NVP(lastIsOptional_);
+  ar& BOOST_SERIALIZATION_NVP(solveLevelByLevel_);
   ar& BOOST_SERIALIZATION_NVP(saturate_);
   ar& BOOST_SERIALIZATION_NVP(constraints_);
   std::vector<std::size_t> priorities(constraints_.size());
@@ -947,6 +954,8 @@ void HierarchicalIterative::save(Archive& ar,
       priorities[i] = c->second;
   }
   ar& BOOST_SERIALIZATION_NVP(priorities);
+  std::vector<segment_t> freeVariables(freeVariables_.indices());
+  ar& BOOST_SERIALIZATION_NVP(freeVariables);
   // TODO save the right hand side.
 }
 
-- 
2.43.0


From a650bf2642b32079489d293360d58ac08ba967db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:37 +0000
Subject: [PATCH 11/61] fix: serialize all members of saturation::Bounds

---
 src/solver/hierarchical-iterative.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 84ee860..e273688 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -987,6 +987,7 @@ void serialize(Archive& ar, saturation::Bounds& o, const unsigned int version) {
                                                          version);
   hpp::serialization::remove_duplicate::serialize_vector(ar, "ub", o.ub,
                                                          version);
+  ar& make_nvp("iq2iv", o.iq2iv_);
 }
 }  // namespace serialization
 }  // namespace boost
-- 
2.43.0


From e06479346c0ef275373330c8ece8358abee3dbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:37 +0000
Subject: [PATCH 12/61] fix: ConvexShapeContact evaluations do not share a
 relative transformation model

---
 .../hpp/constraints/convex-shape-contact.hh   |  2 +-
 src/convex-shape-contact.cc                   | 32 +++++++++++--------
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/include/hpp/constraints/convex-shape-contact.hh b/include/hpp/constraints/convex-shape-contact.hh
index d64894b..f599da8 100644
--- a/include/hpp/constraints/convex-shape-contact.hh
+++ b/include/hpp/constraints/convex-shape-contact.hh
@@ -244,7 +244,7 @@ class HPP_CONSTRAINTS_DLLAPI ConvexShapeContact
                           const ConvexShape& floor) const;
 
   DevicePtr_t robot_;
-  mutable GenericTransformationModel<true> relativeTransformationModel_;
+  GenericTransformationModel<true> relativeTransformationModel_;
 
   ConvexShapes_t objectConvexShapes_;
   ConvexShapes_t floorConvexShapes_;
diff --git a/src/convex-shape-contact.cc b/src/convex-shape-contact.cc
index e58dd9d..fb40a6b 100644
--- a/src/convex-shape-contact.cc
+++ b/src/convex-shape-contact.cc
@@ -168,7 +168,9 @@ void ConvexShapeContact::computeInternalValue(const ConfigurationIn_t& argument,
                                               vector6_t& value,
                                               std::size_t& iobject,
                                               std::size_t& ifloor) const {
-  GTDataV<true, true, true, false> data(relativeTransformationModel_, robot_);
+  // Local copy: the members may be modified by several threads.
+  GenericTransformationModel<true> model(relativeTransformationModel_);
+  GTDataV<true, true, true, false> data(model, robot_);
 
   data.device.currentConfiguration(argument);
   data.device.computeForwardKinematics(pinocchio::JOINT_POSITION);
@@ -178,12 +180,12 @@ void ConvexShapeContact::computeInternalValue(const ConfigurationIn_t& argument,
       floor(floorConvexShapes_[ifloor]);
   type = contactType(object, floor);
 
-  relativeTransformationModel_.joint1 = floor.joint_;
-  relativeTransformationModel_.joint2 = object.joint_;
-  relativeTransformationModel_.F1inJ1 = floor.positionInJoint();
-  relativeTransformationModel_.F2inJ2 = object.positionInJoint();
-  relativeTransformationModel_.checkIsIdentity1();
-  relativeTransformationModel_.checkIsIdentity2();
+  model.joint1 = floor.joint_;
+  model.joint2 = object.joint_;
+  model.F1inJ1 = floor.positionInJoint();
+  model.F2inJ2 = object.positionInJoint();
+  model.checkIsIdentity1();
+  model.checkIsIdentity2();
 
   compute<true, true, true, false>::error(data);
   value = data.value;
@@ -227,7 +229,9 @@ void ConvexShapeContact::computeInternalJacobian(
     matrix_t& jacobian) const {
   static std::vector<bool> mask(6, true);
 
-  GTDataJ<true, true, true, false> data(relativeTransformationModel_, robot_);
+  // Local copy: the members may be modified by several threads.
+  GenericTransformationModel<true> model(relativeTransformationModel_);
+  GTDataJ<true, true, true, false> data(model, robot_);
 
   data.device.currentConfiguration(argument);
   data.device.computeForwardKinematics(pinocchio::JOINT_POSITION |
@@ -239,12 +243,12 @@ void ConvexShapeContact::computeInternalJacobian(
       floor(floorConvexShapes_[ifloor]);
   type = contactType(object, floor);
 
-  relativeTransformationModel_.joint1 = floor.joint_;
-  relativeTransformationModel_.joint2 = object.joint_;
-  relativeTransformationModel_.F1inJ1 = floor.positionInJoint();
-  relativeTransformationModel_.F2inJ2 = object.positionInJoint();
-  relativeTransformationModel_.checkIsIdentity1();
-  relativeTransformationModel_.checkIsIdentity2();
+  model.joint1 = floor.joint_;
+  model.joint2 = object.joint_;
+  model.F1inJ1 = floor.positionInJoint();
+  model.F2inJ2 = object.positionInJoint();
+  model.checkIsIdentity1();
+  model.checkIsIdentity2();
   data.cross2.setZero();
 
   compute<true, true, true, false>::error(data);
-- 
2.43.0


From 327ff065da432920386297b7172f5d27399a8f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:37 +0000
Subject: [PATCH 13/61] fix: compare the shapes of convex shape contact
 functions

---
 src/convex-shape-contact.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/convex-shape-contact.cc b/src/convex-shape-contact.cc
index fb40a6b..6f3495c 100644
--- a/src/convex-shape-contact.cc
+++ b/src/convex-shape-contact.cc
@@ -74,7 +74,12 @@ bool ConvexShapeContact::isEqual(const DifferentiableFunction& other) const {
   if (robot_ != castother.robot_) return false;
   if (objectConvexShapes_.size() != castother.objectConvexShapes_.size())
     return false;
+  if (floorConvexShapes_.size() != castother.floorConvexShapes_.size())
+    return false;
   for (std::size_t i = 0; i < objectConvexShapes_.size(); i++)
+    if (objectConvexShapes_[i] != castother.objectConvexShapes_[i])
+      return false;
+  for (std::size_t i = 0; i < floorConvexShapes_.size(); i++)
     if (floorConvexShapes_[i] != castother.floorConvexShapes_[i]) return false;
   return true;
 }
@@ -510,8 +515,12 @@ bool ConvexShapeContactHold::isEqual(
   const ConvexShapeContactHold& castother =
       dynamic_cast<const ConvexShapeContactHold&>(other);
   if (!DifferentiableFunction::isEqual(other)) return false;
-  if (constraint_ != castother.constraint_) return false;
-  if (complement_ != castother.complement_) return false;
+  if (constraint_ != castother.constraint_ &&
+      *constraint_ != *castother.constraint_)
+    return false;
+  if (complement_ != castother.complement_ &&
+      *complement_ != *castother.complement_)
+    return false;
   return true;
 }
 
-- 
2.43.0


From feaa6ff204305da231957f933d963b43d94c6420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:37 +0000
Subject: [PATCH 14/61] fix: RelativeCom evaluations do not share a matrix

---
 include/hpp/constraints/relative-com.hh |  1 -
 src/relative-com.cc                     | 13 ++++++-------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/hpp/constraints/relative-com.hh b/include/hpp/constraints/relative-com.hh
index f7428b1..0594fd6 100644
--- a/include/hpp/constraints/relative-com.hh
+++ b/include/hpp/constraints/relative-com.hh
@@ -124,7 +124,6 @@ class HPP_CONSTRAINTS_DLLAPI RelativeCom : public DifferentiableFunction {
   vector3_t reference_;
   std::vector<bool> mask_;
   bool nominalCase_;
-  mutable ComJacobian_t jacobian_;
 
   RelativeCom() {}
   HPP_SERIALIZABLE();
diff --git a/src/relative-com.cc b/src/relative-com.cc
index 9d55649..7df39dc 100644
--- a/src/relative-com.cc
+++ b/src/relative-com.cc
@@ -95,10 +95,8 @@ RelativeCom::RelativeCom(const DevicePtr_t& robot,
       joint_(joint),
       reference_(reference),
       mask_(mask),
-      nominalCase_(false),
-      jacobian_(3, robot->numberDof() - robot->extraConfigSpace().dimension()) {
+      nominalCase_(false) {
   if (mask[0] && mask[1] && mask[2]) nominalCase_ = true;
-  jacobian_.setZero();
 }
 
 std::ostream& RelativeCom::print(std::ostream& o) const {
@@ -151,19 +149,20 @@ void RelativeCom::impl_jacobian(matrixOut_t jacobian,
   jacobian.rightCols(jacobian.cols() - Jjoint.cols()).setZero();
   // Left part
   // J = 0RTj ( Jcom + [ x - 0tj ]x 0Rj jJwj - 0Rj jJtj)
-  jacobian_ = R.transpose() * Jcom;
-  jacobian_.noalias() +=
+  // Not a member: it may be modified by several threads.
+  ComJacobian_t J(R.transpose() * Jcom);
+  J.noalias() +=
       (R.transpose() * R.colwise().cross(t - x)) * Jjoint.bottomRows<3>();
 
   if (nominalCase_) {
     jacobian.leftCols(Jjoint.cols()).noalias() =
-        jacobian_ - Jjoint.topRows<3>();
+        J - Jjoint.topRows<3>();
   } else {
     size_t index = 0;
     for (size_t i = 0; i < 3; ++i)
       if (mask_[i]) {
         jacobian.row(index).head(Jjoint.cols()) =
-            jacobian_.row(i) - Jjoint.row(i);
+            J.row(i) - Jjoint.row(i);
         index++;
       }
   }
-- 
2.43.0


From 46fec86d98b53d683fc0e9f6407f2e3036bf0c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:37 +0000
Subject: [PATCH 15/61] fix: arguments of partial locked joints are in the
 right order

---
 src/locked-joint.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/locked-joint.cc b/src/locked-joint.cc
index 84ca65a..09c0ac1 100644
--- a/src/locked-joint.cc
+++ b/src/locked-joint.cc
@@ -130,13 +130,13 @@ LockedJoint::LockedJoint(const JointPtr_t& joint, const size_type index,
                        value, LiegroupSpace::Rn(joint->configSize() - index)),
                    0, 0, "partial " + joint->name()),
                segments_t(),  // input conf
-               segments_t(),  // input vel
-               {segment_t(joint->rankInConfiguration(),
+               {segment_t(joint->rankInConfiguration() + index,
                           joint->configSize() - index)},  // output conf
-               {segment_t(joint->rankInVelocity(),
+               segments_t(),                              // input vel
+               {segment_t(joint->rankInVelocity() + index,
                           joint->numberDof() - index)},  // output vel
                ComparisonTypes_t(joint->numberDof() - index, Equality),
-               std::vector<bool>(joint->numberDof(), true)),
+               std::vector<bool>(joint->numberDof() - index, true)),
       jointName_("partial_" + joint->name()),
       joint_(joint),
       configSpace_(LiegroupSpace::Rn(joint->configSize() - index)) {
@@ -153,10 +153,10 @@ LockedJoint::LockedJoint(const DevicePtr_t& dev, const size_type index,
                    LiegroupElement(value, LiegroupSpace::Rn(value.size())), 0,
                    0, dev->name() + "_extraDof" + numToStr(index)),
                segments_t(),  // input conf
-               segments_t(),  // input vel
                {segment_t(dev->configSize() -
                               dev->extraConfigSpace().dimension() + index,
                           value.size())},  // output conf
+               segments_t(),               // input vel
                {segment_t(dev->numberDof() -
                               dev->extraConfigSpace().dimension() + index,
                           value.size())},  // output vel
-- 
2.43.0


From f588d2317849a562f3f90ed721e99a69b97fb5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:37 +0000
Subject: [PATCH 16/61] fix: print a locked joint

---
 src/locked-joint.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/locked-joint.cc b/src/locked-joint.cc
index 09c0ac1..6dfd277 100644
--- a/src/locked-joint.cc
+++ b/src/locked-joint.cc
@@ -178,9 +178,9 @@ void LockedJoint::init(const LockedJointPtr_t& self) {
 }
 
 std::ostream& LockedJoint::print(std::ostream& os) const {
-  LiegroupElement v;
+  LiegroupElement v(explicitFunction()->outputSpace());
   vector_t empty;
-  function().value(v, empty);
+  explicitFunction()->value(v, empty);
   os << "Locked joint " << jointName_
      << ", value = " << pinocchio::displayConfig(v.vector())
      << ": rank in configuration = " << rankInConfiguration()
-- 
2.43.0


From 4c04a150ab026fb161a3406b58eb5e671ed6d7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:37 +0000
Subject: [PATCH 17/61] fix: Jacobian of an extracted function is evaluated at
 the same parameter as its value

---
 src/extracted-function.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extracted-function.hh b/src/extracted-function.hh
index 91c3335..a119dc7 100644
--- a/src/extracted-function.hh
+++ b/src/extracted-function.hh
@@ -69,7 +69,7 @@ class ExtractedFunction : public DifferentiableFunction {
       original_->jacobian(jacobian, param);
       jacobian *= -1;
     } else {
-      param[0] = arg[0] - t1_;
+      param[0] = t1_ + arg[0];
       return original_->jacobian(jacobian, param);
     }
   }
-- 
2.43.0


From aad75ebb86a18e21a50845f54a0af5b78dd5adf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:37 +0000
Subject: [PATCH 18/61] fix: Jacobian of distance functions does not depend on
 the state of the robot

---
 src/distance-between-bodies.cc           | 4 ++++
 src/distance-between-points-in-bodies.cc | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/distance-between-bodies.cc b/src/distance-between-bodies.cc
index a22ac78..76a760a 100644
--- a/src/distance-between-bodies.cc
+++ b/src/distance-between-bodies.cc
@@ -131,6 +131,10 @@ void DistanceBetweenBodies::impl_jacobian(matrixOut_t jacobian,
                                           ConfigurationIn_t arg) const {
   LiegroupElement dist(outputSpace());
   impl_compute(dist, arg);
+  // The value may come from the cache while the robot has been moved.
+  robot_->currentConfiguration(arg);
+  robot_->computeForwardKinematics(pinocchio::JOINT_POSITION |
+                                   pinocchio::JACOBIAN);
   const JointJacobian_t& J1(joint1_->jacobian());
   const Transform3s& M1(joint1_->currentTransformation());
   const matrix3_t& R1(M1.rotation());
diff --git a/src/distance-between-points-in-bodies.cc b/src/distance-between-points-in-bodies.cc
index 0d70832..2e5f52d 100644
--- a/src/distance-between-points-in-bodies.cc
+++ b/src/distance-between-points-in-bodies.cc
@@ -123,6 +123,10 @@ void DistanceBetweenPointsInBodies::impl_jacobian(matrixOut_t jacobian,
                                                   ConfigurationIn_t arg) const {
   LiegroupElement dist(outputSpace());
   impl_compute(dist, arg);
+  // The value may come from the cache while the robot has been moved.
+  robot_->currentConfiguration(arg);
+  robot_->computeForwardKinematics(pinocchio::JOINT_POSITION |
+                                   pinocchio::JACOBIAN);
   const JointJacobian_t& J1(joint1_->jacobian());
   const Transform3s& M1(joint1_->currentTransformation());
   const matrix3_t& R1(M1.rotation());
-- 
2.43.0


From 0b146ca9b05d4121591a810f35378722365f1ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:37 +0000
Subject: [PATCH 19/61] fix: solver without active row succeeds if the
 constraints are satisfied

---
 include/hpp/constraints/solver/impl/by-substitution.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/hpp/constraints/solver/impl/by-substitution.hh b/include/hpp/constraints/solver/impl/by-substitution.hh
index a02dbd4..f3a0a4a 100644
--- a/include/hpp/constraints/solver/impl/by-substitution.hh
+++ b/include/hpp/constraints/solver/impl/by-substitution.hh
@@ -79,7 +79,8 @@ inline HierarchicalIterative::Status BySubstitution::impl_solve(
   }
 
   bool errorIsAboveThr = (squaredNorm_ > .25 * squaredErrorThreshold_);
-  if (errorIsAboveThr && reducedDimension_ == 0) return INFEASIBLE;
+  if (errorIsAboveThr && reducedDimension_ == 0)
+    return (errorWasBelowThr && !optimize) ? SUCCESS : INFEASIBLE;
   if (optimize && !errorIsAboveThr) qopt = arg;
 
   Status status = SUCCESS;
-- 
2.43.0


From 128bc03f15148dba05996de222c67c1b6fed0cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:37 +0000
Subject: [PATCH 20/61] fix: no cost to optimize in a solver without any level

---
 include/hpp/constraints/solver/impl/by-substitution.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp/constraints/solver/impl/by-substitution.hh b/include/hpp/constraints/solver/impl/by-substitution.hh
index f3a0a4a..c2bef37 100644
--- a/include/hpp/constraints/solver/impl/by-substitution.hh
+++ b/include/hpp/constraints/solver/impl/by-substitution.hh
@@ -38,7 +38,7 @@ typedef Eigen::NumTraits<value_type> NumTraits;
 template <typename LineSearchType>
 inline HierarchicalIterative::Status BySubstitution::impl_solve(
     vectorOut_t arg, bool _optimize, LineSearchType lineSearch) const {
-  bool optimize = _optimize && lastIsOptional_;
+  bool optimize = _optimize && lastIsOptional_ && !stacks_.empty();
   assert(!arg.hasNaN());
 
   // An explicit constraint may be defined over only a subspace of its input
-- 
2.43.0


From b49eea3b73c7458c8fb0b1e9d9c462273d90ea4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:53 +0000
Subject: [PATCH 21/61] fix: right hand side from configuration of a solver
 with an empty priority level

---
 src/solver/hierarchical-iterative.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index e273688..ff29346 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -444,6 +444,7 @@ vector_t HierarchicalIterative::rightHandSideFromConfig(
   for (std::size_t i = 0; i < stacks_.size(); ++i) {
     ImplicitConstraintSet& ics = stacks_[i];
     Data& d = datas_[i];
+    if (ics.constraints().empty()) continue;
     ics.rightHandSideFromConfig(config, d.rightHandSide);
   }
   return rightHandSide();
-- 
2.43.0


From dbe4970be34e34cccd63442377747d42a413f54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:54 +0000
Subject: [PATCH 22/61] fix: a copy of a solver does not share output spaces
 with the original

---
 src/solver/hierarchical-iterative.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index ff29346..3664024 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -252,6 +252,14 @@ HierarchicalIterative::HierarchicalIterative(const HierarchicalIterative& other)
   for (auto& ics : stacks_) {
     ics.replace(oldToNew);
   }
+  // The output space of a level grows when a constraint is added: it should
+  // not be shared with the solver that is copied.
+  for (std::size_t i = 0; i < stacks_.size(); ++i) {
+    const LiegroupSpacePtr_t& space(stacks_[i].function().outputSpace());
+    const Data& d(other.datas_[i]);
+    datas_[i].output = LiegroupElement(d.output.vector(), space);
+    datas_[i].rightHandSide = LiegroupElement(d.rightHandSide.vector(), space);
+  }
 }
 
 bool HierarchicalIterative::contains(
-- 
2.43.0


From 61c98889930b9501a478da365b711f2f0a16c652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:54 +0000
Subject: [PATCH 23/61] fix: descent direction of a single level without active
 row

---
 src/solver/hierarchical-iterative.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 3664024..ff4111d 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -785,6 +785,11 @@ void HierarchicalIterative::computeDescentDirection() const {
   vector_t err;
   if (stacks_.size() == 1) {  // one level only
     Data& d = datas_[0];
+    if (d.reducedJ.size() == 0) {
+      dq_.setZero();
+      dqSmall_.setZero();
+      return;
+    }
     d.svd.compute(d.reducedJ);
     HPP_DEBUG_SVDCHECK(d.svd);
     // TODO Eigen::JacobiSVD does a dynamic allocation here.
@@ -811,7 +816,7 @@ void HierarchicalIterative::computeDescentDirection() const {
 
       // TODO: handle case where this is the first element of the stack and it
       // has no functions
-      if (d.reducedJ.rows() == 0) continue;
+      if (d.reducedJ.size() == 0) continue;
       /// projector is of size numberDof
       bool first = (i == 0);
       bool last = (i == stacks_.size() - 1);
-- 
2.43.0


From a639596521407dfcb3e90ee0ddc8114f3b24dd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:54 +0000
Subject: [PATCH 24/61] fix: number of singular values may be lower than the
 maximal rank

---
 src/solver/hierarchical-iterative.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index ff4111d..5b92d7f 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -845,8 +845,11 @@ void HierarchicalIterative::computeDescentDirection() const {
       // Update sigma
       const size_type rank = d.svd.rank();
       d.maxRank = std::max(d.maxRank, rank);
-      if (d.maxRank > 0)
-        sigma_ = std::min(sigma_, d.svd.singularValues()[d.maxRank - 1]);
+      // The projector may have less columns than at a previous iteration.
+      const size_type nbSv =
+          std::min<size_type>(d.maxRank, d.svd.singularValues().size());
+      if (nbSv > 0)
+        sigma_ = std::min(sigma_, d.svd.singularValues()[nbSv - 1]);
       if (solveLevelByLevel_ && err.squaredNorm() > squaredErrorThreshold_)
         break;
       if (last) break;  // No need to compute projector for next step.
-- 
2.43.0


From 732108ee80b4004ac9d3427a270899dff8342ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:19 +0000
Subject: [PATCH 25/61] fix: extract an empty set of segments

---
 src/matrix-view.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/matrix-view.cc b/src/matrix-view.cc
index 21afd39..99af876 100644
--- a/src/matrix-view.cc
+++ b/src/matrix-view.cc
@@ -211,6 +211,8 @@ BlockIndex::segments_t BlockIndex::extract(const segments_t& segments,
                                            size_type cardinal) {
   assert(start >= 0);
   assert(cardinal >= 0);
+  // segments may be empty
+  if (cardinal == 0) return segments_t();
   assert(segments[0].first >= 0);
   assert(start + cardinal <= BlockIndex::cardinal(segments));
   segments_t result;
-- 
2.43.0


From a9a71548d8f956e2ea247d7ebaeef9f411c56e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:19 +0000
Subject: [PATCH 26/61] fix: Jacobian blocks of implicit functions with several
 elementary Lie groups

---
 src/explicit/implicit-function.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/explicit/implicit-function.cc b/src/explicit/implicit-function.cc
index 717b192..bf88809 100644
--- a/src/explicit/implicit-function.cc
+++ b/src/explicit/implicit-function.cc
@@ -252,19 +252,19 @@ void ImplicitFunction::impl_jacobian(matrixOut_t jacobian,
 void ImplicitFunction::computeJacobianBlocks() {
   segments_t remainingCols(outputDerivIntervals_.indices());
   segments_t cols;
-  size_type iv = 0, nv;
+  size_type nv;
   std::size_t rank = 0;
   for (std::vector<LiegroupType>::const_iterator it =
            inputToOutput_->outputSpace()->liegroupTypes().begin();
        it != inputToOutput_->outputSpace()->liegroupTypes().end(); ++it) {
     nv = inputToOutput_->outputSpace()->nv(rank);
     cols = BlockIndex::split(remainingCols, nv);
-    segments_t rows(1, std::make_pair(iv, nv));
+    // Rows are relative to the set of lines of the elementary Lie group.
+    segments_t rows(1, std::make_pair(size_type(0), nv));
     outJacobian_.push_back(Eigen::MatrixBlocks<false, false>(rows, cols));
     inJacobian_.push_back(Eigen::MatrixBlocks<false, false>(
         rows, inputDerivIntervals_.indices()));
     //
-    iv += nv;
     ++rank;
   }
 }
-- 
2.43.0


From 46f11d0cd7c5373f3302fd67270b25e0d310fd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:50 +0000
Subject: [PATCH 27/61] fix: right hand side of constraints with values in
 SE(2) or SE(3)

---
 src/implicit.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/implicit.cc b/src/implicit.cc
index 16a46fe..637712b 100644
--- a/src/implicit.cc
+++ b/src/implicit.cc
@@ -214,14 +214,16 @@ void Implicit::rightHandSideFromConfig(ConfigurationIn_t config,
   assert(*rhs.space() == *function_->outputSpace());
   function_->value(output_, config);
   logOutput_.setZero();
-  equalityIndices_.lview(logOutput_) = equalityIndices_.rview(log(output_));
+  // hpp::pinocchio::log is not implemented for SE(2) and SE(3).
+  equalityIndices_.lview(logOutput_) =
+      equalityIndices_.rview(output_ - output_.space()->neutral());
   // rhs = exp(logOutput_)
   rhs = rhs.space()->exp(logOutput_);
 }
 
 bool Implicit::checkRightHandSide(LiegroupElementConstRef rhs) const {
   if (rhs.space() != function_->outputSpace()) return false;
-  logOutput_ = log(rhs);
+  logOutput_ = rhs - rhs.space()->neutral();
   for (std::size_t i = 0; i < comparison_.size(); ++i)
     if ((comparison_[i] != Equality) && (logOutput_[i] != 0)) return false;
 
-- 
2.43.0


From 3d999f8ba386a6b97cb6925296561f1a7a0b7490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:05 +0000
Subject: [PATCH 28/61] fix: equality of Manipulability functions does not
 depend on temporary data

---
 include/hpp/constraints/manipulability.hh | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/hpp/constraints/manipulability.hh b/include/hpp/constraints/manipulability.hh
index 52efbbe..66edead 100644
--- a/include/hpp/constraints/manipulability.hh
+++ b/include/hpp/constraints/manipulability.hh
@@ -72,8 +72,6 @@ class HPP_CONSTRAINTS_DLLAPI Manipulability : public DifferentiableFunction {
     if (function_ != castother.function_) return false;
     if (robot_ != castother.robot_) return false;
     if (cols_.cols() != castother.cols_.cols()) return false;
-    if (J_ != castother.J_) return false;
-    if (J_JT_ != castother.J_JT_) return false;
 
     return true;
   }
-- 
2.43.0


From 36058d5a763c664d0fc26fea592208ba729c2e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:42 +0000
Subject: [PATCH 29/61] fix: inequality rows that are not a number are not
 satisfied

---
 src/solver/hierarchical-iterative.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 5b92d7f..273f95c 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -56,7 +56,8 @@ namespace {
 template <bool Superior, bool ComputeJac, typename Derived>
 void compare(value_type& val, const Eigen::MatrixBase<Derived>& jac,
              const value_type& thr) {
-  if ((Superior && val < thr) || (!Superior && -thr < val)) {
+  // a value that is not a number is an error
+  if (!(Superior ? val >= thr : val <= -thr)) {
     if (Superior)
       val -= thr;
     else
-- 
2.43.0


From 53c689e79cabd4763ee52bc9d290c5e8ab1a965a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:46 +0000
Subject: [PATCH 30/61] fix: equality of constant functions

---
 include/hpp/constraints/affine-function.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp/constraints/affine-function.hh b/include/hpp/constraints/affine-function.hh
index 616f6a6..04d7968 100644
--- a/include/hpp/constraints/affine-function.hh
+++ b/include/hpp/constraints/affine-function.hh
@@ -183,7 +183,7 @@ struct HPP_CONSTRAINTS_DLLAPI ConstantFunction : public DifferentiableFunction {
         dynamic_cast<const ConstantFunction&>(other);
     if (!DifferentiableFunction::isEqual(other)) return false;
 
-    if (c_.vector() == castother.c_.vector()) return false;
+    if (c_.vector() != castother.c_.vector()) return false;
 
     return true;
   }
-- 
2.43.0


From aee52cb0d6edf7f0bb204f8f898ba7b4911cc34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:41 +0000
Subject: [PATCH 31/61] fix: weights of ConfigurationConstraint apply before
 the derivative of the difference

---
 src/configuration-constraint.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/configuration-constraint.cc b/src/configuration-constraint.cc
index e77c64f..2b25a4e 100644
--- a/src/configuration-constraint.cc
+++ b/src/configuration-constraint.cc
@@ -117,14 +117,12 @@ void ConfigurationConstraint::impl_jacobian(matrixOut_t jacobian,
   using namespace hpp::pinocchio;
 
   LiegroupElementConstRef a(argument, goal_.space());
-  jacobian.leftCols(robot_->numberDof()).noalias() = (goal_ - a).transpose();
+  jacobian.leftCols(robot_->numberDof()).noalias() =
+      weights_.cwiseProduct(goal_ - a).transpose();
 
   // Apply jacobian of the difference on the right.
   goal_.space()->dDifference_dq0<pinocchio::InputTimesDerivative>(
       argument, goal_.vector(), jacobian.leftCols(robot_->numberDof()));
-
-  jacobian.leftCols(robot_->numberDof()).array() *=
-      weights_.array().transpose();
 }
 }  // namespace constraints
 }  // namespace hpp
-- 
2.43.0


From ef52d362559b51f7858b6f50b0c78d190a9ca6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:25 +0000
Subject: [PATCH 32/61] fix: a diverging solve does not end with a
 configuration that is not a number

---
 src/solver/hierarchical-iterative.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 273f95c..23c7d73 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -739,9 +739,12 @@ void HierarchicalIterative::computeError() const {
 bool HierarchicalIterative::integrate(vectorIn_t from, vectorIn_t velocity,
                                       vectorOut_t result) const {
   typedef pinocchio::LiegroupElementRef LgeRef_t;
-  result = from;
+  const vector_t origin(from);
+  result = origin;
   LgeRef_t M(result, configSpace_);
   M += velocity;
+  // a step that cannot be represented is not made
+  if (!result.allFinite()) result = origin;
   return saturate_->saturate(result, result, saturation_);
 }
 
-- 
2.43.0


From 070cf0b4c6d13e6a40eeb9efc4c5be43de6bc074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:47 +0000
Subject: [PATCH 33/61] fix: input segments of an explicit constraint may be in
 any order

---
 src/explicit-constraint-set.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/explicit-constraint-set.cc b/src/explicit-constraint-set.cc
index d651856..6d008ff 100644
--- a/src/explicit-constraint-set.cc
+++ b/src/explicit-constraint-set.cc
@@ -216,7 +216,10 @@ size_type ExplicitConstraintSet::add(const ExplicitPtr_t& constraint) {
   notOutArgs_ = RowBlockIndices(
       BlockIndex::difference(BlockIndex::segment_t(0, nq), outArgs_.indices()));
 
-  BlockIndex::add(inArgs_.m_rows, inArg.rows());
+  // Input segments of the constraint may be given in any order.
+  RowBlockIndices sortedInArg(constraint->inputConf());
+  sortedInArg.updateRows<true, true, true>();
+  BlockIndex::add(inArgs_.m_rows, sortedInArg.rows());
   inArgs_ =
       RowBlockIndices(BlockIndex::difference(inArgs_.rows(), outArgs_.rows()));
   // should be sorted already
@@ -227,8 +230,9 @@ size_type ExplicitConstraintSet::add(const ExplicitPtr_t& constraint) {
   notOutDers_ = ColBlockIndices(
       BlockIndex::difference(BlockIndex::segment_t(0, nv), outDers_.indices()));
 
-  BlockIndex::add(inDers_.m_cols,
-                  ColBlockIndices(constraint->inputVelocity()).cols());
+  ColBlockIndices sortedInDer(constraint->inputVelocity());
+  sortedInDer.updateCols<true, true, true>();
+  BlockIndex::add(inDers_.m_cols, sortedInDer.cols());
   inDers_ =
       ColBlockIndices(BlockIndex::difference(inDers_.cols(), outDers_.rows()));
   // should be sorted already
-- 
2.43.0


From 67f6f781d79c1ec65f6672d8ce02e0f2e176fa51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:39 +0000
Subject: [PATCH 34/61] fix: Jacobian of functions of some parameters is zero
 with respect to the others

---
 include/hpp/constraints/function/difference.hh          | 1 +
 include/hpp/constraints/function/of-parameter-subset.hh | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/hpp/constraints/function/difference.hh b/include/hpp/constraints/function/difference.hh
index 1520a8a..aea1f2b 100644
--- a/include/hpp/constraints/function/difference.hh
+++ b/include/hpp/constraints/function/difference.hh
@@ -67,6 +67,7 @@ class HPP_CONSTRAINTS_LOCAL Difference
   }
 
   void impl_jacobian(matrixOut_t J, vectorIn_t arg) const {
+    J.setZero();
     inner_->jacobian(J.middleCols(lsd_.first, lsd_.second),
                      arg.segment(lsa_.first, lsa_.second));
     inner_->jacobian(J.middleCols(rsd_.first, rsd_.second),
diff --git a/include/hpp/constraints/function/of-parameter-subset.hh b/include/hpp/constraints/function/of-parameter-subset.hh
index aac7a98..da69135 100644
--- a/include/hpp/constraints/function/of-parameter-subset.hh
+++ b/include/hpp/constraints/function/of-parameter-subset.hh
@@ -83,6 +83,7 @@ class HPP_CONSTRAINTS_DLLAPI OfParameterSubset : public DifferentiableFunction {
   }
 
   void impl_jacobian(matrixOut_t J, vectorIn_t arg) const {
+    J.setZero();
     g_->jacobian(J.middleCols(sd_.first, sd_.second),
                  arg.segment(sa_.first, sa_.second));
   }
-- 
2.43.0


From 4852a4f6da6171b6ed51fdacd296297e93d1e555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:39 +0000
Subject: [PATCH 35/61] fix: equality of distances between bodies does not
 depend on the latest evaluation

---
 include/hpp/constraints/distance-between-bodies.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/hpp/constraints/distance-between-bodies.hh b/include/hpp/constraints/distance-between-bodies.hh
index 8d63fe6..dfd8a46 100644
--- a/include/hpp/constraints/distance-between-bodies.hh
+++ b/include/hpp/constraints/distance-between-bodies.hh
@@ -107,7 +107,9 @@ class HPP_CONSTRAINTS_DLLAPI DistanceBetweenBodies
     if (robot_ != castother.robot_) return false;
     if (joint1_ != castother.joint1_) return false;
     if (joint2_ != castother.joint2_) return false;
-    if (data_ != castother.data_) return false;
+    // Other members of data_ depend on the latest evaluation.
+    if (data_.activeCollisionPairs != castother.data_.activeCollisionPairs)
+      return false;
 
     return true;
   }
-- 
2.43.0


From 5b3df8a419762cdafeb1226164d38204f9fafecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:39 +0000
Subject: [PATCH 36/61] fix: equality of sets of functions does not depend on
 the latest evaluation

---
 include/hpp/constraints/differentiable-function-set.hh | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/include/hpp/constraints/differentiable-function-set.hh b/include/hpp/constraints/differentiable-function-set.hh
index 5a578ef..dbd17f6 100644
--- a/include/hpp/constraints/differentiable-function-set.hh
+++ b/include/hpp/constraints/differentiable-function-set.hh
@@ -131,10 +131,6 @@ class HPP_CONSTRAINTS_DLLAPI DifferentiableFunctionSet
     if (!DifferentiableFunction::isEqual(other)) return false;
 
     if (functions_ != castother.functions_) return false;
-    if (result_.size() != castother.result_.size()) return false;
-    for (std::size_t i = 0; i < result_.size(); i++)
-      if (result_[i] != castother.result_[i]) return false;
-
     return true;
   }
 
-- 
2.43.0


From 29507239977e62d9b69ee4e1b71e60bd98317e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:39 +0000
Subject: [PATCH 37/61] fix: new symbolic expressions are not valid before they
 are computed

---
 include/hpp/constraints/symbolic-calculus.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp/constraints/symbolic-calculus.hh b/include/hpp/constraints/symbolic-calculus.hh
index 7552cd0..3ef4848 100644
--- a/include/hpp/constraints/symbolic-calculus.hh
+++ b/include/hpp/constraints/symbolic-calculus.hh
@@ -227,7 +227,7 @@ class CalculusBase : public CalculusBaseAbstract<ValueType, JacobianType> {
   JacobianType jacobian_;
   CrossType cross_;
 
-  bool vValid_, jValid_, cValid_;
+  bool vValid_ = false, jValid_ = false, cValid_ = false;
 
   void init(const typename Traits<T>::Ptr_t& ptr) { wkPtr_ = ptr; }
 
-- 
2.43.0


From 060911defe3a025ceb4f9ecef0f9436ed1c96f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:11 +0000
Subject: [PATCH 38/61] fix: a distance computation that failed is not taken
 for the latest one

---
 src/distance-between-bodies.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/distance-between-bodies.cc b/src/distance-between-bodies.cc
index 76a760a..9038f9f 100644
--- a/src/distance-between-bodies.cc
+++ b/src/distance-between-bodies.cc
@@ -116,6 +116,8 @@ void DistanceBetweenBodies::impl_compute(LiegroupElementRef result,
     result = latestResult_;
     return;
   }
+  // In case the computation does not reach the end.
+  latestArgument_.resize(0);
   robot_->currentConfiguration(argument);
   robot_->computeForwardKinematics(pinocchio::JOINT_POSITION |
                                    pinocchio::JACOBIAN);
-- 
2.43.0


From 26239b06036890980b0179ee1e8ad9bd9bf60910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:05 +0000
Subject: [PATCH 39/61] fix: functions of joint placements can be evaluated
 after loading

---
 src/generic-transformation.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/generic-transformation.cc b/src/generic-transformation.cc
index 2bbdd13..06fbd2c 100644
--- a/src/generic-transformation.cc
+++ b/src/generic-transformation.cc
@@ -287,6 +287,9 @@ void GenericTransformation<_Options>::serialize(Archive& ar,
   ar& BOOST_SERIALIZATION_NVP(m_);
   ar& boost::serialization::make_nvp("mask_",
                                      const_cast<std::vector<bool>&>(mask_));
+  if (!Archive::is_saving::value)
+    Vindices_ = indices<(bool)ComputePosition, (bool)ComputeOrientation,
+                        (bool)OutputR3xSO3>(mask_);
   ar& BOOST_SERIALIZATION_NVP(self_);
 }
 
-- 
2.43.0


From 89fc01d3776f0be796e06516624fb7cd4f7a9a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:05 +0000
Subject: [PATCH 40/61] fix: explicit relative transformations are loaded with
 the robot of the archive

---
 src/explicit/relative-transformation.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/explicit/relative-transformation.cc b/src/explicit/relative-transformation.cc
index 3a493fe..80bfba3 100644
--- a/src/explicit/relative-transformation.cc
+++ b/src/explicit/relative-transformation.cc
@@ -32,6 +32,7 @@
 #include <hpp/constraints/explicit/relative-transformation.hh>
 #include <hpp/constraints/serialization.hh>
 #include <hpp/pinocchio/device.hh>
+#include <hpp/pinocchio/serialization.hh>
 #include <hpp/util/serialization.hh>
 #include <pinocchio/serialization/se3.hpp>
 #include <pinocchio/spatial/explog.hpp>
-- 
2.43.0


From 8c0629231857857e6638498cd8d393694ea606b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 41/61] fix: variables of a solver are counted once after
 loading

---
 include/hpp/constraints/explicit-constraint-set.hh | 2 ++
 src/solver/hierarchical-iterative.cc               | 1 +
 2 files changed, 3 insertions(+)

diff --git a/include/hpp/constraints/explicit-constraint-set.hh b/include/hpp/constraints/explicit-constraint-set.hh
index 20edcb9..7258174 100644
--- a/include/hpp/constraints/explicit-constraint-set.hh
+++ b/include/hpp/constraints/explicit-constraint-set.hh
@@ -522,7 +522,9 @@ class HPP_CONSTRAINTS_DLLAPI ExplicitConstraintSet {
     arg_.resize(space->nq());
     diff_.resize(space->nv());
 
+    notOutArgs_ = RowBlockIndices();
     notOutArgs_.addRow(0, space->nq());
+    notOutDers_ = ColBlockIndices();
     notOutDers_.addCol(0, space->nv());
   }
 
diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 23c7d73..9bb9461 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -935,6 +935,7 @@ void HierarchicalIterative::load(Archive& ar, const unsigned int version) {
   OM_.resize(configSpace_->nv());
   OP_.resize(configSpace_->nv());
   // Initialize freeVariables_ to all indices.
+  freeVariables_ = Indices_t();
   freeVariables_.addRow(0, configSpace_->nv());
 
   NumericalConstraints_t constraints;
-- 
2.43.0


From 2de8b02cb7d5974fd2fe7cee5e43c76f3bdfb663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:10 +0000
Subject: [PATCH 42/61] fix: constraints have a right hand side of the right
 size after loading

---
 src/implicit.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/implicit.cc b/src/implicit.cc
index 637712b..c6004d8 100644
--- a/src/implicit.cc
+++ b/src/implicit.cc
@@ -257,6 +257,8 @@ void Implicit::serialize(Archive& ar, const unsigned int version) {
   ar& BOOST_SERIALIZATION_NVP(mask_);
   ar& BOOST_SERIALIZATION_NVP(weak_);
   if (!Archive::is_saving::value) {
+    output_ = LiegroupElement(function_->outputSpace());
+    logOutput_.resize(function_->outputSpace()->nv());
     computeActiveRows();
     computeIndices();
   }
-- 
2.43.0


From 8bd42ee51dadbbea5808972c3a39ed62a0941377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 43/61] fix: a loaded solver can compute Jacobians of explicit
 constraints

---
 src/solver/by-substitution.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/by-substitution.cc b/src/solver/by-substitution.cc
index 33ed9fa..0a7dee0 100644
--- a/src/solver/by-substitution.cc
+++ b/src/solver/by-substitution.cc
@@ -379,6 +379,7 @@ void BySubstitution::load(Archive& ar, const unsigned int version) {
   LiegroupSpacePtr_t space;
   ar& BOOST_SERIALIZATION_NVP(space);
   explicit_.init(space);
+  JeExpanded_.resize(space->nv(), space->nv());
   ar& make_nvp("base", base_object<HierarchicalIterative>(*this));
   explicit_.errorThreshold(errorThreshold());
 }
-- 
2.43.0


From fca3a4aac9edd37f38efa0f48b9984c30cd76d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:43 +0000
Subject: [PATCH 44/61] fix: projection on the kernel does not count rounding
 noise as rank

The decomposition of the stacked Jacobian had the default threshold, about
1e-16. When constraints depend on each other, singular values that should be
zero are of that order, were counted as rank, and arbitrary directions of the
kernel were removed from the projected velocity. Use the threshold of the
decompositions of the levels.
---
 src/solver/hierarchical-iterative.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 9bb9461..47f72f0 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -419,6 +419,7 @@ void HierarchicalIterative::update() {
   reducedJ_.resize(reducedDimension_, reducedSize);
   svd_ = SVD_t(reducedDimension_, reducedSize,
                Eigen::ComputeThinU | Eigen::ComputeThinV);
+  svd_.setThreshold(SVD_THRESHOLD);
 }
 
 void HierarchicalIterative::computeActiveRowsOfJ(std::size_t iStack) {
-- 
2.43.0


From 653a4b292a8dcaae3a8bf576dfa7589f27589840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:08 +0000
Subject: [PATCH 45/61] fix: implicit functions of explicit constraints may be
 evaluated by several threads

---
 .../constraints/explicit/implicit-function.hh |  5 --
 src/explicit/implicit-function.cc             | 50 +++++++++----------
 2 files changed, 25 insertions(+), 30 deletions(-)

diff --git a/include/hpp/constraints/explicit/implicit-function.hh b/include/hpp/constraints/explicit/implicit-function.hh
index 1b319fc..bbd46de 100644
--- a/include/hpp/constraints/explicit/implicit-function.hh
+++ b/include/hpp/constraints/explicit/implicit-function.hh
@@ -136,11 +136,6 @@ class ImplicitFunction : public DifferentiableFunction {
   Eigen::RowBlockIndices outputDerivIntervals_;
   std::vector<Eigen::MatrixBlocks<false, false> > outJacobian_;
   std::vector<Eigen::MatrixBlocks<false, false> > inJacobian_;
-  mutable vector_t qIn_;
-  mutable LiegroupElement f_qIn_, qOut_;
-  mutable LiegroupElement result_;
-  // Jacobian of explicit function
-  mutable matrix_t Jf_;
 
   ImplicitFunction() {}
   HPP_SERIALIZABLE();
diff --git a/src/explicit/implicit-function.cc b/src/explicit/implicit-function.cc
index bf88809..e459ca8 100644
--- a/src/explicit/implicit-function.cc
+++ b/src/explicit/implicit-function.cc
@@ -177,18 +177,13 @@ ImplicitFunction::ImplicitFunction(const LiegroupSpacePtr_t& configSpace,
       inputDerivIntervals_(inputVelocity),
       outputDerivIntervals_(outputVelocity),
       outJacobian_(),
-      inJacobian_(),
-      f_qIn_(function->outputSpace()),
-      qOut_(function->outputSpace()),
-      result_(outputSpace()) {
+      inJacobian_() {
   // Check input consistency
   // Each configuration variable is either input or output
   assert(function->inputSize() + function->outputSize() <= configSpace->nq());
   // Each velocity variable is either input or output
   assert(function->inputDerivativeSize() + function->outputDerivativeSize() <=
          configSpace->nv());
-  qIn_.resize(function->inputSize());
-  Jf_.resize(function->outputDerivativeSize(), function->inputDerivativeSize());
   assert(BlockIndex::cardinal(outputConf) == function->outputSize());
   // Sum of velocity output interval sizes equal function output
   // derivative size
@@ -210,16 +205,20 @@ void ImplicitFunction::impl_compute(LiegroupElementRef result,
                                     vectorIn_t argument) const {
   using Eigen::MatrixBlocks;
   hppDout(info, "argument=" << argument.transpose());
+  // The local variables below are not members since the same function may be
+  // evaluated by several threads.
+  LiegroupElement qOut(inputToOutput_->outputSpace());
+  LiegroupElement f_qIn(inputToOutput_->outputSpace());
   // Store q_{output} in result
-  qOut_.vector() = outputConfIntervals_.rview(argument);
-  hppDout(info, "qOut_=" << qOut_);
+  qOut.vector() = outputConfIntervals_.rview(argument);
+  hppDout(info, "qOut=" << qOut);
   // fill in q_{input}
-  qIn_ = inputConfIntervals_.rview(argument);
-  hppDout(info, "qIn_=" << qIn_);
+  vector_t qIn = inputConfIntervals_.rview(argument);
+  hppDout(info, "qIn=" << qIn);
   // compute  f (q_{input}) -> output_
-  inputToOutput_->value(f_qIn_, qIn_);
-  hppDout(info, "f_qIn_=" << f_qIn_);
-  result.vector() = qOut_ - f_qIn_;
+  inputToOutput_->value(f_qIn, qIn);
+  hppDout(info, "f_qIn=" << f_qIn);
+  result.vector() = qOut - f_qIn;
   hppDout(info, "result=" << result);
 }
 
@@ -228,9 +227,16 @@ void ImplicitFunction::impl_jacobian(matrixOut_t jacobian,
   jacobian.setZero();
   size_type iq = 0, iv = 0, nq, nv;
   std::size_t rank = 0;
-  impl_compute(result_, arg);
-  inputToOutput_->jacobian(Jf_, qIn_);
-  hppDout(info, "Jf_=" << std::endl << Jf_);
+  LiegroupElement qOut(inputToOutput_->outputSpace());
+  LiegroupElement f_qIn(inputToOutput_->outputSpace());
+  qOut.vector() = outputConfIntervals_.rview(arg);
+  vector_t qIn = inputConfIntervals_.rview(arg);
+  inputToOutput_->value(f_qIn, qIn);
+  // Jacobian of explicit function
+  matrix_t Jf(inputToOutput_->outputDerivativeSize(),
+              inputToOutput_->inputDerivativeSize());
+  inputToOutput_->jacobian(Jf, qIn);
+  hppDout(info, "Jf=" << std::endl << Jf);
   // Fill Jacobian by set of lines corresponding to the types of Lie group
   // that compose the outputspace of input to output function.
   for (std::vector<LiegroupType>::const_iterator it =
@@ -238,8 +244,8 @@ void ImplicitFunction::impl_jacobian(matrixOut_t jacobian,
        it != inputToOutput_->outputSpace()->liegroupTypes().end(); ++it) {
     nq = inputToOutput_->outputSpace()->nq(rank);
     nv = inputToOutput_->outputSpace()->nv(rank);
-    JacobianVisitor v(qOut_.vector().segment(iq, nq),
-                      f_qIn_.vector().segment(iq, nq), Jf_.middleRows(iv, nv),
+    JacobianVisitor v(qOut.vector().segment(iq, nq),
+                      f_qIn.vector().segment(iq, nq), Jf.middleRows(iv, nv),
                       outJacobian_[rank], inJacobian_[rank],
                       jacobian.middleRows(iv, nv));
     boost::apply_visitor(v, *it);
@@ -284,13 +290,7 @@ void ImplicitFunction::serialize(Archive& ar, const unsigned int version) {
   ar& BOOST_SERIALIZATION_NVP(inJacobian_);
 
   if (!Archive::is_saving::value) {  // loading
-    f_qIn_ = LiegroupElement(inputToOutput_->outputSpace());
-    qOut_ = LiegroupElement(inputToOutput_->outputSpace());
-    result_ = LiegroupElement(outputSpace());
-    qIn_.resize(inputToOutput_->inputSize());
-    Jf_.resize(inputToOutput_->outputDerivativeSize(),
-               inputToOutput_->inputDerivativeSize());
-    // should we recompute them instead of storing them ?
+    // should we recompute the blocks instead of storing them ?
     // computeJacobianBlocks ();
   }
 }
-- 
2.43.0


From 94ec5b865705baee4a102e7e430ba52b7930fe1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:08 +0000
Subject: [PATCH 46/61] fix: explicit relative transformations may be evaluated
 by several threads

---
 .../explicit/relative-transformation.hh       |  8 +-
 src/explicit/relative-transformation.cc       | 92 ++++++++++---------
 2 files changed, 52 insertions(+), 48 deletions(-)

diff --git a/include/hpp/constraints/explicit/relative-transformation.hh b/include/hpp/constraints/explicit/relative-transformation.hh
index cc7af61..48ede0a 100644
--- a/include/hpp/constraints/explicit/relative-transformation.hh
+++ b/include/hpp/constraints/explicit/relative-transformation.hh
@@ -158,7 +158,9 @@ class HPP_CONSTRAINTS_DLLAPI RelativeTransformation
   }
 
  private:
-  void forwardKinematics(vectorIn_t arg) const;
+  // Compute value for the configuration of the robot data
+  void computeValue(const pinocchio::DeviceData& d,
+                    LiegroupElementRef result) const;
 
   DevicePtr_t robot_;
   // Parent of the R3 joint.
@@ -172,10 +174,6 @@ class HPP_CONSTRAINTS_DLLAPI RelativeTransformation
 
   RelativeTransformationWkPtr_t weak_;
 
-  // Tmp variables
-  mutable vector_t qsmall_, q_;
-  mutable matrix_t tmpJac_, J2_parent_minus_J1_;
-
   RelativeTransformation() {}
   HPP_SERIALIZABLE();
 };  // class RelativeTransformation
diff --git a/src/explicit/relative-transformation.cc b/src/explicit/relative-transformation.cc
index 80bfba3..92f99ed 100644
--- a/src/explicit/relative-transformation.cc
+++ b/src/explicit/relative-transformation.cc
@@ -31,6 +31,7 @@
 #include <boost/serialization/weak_ptr.hpp>
 #include <hpp/constraints/explicit/relative-transformation.hh>
 #include <hpp/constraints/serialization.hh>
+#include <hpp/pinocchio/device-sync.hh>
 #include <hpp/pinocchio/device.hh>
 #include <hpp/pinocchio/serialization.hh>
 #include <hpp/util/serialization.hh>
@@ -122,20 +123,19 @@ RelativeTransformation::RelativeTransformation(
       outVel_(outVel),
       F1inJ1_invF2inJ2_(frame1 * frame2.inverse()) {}
 
-void RelativeTransformation::forwardKinematics(vectorIn_t arg) const {
-  qsmall_ = inConf_.rview(robot_->currentConfiguration());
-  if (qsmall_ != arg) {
-    q_ = robot_->currentConfiguration();
-    inConf_.lview(q_) = arg;
-    robot_->currentConfiguration(q_);
-  }
-  robot_->computeForwardKinematics(pinocchio::JOINT_POSITION);
-}
-
 void RelativeTransformation::impl_compute(LiegroupElementRef result,
                                           vectorIn_t argument) const {
-  forwardKinematics(argument);
+  // The value does not depend on the variables that are not input.
+  Configuration_t q(robot_->neutralConfiguration());
+  inConf_.lview(q) = argument;
+  pinocchio::DeviceSync device(robot_);
+  device.currentConfiguration(q);
+  device.computeForwardKinematics(pinocchio::JOINT_POSITION);
+  computeValue(device.d(), result);
+}
 
+void RelativeTransformation::computeValue(const pinocchio::DeviceData& d,
+                                          LiegroupElementRef result) const {
   bool hasParent = (parentJoint_ && parentJoint_->index() > 0);
 
   // J1 * M1/J1 = J2 * M2/J2
@@ -147,10 +147,11 @@ void RelativeTransformation::impl_compute(LiegroupElementRef result,
   if (!joint1_)
     freeflyerPose = F1inJ1_invF2inJ2_;
   else
-    freeflyerPose = joint1_->currentTransformation() * F1inJ1_invF2inJ2_;
+    freeflyerPose = joint1_->currentTransformation(d) * F1inJ1_invF2inJ2_;
 
   if (hasParent)
-    freeflyerPose = parentJoint_->currentTransformation().actInv(freeflyerPose);
+    freeflyerPose =
+        parentJoint_->currentTransformation(d).actInv(freeflyerPose);
 
   freeflyerPose = joint2_->positionInParentFrame().actInv(freeflyerPose);
 
@@ -162,83 +163,88 @@ void RelativeTransformation::impl_compute(LiegroupElementRef result,
 void RelativeTransformation::impl_jacobian(matrixOut_t jacobian,
                                            vectorIn_t arg) const {
   LiegroupElement result(outputSpace());
-  impl_compute(result, arg);
-  Configuration_t q(robot_->currentConfiguration());
+  Configuration_t q(robot_->neutralConfiguration());
+  inConf_.lview(q) = arg;
+  pinocchio::DeviceSync device(robot_);
+  device.currentConfiguration(q);
+  device.computeForwardKinematics(pinocchio::JOINT_POSITION);
+  computeValue(device.d(), result);
   outConf_.lview(q) = result.vector();
-  robot_->currentConfiguration(q);
-  robot_->computeForwardKinematics(pinocchio::JOINT_POSITION |
-                                   pinocchio::JACOBIAN);
+  device.currentConfiguration(q);
+  device.computeForwardKinematics(pinocchio::JOINT_POSITION |
+                                  pinocchio::JACOBIAN);
+  pinocchio::DeviceData& d(device.d());
 
   bool absolute = !joint1_;
   bool hasParent = (parentJoint_ && parentJoint_->index() > 0);
+  matrix_t tmpJac, J2_parent_minus_J1;
 
   static const JointJacobian_t Jabs;
-  const JointJacobian_t& J1(absolute ? Jabs : joint1_->jacobian());
-  // const JointJacobian_t& J2_parent (parentJoint_->jacobian());
+  const JointJacobian_t& J1(absolute ? Jabs : joint1_->jacobian(d));
+  // const JointJacobian_t& J2_parent (parentJoint_->jacobian(d));
 
   const matrix3_t& R1(absolute ? matrix3_t::Identity().eval()
-                               : joint1_->currentTransformation().rotation());
-  const matrix3_t& R2(joint2_->currentTransformation().rotation());
+                               : joint1_->currentTransformation(d).rotation());
+  const matrix3_t& R2(joint2_->currentTransformation(d).rotation());
   const matrix3_t& R2_inParentFrame(
       joint2_->positionInParentFrame().rotation());
 
   const vector3_t& t1(absolute
                           ? vector3_t::Zero().eval()
-                          : joint1_->currentTransformation().translation());
+                          : joint1_->currentTransformation(d).translation());
 
   matrix3_t cross1 = ::pinocchio::skew(
                 (R1 * F1inJ1_invF2inJ2_.translation()).eval()),
             cross2;
   if (hasParent) {
     const vector3_t& t2_parent(
-        parentJoint_->currentTransformation().translation());
+        parentJoint_->currentTransformation(d).translation());
     cross2 = ::pinocchio::skew((t2_parent - t1).eval());
 
     if (absolute)
-      J2_parent_minus_J1_.noalias() = parentJoint_->jacobian();
+      J2_parent_minus_J1.noalias() = parentJoint_->jacobian(d);
     else
-      J2_parent_minus_J1_.noalias() = parentJoint_->jacobian() - J1;
+      J2_parent_minus_J1.noalias() = parentJoint_->jacobian(d) - J1;
   } else {
     cross2 = -::pinocchio::skew(t1);
-    // J2_parent_minus_J1_ = - J1;
+    // J2_parent_minus_J1 = - J1;
   }
 
   // Express velocity of J1 * M1/J1 * M2/J2^{-1} in J2_{parent}.
   if (hasParent) {
     const matrix3_t& R2_parent(
-        parentJoint_->currentTransformation().rotation());
-    const JointJacobian_t& J2_parent(parentJoint_->jacobian());
+        parentJoint_->currentTransformation(d).rotation());
+    const JointJacobian_t& J2_parent(parentJoint_->jacobian(d));
 
-    tmpJac_.noalias() =
-        (R2_inParentFrame.transpose() * R2_parent.transpose()) *
-        (cross1 * (omega(J2_parent_minus_J1_)) - cross2 * omega(J2_parent) -
-         trans(J2_parent_minus_J1_));
-    jacobian.topRows<3>() = inVel_.rview(tmpJac_);
+    tmpJac.noalias() = (R2_inParentFrame.transpose() * R2_parent.transpose()) *
+                       (cross1 * (omega(J2_parent_minus_J1)) -
+                        cross2 * omega(J2_parent) - trans(J2_parent_minus_J1));
+    jacobian.topRows<3>() = inVel_.rview(tmpJac);
   } else {
     if (absolute)
       jacobian.topRows<3>().setZero();
     else {
-      tmpJac_.noalias() =
+      tmpJac.noalias() =
           R2.transpose() * ((-cross1 * R1) * omega(J1) + R1 * trans(J1));
-      jacobian.topRows<3>() = inVel_.rview(tmpJac_);
+      jacobian.topRows<3>() = inVel_.rview(tmpJac);
     }
   }
 
   if (hasParent) {
     const matrix3_t& R2_parent(
-        parentJoint_->currentTransformation().rotation());
-    const JointJacobian_t& J2_parent(parentJoint_->jacobian());
+        parentJoint_->currentTransformation(d).rotation());
+    const JointJacobian_t& J2_parent(parentJoint_->jacobian(d));
 
     // J = p2RT2 * 0RTp2 * [ p2
-    tmpJac_.noalias() = (R2.transpose() * R2_parent) * omega(J2_parent);
-    if (!absolute) tmpJac_.noalias() -= (R2.transpose() * R1) * omega(J1);
-    jacobian.bottomRows<3>() = inVel_.rview(tmpJac_);
+    tmpJac.noalias() = (R2.transpose() * R2_parent) * omega(J2_parent);
+    if (!absolute) tmpJac.noalias() -= (R2.transpose() * R1) * omega(J1);
+    jacobian.bottomRows<3>() = inVel_.rview(tmpJac);
   } else {
     if (absolute)
       jacobian.bottomRows<3>().setZero();
     else {
-      tmpJac_.noalias() = (R2.transpose() * R1) * omega(J1);
-      jacobian.bottomRows<3>() = inVel_.rview(tmpJac_);
+      tmpJac.noalias() = (R2.transpose() * R1) * omega(J1);
+      jacobian.bottomRows<3>() = inVel_.rview(tmpJac);
     }
   }
 }
-- 
2.43.0


From 3fd2c399fac9219cec1c1ebb23fabe35b8766795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:08 +0000
Subject: [PATCH 47/61] fix: sets and differences of functions may be evaluated
 by several threads

---
 .../hpp/constraints/differentiable-function-set.hh    | 11 ++++-------
 include/hpp/constraints/function/difference.hh        |  9 ++++-----
 src/function/difference.cc                            |  4 +---
 3 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/include/hpp/constraints/differentiable-function-set.hh b/include/hpp/constraints/differentiable-function-set.hh
index dbd17f6..5e828ac 100644
--- a/include/hpp/constraints/differentiable-function-set.hh
+++ b/include/hpp/constraints/differentiable-function-set.hh
@@ -76,7 +76,6 @@ class HPP_CONSTRAINTS_DLLAPI DifferentiableFunctionSet
           activeDerivativeParameters_ || func->activeDerivativeParameters();
     }
     functions_.push_back(func);
-    result_.push_back(LiegroupElement(func->outputSpace()));
     *outputSpace_ *= func->outputSpace();
   }
 
@@ -103,15 +102,14 @@ class HPP_CONSTRAINTS_DLLAPI DifferentiableFunctionSet
  protected:
   void impl_compute(LiegroupElementRef result, ConfigurationIn_t arg) const {
     size_type row = 0;
-    std::size_t i = 0;
     for (Functions_t::const_iterator _f = functions_.begin();
          _f != functions_.end(); ++_f) {
       const DifferentiableFunction& f = **_f;
-      f.impl_compute(result_[i], arg);
-      assert(hpp::pinocchio::checkNormalized(result_[i]));
-      result.vector().segment(row, f.outputSize()) = result_[i].vector();
+      LiegroupElement value(f.outputSpace());
+      f.impl_compute(value, arg);
+      assert(hpp::pinocchio::checkNormalized(value));
+      result.vector().segment(row, f.outputSize()) = value.vector();
       row += f.outputSize();
-      ++i;
     }
     assert(hpp::pinocchio::checkNormalized(result));
   }
@@ -136,7 +134,6 @@ class HPP_CONSTRAINTS_DLLAPI DifferentiableFunctionSet
 
  private:
   Functions_t functions_;
-  mutable std::vector<LiegroupElement> result_;
 };  // class DifferentiableFunctionSet
 /// \}
 }  // namespace constraints
diff --git a/include/hpp/constraints/function/difference.hh b/include/hpp/constraints/function/difference.hh
index aea1f2b..efc325a 100644
--- a/include/hpp/constraints/function/difference.hh
+++ b/include/hpp/constraints/function/difference.hh
@@ -61,9 +61,10 @@ class HPP_CONSTRAINTS_LOCAL Difference
 
  protected:
   void impl_compute(LiegroupElementRef y, vectorIn_t arg) const {
-    inner_->value(l_, arg.segment(lsa_.first, lsa_.second));
-    inner_->value(r_, arg.segment(rsa_.first, rsa_.second));
-    y.vector() = l_ - r_;
+    LiegroupElement l(inner_->outputSpace()), r(inner_->outputSpace());
+    inner_->value(l, arg.segment(lsa_.first, lsa_.second));
+    inner_->value(r, arg.segment(rsa_.first, rsa_.second));
+    y.vector() = l - r;
   }
 
   void impl_jacobian(matrixOut_t J, vectorIn_t arg) const {
@@ -93,8 +94,6 @@ class HPP_CONSTRAINTS_LOCAL Difference
   DifferentiableFunctionPtr_t inner_;
   const segment_t lsa_, lsd_;
   const segment_t rsa_, rsd_;
-
-  mutable LiegroupElement l_, r_;
 };  // class Difference
 }  // namespace function
 }  // namespace constraints
diff --git a/src/function/difference.cc b/src/function/difference.cc
index 460b1da..cf98c91 100644
--- a/src/function/difference.cc
+++ b/src/function/difference.cc
@@ -51,9 +51,7 @@ Difference::Difference(const DifferentiableFunctionPtr_t& inner,
       lsa_(lInArgs),
       lsd_(lInDers),
       rsa_(rInArgs),
-      rsd_(rInDers),
-      l_(inner->outputSpace()),
-      r_(inner->outputSpace()) {
+      rsd_(rInDers) {
   activeParameters_.setConstant(false);
   activeParameters_.segment(lsa_.first, lsa_.second) =
       inner_->activeParameters();
-- 
2.43.0


From 34f317d258828a81cf6b608029fdd57c6dcc14e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:48 +0000
Subject: [PATCH 48/61] fix: Jacobian of explicit contacts with floor surfaces
 on several joints

---
 src/explicit/convex-shape-contact.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/explicit/convex-shape-contact.cc b/src/explicit/convex-shape-contact.cc
index 6c9b57d..2502317 100644
--- a/src/explicit/convex-shape-contact.cc
+++ b/src/explicit/convex-shape-contact.cc
@@ -165,8 +165,16 @@ void ConvexShapeContact::jacobianOutputValue(vectorIn_t qin,
   assert(!qinRelPose.hasNaN());
   LiegroupElement outputRelPose(LiegroupSpace::R3xSO3());
   relativePose->outputValue(outputRelPose, qinRelPose, relativePoseRhs);
+  // Columns of the input variables of the relative pose, the other input
+  // variables (of other floor surfaces) have no influence.
+  Eigen::ColBlockIndices relPosInputVelocity(relativePose->inputVelocity());
+  matrix_t Jpose(jacobian.rows(), relPosInputVelocity.nbCols());
   relativePose->jacobianOutputValue(qinRelPose, outputRelPose, relativePoseRhs,
-                                    jacobian);
+                                    Jpose);
+  matrix_t J(jacobian.rows(), f->inputDerivativeSize());
+  J.setZero();
+  relPosInputVelocity.lview(J) = Jpose;
+  jacobian = Eigen::ColBlockIndices(inputVelocity()).rview(J);
 }
 
 ConvexShapeContact::ConvexShapeContact(const std::string& name,
-- 
2.43.0


From bd978c41d33e10204c6dfbd2b6e076bba97ee8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:19 +0000
Subject: [PATCH 49/61] fix: overlap of a segment inside another one

---
 src/matrix-view.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/matrix-view.cc b/src/matrix-view.cc
index 99af876..cb95f69 100644
--- a/src/matrix-view.cc
+++ b/src/matrix-view.cc
@@ -76,9 +76,7 @@ bool BlockIndex::overlap(const segment_t& a, const segment_t& b) {
   size_type aend = a.first + a.second;
   size_type bend = b.first + b.second;
 
-  if (a.first <= b.first && b.first < aend) return true;
-  if (a.first < bend && bend <= aend) return true;
-  return false;
+  return a.first < bend && b.first < aend;
 }
 
 size_type BlockIndex::cardinal(const segments_t& a) {
-- 
2.43.0


From 33fdad29364c5575d2a4ddb7cb67196a666227cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:38 +0000
Subject: [PATCH 50/61] fix: sets of implicit constraints can be copied and
 have right hand sides

---
 .../hpp/constraints/implicit-constraint-set.hh  | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/hpp/constraints/implicit-constraint-set.hh b/include/hpp/constraints/implicit-constraint-set.hh
index 553c7d3..23ba871 100644
--- a/include/hpp/constraints/implicit-constraint-set.hh
+++ b/include/hpp/constraints/implicit-constraint-set.hh
@@ -50,7 +50,18 @@ class HPP_CONSTRAINTS_DLLAPI ImplicitConstraintSet : public Implicit {
   ///
   /// \param name the name of the constraints,
   static ImplicitConstraintSetPtr_t create(const std::string& name) {
-    return ImplicitConstraintSetPtr_t(new ImplicitConstraintSet(name));
+    ImplicitConstraintSetPtr_t shPtr(new ImplicitConstraintSet(name));
+    shPtr->init(shPtr);
+    return shPtr;
+  }
+
+  /// Return a copy that holds the same constraints
+  virtual ImplicitPtr_t copy() const {
+    ImplicitConstraintSetPtr_t shPtr(create(function_->name()));
+    for (const ImplicitPtr_t& constraint : constraints_) shPtr->add(constraint);
+    shPtr->comparisonType(comparisonType());
+    shPtr->rightHandSideFunction(rightHandSideFunction());
+    return shPtr;
   }
 
   virtual ~ImplicitConstraintSet() {}
@@ -74,7 +85,9 @@ class HPP_CONSTRAINTS_DLLAPI ImplicitConstraintSet : public Implicit {
                  constraint->mask_.end());
     // Recompute active rows
     computeActiveRows();
-    computeIndices();
+    // Recompute indices and size of the parameter
+    comparisonType(comparison_);
+    rhs_ = vector_t::Zero(functions->outputSize());
     // Resize temporary variables
     output_ = LiegroupElement(functions->outputSpace());
     logOutput_.resize(functions->outputSpace()->nv());
-- 
2.43.0


From a9b0149e00b5ce9db3409e2e9f9cf204eb2817bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:38 +0000
Subject: [PATCH 51/61] fix: assigning a solver copies its constraints

---
 include/hpp/constraints/solver/by-substitution.hh        | 6 ++++++
 include/hpp/constraints/solver/hierarchical-iterative.hh | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/include/hpp/constraints/solver/by-substitution.hh b/include/hpp/constraints/solver/by-substitution.hh
index 0c800ce..c3b8a44 100644
--- a/include/hpp/constraints/solver/by-substitution.hh
+++ b/include/hpp/constraints/solver/by-substitution.hh
@@ -75,6 +75,12 @@ class HPP_CONSTRAINTS_DLLAPI BySubstitution
   BySubstitution(const LiegroupSpacePtr_t& configSpace);
   BySubstitution(const BySubstitution& other);
 
+  /// Assignment copies the constraints like the copy constructor
+  BySubstitution& operator=(const BySubstitution& other) {
+    return *this = BySubstitution(other);
+  }
+  BySubstitution& operator=(BySubstitution&& other) = default;
+
   virtual ~BySubstitution() {}
 
   /// \copydoc HierarchicalIterative::add
diff --git a/include/hpp/constraints/solver/hierarchical-iterative.hh b/include/hpp/constraints/solver/hierarchical-iterative.hh
index fbf1767..9520cbe 100644
--- a/include/hpp/constraints/solver/hierarchical-iterative.hh
+++ b/include/hpp/constraints/solver/hierarchical-iterative.hh
@@ -249,6 +249,12 @@ class HPP_CONSTRAINTS_DLLAPI HierarchicalIterative {
 
   HierarchicalIterative(const HierarchicalIterative& other);
 
+  /// Assignment copies the constraints like the copy constructor
+  HierarchicalIterative& operator=(const HierarchicalIterative& other) {
+    return *this = HierarchicalIterative(other);
+  }
+  HierarchicalIterative& operator=(HierarchicalIterative&& other) = default;
+
   virtual ~HierarchicalIterative() {}
 
   /// \name Problem definition
-- 
2.43.0


From 5d54023f69cc30c2b36174f2181f8c94de29d5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:28 +0000
Subject: [PATCH 52/61] fix: Jacobian of RelativeTransformation when the parent
 of joint 2 moves

---
 src/explicit/relative-transformation.cc | 87 +++++++------------------
 1 file changed, 22 insertions(+), 65 deletions(-)

diff --git a/src/explicit/relative-transformation.cc b/src/explicit/relative-transformation.cc
index 92f99ed..a94ef33 100644
--- a/src/explicit/relative-transformation.cc
+++ b/src/explicit/relative-transformation.cc
@@ -177,76 +177,33 @@ void RelativeTransformation::impl_jacobian(matrixOut_t jacobian,
 
   bool absolute = !joint1_;
   bool hasParent = (parentJoint_ && parentJoint_->index() > 0);
-  matrix_t tmpJac, J2_parent_minus_J1;
 
-  static const JointJacobian_t Jabs;
-  const JointJacobian_t& J1(absolute ? Jabs : joint1_->jacobian(d));
-  // const JointJacobian_t& J2_parent (parentJoint_->jacobian(d));
-
-  const matrix3_t& R1(absolute ? matrix3_t::Identity().eval()
-                               : joint1_->currentTransformation(d).rotation());
+  // Velocity of joint2 with respect to its parent, expressed in the frame of
+  // joint2: velocity of joint2 as if it were fixed to joint1, minus its
+  // velocity as if it were fixed to the parent joint.
   const matrix3_t& R2(joint2_->currentTransformation(d).rotation());
-  const matrix3_t& R2_inParentFrame(
-      joint2_->positionInParentFrame().rotation());
-
-  const vector3_t& t1(absolute
-                          ? vector3_t::Zero().eval()
-                          : joint1_->currentTransformation(d).translation());
-
-  matrix3_t cross1 = ::pinocchio::skew(
-                (R1 * F1inJ1_invF2inJ2_.translation()).eval()),
-            cross2;
-  if (hasParent) {
-    const vector3_t& t2_parent(
-        parentJoint_->currentTransformation(d).translation());
-    cross2 = ::pinocchio::skew((t2_parent - t1).eval());
-
-    if (absolute)
-      J2_parent_minus_J1.noalias() = parentJoint_->jacobian(d);
-    else
-      J2_parent_minus_J1.noalias() = parentJoint_->jacobian(d) - J1;
-  } else {
-    cross2 = -::pinocchio::skew(t1);
-    // J2_parent_minus_J1 = - J1;
+  const vector3_t& t2(joint2_->currentTransformation(d).translation());
+  matrix_t tmpJac(matrix_t::Zero(6, joint2_->jacobian(d).cols()));
+
+  if (!absolute) {
+    const JointJacobian_t& J1(joint1_->jacobian(d));
+    const matrix3_t& R1(joint1_->currentTransformation(d).rotation());
+    const vector3_t& t1(joint1_->currentTransformation(d).translation());
+    const matrix3_t cross1(::pinocchio::skew((t2 - t1).eval()));
+    tmpJac.topRows<3>() +=
+        R2.transpose() * ((-cross1 * R1) * omega(J1) + R1 * trans(J1));
+    tmpJac.bottomRows<3>() += (R2.transpose() * R1) * omega(J1);
   }
-
-  // Express velocity of J1 * M1/J1 * M2/J2^{-1} in J2_{parent}.
   if (hasParent) {
-    const matrix3_t& R2_parent(
-        parentJoint_->currentTransformation(d).rotation());
-    const JointJacobian_t& J2_parent(parentJoint_->jacobian(d));
-
-    tmpJac.noalias() = (R2_inParentFrame.transpose() * R2_parent.transpose()) *
-                       (cross1 * (omega(J2_parent_minus_J1)) -
-                        cross2 * omega(J2_parent) - trans(J2_parent_minus_J1));
-    jacobian.topRows<3>() = inVel_.rview(tmpJac);
-  } else {
-    if (absolute)
-      jacobian.topRows<3>().setZero();
-    else {
-      tmpJac.noalias() =
-          R2.transpose() * ((-cross1 * R1) * omega(J1) + R1 * trans(J1));
-      jacobian.topRows<3>() = inVel_.rview(tmpJac);
-    }
-  }
-
-  if (hasParent) {
-    const matrix3_t& R2_parent(
-        parentJoint_->currentTransformation(d).rotation());
-    const JointJacobian_t& J2_parent(parentJoint_->jacobian(d));
-
-    // J = p2RT2 * 0RTp2 * [ p2
-    tmpJac.noalias() = (R2.transpose() * R2_parent) * omega(J2_parent);
-    if (!absolute) tmpJac.noalias() -= (R2.transpose() * R1) * omega(J1);
-    jacobian.bottomRows<3>() = inVel_.rview(tmpJac);
-  } else {
-    if (absolute)
-      jacobian.bottomRows<3>().setZero();
-    else {
-      tmpJac.noalias() = (R2.transpose() * R1) * omega(J1);
-      jacobian.bottomRows<3>() = inVel_.rview(tmpJac);
-    }
+    const JointJacobian_t& Jp(parentJoint_->jacobian(d));
+    const matrix3_t& Rp(parentJoint_->currentTransformation(d).rotation());
+    const vector3_t& tp(parentJoint_->currentTransformation(d).translation());
+    const matrix3_t crossp(::pinocchio::skew((t2 - tp).eval()));
+    tmpJac.topRows<3>() -=
+        R2.transpose() * ((-crossp * Rp) * omega(Jp) + Rp * trans(Jp));
+    tmpJac.bottomRows<3>() -= (R2.transpose() * Rp) * omega(Jp);
   }
+  jacobian = inVel_.rview(tmpJac);
 }
 
 template <class Archive>
-- 
2.43.0


From 052abe18bb0963c0418313e610441136d93036c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:28 +0000
Subject: [PATCH 53/61] fix: Jacobian of DistanceBetweenPointsInBodies with
 extra configuration variables

---
 src/distance-between-points-in-bodies.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/distance-between-points-in-bodies.cc b/src/distance-between-points-in-bodies.cc
index 2e5f52d..26fde93 100644
--- a/src/distance-between-points-in-bodies.cc
+++ b/src/distance-between-points-in-bodies.cc
@@ -147,6 +147,8 @@ void DistanceBetweenPointsInBodies::impl_jacobian(matrixOut_t jacobian,
   matrix_t tmp1(P1_minus_P2.transpose() * R1 * J1.topRows(3) +
                 P1_minus_P2.transpose() * R1.colwise().cross(P1_minus_t1) *
                     J1.bottomRows(3));
+  // Extra configuration variables have no effect.
+  jacobian.rightCols(jacobian.cols() - tmp1.cols()).setZero();
   if (joint2_) {
     const JointJacobian_t& J2(joint2_->jacobian());
     const Transform3s& M2(joint2_->currentTransformation());
@@ -159,9 +161,9 @@ void DistanceBetweenPointsInBodies::impl_jacobian(matrixOut_t jacobian,
     matrix_t tmp2(P1_minus_P2.transpose() * R2 * J2.topRows(3) +
                   P1_minus_P2.transpose() * R2.colwise().cross(P2_minus_t2) *
                       J2.bottomRows(3));
-    jacobian = (tmp1 - tmp2) / dist.vector()[0];
+    jacobian.leftCols(tmp1.cols()) = (tmp1 - tmp2) / dist.vector()[0];
   } else {
-    jacobian = tmp1 / dist.vector()[0];
+    jacobian.leftCols(tmp1.cols()) = tmp1 / dist.vector()[0];
   }
 }
 
-- 
2.43.0


From 25cc0fb754e17b0e462ae8171d1f6dd8abb80700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:28 +0000
Subject: [PATCH 54/61] fix: Jacobian of DistanceBetweenBodies with extra
 configuration variables

---
 src/distance-between-bodies.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/distance-between-bodies.cc b/src/distance-between-bodies.cc
index 9038f9f..21ce506 100644
--- a/src/distance-between-bodies.cc
+++ b/src/distance-between-bodies.cc
@@ -149,10 +149,13 @@ void DistanceBetweenBodies::impl_jacobian(matrixOut_t jacobian,
   //        T (                              )
   // (P1-P2)  ( J    -   [P1 - t1]  J        )
   //          (  1 [0:3]          x  1 [3:6] )
-  jacobian = (P1_minus_P2.transpose() * R1 * J1.topRows<3>() +
-              P1_minus_P2.transpose() * R1.colwise().cross(P1_minus_t1) *
-                  J1.bottomRows<3>()) /
-             dist.vector()[0];
+  // Extra configuration variables have no effect.
+  jacobian.rightCols(jacobian.cols() - J1.cols()).setZero();
+  jacobian.leftCols(J1.cols()) =
+      (P1_minus_P2.transpose() * R1 * J1.topRows<3>() +
+       P1_minus_P2.transpose() * R1.colwise().cross(P1_minus_t1) *
+           J1.bottomRows<3>()) /
+      dist.vector()[0];
   if (joint2_) {
     const JointJacobian_t& J2(joint2_->jacobian());
     const Transform3s& M2(joint2_->currentTransformation());
@@ -165,7 +168,7 @@ void DistanceBetweenBodies::impl_jacobian(matrixOut_t jacobian,
     matrix_t tmp2(P1_minus_P2.transpose() * R2 * J2.topRows<3>() +
                   P1_minus_P2.transpose() * R2.colwise().cross(P2_minus_t2) *
                       J2.bottomRows<3>());
-    jacobian.noalias() -= tmp2 / dist.vector()[0];
+    jacobian.leftCols(tmp2.cols()).noalias() -= tmp2 / dist.vector()[0];
   }
 }
 }  // namespace constraints
-- 
2.43.0


From 1dd28aa249b43162440975f45ace950f17b99c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:28 +0000
Subject: [PATCH 55/61] fix: Jacobian of ComBetweenFeet with extra
 configuration variables

---
 src/com-between-feet.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/com-between-feet.cc b/src/com-between-feet.cc
index cde152c..3cf869e 100644
--- a/src/com-between-feet.cc
+++ b/src/com-between-feet.cc
@@ -131,6 +131,8 @@ void ComBetweenFeet::impl_jacobian(matrixOut_t jacobian,
   robot_->currentConfiguration(arg);
   robot_->computeForwardKinematics(pinocchio::JOINT_POSITION |
                                    pinocchio::JACOBIAN);
+  // Extra configuration variables have no effect.
+  jacobian.rightCols(jacobian.cols() - jointRef_->jacobian().cols()).setZero();
   size_t index = 0;
   if (mask_[0]) {
     com_->invalidate();
-- 
2.43.0


From e7eff2c11eab09f40fda72b768cc17e6f8f45079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:28 +0000
Subject: [PATCH 56/61] fix: StaticStability with extra configuration variables

---
 src/static-stability.cc | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/static-stability.cc b/src/static-stability.cc
index 6f5b5ec..dc6ed69 100644
--- a/src/static-stability.cc
+++ b/src/static-stability.cc
@@ -44,6 +44,13 @@ const value_type StaticStability::G = 9.81;
 const Eigen::Matrix<value_type, 6, 1> StaticStability::Gravity =
     (Eigen::Matrix<value_type, 6, 1>() << 0, 0, -1, 0, 0, 0).finished();
 
+namespace {
+// Number of velocity variables that move the joints.
+size_type jointDof(const DevicePtr_t& robot) {
+  return robot->numberDof() - robot->extraConfigSpace().dimension();
+}
+}  // namespace
+
 StaticStability::StaticStability(const std::string& name,
                                  const DevicePtr_t& robot,
                                  const Contacts_t& contacts,
@@ -56,21 +63,21 @@ StaticStability::StaticStability(const std::string& name,
       phi_(Eigen::Matrix<value_type, 6, Eigen::Dynamic>::Zero(6,
                                                               contacts.size()),
            Eigen::Matrix<value_type, 6, Eigen::Dynamic>::Zero(
-               6, contacts.size() * robot->numberDof())),
+               6, contacts.size() * jointDof(robot))),
       u_(contacts.size()),
       uMinus_(contacts.size()),
       v_(contacts.size()),
-      uDot_(contacts.size(), robot->numberDof()),
-      uMinusDot_(contacts.size(), robot->numberDof()),
-      vDot_(contacts.size(), robot->numberDof()),
-      lambdaDot_(robot->numberDof()) {
+      uDot_(contacts.size(), jointDof(robot)),
+      uMinusDot_(contacts.size(), jointDof(robot)),
+      vDot_(contacts.size(), jointDof(robot)),
+      lambdaDot_(jointDof(robot)) {
   phi_.setSize(2, contacts.size());
   Traits<PointCom>::Ptr_t OG = PointCom::create(com);
   for (std::size_t i = 0; i < contacts.size(); ++i) {
     Traits<PointInJoint>::Ptr_t OP2 = PointInJoint::create(
-        contacts[i].joint, contacts[i].point, robot->numberDof());
+        contacts[i].joint, contacts[i].point, jointDof(robot));
     Traits<VectorInJoint>::Ptr_t n2 = VectorInJoint::create(
-        contacts[i].joint, contacts[i].normal, robot->numberDof());
+        contacts[i].joint, contacts[i].normal, jointDof(robot));
 
     phi_(0, i) = n2;
     phi_(1, i) = (OG - OP2) ^ n2;
@@ -130,7 +137,9 @@ void StaticStability::impl_jacobian(matrixOut_t jacobian,
   phi_.computePseudoInverseJacobian(argument, G);
   uDot_.noalias() = phi_.pinvJacobian();
 
-  jacobian.block(0, 0, contacts_.size(), robot_->numberDof()).noalias() = uDot_;
+  // Extra configuration variables have no effect.
+  jacobian.rightCols(jacobian.cols() - jointDof(robot_)).setZero();
+  jacobian.block(0, 0, contacts_.size(), jointDof(robot_)).noalias() = uDot_;
 
   if (computeUminusAndV(u_, uMinus_, v_)) {
     matrix_t S = -matrix_t::Identity(u_.size(), u_.size());
@@ -146,18 +155,18 @@ void StaticStability::impl_jacobian(matrixOut_t jacobian,
 
     // computeLambdaDot (u_, v_, iMin, uDot_, vDot_, lambdaDot_);
 
-    // jacobian.block (0, 0, contacts_.size(), robot_->numberDof()).noalias ()
+    // jacobian.block (0, 0, contacts_.size(), jointDof(robot_)).noalias ()
     // += lambda * vDot_ + v_ * lambdaDot_.transpose ();
 
-    jacobian.block(0, 0, contacts_.size(), robot_->numberDof()).noalias() +=
+    jacobian.block(0, 0, contacts_.size(), jointDof(robot_)).noalias() +=
         lambda * vDot_;
   }
 
   phi_.jacobianTimes(
       argument, u_,
-      jacobian.block(contacts_.size(), 0, 6, robot_->numberDof()));
+      jacobian.block(contacts_.size(), 0, 6, jointDof(robot_)));
   phi_.computePseudoInverseJacobian(argument, Gravity);
-  jacobian.block(contacts_.size(), 0, 6, robot_->numberDof()) +=
+  jacobian.block(contacts_.size(), 0, 6, jointDof(robot_)) +=
       -phi_.value() * phi_.pinvJacobian();
 }
 
@@ -205,7 +214,7 @@ void StaticStability::computeVDot(const ConfigurationIn_t arg,
 
   // TODO: preallocate this matrix
   Eigen::Matrix<value_type, 6, Eigen::Dynamic> JphiTimesUMinus(
-      6, robot_->numberDof());
+      6, jointDof(robot_));
   phi_.jacobianTimes(arg, uMinus, JphiTimesUMinus);
   vDot.noalias() -= phi_.pinv() * JphiTimesUMinus;
 
-- 
2.43.0


From f87a4aae21b7cfc164302adb37be7e6685be4ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:28 +0000
Subject: [PATCH 57/61] fix: QPStaticStability with extra configuration
 variables

---
 src/qp-static-stability.cc | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/qp-static-stability.cc b/src/qp-static-stability.cc
index 7767602..0e2c6cc 100644
--- a/src/qp-static-stability.cc
+++ b/src/qp-static-stability.cc
@@ -46,6 +46,11 @@ std::size_t forceDatasToNbContacts(
     nb += it->points.size();
   return nb;
 }
+
+// Number of velocity variables that move the joints.
+size_type jointDof(const DevicePtr_t& robot) {
+  return robot->numberDof() - robot->extraConfigSpace().dimension();
+}
 }  // namespace
 
 const Eigen::Matrix<value_type, 6, 1> QPStaticStability::Gravity =
@@ -69,7 +74,7 @@ QPStaticStability::QPStaticStability(const std::string& name,
       qp_((qpOASES::int_t)nbContacts_, qpOASES::HST_SEMIDEF),
       phi_(Eigen::Matrix<value_type, 6, Eigen::Dynamic>::Zero(6, nbContacts_),
            Eigen::Matrix<value_type, 6, Eigen::Dynamic>::Zero(
-               6, nbContacts_ * robot->numberDof())),
+               6, nbContacts_ * jointDof(robot))),
       primal_(vector_t::Zero(nbContacts_)),
       dual_(vector_t::Zero(nbContacts_)) {
   VectorMap_t zeros(Zeros, nbContacts_);
@@ -83,9 +88,9 @@ QPStaticStability::QPStaticStability(const std::string& name,
   Traits<PointCom>::Ptr_t OG = PointCom::create(com);
   for (std::size_t i = 0; i < contacts.size(); ++i) {
     Traits<PointInJoint>::Ptr_t OP2 = PointInJoint::create(
-        contacts[i].joint, contacts[i].point, robot->numberDof());
+        contacts[i].joint, contacts[i].point, jointDof(robot));
     Traits<VectorInJoint>::Ptr_t n2 = VectorInJoint::create(
-        contacts[i].joint, contacts[i].normal, robot->numberDof());
+        contacts[i].joint, contacts[i].normal, jointDof(robot));
 
     phi_(0, i) = n2;
     phi_(1, i) = (OG - OP2) ^ n2;
@@ -107,7 +112,7 @@ QPStaticStability::QPStaticStability(const std::string& name,
       qp_((qpOASES::int_t)nbContacts_, qpOASES::HST_SEMIDEF),
       phi_(Eigen::Matrix<value_type, 6, Eigen::Dynamic>::Zero(6, nbContacts_),
            Eigen::Matrix<value_type, 6, Eigen::Dynamic>::Zero(
-               6, nbContacts_ * robot->numberDof())),
+               6, nbContacts_ * jointDof(robot))),
       primal_(vector_t::Zero(nbContacts_)),
       dual_(vector_t::Zero(nbContacts_)) {
   VectorMap_t zeros(Zeros, nbContacts_);
@@ -122,10 +127,10 @@ QPStaticStability::QPStaticStability(const std::string& name,
   std::size_t col = 0;
   for (std::size_t i = 0; i < contacts.size(); ++i) {
     Traits<VectorInJoint>::Ptr_t n = VectorInJoint::create(
-        contacts[i].joint, contacts[i].normal, robot->numberDof());
+        contacts[i].joint, contacts[i].normal, jointDof(robot));
     for (std::size_t j = 0; j < contacts[i].points.size(); ++j) {
       Traits<PointInJoint>::Ptr_t OP = PointInJoint::create(
-          contacts[i].joint, contacts[i].points[j], robot->numberDof());
+          contacts[i].joint, contacts[i].points[j], jointDof(robot));
 
       phi_(0, col) = n;
       phi_(1, col) = (OG - OP) ^ n;
@@ -198,13 +203,16 @@ void QPStaticStability::impl_jacobian(matrixOut_t jacobian,
   }
 
   // TODO preallocate this.
-  matrix_t JT_phi_F(nbContacts_, robot_->numberDof());
-  matrix_t J_F(6, robot_->numberDof());
+  matrix_t JT_phi_F(nbContacts_, jointDof(robot_));
+  matrix_t J_F(6, jointDof(robot_));
   phi_.jacobianTransposeTimes(argument, phi_.value() * primal_, JT_phi_F);
   phi_.jacobianTimes(argument, primal_, J_F);
 
-  jacobian = 0.5 * primal_.transpose() * JT_phi_F +
-             (0.5 * phi_.value() * primal_ + Gravity).transpose() * J_F;
+  // Extra configuration variables have no effect.
+  jacobian.rightCols(jacobian.cols() - J_F.cols()).setZero();
+  jacobian.leftCols(J_F.cols()) =
+      0.5 * primal_.transpose() * JT_phi_F +
+      (0.5 * phi_.value() * primal_ + Gravity).transpose() * J_F;
 }
 
 inline qpOASES::returnValue QPStaticStability::solveQP(
-- 
2.43.0


From 7753493dab69602a5e40aa1425c958ea21952f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:28 +0000
Subject: [PATCH 58/61] fix: QPStaticStability computes its Jacobian from the
 value at the same configuration

---
 src/qp-static-stability.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qp-static-stability.cc b/src/qp-static-stability.cc
index 0e2c6cc..5a23ad4 100644
--- a/src/qp-static-stability.cc
+++ b/src/qp-static-stability.cc
@@ -186,6 +186,7 @@ void QPStaticStability::impl_jacobian(matrixOut_t jacobian,
 
   phi_.invalidate();
   // phi_.computeSVD (argument);
+  phi_.computeValue(argument);
   phi_.computeJacobian(argument);
 
   vector_t res(1);
-- 
2.43.0


From 26f756690218ec8e509c494b1246764ec9f850b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:28 +0000
Subject: [PATCH 59/61] fix: cross product matrix of PointCom uses the center
 of mass

---
 include/hpp/constraints/symbolic-calculus.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/hpp/constraints/symbolic-calculus.hh b/include/hpp/constraints/symbolic-calculus.hh
index 3ef4848..b6db76b 100644
--- a/include/hpp/constraints/symbolic-calculus.hh
+++ b/include/hpp/constraints/symbolic-calculus.hh
@@ -801,6 +801,8 @@ class PointCom : public CalculusBase<PointCom, vector3_t, ComJacobian_t> {
   }
   void impl_value(const ConfigurationIn_t) {
     comc_->compute(hpp::pinocchio::COM);
+    // Used to compute the cross product matrix
+    this->value_ = comc_->com();
   }
   void impl_jacobian(const ConfigurationIn_t) {
     comc_->compute(hpp::pinocchio::COMPUTE_ALL);
-- 
2.43.0


From 7843076ddbc931bdc99d1d8ddc5c32f1397d5268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:28 +0000
Subject: [PATCH 60/61] fix: Jacobian of a point in a joint frame does not
 overwrite its cross product matrix

---
 include/hpp/constraints/symbolic-calculus.hh | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/hpp/constraints/symbolic-calculus.hh b/include/hpp/constraints/symbolic-calculus.hh
index b6db76b..4db64e4 100644
--- a/include/hpp/constraints/symbolic-calculus.hh
+++ b/include/hpp/constraints/symbolic-calculus.hh
@@ -627,18 +627,19 @@ class PointInJoint : public CalculusBase<PointInJoint> {
     const matrix3_t& R = joint_->currentTransformation().rotation();
     this->jacobian_.noalias() = R * J.topRows<3>();
     if (!center_) {
-      computeCrossRXl();
-      this->jacobian_.noalias() -= (this->cross_ * R) * J.bottomRows<3>();
+      matrix3_t RlCross;
+      computeCrossRXl(RlCross);
+      this->jacobian_.noalias() -= (RlCross * R) * J.bottomRows<3>();
     }
   }
-  void computeCrossRXl() {
+  void computeCrossRXl(matrix3_t& cross) const {
     if (joint_ == NULL) return;
     if (center_) {
-      this->cross_.setZero();
+      cross.setZero();
       return;
     }
     computeCrossMatrix(joint_->currentTransformation().rotation() * local_,
-                       this->cross_);
+                       cross);
   }
 
  protected:
@@ -693,13 +694,14 @@ class VectorInJoint : public CalculusBase<VectorInJoint> {
     if (joint_ == NULL) return;
     const JointJacobian_t& J(joint_->jacobian());
     const matrix3_t& R = joint_->currentTransformation().rotation();
-    computeCrossRXl();
-    this->jacobian_.noalias() = (-this->cross_ * R) * J.bottomRows<3>();
+    matrix3_t RvCross;
+    computeCrossRXl(RvCross);
+    this->jacobian_.noalias() = (-RvCross * R) * J.bottomRows<3>();
   }
-  void computeCrossRXl() {
+  void computeCrossRXl(matrix3_t& cross) const {
     if (joint_ == NULL) return;
     computeCrossMatrix(joint_->currentTransformation().rotation() * vector_,
-                       this->cross_);
+                       cross);
   }
 
  protected:
-- 
2.43.0


From 9cbf06fd78189dc384b2997615f9522ec97d9c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:59 +0000
Subject: [PATCH 61/61] fix: a solve does not stop on explicit outputs that are
 not a number

---
 .../hpp/constraints/solver/impl/by-substitution.hh | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/hpp/constraints/solver/impl/by-substitution.hh b/include/hpp/constraints/solver/impl/by-substitution.hh
index c2bef37..adc2356 100644
--- a/include/hpp/constraints/solver/impl/by-substitution.hh
+++ b/include/hpp/constraints/solver/impl/by-substitution.hh
@@ -44,12 +44,17 @@ inline HierarchicalIterative::Status BySubstitution::impl_solve(
   // An explicit constraint may be defined over only a subspace of its input
   // space. If the input value is outside the definition interval, the explicit
   // constraint throws an exception of type FunctionNotDefinedForThisValue.
+  vector_t lastArg(arg);
   try {
     explicit_.solve(arg);
   } catch (const FunctionNotDefinedForThisValue& exc) {
     return INFEASIBLE;
   }
-  assert(!arg.hasNaN());
+  // The output of an explicit constraint cannot be represented.
+  if (!arg.allFinite()) {
+    arg = lastArg;
+    return INFEASIBLE;
+  }
   // An explicit constraint may be defined over only a subspace of its input
   // space. If the input value is outside the definition interval, the explicit
   // constraint throws an exception of type FunctionNotDefinedForThisValue.
@@ -109,13 +114,18 @@ inline HierarchicalIterative::Status BySubstitution::impl_solve(
       break;
     }
     // 3. Apply line search algorithm for the computed step
+    lastArg = arg;
     try {
       lineSearch(*this, arg, dq_);
       explicit_.solve(arg);
     } catch (const FunctionNotDefinedForThisValue& exc) {
       return INFEASIBLE;
     }
-    assert(!arg.hasNaN());
+    // The output of an explicit constraint cannot be represented.
+    if (!arg.allFinite()) {
+      arg = lastArg;
+      return INFEASIBLE;
+    }
 
     // 4. Evaluate the error at the new point.
     computeValue<true>(arg);
-- 
2.43.0

