From f79652cef9659d29872e881f5505306e443d8acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:06 +0000
Subject: [PATCH 01/29] fix: refuse to order a graph whose cycle is not
 reachable from a root

DependencyGraph::order_ silently left out the nodes of a cycle when another
part of the graph had a root, so that the call graph dropped the related
updates instead of reporting the cycle.
---
 src/graph/DependencyGraph.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/graph/DependencyGraph.cpp b/src/graph/DependencyGraph.cpp
index 898c3f5..567d77b 100644
--- a/src/graph/DependencyGraph.cpp
+++ b/src/graph/DependencyGraph.cpp
@@ -316,6 +316,12 @@ std::pair<std::vector<size_t>, DependencyGraph::DisjointSet> DependencyGraph::or
         "[DependencyGraph::Order] Try to order a non-empty graph with no root. It contains at least one cycle.");
   }
 
+  // Nodes that cannot be reached from a root belong to, or depend on nodes of, a cycle.
+  if(ret.first.size() != n)
+  {
+    throw std::logic_error("[DependencyGraph::Order] The graph contains at least one cycle.");
+  }
+
   return ret;
 }
 
-- 
2.43.0


From 38ff16584448555dd87050a2e77b5280833880dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:23 +0000
Subject: [PATCH 02/29] fix: check and register every signal of a multi-signal
 input dependency

Only the first signal was registered as an input, so that a disabled output
given in another position was silently accepted.
---
 include/tvm/graph/abstract/Node.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/tvm/graph/abstract/Node.hpp b/include/tvm/graph/abstract/Node.hpp
index 9c5a1a6..e73ebed 100644
--- a/include/tvm/graph/abstract/Node.hpp
+++ b/include/tvm/graph/abstract/Node.hpp
@@ -144,8 +144,8 @@ void Node<T>::addInputDependency(EnumU u, std::shared_ptr<S> source, EnumO i, Ar
 {
   // Make sure the call makes sense
   checkAddInputDependency<U, EnumU, S>(u);
-  // Make sure we have this input
-  addInput(source, i);
+  // Make sure we have these inputs
+  addInput(source, i, args...);
   // Add the dependency
   addInputDependency<U>(u, source.get(), i, args...);
 }
@@ -161,8 +161,8 @@ void Node<T>::addInputDependency(EnumU u, S & source, EnumO i, Args... args)
 {
   // Make sure the call makes sense
   checkAddInputDependency<U, EnumU, S>(u);
-  // Make sure we have this input
-  addInput(source, i);
+  // Make sure we have these inputs
+  addInput(source, i, args...);
   // Add the dependency
   addInputDependency<U>(u, &source, i, args...);
 }
-- 
2.43.0


From 91b2eec306bad1dd62e87e079c44a174bcecf774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:08 +0000
Subject: [PATCH 03/29] fix: refresh the anisotropic weight of an assignment
 when its scalar weight changes

---
 src/scheme/Assignment.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index 70b6b5d..8ccfa59 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -96,7 +96,8 @@ void Assignment::onUpdateWeights(bool scalar, bool vector)
     data_->scalarWeight_ = std::sqrt(requirements_->weight().value()) * scalarizationWeight_;
     data_->minusScalarWeight_ = -data_->scalarWeight_;
   }
-  if(vector)
+  // The anisotropic weight embeds the scalar one
+  if(vector || (scalar && !useDefaultAnisotropicWeight_))
   {
     if(!requirements_->anisotropicWeight().isDefault()
        && requirements_->anisotropicWeight().value().size() != target_.size())
-- 
2.43.0


From 31e85f6dd833b4a6d1de94b9933359f1fbef1b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:34 +0000
Subject: [PATCH 04/29] fix: don't retarget the internal temporary assignments
 of diagonal bounds

---
 src/scheme/Assignment.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index 8ccfa59..eb76294 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -73,7 +73,11 @@ void Assignment::onUpdatedTarget()
   for(auto & a : matrixSubstitutionAssignments_)
     a.updateTarget(target_);
   for(auto & a : vectorAssignments_)
-    a.assignment.to((target_.*a.getTargetVector)());
+  {
+    // Assignments to internal temporary vectors don't depend on the target
+    if(a.getTargetVector)
+      a.assignment.to((target_.*a.getTargetVector)());
+  }
   for(auto & a : vectorSubstitutionAssignments_)
     a.assignment.to((target_.*a.getTargetVector)());
 }
-- 
2.43.0


From a9c8c1ba2980dc8d57ca5da291d6ebef9c0a6fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:32 +0000
Subject: [PATCH 05/29] fix: write single-sided bounds to the vector of their
 target, also for -I

---
 src/scheme/Assignment.cpp       | 18 +++++-------------
 src/scheme/AssignmentTarget.cpp |  2 +-
 2 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index eb76294..fcad167 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -607,12 +607,7 @@ void Assignment::addBound(const VariablePtr & variable, RHSFunction f, bool firs
 {
   auto J = source_->jacobian(*variable);
   bool gt = target_.constraintType() == Type::GREATER_THAN;
-  VectorFunction v;
-
-  if(gt)
-    v = &AssignmentTarget::l;
-  else
-    v = &AssignmentTarget::u;
+  VectorFunction v = &AssignmentTarget::b;
 
   if(substitutedVariables_.contains(*variable))
   {
@@ -631,13 +626,10 @@ void Assignment::addBound(const VariablePtr & variable, RHSFunction f, bool firs
     else if(J.properties().isMinusIdentity())
     {
       assert(target_.constraintType() != source_->type());
-      if(J.properties().isIdentity())
-      {
-        if(first)
-          addVectorAssignment(f, v, true);
-        else
-          gt ? addVectorAssignment<MAX>(f, v, true) : addVectorAssignment<MIN>(f, v, true);
-      }
+      if(first)
+        addVectorAssignment(f, v, true);
+      else
+        gt ? addVectorAssignment<MAX>(f, v, true) : addVectorAssignment<MIN>(f, v, true);
     }
     else
     {
diff --git a/src/scheme/AssignmentTarget.cpp b/src/scheme/AssignmentTarget.cpp
index f2b8e9b..17a18e7 100644
--- a/src/scheme/AssignmentTarget.cpp
+++ b/src/scheme/AssignmentTarget.cpp
@@ -39,7 +39,7 @@ AssignmentTarget::AssignmentTarget(RangePtr range, VectorRef l, VectorRef u)
 {}
 
 AssignmentTarget::AssignmentTarget(RangePtr range, VectorRef lu, constraint::Type ct)
-: targetType_(TargetType::Linear), cstrType_(ct), range_(range), b_(lu)
+: targetType_(TargetType::Linear), cstrType_(ct), constraintRhs_(constraint::RHS::AS_GIVEN), range_(range), b_(lu)
 {
   if(!(ct == constraint::Type::GREATER_THAN || ct == constraint::Type::LOWER_THAN))
   {
-- 
2.43.0


From 5f51e561056d02507daa783afb9437ff89485ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:03 +0000
Subject: [PATCH 06/29] fix: store the matrix proportional gain given to a
 running PD task dynamics

---
 src/task_dynamics/ProportionalDerivative.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/task_dynamics/ProportionalDerivative.cpp b/src/task_dynamics/ProportionalDerivative.cpp
index 08b62f1..c19d2ec 100644
--- a/src/task_dynamics/ProportionalDerivative.cpp
+++ b/src/task_dynamics/ProportionalDerivative.cpp
@@ -152,6 +152,7 @@ void ProportionalDerivative::Impl::gains(const Eigen::MatrixXd & kp)
   Eigen::RealSchur<Eigen::MatrixXd> dec(kp);
   assert(dec.matrixT().isDiagonal(1e-8) && "kp is not symmetric.");
   assert((dec.matrixT().diagonal().array() >= 0).all() && "kp is indefinite.");
+  kp_ = kp;
   kv_.emplace<2>(2 * dec.matrixU() * dec.matrixT().diagonal().asDiagonal() * dec.matrixU().transpose());
 }
 
-- 
2.43.0


From e482220831f2cf014ceccb3e9da13c5327728688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:03 +0000
Subject: [PATCH 07/29] fix: use a critically damped derivative gain for matrix
 proportional gains

---
 src/task_dynamics/ProportionalDerivative.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/task_dynamics/ProportionalDerivative.cpp b/src/task_dynamics/ProportionalDerivative.cpp
index c19d2ec..d6658d9 100644
--- a/src/task_dynamics/ProportionalDerivative.cpp
+++ b/src/task_dynamics/ProportionalDerivative.cpp
@@ -51,7 +51,7 @@ ProportionalDerivative::ProportionalDerivative(const Eigen::MatrixXd & kp)
   Eigen::RealSchur<Eigen::MatrixXd> dec(kp);
   assert(dec.matrixT().isDiagonal(1e-8) && "kp is not symmetric.");
   assert((dec.matrixT().diagonal().array() >= 0).all() && "kp is indefinite.");
-  kv_.emplace<2>(2 * dec.matrixU() * dec.matrixT().diagonal().asDiagonal() * dec.matrixU().transpose());
+  kv_.emplace<2>(2 * dec.matrixU() * dec.matrixT().diagonal().cwiseSqrt().asDiagonal() * dec.matrixU().transpose());
 }
 
 std::unique_ptr<abstract::TaskDynamicsImpl> ProportionalDerivative::impl_(FunctionPtr f,
@@ -153,7 +153,7 @@ void ProportionalDerivative::Impl::gains(const Eigen::MatrixXd & kp)
   assert(dec.matrixT().isDiagonal(1e-8) && "kp is not symmetric.");
   assert((dec.matrixT().diagonal().array() >= 0).all() && "kp is indefinite.");
   kp_ = kp;
-  kv_.emplace<2>(2 * dec.matrixU() * dec.matrixT().diagonal().asDiagonal() * dec.matrixU().transpose());
+  kv_.emplace<2>(2 * dec.matrixU() * dec.matrixT().diagonal().cwiseSqrt().asDiagonal() * dec.matrixU().transpose());
 }
 
 void ProportionalDerivative::Impl::checkGainSize(double) const
-- 
2.43.0


From aaee854b74beb8660f045b97eabb443256b76e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:03 +0000
Subject: [PATCH 08/29] fix: refuse matrix proportional gains with only one
 compatible dimension

---
 src/task_dynamics/Proportional.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/task_dynamics/Proportional.cpp b/src/task_dynamics/Proportional.cpp
index 374d89b..5465697 100644
--- a/src/task_dynamics/Proportional.cpp
+++ b/src/task_dynamics/Proportional.cpp
@@ -29,8 +29,8 @@ Proportional::Impl::Impl(FunctionPtr f, constraint::Type t, const Eigen::VectorX
 : TaskDynamicsImpl(Order::One, f, t, rhs), kp_(kp)
 {
   if((kp.index() == 1 && mpark::get<Eigen::VectorXd>(kp).size() != f->size())   // Diagonal gain
-     || (kp.index() == 2 && mpark::get<Eigen::MatrixXd>(kp).cols() != f->size() // Matrix gain
-         && mpark::get<Eigen::MatrixXd>(kp).rows() != f->size()))
+     || (kp.index() == 2 && (mpark::get<Eigen::MatrixXd>(kp).cols() != f->size() // Matrix gain
+         || mpark::get<Eigen::MatrixXd>(kp).rows() != f->size())))
   {
     throw std::runtime_error("[task_dynamics::Proportional::Impl] Gain and function have incompatible sizes.");
   }
-- 
2.43.0


From d7a899ec3836659c4ea2e6e15f1d282f84ff1731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:03 +0000
Subject: [PATCH 09/29] fix: reset the assigned sizes of each level when
 starting a hierarchical build

---
 src/solver/HierarchicalLeastSquareSolver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/HierarchicalLeastSquareSolver.cpp b/src/solver/HierarchicalLeastSquareSolver.cpp
index cee065a..56190a3 100644
--- a/src/solver/HierarchicalLeastSquareSolver.cpp
+++ b/src/solver/HierarchicalLeastSquareSolver.cpp
@@ -71,8 +71,8 @@ void HierarchicalLeastSquareSolver::startBuild(const VariableVector & x,
   initializeBuild_(nEq, nIneq, useBounds);
   nEq_ = nEq;
   nIneq_ = nIneq;
-  eqSize_.resize(nEq_.size(), 0);
-  ineqSize_.resize(nEq_.size(), 0);
+  eqSize_.assign(nEq_.size(), 0);
+  ineqSize_.assign(nEq_.size(), 0);
   useBounds_ = useBounds;
 }
 
-- 
2.43.0


From 2d7ec694bf8b45035280d12bddafbcd863a276ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:03 +0000
Subject: [PATCH 10/29] fix: forget the previous additional variables when
 finalizing substitutions

---
 src/hint/Substitutions.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hint/Substitutions.cpp b/src/hint/Substitutions.cpp
index d1f6a76..c5ed60c 100644
--- a/src/hint/Substitutions.cpp
+++ b/src/hint/Substitutions.cpp
@@ -90,6 +90,7 @@ void Substitutions::finalize()
   // Retrieve all the variables, functions and constraints
   variables_.clear();
   varSubstitutions_.clear();
+  additionalVariables_.clear();
   additionalConstraints_.clear();
   otherVariables_.clear();
   for(const auto & u : units_)
-- 
2.43.0


From 0ecae907c1c0465dbb2455e8d370a33536bf5fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:03 +0000
Subject: [PATCH 11/29] fix: keep the variables of a vector assigned to itself

---
 src/VariableVector.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/VariableVector.cpp b/src/VariableVector.cpp
index 4081250..12d4324 100644
--- a/src/VariableVector.cpp
+++ b/src/VariableVector.cpp
@@ -14,8 +14,11 @@ VariableVector::VariableVector(const VariableVector & other) : VariableVector(ot
 
 VariableVector & VariableVector::operator=(const VariableVector & other)
 {
-  clear();
-  add(other.variables());
+  if(this != &other)
+  {
+    clear();
+    add(other.variables());
+  }
   return *this;
 }
 
-- 
2.43.0


From b8d77bbbae973e8465c927a92f1b16d85bace286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:03 +0000
Subject: [PATCH 12/29] fix: name a nested subvariable after its position in
 the supervariable

---
 src/Variable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Variable.cpp b/src/Variable.cpp
index c0e1965..8914b96 100644
--- a/src/Variable.cpp
+++ b/src/Variable.cpp
@@ -242,7 +242,7 @@ VariablePtr Variable::subvariable(Space space, std::string_view baseName, Space
   // Create a subvariable of the supervariable base primitive
   if(autoName)
   {
-    int start = base->spaceShift().rSize() + shift.rSize();
+    int start = shift_.rSize() + shift.rSize();
     std::stringstream ss;
     ss << base->name() << "[" << start << ":" << start + space.rSize() - 1 << "]";
     sub = std::make_shared<Variable>(make_shared_token{}, base, space, ss.str(), shift_ * shift);
-- 
2.43.0


From 3d6de8158b6a71a110562f49a7bbf14d0a65bbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:03 +0000
Subject: [PATCH 13/29] fix: use the variable of the substitution to decide if
 a substituted constraint is a bound

---
 src/scheme/helpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scheme/helpers.cpp b/src/scheme/helpers.cpp
index 922e813..25b7631 100644
--- a/src/scheme/helpers.cpp
+++ b/src/scheme/helpers.cpp
@@ -142,7 +142,7 @@ bool canBeUsedAsBound(const ConstraintPtr & c,
     else
     {
       const auto & sub = xsub[static_cast<size_t>(it - x.begin())];
-      auto ps = sub->jacobian(*x[0]).properties();
+      auto ps = sub->jacobian(*sub->variables()[0]).properties();
       if(case1)
         return (p * ps).isPositiveDefinite();
       else
-- 
2.43.0


From 21d7779cb3cdb47ceae6e89b50c46c517eb513ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:19 +0000
Subject: [PATCH 14/29] fix: run the callbacks of a requirement assigned from
 another requirement

---
 include/tvm/requirements/abstract/SingleSolvingRequirement.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/tvm/requirements/abstract/SingleSolvingRequirement.h b/include/tvm/requirements/abstract/SingleSolvingRequirement.h
index 63ce1c2..089cdd3 100644
--- a/include/tvm/requirements/abstract/SingleSolvingRequirement.h
+++ b/include/tvm/requirements/abstract/SingleSolvingRequirement.h
@@ -55,6 +55,10 @@ protected:
   {
     value_ = other.value();
     default_ = other.isDefault();
+    if constexpr(!Lightweight)
+    {
+      Base::run();
+    }
     return *this;
   }
 
-- 
2.43.0


From 87bc978e1f9cc5e003a3fa3aee9431a6c5e7c2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:28 +0000
Subject: [PATCH 15/29] fix: leave a linearized problem unchanged when a task
 cannot be added or removed

---
 src/LinearizedControlProblem.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/LinearizedControlProblem.cpp b/src/LinearizedControlProblem.cpp
index 36907a5..58dddda 100644
--- a/src/LinearizedControlProblem.cpp
+++ b/src/LinearizedControlProblem.cpp
@@ -25,8 +25,6 @@ TaskWithRequirementsPtr LinearizedControlProblem::add(const Task & task, const r
 
 void LinearizedControlProblem::add(TaskWithRequirementsPtr tr)
 {
-  ControlProblem::add(tr);
-
   // FIXME A lot of work can be done here based on the properties of the task's jacobian.
   // In particular, we could detect bounds, pairs of tasks forming a double-sided constraints...
   LinearConstraintWithRequirements lcr;
@@ -35,6 +33,9 @@ void LinearizedControlProblem::add(TaskWithRequirementsPtr tr)
   // lcr.requirements points to and doesn't outlive tr->requirements.
   lcr.requirements = std::shared_ptr<requirements::SolvingRequirementsWithCallbacks>(tr, &tr->requirements);
   lcr.bound = scheme::internal::isBound(lcr.constraint);
+
+  // the constraint might be impossible to build: we register the task only once this is done.
+  ControlProblem::add(tr);
   constraints_[tr.get()] = lcr;
 
   using CstrOutput = internal::FirstOrderProvider::Output;
@@ -59,13 +60,14 @@ void LinearizedControlProblem::add(TaskWithRequirementsPtr tr)
 
 void LinearizedControlProblem::remove(const TaskWithRequirements & tr)
 {
-  ControlProblem::remove(tr);
   auto it = constraints_.find(&tr);
   if(it == constraints_.end())
   {
     return;
   }
+  // this might be refused: we unregister the task only once this is done.
   removeSubstitutionFor(*it->second.constraint);
+  ControlProblem::remove(tr);
   updater_.removeInput(it->second.constraint.get());
   constraints_.erase(it);
 }
-- 
2.43.0


From 115a5c5afcba640cdd22ef97bd0e390f651400cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:44 +0000
Subject: [PATCH 16/29] fix: accept the priority levels handled by
 scalarization

---
 include/tvm/scheme/internal/SchemeAbilities.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/tvm/scheme/internal/SchemeAbilities.h b/include/tvm/scheme/internal/SchemeAbilities.h
index b0383ea..93a34c0 100644
--- a/include/tvm/scheme/internal/SchemeAbilities.h
+++ b/include/tvm/scheme/internal/SchemeAbilities.h
@@ -115,6 +115,8 @@ inline void SchemeAbilities::check(const ConstraintPtr & c, const RequirementsPt
                   << ") cannot be handled as a strict hierarchy level by the resolution scheme. "
                   << "Using scalarization to revert to weighted approach.";
       }
+      // the task is handled as part of the last level of the hierarchy
+      p = numberOfLevels_ - 1;
     }
     else
     {
-- 
2.43.0


From 6e0b5b9d3a5bec6129c2f3c52c2cbaec89e1e2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:33 +0000
Subject: [PATCH 17/29] fix: count the rows of the minimum norm objective when
 building

---
 src/solver/LeastSquareSolver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/LeastSquareSolver.cpp b/src/solver/LeastSquareSolver.cpp
index 433a135..98004ad 100644
--- a/src/solver/LeastSquareSolver.cpp
+++ b/src/solver/LeastSquareSolver.cpp
@@ -134,6 +134,7 @@ void LeastSquareSolver::setMinimumNorm()
     throw std::runtime_error("[LeastSquareSolver]: attempting to add an objective without calling startBuild first");
   }
   setMinimumNorm_();
+  objSize_ = nObj_;
 }
 
 bool LeastSquareSolver::solve()
-- 
2.43.0


From c109063b080d0ff6ae484e74ebe95510a498649d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:09 +0000
Subject: [PATCH 18/29] fix: rebuild a damped problem when its objectives
 change

---
 src/scheme/WeightedLeastSquares.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/scheme/WeightedLeastSquares.cpp b/src/scheme/WeightedLeastSquares.cpp
index 990a7a6..47fb754 100644
--- a/src/scheme/WeightedLeastSquares.cpp
+++ b/src/scheme/WeightedLeastSquares.cpp
@@ -55,6 +55,16 @@ void WeightedLeastSquares::updateComputationData_(const LinearizedControlProblem
         resetComputationData(problem, memory);
         return;
       }
+      // With automatic damping, the problem built depends on the presence of objectives.
+      if(options_.autoDamping().value()
+         && ((e.type() == EventType::TaskAddition
+              && e.typedEmitter<EventType::TaskAddition>().requirements.priorityLevel().value() > 0)
+             || (e.type() == EventType::TaskRemoval
+                 && e.typedEmitter<EventType::TaskRemoval>().requirements.priorityLevel().value() > 0)))
+      {
+        resetComputationData(problem, memory);
+        return;
+      }
     }
     while(memory->hasEvents())
     {
-- 
2.43.0


From c0ea22069ff901d1f0c99fef5e14b3cf0ab8edd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:42 +0000
Subject: [PATCH 19/29] fix: restore the malloc permission when creating
 computation data

---
 include/tvm/scheme/abstract/ResolutionScheme.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/tvm/scheme/abstract/ResolutionScheme.h b/include/tvm/scheme/abstract/ResolutionScheme.h
index ea8f446..2cc8366 100644
--- a/include/tvm/scheme/abstract/ResolutionScheme.h
+++ b/include/tvm/scheme/abstract/ResolutionScheme.h
@@ -86,8 +86,9 @@ inline std::unique_ptr<internal::ProblemComputationData> ResolutionScheme<Derive
     const Problem & problem) const
 {
   tvm::utils::override_is_malloc_allowed(true);
-  return derived().createComputationData_(problem);
+  auto data = derived().createComputationData_(problem);
   tvm::utils::restore_is_malloc_allowed();
+  return data;
 }
 
 template<typename Derived>
-- 
2.43.0


From 3c6a08c9ab49f4cd58bee3fe9a969a05154083a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:58 +0000
Subject: [PATCH 20/29] fix: follow the convention of the target for the
 missing side of a constraint

---
 include/tvm/scheme/internal/Assignment.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/tvm/scheme/internal/Assignment.hpp b/include/tvm/scheme/internal/Assignment.hpp
index d231417..8bfeb14 100644
--- a/include/tvm/scheme/internal/Assignment.hpp
+++ b/include/tvm/scheme/internal/Assignment.hpp
@@ -242,16 +242,22 @@ inline void Assignment::addVectorAssignment(const From & f,
 }
 
 template<AssignType A, typename To>
-inline void Assignment::addVectorAssignment(double d, To v, bool flip, bool, bool)
+inline void Assignment::addVectorAssignment(double d, To v, bool flip, bool, bool useTRHS)
 {
+  if(target_.constraintRhs() == constraint::RHS::OPPOSITE && useTRHS)
+    flip = !flip;
+
   const VectorRef & to = retrieveTarget(target_, v);
   auto w = createAssignment<Eigen::VectorXd, A>(d, to, flip);
   vectorAssignments_.emplace_back(w, false, nullptr, nullifyIfVecRef(v));
 }
 
 template<AssignType A, typename To>
-inline void Assignment::addVectorAssignment(double d, To v, const MatrixConstRef & D, bool flip, bool, bool)
+inline void Assignment::addVectorAssignment(double d, To v, const MatrixConstRef & D, bool flip, bool, bool useTRHS)
 {
+  if(target_.constraintRhs() == constraint::RHS::OPPOSITE && useTRHS)
+    flip = !flip;
+
   const VectorRef & to = retrieveTarget(target_, v);
   auto w = createMultiplicationAssignment<Eigen::VectorXd, A>(d, to, D, flip);
   vectorAssignments_.emplace_back(w, false, nullptr, nullifyIfVecRef(v));
-- 
2.43.0


From ec73215c025f0a0fb4aed609a4d4887314a28b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:19 +0000
Subject: [PATCH 21/29] fix: recompute the split variables when their counts
 change

---
 src/internal/VariableCountingVector.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/internal/VariableCountingVector.cpp b/src/internal/VariableCountingVector.cpp
index 29c09a4..a462a78 100644
--- a/src/internal/VariableCountingVector.cpp
+++ b/src/internal/VariableCountingVector.cpp
@@ -18,7 +18,8 @@ bool VariableCountingVector::add(VariablePtr v)
   bool change = counterPair.first.add(start, dim);
   if(change)
     ++counterPair.second;
-  upToDate_ = upToDate_ && !change;
+  // When split_ is true, the result also depends on the counts, which always change.
+  upToDate_ = upToDate_ && !change && !split_;
   return change;
 }
 
@@ -48,7 +49,8 @@ bool VariableCountingVector::remove(const Variable & v)
       counterPair.second += 10;
     }
   }
-  upToDate_ = upToDate_ && !change;
+  // When split_ is true, the result also depends on the counts, which always change.
+  upToDate_ = upToDate_ && !change && !split_;
   return change;
 }
 
-- 
2.43.0


From 477ff17152b2037c54c30a6532d895904c4f5d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:06 +0000
Subject: [PATCH 22/29] fix: forget a counted variable once it is completely
 removed

---
 src/internal/VariableCountingVector.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/internal/VariableCountingVector.cpp b/src/internal/VariableCountingVector.cpp
index a462a78..a07b7a4 100644
--- a/src/internal/VariableCountingVector.cpp
+++ b/src/internal/VariableCountingVector.cpp
@@ -40,7 +40,8 @@ bool VariableCountingVector::remove(const Variable & v)
   {
     if(counterPair.first.empty())
     {
-      counterPair.second = 0;
+      // Nothing is left of the variable: don't keep a pointer on it
+      count_.erase(s.get());
     }
     else
     {
-- 
2.43.0


From 9553ba9d667d2b9cf372c4720512fab3fdf96196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:30 +0000
Subject: [PATCH 23/29] fix: creating the derivative of a subvariable must not
 reset the values of the derivative of its supervariable

---
 src/Variable.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Variable.cpp b/src/Variable.cpp
index 8914b96..0030e53 100644
--- a/src/Variable.cpp
+++ b/src/Variable.cpp
@@ -223,7 +223,9 @@ Variable::Variable(Variable * var, bool autoName)
     ss << "[" << shift_.tSize() << ":" << shift_.tSize() + size() - 1 << "]";
   }
   name_ = ss.str();
-  value_.setZero();
+  // The memory of a subvariable is that of its supervariable, which is already initialized.
+  if(!isSubvariable())
+    value_.setZero();
 }
 
 VariablePtr Variable::subvariable(Space space, std::string_view baseName, Space shift, bool autoName) const
-- 
2.43.0


From ea6fb37401f069c93995a554e7b58a3c36021975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:30 +0000
Subject: [PATCH 24/29] fix: a pointer on a subvariable obtained from it or its
 derivatives must keep it alive

---
 src/Variable.cpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/Variable.cpp b/src/Variable.cpp
index 0030e53..7c777d5 100644
--- a/src/Variable.cpp
+++ b/src/Variable.cpp
@@ -267,20 +267,12 @@ Variable::Variable(make_shared_token, VariablePtr var, const Space & space, std:
 
 VariablePtr Variable::shared_from_this()
 {
+  // Base primitives (including subvariables) are managed by their own shared_ptr. A derivative is owned by its base
+  // primitive, with which it shares the reference counter.
   if(isBasePrimitive())
-  {
-    if(isSubvariable())
-      return {superVariable_->shared_from_this(), this};
-    else
-      return std::enable_shared_from_this<Variable>::shared_from_this();
-  }
+    return std::enable_shared_from_this<Variable>::shared_from_this();
   else
-  {
-    if(isSubvariable())
-      return {superVariable_->basePrimitive()->shared_from_this(), this};
-    else
-      return {basePrimitive()->shared_from_this(), this};
-  }
+    return {basePrimitive(), this};
 }
 
 } // namespace tvm
-- 
2.43.0


From 2a13d01a4bd2c8715e4ea09be5a419ce8b06f941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:37 +0000
Subject: [PATCH 25/29] fix: d*I is a multiple of the identity, not the
 identity

The product of a scalar and a matrix marked IDENTITY (or MINUS_IDENTITY) kept
the shape of the matrix for every positive scalar, so 2*I was reported as the
identity.
---
 src/internal/MatrixProperties.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/internal/MatrixProperties.cpp b/src/internal/MatrixProperties.cpp
index 6ebc6e1..95922de 100644
--- a/src/internal/MatrixProperties.cpp
+++ b/src/internal/MatrixProperties.cpp
@@ -266,12 +266,16 @@ Shape operator-(const Shape & s)
 
 Shape operator*(double d, const Shape & s)
 {
-  if(d < 0)
-    return -s;
-  else if(d > 0)
+  if(d == 0)
+    return Shape::ZERO;
+  else if(d == 1)
     return s;
+  else if(d == -1)
+    return -s;
+  else if(s == Shape::IDENTITY || s == Shape::MINUS_IDENTITY)
+    return Shape::MULTIPLE_OF_IDENTITY;
   else
-    return Shape::ZERO;
+    return s;
 }
 
 Shape operator+(const Shape & s1, const Shape & s2)
-- 
2.43.0


From 05d8cf76c74318dc83be2112eacace37d05b6a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:02 +0000
Subject: [PATCH 26/29] fix: sums and products of matrix properties do not
 throw on valid operands

The operators passed flags meaning 'not known' to a constructor that takes them
for claims, and that rejects them when they contradict what it deduces: I + 0,
the sum of two positive definite matrices, or 0 times a non constant matrix
threw an exception.
---
 src/internal/MatrixProperties.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/internal/MatrixProperties.cpp b/src/internal/MatrixProperties.cpp
index 95922de..2ed2b9f 100644
--- a/src/internal/MatrixProperties.cpp
+++ b/src/internal/MatrixProperties.cpp
@@ -359,28 +359,35 @@ Shape operator*(const Shape & s1, const Shape & s2)
   }
 }
 
+/** Properties of the result of an operation.
+ * A flag at false means here that nothing is known. It must not be given as such to the constructor, for which it would
+ * be a claim that can contradict what is deduced from the shape and the positiveness.
+ */
+static MatrixProperties result(Shape s, Positiveness p, Constness c, Invertibility i)
+{ return {s, p, Constness(c || deduceConstance(s)), Invertibility(i || deduceInvertibility(s, p))}; }
+
 MatrixProperties operator-(const MatrixProperties & p)
-{ return {-p.shape(), -p.positiveness(), -p.constness(), -p.invertibility()}; }
+{ return result(-p.shape(), -p.positiveness(), -p.constness(), -p.invertibility()); }
 
 MatrixProperties operator*(double d, const MatrixProperties & p)
-{ return {d * p.shape(), d * p.positiveness(), d * p.constness(), d * p.invertibility()}; }
+{ return result(d * p.shape(), d * p.positiveness(), d * p.constness(), d * p.invertibility()); }
 
 MatrixProperties operator+(const MatrixProperties & p1, const MatrixProperties & p2)
 {
-  return {p1.shape() + p2.shape(), p1.positiveness() + p2.positiveness(), p1.constness() + p2.constness(),
-          p1.invertibility() + p2.invertibility()};
+  return result(p1.shape() + p2.shape(), p1.positiveness() + p2.positiveness(), p1.constness() + p2.constness(),
+                p1.invertibility() + p2.invertibility());
 }
 
 MatrixProperties operator-(const MatrixProperties & p1, const MatrixProperties & p2)
 {
-  return {p1.shape() - p2.shape(), p1.positiveness() - p2.positiveness(), p1.constness() - p2.constness(),
-          p1.invertibility() - p2.invertibility()};
+  return result(p1.shape() - p2.shape(), p1.positiveness() - p2.positiveness(), p1.constness() - p2.constness(),
+                p1.invertibility() - p2.invertibility());
 }
 
 MatrixProperties operator*(const MatrixProperties & p1, const MatrixProperties & p2)
 {
-  return {p1.shape() * p2.shape(), p1.positiveness() * p2.positiveness(), p1.constness() * p2.constness(),
-          p1.invertibility() * p2.invertibility()};
+  return result(p1.shape() * p2.shape(), p1.positiveness() * p2.positiveness(), p1.constness() * p2.constness(),
+                p1.invertibility() * p2.invertibility());
 }
 
 } // namespace internal
-- 
2.43.0


From b460a68a34138f920ceb1744e85776da5b69325e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:04 +0000
Subject: [PATCH 27/29] fix: refuse to remove a variable a function does not
 use, and forget the caches of the stored one

---
 src/internal/FirstOrderProvider.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/internal/FirstOrderProvider.cpp b/src/internal/FirstOrderProvider.cpp
index a89497b..238c994 100644
--- a/src/internal/FirstOrderProvider.cpp
+++ b/src/internal/FirstOrderProvider.cpp
@@ -58,7 +58,13 @@ void FirstOrderProvider::addVariable(const VariableVector & vv, bool linear)
 
 void FirstOrderProvider::removeVariable(VariablePtr v)
 {
-  variables_.remove(*v);
+  int i = variables_.indexOf(*v);
+  if(i < 0)
+  {
+    throw std::runtime_error("[FirstOrderProvider::removeVariable] Variable " + v->name() + " is not used.");
+  }
+  v = variables_[i]; // caches are indexed by the object that was added, *v might only be equal to it.
+  variables_.remove(i);
   jacobian_.erase(v.get());
   linear_.erase(v.get());
   removeVariable_(v);
-- 
2.43.0


From e94961d9361b56a2df146f5bbee220c98976ac3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:04 +0000
Subject: [PATCH 28/29] fix: use tangent space ranges for the time derivative
 of jacobians w.r.t. subvariables

---
 include/tvm/function/abstract/Function.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tvm/function/abstract/Function.h b/include/tvm/function/abstract/Function.h
index 81deda5..325b4b8 100644
--- a/include/tvm/function/abstract/Function.h
+++ b/include/tvm/function/abstract/Function.h
@@ -89,7 +89,7 @@ protected:
   // cache
   Eigen::VectorXd velocity_;
   Eigen::VectorXd normalAcceleration_;
-  utils::internal::MapWithVariableAsKey<Eigen::MatrixXd, slice_jdot> JDot_;
+  utils::internal::MapWithVariableAsKey<Eigen::MatrixXd, slice_jdot, true> JDot_;
 
 private:
   // we retain the variables' derivatives shared_ptr to ensure the reference is never lost
-- 
2.43.0


From 5937848244dc6ef4eded6196204700f0bf9fb02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:04 +0000
Subject: [PATCH 29/29] fix: accumulate matrices of a variable given several
 times to a linear constraint

---
 src/constraint/BasicLinearConstraint.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/constraint/BasicLinearConstraint.cpp b/src/constraint/BasicLinearConstraint.cpp
index 241c4f1..ee46790 100644
--- a/src/constraint/BasicLinearConstraint.cpp
+++ b/src/constraint/BasicLinearConstraint.cpp
@@ -206,9 +206,18 @@ void BasicLinearConstraint::add(const Eigen::MatrixXd & A, VariablePtr x)
     throw std::runtime_error("Matrix A doesn't have coherent row size.");
   if(A.cols() != x->size())
     throw std::runtime_error("Matrix A doesn't have its column size coherent with its corresponding variable.");
-  addVariable(x, true);
-  jacobian_.at(x.get()) = A;
-  jacobian_.at(x.get()).properties({tvm::internal::MatrixProperties::Constness(true)});
+  if(variables().contains(*x))
+  {
+    auto J = jacobian_.at(x.get(), tvm::utils::internal::with_sub{});
+    J += A;                                                           // this erase the properties of J;
+    J.properties({tvm::internal::MatrixProperties::Constness(true)}); // We restore only this one
+  }
+  else
+  {
+    addVariable(x, true);
+    jacobian_.at(x.get()) = A;
+    jacobian_.at(x.get()).properties({tvm::internal::MatrixProperties::Constness(true)});
+  }
 }
 
 } // namespace constraint
-- 
2.43.0

