// Dense recording solver: keeps the assembled least-squares problem so that demonstrations can inspect it.
#pragma once
#include <tvm/scheme/internal/AssignmentTarget.h>
#include <tvm/solver/abstract/LeastSquareSolver.h>
#include <tvm/VariableVector.h>
#include <Eigen/QR>
#include <iostream>

struct MockSolver : tvm::solver::abstract::LeastSquareSolver
{
  using Base = tvm::solver::abstract::LeastSquareSolver;
  static MockSolver *& last()
  {
    static MockSolver * p = nullptr;
    return p;
  }
  bool ds = true;
  Eigen::MatrixXd A, C, G;
  Eigen::VectorXd b, d, gl, gu, xl, xu, x;
  bool minNorm = false;
  int solves = 0, inits = 0, builds = 0;
  std::vector<std::string> log;
  explicit MockSolver(bool doubleSided = true) : Base(false), ds(doubleSided) { last() = this; }
  int nObj() const { return nObj_; }
  int nEq() const { return nEq_; }
  int nIneq() const { return nIneq_; }

protected:
  void initializeBuild_(int nObj, int nEq, int nIneq, bool bounds) override
  {
    ++inits;
    minNorm = false;
    resize_(nObj, nEq, nIneq, bounds);
  }
  ImpactFromChanges resize_(int nObj, int nEq, int nIneq, bool) override
  {
    int n = variables().totalSize();
    ImpactFromChanges i;
    i.objectives_ = ImpactFromChanges::willReallocate(A, nObj, n);
    i.equalityConstraints_ = ImpactFromChanges::willReallocate(C, nEq, n);
    i.inequalityConstraints_ = ImpactFromChanges::willReallocate(G, nIneq, n);
    i.bounds_ = ImpactFromChanges::willReallocate(xl, n);
    A.setZero(nObj, n); b.setZero(nObj);
    C.setZero(nEq, n); d.setZero(nEq);
    G.setZero(nIneq, n); gl.setConstant(nIneq, -1e30); gu.setConstant(nIneq, 1e30);
    xl.setConstant(n, -1e30); xu.setConstant(n, 1e30);
    return i;
  }
  void addBound_(tvm::LinearConstraintPtr c, tvm::RangePtr r, bool first) override
  {
    tvm::scheme::internal::AssignmentTarget t(r, xl, xu);
    addAssignement(c, t, c->variables()[0], first);
  }
  void addEqualityConstraint_(tvm::LinearConstraintPtr c) override
  {
    auto r = std::make_shared<tvm::Range>(nextEqualityConstraintRange_(*c));
    tvm::scheme::internal::AssignmentTarget t(r, C, d, tvm::constraint::Type::EQUAL, tvm::constraint::RHS::AS_GIVEN);
    addAssignement(c, nullptr, t, variables(), substitutions());
  }
  void addIneqalityConstraint_(tvm::LinearConstraintPtr c) override
  {
    auto r = std::make_shared<tvm::Range>(nextInequalityConstraintRange_(*c));
    if(ds)
    {
      tvm::scheme::internal::AssignmentTarget t(r, G, gl, gu, tvm::constraint::RHS::AS_GIVEN);
      addAssignement(c, nullptr, t, variables(), substitutions());
    }
    else
    {
      tvm::scheme::internal::AssignmentTarget t(r, G, gu, tvm::constraint::Type::LOWER_THAN, tvm::constraint::RHS::AS_GIVEN);
      addAssignement(c, nullptr, t, variables(), substitutions());
    }
  }
  void addObjective_(tvm::LinearConstraintPtr c, tvm::SolvingRequirementsPtr req, double w) override
  {
    auto r = std::make_shared<tvm::Range>(nextObjectiveRange_(*c));
    tvm::scheme::internal::AssignmentTarget t(r, A, b, tvm::constraint::Type::EQUAL, tvm::constraint::RHS::AS_GIVEN);
    addAssignement(c, req, t, variables(), substitutions(), w);
  }
  void setMinimumNorm_() override { minNorm = true; b.setZero(); }
  void resetBounds_() override { xl.setConstant(-1e30); xu.setConstant(1e30); log.push_back("resetBounds"); }
  void preAssignmentProcess_() override { log.push_back("pre"); }
  void postAssignmentProcess_() override { if(minNorm) A.setIdentity(); log.push_back("post"); }
  bool solve_() override
  {
    ++solves;
    log.push_back("solve");
    const int n = variables().totalSize();
    Eigen::MatrixXd K = Eigen::MatrixXd::Zero(n + C.rows(), n + C.rows());
    K.topLeftCorner(n, n) = A.transpose() * A;
    K.topRightCorner(n, C.rows()) = C.transpose();
    K.bottomLeftCorner(C.rows(), n) = C;
    Eigen::VectorXd k(n + C.rows());
    k << A.transpose() * b, d;
    x = K.completeOrthogonalDecomposition().solve(k).head(n);
    return true;
  }
  const Eigen::VectorXd & result_() const override { return x; }
  bool handleDoubleSidedConstraint_() const override { return ds; }
  tvm::Range nextEqualityConstraintRange_(const tvm::constraint::abstract::LinearConstraint & c) const override { return {eqSize_, constraintSize(c)}; }
  tvm::Range nextInequalityConstraintRange_(const tvm::constraint::abstract::LinearConstraint & c) const override { return {ineqSize_, constraintSize(c)}; }
  tvm::Range nextObjectiveRange_(const tvm::constraint::abstract::LinearConstraint & c) const override { return {objSize_, c.size()}; }
  void removeBounds_(const tvm::Range &) override {}
  void updateEqualityTargetData(tvm::scheme::internal::AssignmentTarget & t) override { t.changeData(tvm::MatrixRef(C), d); }
  void updateInequalityTargetData(tvm::scheme::internal::AssignmentTarget & t) override { if(ds) t.changeData(G, gl, gu); else t.changeData(tvm::MatrixRef(G), gu); }
  void updateBoundTargetData(tvm::scheme::internal::AssignmentTarget & t) override { t.changeData(tvm::VectorRef(xl), xu); }
  void updateObjectiveTargetData(tvm::scheme::internal::AssignmentTarget & t) override { t.changeData(tvm::MatrixRef(A), b); }
  void printProblemData_() const override {}
  void printDiagnostic_() const override {}
};

struct MockOptions;
struct MockFactory : tvm::solver::abstract::LSSolverFactory
{
  bool ds;
  explicit MockFactory(bool doubleSided = true) : LSSolverFactory("mock"), ds(doubleSided) {}
  std::unique_ptr<tvm::solver::abstract::LSSolverFactory> clone() const override { return std::make_unique<MockFactory>(*this); }
  std::unique_ptr<tvm::solver::abstract::LeastSquareSolver> createSolver() const override { return std::make_unique<MockSolver>(ds); }
};
struct MockOptions { using Factory = MockFactory; };
