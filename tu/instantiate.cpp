// Instantiates the header templates of the library so that the extractor sees their bodies.
#include <tvm/ControlProblem.h>
#include <tvm/LinearizedControlProblem.h>
#include <tvm/Task.h>
#include <tvm/VariableVector.h>
#include <tvm/constraint/BasicLinearConstraint.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/function/IdentityFunction.h>
#include <tvm/geometry/Plane.h>
#include <tvm/graph/abstract/OutputSelector.h>
#include <tvm/graph/CallGraph.h>
#include <tvm/requirements/SolvingRequirements.h>
#include <tvm/scheme/HierarchicalLeastSquares.h>
#include <tvm/scheme/WeightedLeastSquares.h>
#include <tvm/scheme/internal/CompiledAssignmentWrapper.h>
#include <tvm/solver/internal/SolverEvents.h>
#include <tvm/task_dynamics/Clamped.h>
#include <tvm/task_dynamics/Constant.h>
#include <tvm/task_dynamics/FeedForward.h>
#include <tvm/task_dynamics/None.h>
#include <tvm/task_dynamics/OneStepToZero.h>
#include <tvm/task_dynamics/Proportional.h>
#include <tvm/task_dynamics/ProportionalDerivative.h>
#include <tvm/task_dynamics/Reference.h>
#include <tvm/task_dynamics/VelocityDamper.h>
#include <tvm/utils/ProtoTask.h>

namespace witness
{
using namespace tvm;

struct Provider : public graph::abstract::Node<Provider>
{
  SET_OUTPUTS(Provider, Value)
  SET_UPDATES(Provider, Up, Sub)
  Provider()
  {
    registerUpdates(Update::Up, &Provider::up, Update::Sub, &Provider::up);
    addInternalDependency(Update::Up, Update::Sub);
    addOutputDependency(Output::Value, Update::Up);
  }
  void up() { v_.setZero(); }
  const Eigen::VectorXd & value() const { return v_; }
  Eigen::VectorXd v_;
};

struct Restricted : public Provider
{
  SET_OUTPUTS(Restricted, Extra, Other)
  DISABLE_OUTPUTS(Output::Extra)
};

struct Selector : public graph::abstract::OutputSelector<Selector, Restricted>
{
  void pick()
  {
    enableOutput(Restricted::Output::Other);
    disableOutput(Restricted::Output::Other);
    enableOutput(Restricted::Output::Value, Restricted::Output::Other);
    disableOutput(Restricted::Output::Value, Restricted::Output::Other);
    lock();
    unlock();
  }
};

struct Reader : public graph::abstract::Node<Reader>
{
  SET_OUTPUTS(Reader, Value)
  SET_UPDATES(Reader, Up)
  Reader(std::shared_ptr<Restricted> r, Restricted & s)
  {
    registerUpdates(Update::Up, &Reader::up);
    addInputDependency(Update::Up, r, Provider::Output::Value, Restricted::Output::Other);
    addInputDependency(Update::Up, s, Provider::Output::Value, Restricted::Output::Other);
    addDirectDependency(Output::Value, s, Restricted::Output::Value);
  }
  void up() {}
};

void taskDynamics(FunctionPtr f)
{
  auto p = std::make_shared<Provider>();
  Eigen::VectorXd v;
  task_dynamics::Clamped<task_dynamics::P> a(1.0, 1.0);
  task_dynamics::Clamped<task_dynamics::PD> b(v, 1.0, 1.0);
  task_dynamics::Clamped<task_dynamics::PD> b1(std::make_pair(1.0, 2.0), 1.0, 1.0);
  task_dynamics::Clamped<task_dynamics::PD> b2(std::make_pair(v, v), 1.0, 1.0);
  task_dynamics::FeedForwardPD c(p, &Provider::value, Provider::Output::Value, 1., 1.);
  task_dynamics::FeedForwardP d(p, &Provider::value, Provider::Output::Value, 1.);
  task_dynamics::Clamped<task_dynamics::FeedForwardPD> e(1.0, p, &Provider::value, Provider::Output::Value, 1., 1.);
}

void protos(FunctionPtr f, LinearFunctionPtr g, VariablePtr x)
{
  Eigen::MatrixXd A;
  Eigen::VectorXd b;
  utils::internal::RHS r(b);
  auto lin = A * x;
  auto aff = A * x + b;
  auto a1 = f == r, a2 = r == f, a3 = a1;
  auto b1 = f >= r, b2 = r <= f;
  auto c1 = f <= r, c2 = r >= f;
  auto d1 = g == r, d2 = r == g;
  auto e1 = g >= r, e2 = r <= g;
  auto f1 = g <= r, f2 = r >= g;
  auto g1 = lin == r, g2 = r == lin, g3 = aff == r, g4 = r == aff;
  auto h1 = lin >= r, h2 = r <= lin, h3 = aff >= r, h4 = r <= aff;
  auto i1 = lin <= r, i2 = r >= lin, i3 = aff <= r, i4 = r >= aff;
  auto j1 = r <= x;
  auto j2 = x >= r;
  auto j3 = x <= r;
  auto j4 = r >= x;
  auto k1 = r <= x <= r;
  auto k2 = r >= x >= r;
  auto k3 = r <= f <= r;
  auto k4 = r >= f >= r;
  utils::ProtoTaskEQ l1(d1);
  utils::ProtoTaskGT l2(e1);
  utils::ProtoTaskLT l3(f1);
  utils::ProtoTaskDS l4(k1);
}

void plane(geometry::Plane & pl)
{
  auto p = std::make_shared<Provider>();
  pl.setIntegrator(p, Provider::Output::Value, Provider::Output::Value, Provider::Output::Value);
}

void graph_(tvm::graph::CallGraph & g)
{
  auto p = std::make_shared<Provider>();
  auto in = std::make_shared<graph::internal::Inputs>();
  in->addInput(p, Provider::Output::Value);
  auto r = std::make_shared<Restricted>();
  in->addInput(r, Provider::Output::Value, Restricted::Output::Other);
  in->addInput(*r, Provider::Output::Value, Restricted::Output::Other);
  in->removeInput(r.get(), Provider::Output::Value, Restricted::Output::Other);
  in->removeInput(p.get());
  in->removeInput(p.get(), Provider::Output::Value);
  g.add(in);
}

void requirements_(requirements::SolvingRequirements & r, requirements::SolvingRequirementsWithCallbacks & c)
{
  using namespace requirements;
  c.priorityLevel() = PriorityLevel(1);
  c.weight() = Weight(1.);
  c.anisotropicWeight() = AnisotropicWeight(Eigen::VectorXd());
  c.violationEvaluation() = ViolationEvaluation(ViolationEvaluationType::L2);
  r.weight() = Weight(1.);
  SolvingRequirements r2;
  c.priorityLevel() = r.priorityLevel();
  c.weight() = r.weight();
  c.anisotropicWeight() = r.anisotropicWeight();
  c.violationEvaluation() = r.violationEvaluation();
  r2 = r;
  c.weight() = 3.;
}

void properties(tvm::internal::MatrixProperties & p)
{
  using MP = tvm::internal::MatrixProperties;
  MP::Shape s = MP::IDENTITY;
  MP::Positiveness d = MP::NA;
  MP::Constness c(true);
  MP::Invertibility i(true);
  p = MP(s, d, c, i);
  p = MP(i, c, d, s);
  p = MP(s, d, i);
  p = MP(s, d, c);
  p = MP(d, s);
  p = MP(s, c, i);
  p = MP(d, c, i);
  p = MP(s, i);
  p = MP(d, i);
  p = MP(d, c);
  p = MP(c, i);
  p = MP(s);
  p = MP(d);
  p = MP(c);
  p = MP(i);
  p = MP();
}

using namespace tvm::scheme::internal;
void wrappers(CompiledAssignmentWrapper<Eigen::MatrixXd> & m, CompiledAssignmentWrapper<Eigen::VectorXd> & v)
{
  CompiledAssignmentWrapper<Eigen::MatrixXd> m2(m);
  CompiledAssignmentWrapper<Eigen::VectorXd> v2(v);
  m = m2;
  v = v2;
}

void matrices(tvm::internal::MatrixWithProperties & m, const Eigen::MatrixXd & a, tvm::internal::MatrixProperties & p)
{
  using Ref = tvm::internal::ObjectWithProperties<Eigen::Ref<Eigen::MatrixXd>, true>;
  m = a;
  m += a;
  m -= a;
  m.assignKeepProperties(a);
  m.keepProperties(true) = a;
  tvm::internal::MatrixWithProperties n(a), o(m), q;
  n = o;
  Ref s(n.middleCols(0, 1), p), t(m);
  s = a;
  s += a;
  s -= a;
  s.assignKeepProperties(a);
  s.keepProperties(false) = a;
  tvm::internal::MatrixConstRefWithProperties c(a, p), d(m);
}

void functions(const VariablePtr & x)
{
  tvm::utils::LinearExpr<tvm::utils::internal::IdentityType> l0(x);
  tvm::utils::LinearExpr<tvm::utils::internal::MinusIdentityType> l1(x);
  tvm::utils::LinearExpr<tvm::utils::internal::MultIdentityType> l2(2., x);
  function::BasicLinearFunction f0(l0), f1(l1), f2(l2);
}

bool schemes(LinearizedControlProblem & pb, const solver::abstract::LSSolverFactory & lf, const solver::abstract::HLSSolverFactory & hf)
{
  scheme::WeightedLeastSquares w(lf);
  scheme::HierarchicalLeastSquares h(hf);
  return w.solve(pb) && h.solve(pb);
}
} // namespace witness

template class tvm::graph::abstract::OutputSelector<tvm::constraint::abstract::Constraint, tvm::internal::FirstOrderProvider>;
