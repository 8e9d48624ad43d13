// C18 Task planning and execution
// PBT-VARIANTS: plain asan
#include "pbt.hpp"

#include <deque>

#include <common_robotics_utilities/simple_task_planner.hpp>

namespace tp = common_robotics_utilities::simple_task_planner;

namespace
{
constexpr double kInf = std::numeric_limits<double>::infinity();

// What a state does depends on its id only; the serial tells apart the real
// states an execution went through, and is ignored by equality and hash.
struct T
{
  int64_t id = 0;
  int64_t serial = 0;
  std::string payload;
};

struct Equal
{
  int64_t* calls = nullptr;
  bool operator()(const T& a, const T& b) const
  {
    if (calls) { (*calls)++; }
    return a.id == b.id;
  }
};

struct Hash
{
  uint64_t modulus = 1;
  size_t operator()(const T& a) const { return static_cast<size_t>(pbt::Mix(static_cast<uint64_t>(a.id)) % modulus); }
};

T Make(const int64_t id, const int64_t serial)
{
  return T{id, serial, "state " + std::to_string(id) + " number " + std::to_string(serial) + " with text on the heap"};
}

struct Outcome { int64_t id; double cost; };

struct Model
{
  int64_t states = 1;
  std::vector<bool> goal;
  // [primitive][state]
  std::vector<std::vector<bool>> candidate;
  std::vector<std::vector<std::vector<Outcome>>> outcomes;
  std::vector<double> value;  // least cost to a goal
  double unit = 1.0;
  double heuristic = -1.0;    // share of the value, negative for none
  bool rough = false;         // admissible but not consistent
  uint64_t salt = 0;

  double Heuristic(const int64_t id) const
  {
    const double v = value[static_cast<size_t>(id)];
    if (std::isinf(v)) { return rough ? static_cast<double>(id % 5) * 100.0 * unit : 0.0; }
    if (rough) { return (pbt::Mix(salt + static_cast<uint64_t>(id)) % 2 == 0) ? 0.0 : v; }
    return v * heuristic;
  }

  void Solve()
  {
    value.assign(static_cast<size_t>(states), kInf);
    for (int64_t s = 0; s < states; s++) { if (goal[static_cast<size_t>(s)]) { value[static_cast<size_t>(s)] = 0.0; } }
    bool changed = true;
    while (changed)
    {
      changed = false;
      for (size_t p = 0; p < candidate.size(); p++)
      {
        for (size_t s = 0; s < static_cast<size_t>(states); s++)
        {
          if (!candidate[p][s]) { continue; }
          for (const Outcome& o : outcomes[p][s])
          {
            const double v = o.cost + value[static_cast<size_t>(o.id)];
            if (v < value[s]) { value[s] = v; changed = true; }
          }
        }
      }
    }
  }
};

Model GenModel(pbt::Src& src, pbt::Ctx& ctx)
{
  Model m;
  m.states = src.Bool(1, 10) ? static_cast<int64_t>(src.Size(1, 3)) : src.Int(4, 14);
  const bool many = src.Bool(1, 300);
  if (many && src.Bool()) { m.states = src.Int(40, 90); }
  const bool huge = many && src.Bool(1, 3);  // long plans through very many states
  if (huge) { m.states = src.Int(300, 700); }
  const size_t primitives = huge ? static_cast<size_t>(src.Int(1, 3)) : src.Bool(1, 12) ? 0 : many ? static_cast<size_t>(src.Int(10, 300)) : static_cast<size_t>(src.Int(1, 5));
  m.goal.resize(static_cast<size_t>(m.states));
  const size_t goals = src.Weighted({1, 12, 4, 1});
  for (size_t g = 0; g < (goals == 3 ? m.goal.size() / 2 : goals); g++) { m.goal[src.Choose(m.goal.size() - 1)] = true; }
  // Local outcomes make long plans.
  const bool local = huge || src.Bool();
  const int64_t max_cost = src.Pick(std::vector<int64_t>{9, 0, 1, 100});
  // Sums of these are exact.
  const double base = src.Bool(1, 6) ? 0x1p40 : 0.0;
  const double unit = src.Pick(std::vector<double>{1.0, 1.0, 0.25, 0x1p-60, 0x1p30});
  for (size_t p = 0; p < primitives; p++)
  {
    m.candidate.emplace_back(m.goal.size());
    m.outcomes.emplace_back(m.goal.size());
    for (size_t s = 0; s < m.goal.size(); s++)
    {
      m.candidate[p][s] = huge ? src.Bool(8, 9) : many ? src.Bool(3, primitives) : src.Bool(primitives > 2 ? 1 : 3, primitives > 2 ? 2 : 4);
      if (!m.candidate[p][s]) { continue; }
      const size_t n = src.Weighted({1, 6, 3, 1});
      for (size_t i = 0; i < n; i++)
      {
        const int64_t to = local ? (static_cast<int64_t>(s) + m.states + src.Int(-1, 2)) % m.states : src.Int(0, m.states - 1);
        m.outcomes[p][s].push_back({to, unit * (base + static_cast<double>(src.Int(0, max_cost)))});
      }
    }
  }
  m.unit = unit;
  m.Solve();
  switch (src.Choose(5))
  {
    case 0: break;
    case 1: m.heuristic = 0.0; break;
    case 2: m.heuristic = 0.5; break;
    case 3: m.heuristic = 1.0; break;
    default: m.heuristic = 1.0; m.rough = true; m.salt = src.AnyU64(); break;
  }
  ctx << m.states << " states, goals";
  for (size_t s = 0; s < m.goal.size(); s++) { if (m.goal[s]) { ctx << " " << s; } }
  for (size_t p = 0; p < primitives; p++)
  {
    ctx << "; P" << p << ":";
    for (size_t s = 0; s < m.goal.size(); s++)
    {
      if (!m.candidate[p][s]) { continue; }
      ctx << " " << s << "->{";
      for (const Outcome& o : m.outcomes[p][s]) { ctx << " " << o.id << "@" << o.cost; }
      ctx << " }";
    }
  }
  ctx << (m.rough ? " rough heuristic" : m.heuristic >= 0.0 ? " heuristic" : " no heuristic") << ";";
  return m;
}

template<typename Container>
using Next = tp::NextPrimitiveToExecute<T, Container>;

template<typename Container>
class Primitive : public tp::ActionPrimitiveInterface<T, Container>
{
public:
  Primitive(const Model& m, const size_t index, const std::string& name, const std::function<Container(size_t, const T&)>& execute)
      : m_(&m), index_(index), name_(name), execute_(execute) {}
  bool IsCandidate(const T& s) const override { return m_->candidate[index_][static_cast<size_t>(s.id)]; }
  tp::OutcomesWithCosts<T> GetOutcomes(const T& s) const override
  {
    PBT_CHECK("candidate", IsCandidate(s), "outcomes of primitive ", index_, " asked for state ", s.id, " which it does not accept");
    tp::OutcomesWithCosts<T> out;
    for (const Outcome& o : m_->outcomes[index_][static_cast<size_t>(s.id)]) { out.emplace_back(Make(o.id, -1), o.cost); }
    return out;
  }
  Container Execute(const T& s) override
  {
    PBT_CHECK("candidate", IsCandidate(s), "primitive ", index_, " performed on state ", s.id, " which it does not accept");
    return execute_(index_, s);
  }
  const std::string& Name() const override { return name_; }

private:
  const Model* m_;
  size_t index_;
  std::string name_;
  std::function<Container(size_t, const T&)> execute_;
};

template<typename Container>
std::vector<tp::ActionPrimitiveSharedPtr<T, Container>> MakePrimitives(const Model& m, pbt::Src& src, const std::function<Container(size_t, const T&)>& execute)
{
  std::vector<tp::ActionPrimitiveSharedPtr<T, Container>> out;
  for (size_t p = 0; p < m.candidate.size(); p++)
  {
    auto primitive = std::make_shared<Primitive<Container>>(m, p, "primitive " + std::to_string(p), execute);
    if (src.Bool(1, 3))
    {
      out.push_back(std::make_shared<tp::ActionPrimitiveWrapper<T, Container>>(
          [primitive] (const T& s) { return primitive->IsCandidate(s); },
          [primitive] (const T& s) { return primitive->GetOutcomes(s); },
          [primitive] (const T& s) { return primitive->Execute(s); }, "primitive " + std::to_string(p)));
    }
    else { out.push_back(primitive); }
  }
  return out;
}

template<typename Container>
double Least(const Model& m, const Container& states)
{
  double best = kInf;
  for (const T& s : states) { best = std::min(best, m.value[static_cast<size_t>(s.id)]); }
  return best;
}

// A plan starts at one of the given states, follows outcomes of primitives
// that apply, ends at a goal and costs the least possible.
template<typename Container>
void CheckPlan(const Model& m, const Container& starts, const tp::TaskStateAstarResult<T>& plan)
{
  const double best = Least(m, starts);
  PBT_CHECK("plan-cost", plan.PathCost() == best, "plan cost ", plan.PathCost(), ", the least possible is ", best);
  if (std::isinf(best))
  {
    PBT_CHECK("plan-none", plan.Path().empty(), "a path although no goal can be reached");
    return;
  }
  const auto& path = plan.Path();
  PBT_CHECK("plan-path", !path.empty(), "empty path");
  const T& first = path[0].Outcome();
  bool found = false;
  for (const T& s : starts) { found = found || (s.id == first.id && s.serial == first.serial && s.payload == first.payload); }
  PBT_CHECK("plan-start", found && path[0].PrimitiveIndex() < 0, "path starts at ", first.id, " by primitive ", path[0].PrimitiveIndex());
  // Several outcomes of one primitive may lead to the same state: the least
  // cost counts.
  double sum = 0.0;
  for (size_t i = 1; i < path.size(); i++)
  {
    const int64_t p = path[i].PrimitiveIndex();
    PBT_CHECK("plan-step", p >= 0 && p < static_cast<int64_t>(m.candidate.size()), "step ", i, " by primitive ", p);
    const size_t from = static_cast<size_t>(path[i - 1].Outcome().id);
    PBT_CHECK("plan-step", m.candidate[static_cast<size_t>(p)][from], "step ", i, " by primitive ", p, " which does not accept state ", from);
    double cost = kInf;
    for (const Outcome& o : m.outcomes[static_cast<size_t>(p)][from]) { if (o.id == path[i].Outcome().id) { cost = std::min(cost, o.cost); } }
    PBT_CHECK("plan-step", !std::isinf(cost), "step ", i, ": state ", path[i].Outcome().id, " is no outcome of primitive ", p, " in state ", from);
    sum += cost;
  }
  PBT_CHECK("plan-sum", sum == best, "steps cost ", sum, ", plan cost ", best);
  PBT_CHECK("plan-goal", m.goal[static_cast<size_t>(path.back().Outcome().id)], "path ends at ", path.back().Outcome().id);
}

// The chosen outcome is the cheapest to finish from, and the primitive lies on
// a cheapest way to finish.
template<typename Container>
void CheckChoice(const Model& m, const Container& outcomes, const int64_t selected, const int64_t primitive)
{
  PBT_CHECK("choice", selected >= 0 && selected < static_cast<int64_t>(outcomes.size()), "outcome ", selected, " of ", outcomes.size());
  const size_t id = static_cast<size_t>(outcomes[static_cast<size_t>(selected)].id);
  PBT_CHECK("choice", m.value[id] == Least(m, outcomes), "outcome ", selected, " costs ", m.value[id], ", the least possible is ", Least(m, outcomes));
  PBT_CHECK("choice", (primitive < 0) == m.goal[id], "state ", id, m.goal[id] ? " is a goal but primitive " : " is no goal but primitive ", primitive, " is next");
  if (primitive < 0) { return; }
  const size_t p = static_cast<size_t>(primitive);
  PBT_CHECK("choice", m.candidate[p][id], "primitive ", p, " does not accept state ", id);
  double best = kInf;
  for (const Outcome& o : m.outcomes[p][id]) { best = std::min(best, o.cost + m.value[static_cast<size_t>(o.id)]); }
  PBT_CHECK("choice", best == m.value[id], "primitive ", p, " leads to a goal at cost ", best, ", the least possible is ", m.value[id]);
}

template<typename Container>
void RunPlan(pbt::Src& src, pbt::Ctx& ctx)
{
  const Model m = GenModel(src, ctx);
  tp::ActionPrimitiveCollection<T, Container> collection;
  const auto primitives = MakePrimitives<Container>(m, src, [] (size_t, const T&) -> Container { pbt::Fail("plan-executes", "planning performed a primitive"); });
  for (const auto& p : primitives) { collection.RegisterPrimitive(p); }
  Container starts;
  const size_t n = src.Size(0, 5);
  for (size_t i = 0; i < n; i++) { starts.push_back(Make(src.Int(0, m.states - 1), static_cast<int64_t>(i))); }
  ctx << " starts";
  for (const T& s : starts) { ctx << " " << s.id; }
  const tp::TaskSequenceCompleteFunction<T> complete = [&] (const T& s) { return static_cast<bool>(m.goal[static_cast<size_t>(s.id)]); };
  tp::StateHeuristicFunction<T> heuristic;
  if (m.heuristic >= 0.0) { heuristic = [&] (const T& s) { return m.Heuristic(s.id); }; }
  const Hash hash{src.Pick(std::vector<uint64_t>{1u << 20, 1, 3})};
  int64_t compared = 0;
  const Equal equal{&compared};
  if (starts.empty())
  {
    PBT_CHECK("no-start", pbt::ThrowsA<std::invalid_argument>([&] { tp::PlanTaskStateSequence<T, Container, Hash, Equal>(collection, complete, starts, heuristic, hash, equal); }), "planned without a start");
    PBT_CHECK("no-start", pbt::ThrowsA<std::invalid_argument>([&] { tp::GetNextPrimitiveToExecute<T, Container, Hash, Equal>(collection, complete, starts, heuristic, hash, equal); }), "chose without an outcome");
    return;
  }
  const auto plan = tp::PlanTaskStateSequence<T, Container, Hash, Equal>(collection, complete, starts, heuristic, hash, equal);
  CheckPlan(m, starts, plan);
  if (std::isinf(Least(m, starts)))
  {
    PBT_CHECK("unreachable", pbt::ThrowsA<std::runtime_error>([&] { tp::GetNextPrimitiveToExecute<T, Container, Hash, Equal>(collection, complete, starts, heuristic, hash, equal); }), "chose a primitive although no goal can be reached");
    ctx.Label("unreachable");
    return;
  }
  const Next<Container> next = tp::GetNextPrimitiveToExecute<T, Container, Hash, Equal>(collection, complete, starts, heuristic, hash, equal);
  CheckPlan(m, starts, next.PlanningResult());
  int64_t primitive = -1;
  if (next.ActionPrimitive())
  {
    primitive = std::find(primitives.begin(), primitives.end(), next.ActionPrimitive()) - primitives.begin();
    PBT_CHECK("choice", primitive < static_cast<int64_t>(primitives.size()), "the chosen primitive is not one of the collection");
  }
  CheckChoice(m, starts, next.SelectedOutcomeIndex(), primitive);
  PBT_CHECK("choice", starts[static_cast<size_t>(next.SelectedOutcomeIndex())].id == next.PlanningResult().Path()[0].Outcome().id, "the selected outcome is not the start of the plan");
  if (next.ActionPrimitive()) { PBT_CHECK("choice", next.PlanningResult().Path().at(1).PrimitiveIndex() == primitive, "the chosen primitive is not the first of the plan"); }
  ctx.Label("steps", plan.Path().size() > 1);
  if (plan.Path().size() >= 3) { ctx.Nontrivial(); }
}

template<typename Container>
void RunExecution(pbt::Src& src, pbt::Ctx& ctx)
{
  const Model m = GenModel(src, ctx);
  tp::ActionPrimitiveCollection<T, Container> collection;
  int64_t serial = 0;
  const auto real = [&] (const int64_t id) { return Make(id, serial++); };

  enum Stage { kChoose, kSelected, kReady, kExecuted };
  Stage stage = kChoose;
  Container current;
  std::vector<T> trace;          // what was selected, as reported by executions
  int64_t executions = 0;
  T selected;
  bool emptied = false;
  const int64_t limit = src.Bool() ? -src.Int(1, 3) : src.Int(0, 8);
  const bool with_outcome = src.Bool(3, 4);
  const bool with_pre = src.Bool(3, 4);
  const bool with_post = src.Bool(3, 4);
  std::vector<tp::ActionPrimitiveSharedPtr<T, Container>> primitives;
  bool announced_pre = false;
  size_t pre_primitive = 0;

  const auto is = [] (const T& a, const T& b) { return a.id == b.id && a.serial == b.serial && a.payload == b.payload; };
  const auto index_of = [&] (const T& s) -> int64_t
  {
    for (size_t i = 0; i < current.size(); i++) { if (is(current[i], s)) { return static_cast<int64_t>(i); } }
    return -1;
  };
  const std::function<Container(size_t, const T&)> execute = [&] (const size_t p, const T& s) -> Container
  {
    const int64_t i = index_of(s);
    PBT_CHECK("execute-state", i >= 0, "primitive ", p, " performed on state ", s.id, " number ", s.serial, " which is not a current outcome");
    PBT_CHECK("limit", limit < 0 || executions < limit, "more than ", limit, " executions");
    if (with_post) { PBT_CHECK("callbacks", stage != kExecuted, "post-execution callback missing"); }
    if (with_outcome) { PBT_CHECK("callbacks", stage == kReady || (!with_pre && stage == kSelected), "outcome callback missing"); PBT_CHECK("callbacks", is(selected, s), "performed on another state than announced"); }
    if (with_pre) { PBT_CHECK("callbacks", announced_pre && pre_primitive == p && is(selected, s), "pre-execution callback missing or for something else"); }
    announced_pre = false;
    CheckChoice(m, current, i, static_cast<int64_t>(p));
    executions++;
    trace.push_back(s);
    const auto& predicted = m.outcomes[p][static_cast<size_t>(s.id)];
    Container out;
    ctx << " P" << p << "(" << s.id << ")->{";
    if (executions > 25)
    {
      // Come to an end.
      for (int64_t g = 0; g < m.states; g++) { if (m.goal[static_cast<size_t>(g)]) { out.push_back(real(g)); break; } }
    }
    else
    {
      const size_t n = src.Bool(1, 40) ? 0 : src.Weighted({0, 6, 2, 1});
      for (size_t k = 0; k < n; k++)
      {
        const bool surprise = src.Bool(1, 6) || predicted.empty();
        out.push_back(real(surprise ? src.Int(0, m.states - 1) : predicted[src.Choose(predicted.size() - 1)].id));
      }
    }
    for (const T& o : out) { ctx << " " << o.id; }
    ctx << " }";
    current = out;
    emptied = out.empty();
    stage = kExecuted;
    if (!with_post) { stage = kChoose; }
    return out;
  };
  primitives = MakePrimitives<Container>(m, src, execute);
  for (const auto& p : primitives) { collection.RegisterPrimitive(p); }
  const tp::TaskSequenceCompleteFunction<T> complete = [&] (const T& s) { return static_cast<bool>(m.goal[static_cast<size_t>(s.id)]); };
  tp::StateHeuristicFunction<T> heuristic;
  if (m.heuristic >= 0.0) { heuristic = [&] (const T& s) { return m.Heuristic(s.id); }; }
  const Hash hash{src.Pick(std::vector<uint64_t>{1u << 20, 1, 3})};
  const Equal equal;

  int64_t outcome_callbacks = 0;
  const auto same = [&] (const Container& a, const Container& b)
  {
    if (a.size() != b.size()) { return false; }
    for (size_t i = 0; i < a.size(); i++) { if (!is(a[i], b[i])) { return false; } }
    return true;
  };
  tp::PostOutcomeCallbackFunction<T, Container> on_outcome;
  if (with_outcome)
  {
    on_outcome = [&] (const Container& outcomes, const int64_t index, const tp::TaskStateAstarResult<T>& plan)
    {
      PBT_CHECK("callbacks", stage == kChoose, "outcome callback out of order");
      PBT_CHECK("callbacks", same(outcomes, current), "outcome callback got other outcomes");
      PBT_CHECK("callbacks", index >= 0 && index < static_cast<int64_t>(current.size()), "outcome callback for index ", index, " of ", current.size());
      CheckPlan(m, current, plan);
      selected = outcomes[static_cast<size_t>(index)];
      stage = kSelected;
      outcome_callbacks++;
    };
  }
  tp::PreExecutionCallbackFunction<T, Container> on_pre;
  if (with_pre)
  {
    on_pre = [&] (const T& s, const tp::ActionPrimitiveSharedPtr<T, Container>& primitive, const tp::TaskStateAstarResult<T>& plan)
    {
      PBT_CHECK("callbacks", stage == (with_outcome ? kSelected : kChoose), "pre-execution callback out of order");
      const int64_t p = std::find(primitives.begin(), primitives.end(), primitive) - primitives.begin();
      PBT_CHECK("callbacks", p < static_cast<int64_t>(primitives.size()), "pre-execution callback for an unknown primitive");
      PBT_CHECK("callbacks", index_of(s) >= 0 && (!with_outcome || is(selected, s)), "pre-execution callback for another state");
      CheckPlan(m, current, plan);
      selected = s;
      announced_pre = true;
      pre_primitive = static_cast<size_t>(p);
      stage = kReady;
    };
  }
  tp::PostExecutionCallbackFunction<T, Container> on_post;
  if (with_post)
  {
    on_post = [&] (const Container& outcomes)
    {
      PBT_CHECK("callbacks", stage == kExecuted, "post-execution callback out of order");
      PBT_CHECK("callbacks", same(outcomes, current), "post-execution callback got other outcomes");
      stage = kChoose;
    };
  }

  Container starts;
  const bool one = src.Bool();
  const size_t n = one ? 1 : src.Size(1, 4);
  for (size_t i = 0; i < n; i++) { starts.push_back(real(src.Int(0, m.states - 1))); }
  current = starts;
  ctx << " limit " << limit << " starts";
  for (const T& s : starts) { ctx << " " << s.id; }
  Container result;
  bool threw = false;
  std::string error;
  try
  {
    if (one) { result = tp::PerformSingleTaskExecution<T, Container, Hash, Equal>(collection, complete, starts[0], static_cast<int32_t>(limit), heuristic, hash, equal, on_pre, on_post, on_outcome); }
    else { result = tp::PerformSingleTaskExecution<T, Container, Hash, Equal>(collection, complete, starts, static_cast<int32_t>(limit), heuristic, hash, equal, on_pre, on_post, on_outcome); }
  }
  catch (const std::invalid_argument& e) { threw = true; error = e.what(); }
  catch (const std::runtime_error& e) { threw = true; error = e.what(); }
  const bool limited = limit >= 0 && executions >= limit;
  const double least = Least(m, current);
  if (threw)
  {
    PBT_CHECK("error", !limited && (emptied || std::isinf(least)), "failed with '", error, "' although a goal can be reached at cost ", least);
    ctx.Label("failed");
    return;
  }
  PBT_CHECK("end", limited || (!emptied && !std::isinf(least)), "ended quietly although no goal can be reached");
  if (limited)
  {
    PBT_CHECK("limit", executions == limit, executions, " executions, the limit is ", limit);
    PBT_CHECK("trace", result.size() == trace.size(), "trace of ", result.size(), " states after ", trace.size(), " executions");
    ctx.Label("limit reached");
  }
  else
  {
    PBT_CHECK("trace", result.size() == trace.size() + 1, "trace of ", result.size(), " states after ", trace.size(), " executions");
    const T& last = result[result.size() - 1];
    const int64_t i = index_of(last);
    PBT_CHECK("end", i >= 0 && m.goal[static_cast<size_t>(last.id)], "execution ended in state ", last.id, " which is not a current goal");
    if (with_outcome) { PBT_CHECK("callbacks", is(selected, last), "the last outcome callback was for another state"); }
  }
  if (with_outcome) { PBT_CHECK("callbacks", outcome_callbacks == static_cast<int64_t>(result.size()), outcome_callbacks, " outcome callbacks for ", result.size(), " states"); }
  for (size_t i = 0; i < trace.size(); i++) { PBT_CHECK("trace", is(result[i], trace[i]), "trace has state ", result[i].id, " at ", i, ", performed on ", trace[i].id); }
  if (executions >= 3) { ctx.Nontrivial(); }
}
}  // namespace

PROP(Planning, "the plan has at least two steps", 200000, 3000000)
{
  if (src.Bool(3, 4)) { RunPlan<std::vector<T>>(src, ctx); }
  else { RunPlan<std::deque<T>>(src, ctx); }
}

PROP(Execution, "at least three primitives were performed", 200000, 3000000)
{
  if (src.Bool(3, 4)) { RunExecution<std::vector<T>>(src, ctx); }
  else { RunExecution<std::deque<T>>(src, ctx); }
}

PROP(Collection, "a duplicate name or an unregistration", 10000, 300000)
{
  using Shared = tp::ActionPrimitiveSharedPtr<T>;
  Model m;
  m.candidate.emplace_back(1);
  m.outcomes.emplace_back(1);
  int64_t logged[2] = {0, 0};
  int64_t expected[2] = {0, 0};
  int logger = -1;
  tp::ActionPrimitiveCollection<T> collection;
  if (src.Bool())
  {
    collection = tp::ActionPrimitiveCollection<T>([&] (const std::string& s) { PBT_CHECK("log", !s.empty(), "empty message"); logged[0]++; });
    logger = 0;
  }
  const auto log = [&] (const int64_t n) { if (logger >= 0) { expected[logger] += n; } };
  std::vector<Shared> model;
  bool interesting = false;
  const auto name = [&] { return std::string(1, static_cast<char>('a' + src.Choose(6))) + (src.Bool(1, 6) ? "x" : ""); };
  const size_t steps = src.Size(0, 20);
  for (size_t i = 0; i < steps; i++)
  {
    switch (src.Weighted({8, 3, 3, 1, 1, 1}))
    {
      case 0:
      {
        const auto p = std::make_shared<Primitive<std::vector<T>>>(m, 0, name(), [] (size_t, const T&) { return std::vector<T>(); });
        const bool taken = std::any_of(model.begin(), model.end(), [&] (const Shared& o) { return o->Name() == p->Name(); });
        ctx << "register " << p->Name() << "; ";
        PBT_CHECK("register", pbt::ThrowsA<std::invalid_argument>([&] { collection.RegisterPrimitive(p); }) == taken, p->Name(), taken ? " registered twice" : " rejected");
        if (!taken) { model.push_back(p); log(1); }
        interesting = interesting || taken;
        break;
      }
      case 1:
      {
        const std::string n = name();
        ctx << "unregister " << n << "; ";
        const size_t before = model.size();
        model.erase(std::remove_if(model.begin(), model.end(), [&] (const Shared& o) { return o->Name() == n; }), model.end());
        log(static_cast<int64_t>(before - model.size()));
        collection.UnregisterPrimitiveByName(n);
        interesting = interesting || before != model.size();
        break;
      }
      case 2:
      {
        std::unordered_set<std::string> names;
        const size_t n = src.Choose(3);
        for (size_t k = 0; k < n; k++) { names.insert(name()); }
        ctx << "unregister " << names.size() << " names; ";
        const size_t before = model.size();
        model.erase(std::remove_if(model.begin(), model.end(), [&] (const Shared& o) { return names.count(o->Name()) > 0; }), model.end());
        log(static_cast<int64_t>(before - model.size()));
        collection.UnregisterPrimitivesByName(names);
        break;
      }
      case 3: collection.ClearPrimitives(); model.clear(); ctx << "clear; "; break;
      case 4:
        if (src.Bool()) { collection.SetLoggingFunction([&] (const std::string&) { logged[1]++; }); logger = 1; }
        else { collection.SetLoggingFunction({}); logger = -1; }
        ctx << "logger " << logger << "; ";
        break;
      default: collection.Log("message"); log(1); break;
    }
    PBT_CHECK("collection", collection.Primitives() == model, collection.Primitives().size(), " primitives, expected ", model.size());
    PBT_CHECK("log", logged[0] == expected[0] && logged[1] == expected[1], logged[0], "+", logged[1], " messages, expected ", expected[0], "+", expected[1]);
  }
  if (interesting) { ctx.Nontrivial(); }
}
