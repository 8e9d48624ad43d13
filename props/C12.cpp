// C12 A* search
// PBT-WORKERS: 8
#include "pbt.hpp"
#include "digraphs.hpp"

#include <deque>

#include <common_robotics_utilities/simple_astar_search.hpp>
#include <common_robotics_utilities/simple_graph_search.hpp>

namespace as = common_robotics_utilities::simple_astar_search;
namespace gs = common_robotics_utilities::simple_graph_search;
namespace sg = common_robotics_utilities::simple_graph;
using namespace digraphs;
using G = sg::Graph<int64_t>;
using Overlay = sg::NonOwningGraphOverlay<int64_t, G>;

namespace
{
enum class Kind { Admissible, Arbitrary };

// Starts with their costs, goals, and a heuristic for one search problem.
struct Problem
{
  Digraph g;
  Matrix d;
  std::vector<std::pair<int64_t, double>> starts;
  std::set<int64_t> goals;
  Kind kind = Kind::Admissible;
  std::vector<double> h;               // per node
  std::vector<std::vector<double>> hh;  // per node and goal
  bool limit = true;

  bool IsGoal(const int64_t i) const { return goals.count(i) > 0; }
};

// At most the true cost to go; inconsistent in general, infinite or large at dead ends.
double GenAdmissible(pbt::Src& src, const double truth)
{
  if (std::isinf(truth)) { return src.Bool() ? kInf : static_cast<double>(src.Int(0, 2000)); }
  switch (src.Choose(3))
  {
    case 0: return 0.0;
    case 1: return truth;
    case 2: return std::floor(truth * src.Unit());
    default: return static_cast<double>(src.Int(0, static_cast<int64_t>(truth)));
  }
}

Problem GenProblem(pbt::Src& src, pbt::Ctx& ctx, const bool with_inf, const bool with_invalid, const bool start_costs)
{
  Problem p;
  p.g = GenDigraph(src, 1, 12, with_inf, with_invalid);
  if (with_inf)
  {
    // An edge of infinite weight is no edge.
    for (auto& e : p.g.edges) { if (std::isinf(e.weight)) { e.valid = false; } }
  }
  p.d = AllPairs(p.g);
  const size_t starts = src.Size(1, 4);
  for (size_t i = 0; i < starts; i++)
  {
    const double cost = start_costs ? static_cast<double>(src.Bool() ? 0 : src.Int(0, 20)) : 0.0;
    p.starts.push_back({src.Int(0, p.g.n - 1), cost});
  }
  const size_t goals = src.Bool(1, 16) ? 0 : src.Size(1, 3);
  const bool avoid = !src.Bool(1, 8);
  for (size_t i = 0; i < goals; i++)
  {
    const int64_t at = src.Int(0, p.g.n - 1);
    if (avoid && std::any_of(p.starts.begin(), p.starts.end(), [&](const auto& s) { return s.first == at; })) { continue; }
    p.goals.insert(at);
  }
  p.kind = src.Bool(3, 4) ? Kind::Admissible : Kind::Arbitrary;
  const uint64_t style = src.Choose(3);
  const size_t n = static_cast<size_t>(p.g.n);
  p.h.assign(n, 0.0);
  p.hh.assign(n, std::vector<double>(n, 0.0));
  for (size_t i = 0; i < n; i++)
  {
    double truth = kInf;
    for (const int64_t goal : p.goals) { truth = std::min(truth, p.d[i][static_cast<size_t>(goal)]); }
    if (p.kind == Kind::Admissible) { p.h[i] = style == 0 ? 0.0 : style == 1 ? truth : GenAdmissible(src, truth); }
    else { p.h[i] = static_cast<double>(src.Int(-5, 50)); }
    for (const int64_t goal : p.goals)
    {
      const size_t j = static_cast<size_t>(goal);
      if (p.kind == Kind::Admissible) { p.hh[i][j] = style == 0 ? 0.0 : style == 1 ? p.d[i][j] : GenAdmissible(src, p.d[i][j]); }
      else { p.hh[i][j] = static_cast<double>(src.Int(-5, 50)); }
    }
  }
  const double scale = GenScale(src);
  if (scale != 1.0)
  {
    Scale(p.g, scale);
    for (auto& s : p.starts) { s.second *= scale; }
    for (auto& row : p.d) { for (double& v : row) { v *= scale; } }
    for (double& v : p.h) { v *= scale; }
    for (auto& row : p.hh) { for (double& v : row) { v *= scale; } }
  }
  p.limit = src.Bool();
  ctx << Text(p.g) << " starts";
  for (const auto& s : p.starts) { ctx << " " << s.first << "/" << s.second; }
  ctx << " goals " << std::vector<int64_t>(p.goals.begin(), p.goals.end()).size();
  for (const auto goal : p.goals) { ctx << " " << goal; }
  ctx << (p.kind == Kind::Admissible ? " admissible" : " arbitrary") << (p.limit ? " limited" : " unlimited") << " h";
  for (const double h : p.h) { ctx << " " << h; }
  return p;
}

void CheckResult(const Problem& p, const std::vector<int64_t>& path, const double cost, pbt::Ctx& ctx)
{
  double best = kInf;
  double start_goal = kInf;
  for (const auto& s : p.starts)
  {
    if (p.IsGoal(s.first)) { start_goal = std::min(start_goal, s.second); }
    for (const int64_t goal : p.goals) { best = std::min(best, s.second + p.d[static_cast<size_t>(s.first)][static_cast<size_t>(goal)]); }
  }
  if (path.empty())
  {
    PBT_CHECK("no-path", std::isinf(best), "no path found although one of cost ", best, " exists");
    PBT_CHECK("no-path-cost", std::isinf(cost), "cost ", cost, " for no path");
    ctx.Label("no path");
    return;
  }
  PBT_CHECK("path", !std::isinf(best), "a path where none exists");
  for (const int64_t i : path) { PBT_CHECK("path", i >= 0 && i < p.g.n, "state ", i); }
  double start_cost = kInf;
  for (const auto& s : p.starts) { if (s.first == path.front()) { start_cost = std::min(start_cost, s.second); } }
  PBT_CHECK("path-start", !std::isinf(start_cost), "path starts at ", path.front());
  PBT_CHECK("path-goal", p.IsGoal(path.back()), "path ends at ", path.back());
  double sum = start_cost;
  for (size_t i = 0; i + 1 < path.size(); i++)
  {
    const double e = Direct(p.g, path[i], path[i + 1]);
    PBT_CHECK("path-edge", !std::isinf(e), path[i], " to ", path[i + 1], " is no usable edge");
    sum += e;
  }
  if (!std::isinf(start_goal))
  {
    ctx.Label("start satisfies goal");
    PBT_CHECK("goal-start", path.size() == 1 && cost == start_goal, "cost ", cost, " instead of ", start_goal);
    return;
  }
  PBT_CHECK("cost-below", cost >= sum && cost >= best, "reported ", cost, ", path costs ", sum, ", best is ", best);
  if (p.kind == Kind::Admissible)
  {
    PBT_CHECK("cost", cost == sum, "reported ", cost, ", path costs ", sum);
    PBT_CHECK("optimal", cost == best, "reported ", cost, ", best is ", best);
  }
  ctx.Label(p.kind == Kind::Admissible ? "optimal path" : "valid path");
  ctx.Nontrivial(path.size() >= 3);
}

// A state carrying more than its identity, with stateful hash and equality.
struct State
{
  int64_t id = 0;
  uint64_t baggage = 0;
};
struct StateHash
{
  uint64_t salt = 0;
  size_t operator()(const State& s) const { return (static_cast<uint64_t>(s.id) ^ salt) % 3; }
};
struct StateEqual
{
  bool armed = false;
  bool operator()(const State& a, const State& b) const { return armed && a.id == b.id; }
};

template<typename C>
std::vector<int64_t> Ids(const C& path)
{
  std::vector<int64_t> out;
  for (const auto& s : path) { out.push_back(static_cast<int64_t>(s.id)); }
  return out;
}
template<>
std::vector<int64_t> Ids(const std::vector<int64_t>& path) { return path; }
}  // namespace

// States by value, children with costs.
PROP(states_with_child_costs, "path of three or more states", 300000, 12000000)
{
  const Problem p = GenProblem(src, ctx, false, true, true);
  as::StatesWithCosts<State> starts;
  uint64_t z = 1;
  for (const auto& s : p.starts) { starts.emplace_back(State{s.first, z++}, s.second); }
  const std::function<as::StatesWithCosts<State>(const State&)> children = [&](const State& s)
  {
    as::StatesWithCosts<State> out;
    for (const auto& e : p.g.edges)
    {
      if (e.valid && e.from == s.id) { out.emplace_back(State{e.to, z++}, e.weight); }
    }
    return out;
  };
  const std::function<bool(const State&)> goal = [&](const State& s) { return p.IsGoal(s.id); };
  const std::function<double(const State&)> heuristic = [&](const State& s) { return p.h[static_cast<size_t>(s.id)]; };
  const StateHash hash{src.Choose(5)};
  const StateEqual equal{true};
  const auto r = as::PerformAstarSearch<State, std::deque<State>, StateHash, StateEqual>(starts, goal, children, heuristic, p.limit, hash, equal);
  CheckResult(p, Ids(r.Path()), r.PathCost(), ctx);
}

// Children, edge validity and distance as separate functions.
PROP(states_with_edge_checks, "path of three or more states", 300000, 12000000)
{
  const Problem p = GenProblem(src, ctx, false, true, true);
  // One edge per pair: parallel edges cannot be told apart by states.
  Problem q = p;
  q.g.edges.clear();
  std::map<std::pair<int64_t, int64_t>, Edge> unique;
  for (const auto& e : p.g.edges) { unique.insert({{e.from, e.to}, e}); }
  for (const auto& u : unique) { q.g.edges.push_back(u.second); }
  q.d = AllPairs(q.g);
  if (q.kind == Kind::Admissible)
  {
    // Distances may have grown, never shrunk: still admissible.
    for (size_t i = 0; i < q.h.size(); i++) { if (std::isinf(q.h[i])) { q.h[i] = 0.0; } }
  }
  as::StatesWithCosts<int64_t> starts;
  for (const auto& s : q.starts) { starts.emplace_back(s.first, s.second); }
  const bool over = src.Bool();  // also offer children that are not connected
  const std::function<std::vector<int64_t>(const int64_t&)> children = [&](const int64_t& s)
  {
    std::vector<int64_t> out;
    for (int64_t i = 0; i < q.g.n; i++)
    {
      if (i != s && (over || unique.count({s, i}))) { out.push_back(i); }
    }
    return out;
  };
  const std::function<bool(const int64_t&, const int64_t&)> valid = [&](const int64_t& a, const int64_t& b)
  {
    const auto at = unique.find({a, b});
    return at != unique.end() && at->second.valid;
  };
  const std::function<double(const int64_t&, const int64_t&)> distance = [&](const int64_t& a, const int64_t& b)
  {
    PBT_CHECK("distance-of-invalid-edge", valid(a, b), a, " to ", b);
    return unique.at({a, b}).weight;
  };
  const std::function<bool(const int64_t&)> goal = [&](const int64_t& s) { return q.IsGoal(s); };
  const std::function<double(const int64_t&)> heuristic = [&](const int64_t& s) { return q.h[static_cast<size_t>(s)]; };
  const auto r = as::PerformAstarSearch<int64_t>(starts, goal, children, valid, distance, heuristic, q.limit);
  CheckResult(q, r.Path(), r.PathCost(), ctx);
  if (q.goals.size() == 1)
  {
    Problem one = q;
    one.starts = {{q.starts.front().first, 0.0}};
    const std::function<double(const int64_t&, const int64_t&)> both = [&](const int64_t& a, const int64_t& b)
    {
      PBT_CHECK("heuristic-goal", b == *q.goals.begin(), b);
      return q.h[static_cast<size_t>(a)];
    };
    const auto single = as::PerformAstarSearch<int64_t>(one.starts.front().first, *q.goals.begin(), children, valid, distance, both, q.limit);
    CheckResult(one, single.Path(), single.PathCost(), ctx);
  }
}

// Lazily evaluated searches on graphs and overlays.
template<typename GraphType>
void LazyForms(pbt::Src& src, pbt::Ctx& ctx, const Problem& p, const GraphType& graph)
{
  using E = sg::GraphEdge;
  const auto edge = [&](const E& e) -> const Edge& { return p.g.edges.at(e.GetScratchpad()); };
  const std::function<bool(const GraphType&, const E&)> valid = [&](const GraphType& g, const E& e)
  {
    PBT_CHECK("graph", &g == &graph, "callback got another graph");
    PBT_CHECK("edge", edge(e).from == e.GetFromIndex() && edge(e).to == e.GetToIndex(), e.Print());
    return edge(e).valid;
  };
  const std::function<double(const GraphType&, const E&)> distance = [&](const GraphType&, const E& e)
  {
    PBT_CHECK("distance-of-invalid-edge", edge(e).valid, e.Print());
    return edge(e).weight;
  };
  if (src.Bool())
  {
    const std::function<bool(const GraphType&, const int64_t)> goal = [&](const GraphType&, const int64_t i) { return p.IsGoal(i); };
    const std::function<double(const GraphType&, const int64_t)> heuristic = [&](const GraphType&, const int64_t i) { return p.h[static_cast<size_t>(i)]; };
    gs::IndexStatesWithCosts starts;
    for (const auto& s : p.starts) { starts.emplace_back(s.first, s.second); }
    const auto r = gs::PerformLazyAstarSearch<GraphType>(graph, starts, goal, valid, distance, heuristic, p.limit);
    CheckResult(p, r.Path(), r.PathCost(), ctx);
  }
  else
  {
    Problem q = p;
    std::vector<int64_t> starts;
    for (auto& s : q.starts) { starts.push_back(s.first); s.second = 0.0; }
    std::vector<int64_t> goals(p.goals.begin(), p.goals.end());
    if (src.Bool() && !goals.empty()) { goals.push_back(goals.front()); std::reverse(goals.begin(), goals.end()); }
    const std::function<double(const GraphType&, const int64_t, const int64_t)> heuristic = [&](const GraphType&, const int64_t a, const int64_t b)
    {
      PBT_CHECK("heuristic-goal", p.IsGoal(b), b);
      return p.hh[static_cast<size_t>(a)][static_cast<size_t>(b)];
    };
    const auto r = gs::PerformLazyAstarSearch<GraphType>(graph, starts, goals, valid, distance, heuristic, p.limit);
    CheckResult(q, r.Path(), r.PathCost(), ctx);
    for (const int64_t bad : {int64_t(-1), p.g.n, std::numeric_limits<int64_t>::max()})
    {
      PBT_CHECK("range", pbt::Throws([&] { (void)gs::PerformLazyAstarSearch<GraphType>(graph, std::vector<int64_t>{bad}, goals, valid, distance, heuristic, p.limit); }), "start ", bad);
      PBT_CHECK("range", pbt::Throws([&] { (void)gs::PerformLazyAstarSearch<GraphType>(graph, starts, std::vector<int64_t>{bad}, valid, distance, heuristic, p.limit); }), "goal ", bad);
    }
    PBT_CHECK("no-starts", pbt::Throws([&] { (void)gs::PerformLazyAstarSearch<GraphType>(graph, std::vector<int64_t>{}, goals, valid, distance, heuristic, p.limit); }), "no starts accepted");
  }
}

PROP(lazy_graph_search, "path of three or more states", 400000, 16000000)
{
  const Problem p = GenProblem(src, ctx, false, true, true);
  G graph;
  for (int64_t i = 0; i < p.g.n; i++) { graph.AddNode(i); }
  const auto add = [&](auto& g, const size_t i)
  {
    // The stored weight is deliberately not the searched one.
    const auto& e = p.g.edges[i];
    g.AddEdgeBetweenNodes(e.from, e.to, src.Bool() ? kInf : 77.0);
    g.GetNodeMutable(e.from).GetOutEdgesMutable().back().SetScratchpad(i);
    g.GetNodeMutable(e.to).GetInEdgesMutable().back().SetScratchpad(i);
  };
  const size_t split = src.Bool() ? p.g.edges.size() : static_cast<size_t>(src.Choose(p.g.edges.size()));
  for (size_t i = 0; i < split; i++) { add(graph, i); }
  if (split == p.g.edges.size())
  {
    LazyForms<G>(src, ctx, p, graph);
  }
  else
  {
    Overlay overlay(graph);
    for (size_t i = split; i < p.g.edges.size(); i++) { add(overlay, i); }
    LazyForms<Overlay>(src, ctx, p, overlay);
  }
}

// Searches over stored weights, and lazy ones by node values.
PROP(graph_search_by_values, "path of three or more states", 400000, 16000000)
{
  Problem p = GenProblem(src, ctx, true, false, false);
  // Nodes carry values other than their index.
  const int64_t shift = src.Int(0, 100);
  std::vector<int64_t> starts;
  for (const auto& s : p.starts) { starts.push_back(s.first); }
  const std::vector<int64_t> goals(p.goals.begin(), p.goals.end());
  const std::function<double(const int64_t&, const int64_t&)> heuristic = [&](const int64_t& a, const int64_t& b)
  {
    PBT_CHECK("heuristic-goal", p.IsGoal(b - shift), b);
    return p.hh.at(static_cast<size_t>(a - shift)).at(static_cast<size_t>(b - shift));
  };
  G graph;
  for (int64_t i = 0; i < p.g.n; i++) { graph.AddNode(i + shift); }
  for (const auto& e : p.g.edges) { graph.AddEdgeBetweenNodes(e.from, e.to, e.weight); }
  if (src.Bool())
  {
    const auto r = gs::PerformAstarSearch<int64_t, G>(graph, starts, goals, heuristic, p.limit);
    CheckResult(p, r.Path(), r.PathCost(), ctx);
    const Overlay overlay(graph);
    const auto o = gs::PerformAstarSearch<int64_t, Overlay>(overlay, starts, goals, heuristic, p.limit);
    CheckResult(p, o.Path(), o.PathCost(), ctx);
    PBT_CHECK("no-starts", pbt::Throws([&] { (void)gs::PerformAstarSearch<int64_t, G>(graph, {}, goals, heuristic, p.limit); }), "");
    PBT_CHECK("range", pbt::Throws([&] { (void)gs::PerformAstarSearch<int64_t, G>(graph, {p.g.n}, goals, heuristic, p.limit); }), "");
  }
  else
  {
    // The cheapest of parallel edges decides.
    const std::function<bool(const int64_t&, const int64_t&)> valid = [&](const int64_t& a, const int64_t& b) { return !std::isinf(Direct(p.g, a - shift, b - shift)); };
    const std::function<double(const int64_t&, const int64_t&)> distance = [&](const int64_t& a, const int64_t& b) { return Direct(p.g, a - shift, b - shift); };
    const auto r = gs::PerformLazyAstarSearch<int64_t, G>(graph, starts, goals, valid, distance, heuristic, p.limit);
    CheckResult(p, r.Path(), r.PathCost(), ctx);
  }
}

PROP(invalid_arguments_refused, "always", 2000, 20000)
{
  ctx.Nontrivial();
  const double cost = -static_cast<double>(src.Int(1, 100)) / 8.0;
  PBT_CHECK("negative-start-cost", pbt::Throws([&] { as::StateWithCost<int64_t> s(3, cost); }), cost);
  const std::function<bool(const int64_t&)> goal = [](const int64_t&) { return false; };
  const std::function<as::StatesWithCosts<int64_t>(const int64_t&)> children = [](const int64_t&) { return as::StatesWithCosts<int64_t>(); };
  const std::function<double(const int64_t&)> heuristic = [](const int64_t&) { return 0.0; };
  PBT_CHECK("no-starts", pbt::Throws([&] { (void)as::PerformAstarSearch<int64_t>(as::StatesWithCosts<int64_t>(), goal, children, heuristic, src.Bool()); }), "");
  PBT_CHECK("result", pbt::Throws([&] { as::AstarResult<int64_t> r({1}, kInf); }), "a path of infinite cost");
  const as::AstarResult<int64_t> none;
  PBT_CHECK("result", none.Path().empty() && std::isinf(none.PathCost()), "");
}

// Tens of thousands of states.
PROP(huge_searches, "path of three or more states", 1500, 40000)
{
  const Wide w = GenWide(src, ctx);
  const auto any = [&] { return src.Int(0, w.n - 1); };
  std::vector<std::pair<int64_t, double>> starts;
  for (size_t n = src.Size(1, 3); n > 0; n--) { starts.push_back({any(), 0.0}); }
  std::vector<int64_t> goals;
  for (size_t n = src.Size(1, 3); n > 0; n--) { goals.push_back(any()); }
  const bool limit = src.Bool();
  std::vector<std::pair<int64_t, double>> ends;
  for (const int64_t goal : goals) { ends.push_back({goal, 0.0}); }
  const std::vector<double> togo = w.From(ends, true);
  double best = kInf;
  for (const auto& s : starts) { best = std::min(best, togo[static_cast<size_t>(s.first)]); }
  // Admissible, and not consistent in general.
  const uint64_t style = src.Choose(2);
  const auto h = [&] (const int64_t i)
  {
    const double d = togo[static_cast<size_t>(i)];
    if (style == 0) { return 0.0; }
    if (style == 1 || std::isinf(d)) { return std::isinf(d) ? 0.0 : d; }
    return std::floor(d * static_cast<double>(i % 5) / 5.0);
  };
  const bool goal_start = std::any_of(starts.begin(), starts.end(), [&] (const auto& s) { return std::find(goals.begin(), goals.end(), s.first) != goals.end(); });
  ctx << "best " << best << " style " << style << (limit ? " limited" : " unlimited");
  const auto check = [&] (const std::vector<int64_t>& path, const double cost, const char* form)
  {
    PBT_CHECK("cost", cost == best, form, ": cost ", cost, ", best is ", best);
    PBT_CHECK("no-path", path.empty() == std::isinf(best), form, ": path of ", path.size(), " states");
    if (path.empty()) { return; }
    PBT_CHECK("path-start", std::any_of(starts.begin(), starts.end(), [&] (const auto& s) { return s.first == path.front(); }), form, ": starts at ", path.front());
    PBT_CHECK("path-goal", std::find(goals.begin(), goals.end(), path.back()) != goals.end(), form, ": ends at ", path.back());
    double sum = 0.0;
    for (size_t i = 0; i + 1 < path.size(); i++) { PBT_CHECK("path-edge", path[i] >= 0 && path[i] < w.n && !std::isinf(w.Weight(path[i], path[i + 1])), form, ": no edge ", path[i], " to ", path[i + 1]); sum += w.Weight(path[i], path[i + 1]); }
    PBT_CHECK("cost", goal_start ? path.size() == 1 : sum == cost, form, ": the path costs ", sum);
    ctx.Nontrivial(path.size() >= 3);
  };
  if (src.Bool())
  {
    as::StatesWithCosts<int64_t> from;
    for (const auto& s : starts) { from.emplace_back(s.first, s.second); }
    const std::function<as::StatesWithCosts<int64_t>(const int64_t&)> children = [&] (const int64_t& s)
    {
      as::StatesWithCosts<int64_t> out;
      for (const auto& e : w.out[static_cast<size_t>(s)]) { out.emplace_back(e.first, e.second); }
      return out;
    };
    const std::function<bool(const int64_t&)> goal = [&] (const int64_t& s) { return std::find(goals.begin(), goals.end(), s) != goals.end(); };
    const std::function<double(const int64_t&)> heuristic = [&] (const int64_t& s) { return h(s); };
    const auto r = as::PerformAstarSearch<int64_t>(from, goal, children, heuristic, limit);
    check(r.Path(), r.PathCost(), "states");
  }
  else
  {
    G graph;
    FillWide(graph, w);
    std::vector<int64_t> from;
    for (const auto& s : starts) { from.push_back(s.first); }
    const std::function<bool(const G&, const G::EdgeType&)> valid = [] (const G&, const G::EdgeType&) { return true; };
    const std::function<double(const G&, const G::EdgeType&)> distance = [] (const G&, const G::EdgeType& e) { return e.GetWeight(); };
    const std::function<double(const G&, int64_t, int64_t)> heuristic = [&] (const G&, const int64_t i, const int64_t) { return h(i); };
    const auto r = gs::PerformLazyAstarSearch<G>(graph, from, goals, valid, distance, heuristic, limit);
    check(r.Path(), r.PathCost(), "lazy");
    const auto plain = gs::PerformAstarSearch<int64_t, G>(graph, from, goals, [&] (const int64_t& i, const int64_t&) { return h(i); }, limit);
    check(plain.Path(), plain.PathCost(), "graph");
  }
}
