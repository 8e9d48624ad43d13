// C15 Roadmap queries
// PBT-VARIANTS: plain asan tsan
// PBT-WORKERS: 4
#include "pbt.hpp"
#include "prm.hpp"

using namespace prmw;

namespace
{
struct Query
{
  World w;
  Roadmap g;
  bool admissible = true;  // stored weights are not below the distances
  Path starts;
  Path goals;
  int64_t k = 1;
  bool lazy = false;
  bool duplicates = false;
  bool limit = true;
  bool overlay = true;
  int32_t threads = 1;
};

Query GenQuery(pbt::Src& src, pbt::Ctx& ctx)
{
  Query q;
  q.w = GenWorld(src, ctx);
  uint64_t z = src.Choose(1u << 16);
  const bool large = src.Bool(1, 600);
  const int64_t n = large ? src.Int(100, 700) : static_cast<int64_t>(src.Size(0, 14));
  const bool built = large || src.Bool();
  if (large) { ctx.Label("hundreds of states"); }
  World building = q.w;
  q.lazy = src.Bool();
  // A lazy query may get a roadmap that was never checked.
  if (q.lazy && src.Bool()) { building.blocked = 0; }
  if (built)
  {
    Model m;
    const int64_t neighbors = large ? src.Int(1, 12) : 0;
    for (int64_t i = 0; i < n; i++) { m.Add(building, q.w.Sample(z++), false, large ? neighbors : src.Int(1, 4), static_cast<int64_t>(m.nodes.size()), false); }
    for (const P& p : m.nodes) { q.g.AddNode(p); }
    for (const Link& l : m.links) { q.g.AddEdgeBetweenNodes(l.from, l.to, l.weight); }
  }
  else
  {
    for (int64_t i = 0; i < n; i++) { q.g.AddNode(q.w.Sample(z++)); }
    const size_t edges = n < 2 ? 0 : src.Size(0, 40);
    const bool wild = src.Bool(1, 5);
    for (size_t i = 0; i < edges; i++)
    {
      const int64_t a = src.Int(0, n - 1);
      const int64_t b = src.Int(0, n - 1);
      if (a == b) { continue; }
      const double d = q.w.Distance(q.g.GetNodeImmutable(a).GetValueImmutable(), q.g.GetNodeImmutable(b).GetValueImmutable());
      double weight = d;
      switch (src.Choose(4))
      {
        case 0: weight = kInf; break;
        case 1: weight = d + static_cast<double>(src.Choose(50)) * q.w.scale; break;
        case 2: if (wild) { weight = static_cast<double>(src.Choose(20)) * q.w.scale; } break;
        default: break;
      }
      if (weight < d && !q.lazy) { q.admissible = false; }
      q.g.AddEdgeBetweenNodes(a, b, weight);
    }
  }
  const auto state = [&]
  {
    if (q.g.Size() > 0 && src.Bool(1, 3)) { return q.g.GetNodeImmutable(src.Int(0, q.g.Size() - 1)).GetValueImmutable(); }
    if (!q.starts.empty() && src.Bool(1, 12)) { return q.starts.front(); }
    return q.w.Sample(z++);
  };
  const size_t starts = src.Size(1, large ? 40 : 3);
  for (size_t i = 0; i < starts; i++) { q.starts.push_back(state()); }
  const size_t goals = src.Size(1, large ? 40 : 3);
  for (size_t i = 0; i < goals; i++) { q.goals.push_back(state()); }
  q.k = src.Bool(1, 12) ? 0 : src.Bool(1, 4) ? 50 : src.Int(1, 4);
  q.duplicates = src.Bool(1, 3);
  q.limit = src.Bool();
  q.overlay = src.Bool();
  q.threads = static_cast<int32_t>(src.Int(1, 3));
  ctx << (built ? "built " : "random ") << n << " nodes, " << (q.lazy ? "lazy" : "eager") << " k" << q.k << (q.duplicates ? " dup" : "") << (q.admissible ? "" : " inadmissible") << " starts";
  for (const P& p : q.starts) { ctx << " (" << p.x << "," << p.y << ")"; }
  ctx << " goals";
  for (const P& p : q.goals) { ctx << " (" << p.x << "," << p.y << ")"; }
  return q;
}

// The edges a search may use, with the weight it should use.
std::vector<Link> Usable(const Query& q, const Model& m)
{
  std::vector<Link> out;
  for (auto l : m.links)
  {
    const P& a = m.nodes[static_cast<size_t>(l.from)];
    const P& b = m.nodes[static_cast<size_t>(l.to)];
    if (q.lazy)
    {
      if (!q.w.Edge(a, b)) { continue; }
      l.weight = q.w.Distance(a, b);
    }
    else if (std::isinf(l.weight)) { continue; }
    out.push_back(l);
  }
  return out;
}

void CheckPath(const Query& q, const Model& m, const std::vector<int64_t>& starts, const std::vector<int64_t>& goals,
               const Path& path, const double length, pbt::Ctx& ctx)
{
  const size_t n = m.nodes.size();
  const auto links = Usable(q, m);
  std::vector<std::vector<std::pair<size_t, double>>> out(n);
  for (const auto& l : links) { out[static_cast<size_t>(l.from)].push_back({static_cast<size_t>(l.to), l.weight}); }
  // Cheapest ways from any start to every node.
  std::vector<double> d(n, kInf);
  std::set<std::pair<double, size_t>> open;
  for (const int64_t s : starts) { d[static_cast<size_t>(s)] = 0.0; open.insert({0.0, static_cast<size_t>(s)}); }
  while (!open.empty())
  {
    const auto top = *open.begin();
    open.erase(open.begin());
    for (const auto& e : out[top.second])
    {
      if (top.first + e.second < d[e.first]) { open.erase({d[e.first], e.first}); d[e.first] = top.first + e.second; open.insert({d[e.first], e.first}); }
    }
  }
  double best = kInf;
  for (const int64_t g : goals) { best = std::min(best, d[static_cast<size_t>(g)]); }
  if (path.empty())
  {
    PBT_CHECK("no-path-length", std::isinf(length), length);
    PBT_CHECK("no-path", std::isinf(best), "no path although one of length ", best, " exists");
    ctx.Label("no path");
    return;
  }
  PBT_CHECK("path", !std::isinf(best), "a path where none exists");
  // Cheapest way to go through these states.
  std::vector<double> cost(n, kInf);
  for (const int64_t s : starts) { if (m.nodes[static_cast<size_t>(s)] == path.front()) { cost[static_cast<size_t>(s)] = 0.0; } }
  PBT_CHECK("path-start", std::any_of(cost.begin(), cost.end(), [](const double c) { return c == 0.0; }), "does not begin at a start");
  for (size_t step = 1; step < path.size(); step++)
  {
    std::vector<double> next(n, kInf);
    for (size_t i = 0; i < n; i++)
    {
      if (std::isinf(cost[i])) { continue; }
      for (const auto& e : out[i])
      {
        if (m.nodes[e.first] == path[step]) { next[e.first] = std::min(next[e.first], cost[i] + e.second); }
      }
    }
    cost = next;
    PBT_CHECK("path-edge", std::any_of(cost.begin(), cost.end(), [](const double c) { return !std::isinf(c); }), "no usable edge for step ", step);
  }
  double sum = kInf;
  for (const int64_t g : goals) { sum = std::min(sum, cost[static_cast<size_t>(g)]); }
  PBT_CHECK("path-goal", !std::isinf(sum), "does not end at a goal");
  PBT_CHECK("path-length", length >= sum && length >= best, "reported ", length, ", the path is ", sum, ", best ", best);
  if (q.admissible)
  {
    PBT_CHECK("path-length", length == sum, "reported ", length, ", the path is ", sum);
    PBT_CHECK("shortest", length == best, "reported ", length, ", best ", best);
  }
  ctx.Label(path.size() == 1 ? "start is goal" : path.size() == 2 ? "direct" : "through the roadmap");
  ctx.Nontrivial(path.size() >= 3);
}

// A path that may have used any of the equally distant neighbours.
void CheckLoosely(const Query& q, const Path& path, const double length)
{
  if (path.empty()) { PBT_CHECK("no-path-length", std::isinf(length), length); return; }
  PBT_CHECK("path-start", std::find(q.starts.begin(), q.starts.end(), path.front()) != q.starts.end(), "does not begin at a start");
  PBT_CHECK("path-goal", std::find(q.goals.begin(), q.goals.end(), path.back()) != q.goals.end(), "does not end at a goal");
  double straight = 0.0;
  for (size_t i = 0; i + 1 < path.size(); i++)
  {
    if (q.lazy) { PBT_CHECK("path-edge", q.w.Edge(path[i], path[i + 1]), "step ", i); }
    straight += q.w.Distance(path[i], path[i + 1]);
  }
  if (q.lazy) { PBT_CHECK("path-length", length == straight, length, " instead of ", straight); }
  else if (q.admissible) { PBT_CHECK("path-length", length >= straight, length, " below ", straight); }
}
}  // namespace

PROP(queries, "a path of three or more states", 120000, 4000000)
{
  Query q = GenQuery(src, ctx);
  const Model before = ModelOf(q.g);
  Model m = before;
  std::vector<int64_t> starts;
  std::vector<int64_t> goals;
  const int64_t pre_starts = static_cast<int64_t>(m.nodes.size());
  for (const P& p : q.starts) { starts.push_back(m.Add(q.w, p, true, q.k, pre_starts, q.duplicates)); }
  const int64_t pre_goals = static_cast<int64_t>(m.nodes.size());
  for (const P& p : q.goals) { goals.push_back(m.Add(q.w, p, false, q.k, pre_goals, q.duplicates)); }
  const auto c = MakeCallbacks(q.w, ctx, q.threads);
  const par::DegreeOfParallelism degree(q.threads);
  const prm::LinearGraphKNNProvider<P, Roadmap> knn(c.distance, par::DegreeOfParallelism(static_cast<int32_t>(src.Int(1, 3))));
  const auto check = [&](const auto& r)
  {
    if (m.ambiguous) { CheckLoosely(q, r.Path(), r.PathCost()); ctx.Label("ties"); }
    else { CheckPath(q, m, starts, goals, r.Path(), r.PathCost(), ctx); }
  };
  const auto unchanged = [&]
  {
    const Model after = ModelOf(q.g);
    PBT_CHECK("unchanged", after.nodes == before.nodes && after.links == before.links, "the query changed the roadmap");
  };
  const Roadmap& fixed = q.g;
  if (q.lazy) { check(prm::LazyQueryPath<P, Path, Roadmap>(q.starts, q.goals, fixed, knn, c.distance, c.edge, q.k, degree, q.w.symmetric, q.duplicates, q.limit, q.overlay)); }
  else { check(prm::QueryPath<P, Path, Roadmap>(q.starts, q.goals, fixed, knn, c.distance, c.edge, q.k, degree, q.w.symmetric, q.duplicates, q.limit, q.overlay)); }
  unchanged();
  const auto and_add = [&](auto& g)
  {
    using G = typename std::remove_reference<decltype(g)>::type;
    if (q.lazy) { check(prm::LazyQueryPathAndAddNodes<P, Path, G>(q.starts, q.goals, g, knn, c.distance, c.edge, q.k, degree, q.w.symmetric, q.duplicates, q.limit)); }
    else { check(prm::QueryPathAndAddNodes<P, Path, G>(q.starts, q.goals, g, knn, c.distance, c.edge, q.k, degree, q.w.symmetric, q.duplicates, q.limit)); }
    PBT_CHECK("added", g.CheckGraphLinkage(), "inconsistent roadmap");
    PBT_CHECK("added", g.Size() >= pre_starts && g.Size() <= pre_starts + static_cast<int64_t>(q.starts.size() + q.goals.size()), g.Size());
    for (size_t i = 0; i < before.nodes.size(); i++) { PBT_CHECK("added", g.GetNodeImmutable(static_cast<int64_t>(i)).GetValueImmutable() == before.nodes[i], "node ", i, " changed"); }
    if (!m.ambiguous)
    {
      const Model after = ModelOf(g);
      auto links = m.links;
      std::sort(links.begin(), links.end());
      PBT_CHECK("added-nodes", after.nodes == m.nodes, after.nodes.size(), " nodes instead of ", m.nodes.size());
      PBT_CHECK("added-edges", after.links == links, Text(after.links), " instead of ", Text(links));
    }
  };
  RoadmapOverlay overlay(q.g);
  and_add(overlay);
  unchanged();
  and_add(q.g);
}

PROP(empty_starts_or_goals_refused, "always", 2000, 20000)
{
  const World w = GenWorld(src, ctx);
  ctx.Nontrivial();
  const auto c = MakeCallbacks(w, ctx, 1);
  const prm::LinearGraphKNNProvider<P, Roadmap> knn(c.distance, par::DegreeOfParallelism(1));
  Roadmap g;
  g.AddNode(P());
  const Path some{P()};
  const Path none;
  const auto& a = src.Bool() ? none : some;
  const auto& b = (&a == &none && src.Bool()) ? some : none;
  const par::DegreeOfParallelism one(1);
  PBT_CHECK("empty", pbt::Throws([&] { (void)prm::QueryPath<P, Path, Roadmap>(a, b, g, knn, c.distance, c.edge, 1, one); }), "accepted");
  PBT_CHECK("empty", pbt::Throws([&] { (void)prm::LazyQueryPath<P, Path, Roadmap>(a, b, g, knn, c.distance, c.edge, 1, one); }), "accepted");
  PBT_CHECK("empty", pbt::Throws([&] { (void)prm::QueryPathAndAddNodes<P, Path, Roadmap>(a, b, g, knn, c.distance, c.edge, 1, one); }), "accepted");
  PBT_CHECK("empty", pbt::Throws([&] { (void)prm::LazyQueryPathAndAddNodes<P, Path, Roadmap>(a, b, g, knn, c.distance, c.edge, 1, one); }), "accepted");
  PBT_CHECK("empty", g.Size() == 1, "changed the roadmap");
}
