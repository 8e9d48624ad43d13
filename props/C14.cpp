// C14 Roadmap construction
// PBT-VARIANTS: plain asan tsan
// PBT-WORKERS: 4
#include "pbt.hpp"
#include "prm.hpp"

#include <atomic>
#include <mutex>

using namespace prmw;

namespace
{
template<typename G>
prm::LinearGraphKNNProvider<P, Roadmap> Provider(const Callbacks& c, const int32_t threads)
{
  return prm::LinearGraphKNNProvider<P, Roadmap>(c.distance, par::DegreeOfParallelism(threads));
}

// A provider that answers whatever it is told to.
class ScriptedProvider final : public prm::GraphKNNProvider<P, Roadmap>
{
public:
  std::vector<nn::IndexAndDistance> answer;
private:
  std::vector<nn::IndexAndDistance> DoGetKNearestNeighbors(const Roadmap&, const P&, const int64_t, const prm::NNDistanceDirection, const int64_t) const final { return answer; }
  std::vector<nn::IndexAndDistance> DoGetKNearestNeighbors(const RoadmapOverlay&, const P&, const int64_t, const prm::NNDistanceDirection, const int64_t) const final { return answer; }
};

prm::NNDistanceDirection Direction(const bool new_to_roadmap)
{
  return new_to_roadmap ? prm::NNDistanceDirection::NEW_STATE_TO_ROADMAP : prm::NNDistanceDirection::ROADMAP_TO_NEW_STATE;
}
}  // namespace

// Any history of additions and growth, on a roadmap or an overlay.
template<typename G>
void Additions(pbt::Src& src, pbt::Ctx& ctx, const World& w, G& g, Model& m, const size_t steps)
{
  uint64_t z = src.Choose(1u << 16);
  for (size_t step = 0; src.More(step, 0, steps, steps / 2 + 1); step++)
  {
    const int32_t threads = static_cast<int32_t>(src.Int(1, 4));
    const auto c = MakeCallbacks(w, ctx, threads);
    const auto knn = Provider<G>(c, static_cast<int32_t>(src.Int(1, 3)));
    const int64_t k = src.Bool(1, 8) ? 0 : src.Bool(1, 4) ? 50 : src.Int(1, 5);
    const bool duplicates = src.Bool();
    if (src.Bool(2, 3))
    {
      const bool new_to_roadmap = src.Bool();
      const bool again = !m.nodes.empty() && src.Bool(1, 5);
      const P state = again ? m.nodes[src.Choose(m.nodes.size() - 1)] : w.Sample(z++);
      const int64_t size = static_cast<int64_t>(m.nodes.size());
      const int64_t limit = src.Bool(1, 4) ? src.Int(0, size) : size;
      ctx << "add(" << state.x << "," << state.y << " k" << k << " of " << limit << "/" << size << (new_to_roadmap ? " from" : " to") << (duplicates ? " dup" : "") << ") ";
      const bool was = m.ambiguous;
      m.ambiguous = false;
      const int64_t want = m.Add(w, state, new_to_roadmap, k, limit, duplicates);
      const int64_t got = prm::AddNodeToRoadmap<P, G>(state, Direction(new_to_roadmap), g, knn, c.distance, c.edge, k, limit, par::DegreeOfParallelism(threads), w.symmetric, duplicates);
      if (!m.ambiguous) { PBT_CHECK("add-index", got == want, got, " instead of ", want); }
      else { PBT_CHECK("add-index", got >= 0 && got < g.Size() && g.GetNodeImmutable(got).GetValueImmutable() == state, got); }
      if (was) { m.ambiguous = true; }
      CheckModel(w, g, m);
      if (m.ambiguous) { m.links = LinksOf(g); m.ambiguous = false; }
    }
    else
    {
      // Grow until a scripted number of rounds has passed.
      const size_t rounds = src.Size(0, 10);
      size_t asked = 0;
      size_t samples = 0;
      std::map<std::string, double> want{{"total_samples", 0}, {"successful_samples", 0}, {"duplicate_samples", 0}, {"failed_samples", 0}};
      const size_t before = m.nodes.size();
      const std::function<bool(const int64_t)> stop = [&](const int64_t size)
      {
        PBT_CHECK("grow-size", size == g.Size() && size == static_cast<int64_t>(m.nodes.size()), "termination check got size ", size, ", model ", m.nodes.size());
        if (m.ambiguous) { m.links = LinksOf(g); m.ambiguous = false; }
        return asked++ >= rounds;
      };
      const std::function<P(const int32_t)> sample = [&](const int32_t t)
      {
        PBT_CHECK("grow-thread", t == 0, t);
        samples++;
        const P state = (!m.nodes.empty() && z % 7 == 0) ? m.nodes[z % m.nodes.size()] : w.Sample(z);
        z = z + 1;
        want["total_samples"] += 1;
        if (!w.Valid(state)) { want["failed_samples"] += 1; return state; }
        const size_t n = m.nodes.size();
        m.Add(w, state, false, k, static_cast<int64_t>(n), duplicates);
        want[m.nodes.size() > n ? "successful_samples" : "duplicate_samples"] += 1;
        return state;
      };
      ctx << "grow(" << rounds << " k" << k << (duplicates ? " dup" : "") << ") ";
      const auto stats = prm::GrowRoadMap<P, G>(g, sample, knn, c.distance, c.state, c.edge, stop, k, par::DegreeOfParallelism(threads), w.symmetric, duplicates);
      PBT_CHECK("grow-samples", samples == rounds, samples, " samples in ", rounds, " rounds");
      for (const auto& s : want) { PBT_CHECK("grow-statistics", stats.at(s.first) == s.second, s.first, " ", stats.at(s.first), " instead of ", s.second); }
      for (size_t i = before; i < m.nodes.size(); i++) { PBT_CHECK("grow-state", w.Valid(g.GetNodeImmutable(static_cast<int64_t>(i)).GetValueImmutable()), "invalid state ", i, " in the roadmap"); }
      CheckModel(w, g, m);
    }
  }
  ctx.Nontrivial(m.links.size() >= 4);
}

PROP(additions_and_growth, "four or more edges", 60000, 2000000)
{
  const World w = GenWorld(src, ctx);
  Roadmap g;
  Model m;
  Additions(src, ctx, w, g, m, 24);
  if (src.Bool(1, 3))
  {
    const Model below = m;
    RoadmapOverlay overlay(g);
    Additions(src, ctx, w, overlay, m, 8);
    CheckModel(w, g, below);
  }
}

PROP(building, "four or more edges", 60000, 2000000)
{
  const World w = GenWorld(src, ctx);
  const int64_t size = static_cast<int64_t>(src.Size(0, src.Bool(1, 12) ? 70 : 24));
  const int64_t k = src.Bool(1, 5) ? src.Int(1, 60) : src.Int(1, 6);
  const int32_t tries = static_cast<int32_t>(src.Int(1, 60));
  const int32_t threads = static_cast<int32_t>(src.Int(1, 4));
  const bool duplicates = src.Bool();
  const bool parallel_sampling = src.Bool();
  const auto c = MakeCallbacks(w, ctx, threads);
  const auto knn = Provider<Roadmap>(c, 1);
  std::mutex lock;
  uint64_t z = src.Choose(1u << 16);
  std::vector<P> drawn;
  const std::function<P(const int32_t)> sample = [&](const int32_t t)
  {
    if (t < 0 || t >= threads) { ctx.FailAsync("thread", pbt::Str("sampler called as thread ", t)); }
    std::lock_guard<std::mutex> guard(lock);
    drawn.push_back(w.Sample(z++));
    return drawn.back();
  };
  ctx << "size " << size << " k" << k << " tries " << tries << " threads " << threads << (duplicates ? " dup" : "");
  Roadmap g;
  bool failed = false;
  try
  {
    g = prm::BuildRoadMap<P, Roadmap>(size, sample, knn, c.distance, c.state, c.edge, k, tries, par::DegreeOfParallelism(threads), parallel_sampling, w.symmetric, duplicates);
  }
  catch (const std::runtime_error&) { failed = true; }
  // Which states a serial sampler would have kept.
  std::vector<P> kept;
  size_t at = 0;
  bool out_of_tries = false;
  for (int64_t i = 0; i < size && !out_of_tries; i++)
  {
    int32_t n = 0;
    bool ok = false;
    while (n < tries && !ok && at < drawn.size())
    {
      const P p = drawn[at++];
      n++;
      ok = w.Valid(p) && (duplicates || std::none_of(kept.begin(), kept.end(), [&](const P& o) { return w.Distance(o, p) == 0.0; }));
      if (ok) { kept.push_back(p); }
    }
    out_of_tries = !ok;
  }
  const bool parallel = parallel_sampling && duplicates && threads > 1;
  if (!parallel) { PBT_CHECK("build-failure", failed == out_of_tries, failed ? "failed" : "succeeded", " although sampling ", out_of_tries ? "fails" : "succeeds"); }
  if (failed) { ctx.Label("sampling failed"); return; }
  PBT_CHECK("build-size", g.Size() == size, g.Size(), " instead of ", size);
  Model m;
  std::vector<P> pool = drawn;
  for (int64_t i = 0; i < size; i++)
  {
    const P p = g.GetNodeImmutable(i).GetValueImmutable();
    m.nodes.push_back(p);
    PBT_CHECK("build-state", w.Valid(p), "invalid state in the roadmap");
    const auto found = std::find(pool.begin(), pool.end(), p);
    PBT_CHECK("build-state", found != pool.end(), "a state the sampler did not produce");
    pool.erase(found);
  }
  if (!parallel) { PBT_CHECK("build-states", m.nodes == kept, "other states than the accepted samples"); }
  // Every accepted edge between a node and one of its K nearest.
  std::set<std::pair<int64_t, int64_t>> pairs;
  for (int64_t i = 0; i < size; i++)
  {
    const P p = m.nodes[static_cast<size_t>(i)];
    const auto near = m.Nearest([&](const P& o) { return w.Distance(o, p); }, k + 1, size);
    for (const int64_t j : near)
    {
      if (j == i) { continue; }
      pairs.insert({i, j});
      pairs.insert({j, i});
    }
  }
  for (const auto& pair : pairs)
  {
    const P& a = m.nodes[static_cast<size_t>(pair.first)];
    const P& b = m.nodes[static_cast<size_t>(pair.second)];
    if (w.Edge(a, b)) { m.links.push_back(Link{pair.first, pair.second, w.Distance(a, b)}); }
  }
  CheckModel(w, g, m);
  if (m.ambiguous) { ctx.Label("ties"); }
  ctx.Nontrivial(m.links.size() >= 4);
}

// Serial and parallel construction from the same samples.
PROP(serial_and_parallel_agree, "four or more edges", 20000, 600000)
{
  World w = GenWorld(src, ctx);
  w.lattice = false;
  const int64_t size = static_cast<int64_t>(src.Size(0, 20));
  const int64_t k = src.Int(1, 6);
  const bool duplicates = src.Bool();
  const uint64_t seed = src.Choose(1u << 16);
  const auto c = MakeCallbacks(w, ctx, 8);
  std::vector<std::vector<Link>> links;
  std::vector<std::vector<P>> nodes;
  bool ambiguous = false;
  for (const int32_t threads : {1, static_cast<int32_t>(src.Int(2, 6))})
  {
    uint64_t z = seed;
    const std::function<P(const int32_t)> sample = [&](const int32_t) { return w.Sample(z++); };
    const auto knn = Provider<Roadmap>(c, threads);
    const auto g = prm::BuildRoadMap<P, Roadmap>(size, sample, knn, c.distance, c.state, c.edge, k, 1000, par::DegreeOfParallelism(threads), false, w.symmetric, duplicates);
    Model m;
    for (int64_t i = 0; i < g.Size(); i++) { m.nodes.push_back(g.GetNodeImmutable(i).GetValueImmutable()); }
    for (const P& p : m.nodes) { m.Nearest([&](const P& o) { return w.Distance(o, p); }, k + 1, g.Size()); }
    ambiguous = ambiguous || m.ambiguous;
    links.push_back(LinksOf(g));
    nodes.push_back(m.nodes);
  }
  PBT_CHECK("same-nodes", nodes[0] == nodes[1], "");
  if (!ambiguous) { PBT_CHECK("same-edges", links[0] == links[1], Text(links[0]), " and ", Text(links[1])); }
  ctx.Nontrivial(links[0].size() >= 4);
}

// Updating after the world has changed.
template<typename G>
void Update(pbt::Src& src, pbt::Ctx& ctx, const World& w, G& g)
{
  const int32_t threads = static_cast<int32_t>(src.Int(1, 5));
  const auto c = MakeCallbacks(w, ctx, threads);
  // Weights recorded at the target of an edge may differ from those at its source.
  const Model before = ModelOf(g);
  const bool mismatch = src.Bool();
  uint64_t many = before.links.size() > 2000 ? src.Choose(1u << 30) : 0;
  const auto change = [&] { if (many == 0) { return src.Bool(1, 12); } many = pbt::Mix(many); return many % 12 == 0; };
  for (int64_t i = 0; mismatch && i < g.Size(); i++)
  {
    for (auto& e : g.GetNodeMutable(i).GetInEdgesMutable()) { if (change()) { e.SetWeight(9.5); if (many == 0) { ctx << "in edge " << e.GetFromIndex() << "->" << i << " at 9.5 "; } } }
  }
  prm::UpdateRoadMapEdges<P, G>(g, c.edge, c.distance, par::DegreeOfParallelism(threads));
  std::vector<Link> want;
  bool changed = false;
  for (auto l : before.links)
  {
    const P& a = before.nodes[static_cast<size_t>(l.from)];
    const P& b = before.nodes[static_cast<size_t>(l.to)];
    const double weight = w.Edge(a, b) ? w.Distance(a, b) : kInf;
    changed = changed || weight != l.weight;
    l.weight = weight;
    want.push_back(l);
  }
  std::sort(want.begin(), want.end());
  const auto got = LinksOf(g);
  PBT_CHECK("update", got == want, Text(got), " instead of ", Text(want));
  PBT_CHECK("update", g.CheckGraphLinkage(), "");
  PBT_CHECK("update-nodes", ModelOf(g).nodes == before.nodes, "");
  ctx.Nontrivial(changed && want.size() >= 3);
}

PROP(updating, "three or more edges and a changed weight", 50000, 1500000)
{
  World w = GenWorld(src, ctx);
  Roadmap g;
  const int64_t n = static_cast<int64_t>(src.Size(0, 14));
  uint64_t z = src.Choose(1u << 16);
  for (int64_t i = 0; i < n; i++) { g.AddNode(w.Sample(z++)); }
  const size_t edges = n < 2 ? 0 : src.Size(0, 40);
  for (size_t i = 0; i < edges; i++)
  {
    const int64_t a = src.Int(0, n - 1);
    const int64_t b = src.Int(0, n - 1);
    if (a == b) { continue; }
    const P& pa = g.GetNodeImmutable(a).GetValueImmutable();
    const P& pb = g.GetNodeImmutable(b).GetValueImmutable();
    const double right = w.Edge(pa, pb) ? w.Distance(pa, pb) : kInf;
    const double weight = src.Bool(1, 4) ? kInf : src.Bool(1, 4) ? right : static_cast<double>(src.Choose(9));
    if (src.Bool()) { g.AddEdgeBetweenNodes(a, b, weight); } else { g.AddEdgesBetweenNodes(a, b, weight); }
  }
  if (src.Bool(1, 3))
  {
    const Model below = ModelOf(g);
    RoadmapOverlay overlay(g);
    if (n >= 2 && src.Bool()) { overlay.AddEdgeBetweenNodes(0, 1, 3.0); }
    Update(src, ctx, w, overlay);
    const Model still = ModelOf(g);
    PBT_CHECK("update-overlay", still.nodes == below.nodes && still.links == below.links, "updating an overlay changed the roadmap below");
  }
  else { Update(src, ctx, w, g); }
  if (n >= 2)
  {
    const auto c = MakeCallbacks(w, ctx, 1);
    g.GetNodeMutable(0).AddOutEdge(sg::GraphEdge(0, n, 1.0));
    PBT_CHECK("update-inconsistent", pbt::Throws([&] { prm::UpdateRoadMapEdges<P, Roadmap>(g, c.edge, c.distance, par::DegreeOfParallelism(1)); }), "inconsistent roadmap accepted");
  }
}

// Neighbours outside the allowed range are refused and nothing is added.
PROP(neighbour_providers_are_checked, "an index out of range", 20000, 200000)
{
  const World w = GenWorld(src, ctx);
  Roadmap g;
  const int64_t n = src.Int(0, 5);
  for (int64_t i = 0; i < n; i++) { g.AddNode(w.Sample(static_cast<uint64_t>(i))); }
  const int64_t limit = src.Int(0, n + 2);
  ScriptedProvider provider;
  bool bad = false;
  const size_t count = src.Size(0, 3);
  for (size_t i = 0; i < count; i++)
  {
    const int64_t index = src.Bool(1, 10) ? std::numeric_limits<int64_t>::min() : src.Int(-2, n + 1);
    bad = bad || index < 0 || index >= limit || index >= n;
    const double d = src.Bool(1, 4) ? 0.0 : 1.0;
    provider.answer.emplace_back(index, d);
    ctx << index << ":" << d << " ";
  }
  ctx << "of " << limit << "/" << n;
  ctx.Nontrivial(bad);
  const auto c = MakeCallbacks(w, ctx, 1);
  const P state = w.Sample(100);
  const bool duplicates = src.Bool();
  const bool threw = pbt::Throws([&] { prm::AddNodeToRoadmap<P, Roadmap>(state, Direction(src.Bool()), g, provider, c.distance, c.edge, 3, limit, par::DegreeOfParallelism(1), w.symmetric, duplicates); });
  PBT_CHECK("provider", threw == bad, threw ? "refused" : "accepted");
  if (bad) { PBT_CHECK("provider", g.Size() == n && LinksOf(g).empty(), "changed the roadmap"); }
  const bool asked = pbt::Throws([&] { (void)provider.GetKNearestNeighbors(RoadmapOverlay(g), state, 3, Direction(false), limit); });
  PBT_CHECK("provider", asked == bad, "");
  PBT_CHECK("provider", pbt::Throws([&] { prm::LinearGraphKNNProvider<P, Roadmap>(nullptr, par::DegreeOfParallelism(1)); }), "no distance function accepted");
}

PROP(invalid_build_arguments_refused, "always", 2000, 20000)
{
  const World w = GenWorld(src, ctx);
  ctx.Nontrivial();
  const auto c = MakeCallbacks(w, ctx, 1);
  const auto knn = Provider<Roadmap>(c, 1);
  const std::function<P(const int32_t)> sample = [&](const int32_t) { return P(); };
  const auto build = [&](const int64_t size, const int64_t k, const int32_t tries) { (void)prm::BuildRoadMap<P, Roadmap>(size, sample, knn, c.distance, c.state, c.edge, k, tries, par::DegreeOfParallelism(1)); };
  PBT_CHECK("arguments", pbt::Throws([&] { build(-src.Int(1, 9), 1, 1); }), "negative size");
  PBT_CHECK("arguments", pbt::Throws([&] { build(0, -src.Int(0, 9), 1); }), "K below one");
  PBT_CHECK("arguments", pbt::Throws([&] { build(0, 1, static_cast<int32_t>(-src.Int(0, 9))); }), "tries below one");
}

// Roadmaps of many hundred states: built by many threads, extended and updated.
PROP_CONCURRENT(large_roadmaps, "more than 500 states", 100, 3000)
{
  World w = GenWorld(src, ctx);
  const int64_t size = src.Bool() ? src.Int(120, 420) : src.Int(520, 1300);
  const int64_t k = src.Bool(1, 4) ? src.Int(100, 300) : src.Int(1, 12);
  const int32_t threads = static_cast<int32_t>(src.Bool() ? src.Int(1, 8) : src.Int(9, 40));
  const bool parallel_sampling = src.Bool();
  const auto c = MakeCallbacks(w, ctx, threads);
  const auto knn = Provider<Roadmap>(c, static_cast<int32_t>(src.Int(1, 4)));
  const uint64_t seed = src.Choose(1u << 16);
  std::atomic<uint64_t> z{seed};
  const std::function<P(const int32_t)> sample = [&](const int32_t t)
  {
    if (t < 0 || t >= threads) { ctx.FailAsync("thread", pbt::Str("sampler called as thread ", t)); }
    return w.Sample(z++);
  };
  ctx << "size " << size << " k" << k << " threads " << threads;
  if (size > 500) { ctx.Nontrivial(); }
  Roadmap g = prm::BuildRoadMap<P, Roadmap>(size, sample, knn, c.distance, c.state, c.edge, k, 100000, par::DegreeOfParallelism(threads), parallel_sampling, w.symmetric, true);
  ctx.ThrowAsync();
  PBT_CHECK("build-size", g.Size() == size, g.Size(), " instead of ", size);
  Model m;
  std::map<std::pair<double, double>, int64_t> pool;
  for (uint64_t i = seed; i < z; i++) { const P p = w.Sample(i); pool[std::make_pair(p.x, p.y)]++; }
  for (int64_t i = 0; i < size; i++)
  {
    const P p = g.GetNodeImmutable(i).GetValueImmutable();
    m.nodes.push_back(p);
    PBT_CHECK("build-state", w.Valid(p), "invalid state in the roadmap");
    PBT_CHECK("build-state", pool[std::make_pair(p.x, p.y)]-- > 0, "a state the sampler did not produce");
  }
  std::set<std::pair<int64_t, int64_t>> pairs;
  for (int64_t i = 0; i < size; i++)
  {
    const P p = m.nodes[static_cast<size_t>(i)];
    for (const int64_t j : m.Nearest([&](const P& o) { return w.Distance(o, p); }, k + 1, size))
    {
      if (j != i) { pairs.insert({i, j}); pairs.insert({j, i}); }
    }
  }
  for (const auto& pair : pairs)
  {
    const P& a = m.nodes[static_cast<size_t>(pair.first)];
    const P& b = m.nodes[static_cast<size_t>(pair.second)];
    if (w.Edge(a, b)) { m.links.push_back(Link{pair.first, pair.second, w.Distance(a, b)}); }
  }
  CheckModel(w, g, m);
  // Some more states.
  for (size_t i = src.Choose(4); i > 0; i--)
  {
    const bool new_to_roadmap = src.Bool();
    const int64_t limit = src.Bool() ? static_cast<int64_t>(m.nodes.size()) : src.Int(0, static_cast<int64_t>(m.nodes.size()));
    const P state = w.Sample(z++);
    const bool was = m.ambiguous;
    m.ambiguous = false;
    const int64_t want = m.Add(w, state, new_to_roadmap, k, limit, true);
    const int64_t got = prm::AddNodeToRoadmap<P, Roadmap>(state, Direction(new_to_roadmap), g, knn, c.distance, c.edge, k, limit, par::DegreeOfParallelism(threads), w.symmetric, true);
    PBT_CHECK("add-index", got == want, got, " instead of ", want);
    m.ambiguous = m.ambiguous || was;
    CheckModel(w, g, m);
    if (m.ambiguous) { m.links = LinksOf(g); m.ambiguous = false; }
  }
  w.salt = src.Choose(1u << 16);
  w.blocked = src.Choose(10);
  w.right = w.symmetric ? 0.0 : 4.0;
  Update(src, ctx, w, g);
}
