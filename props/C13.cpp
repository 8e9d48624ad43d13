// C13 Dijkstra
// PBT-WORKERS: 8
#include "pbt.hpp"
#include "digraphs.hpp"

#include <common_robotics_utilities/simple_graph_search.hpp>

namespace gs = common_robotics_utilities::simple_graph_search;
namespace sg = common_robotics_utilities::simple_graph;
using namespace digraphs;
using G = sg::Graph<int64_t>;
using Overlay = sg::NonOwningGraphOverlay<int64_t, G>;

namespace
{
void CheckResult(const gs::DijkstrasResult& r, const Digraph& g, const Matrix& d, const int64_t start)
{
  PBT_CHECK("size", r.Size() == g.n, r.Size());
  for (int64_t i = 0; i < g.n; i++)
  {
    const double want = d[static_cast<size_t>(i)][static_cast<size_t>(start)];
    PBT_CHECK("distance", r.GetNodeDistance(i) == want, "node ", i, " to ", start, ": ", r.GetNodeDistance(i), " instead of ", want, " in ", Text(g));
    if (std::isinf(want)) { continue; }
    int64_t at = i;
    double sum = 0.0;
    int64_t hops = 0;
    while (at != start)
    {
      const int64_t next = r.GetPreviousIndex(at);
      PBT_CHECK("predecessor", next >= 0 && next < g.n, "node ", at, " has predecessor ", next);
      sum += Direct(g, at, next);
      at = next;
      hops++;
      PBT_CHECK("predecessor", hops <= g.n, "predecessors of ", i, " do not end at ", start, " in ", Text(g));
    }
    PBT_CHECK("predecessor-weights", sum == want, "from ", i, ": ", sum, " instead of ", want, " in ", Text(g));
  }
  PBT_CHECK("range", pbt::Throws([&] { (void)r.GetNodeDistance(g.n); }) && pbt::Throws([&] { (void)r.GetPreviousIndex(-1); }), "out of range index answered");
}
}  // namespace

PROP(distances, "two or more nodes other than the start reach it", 300000, 12000000)
{
  Digraph g = GenDigraph(src, 1, 14, true, false);
  if (src.Bool(1, 3))
  {
    // Undirected.
    const auto forward = g.edges;
    for (auto e : forward) { std::swap(e.from, e.to); g.edges.push_back(e); }
  }
  Scale(g, GenScale(src));
  const int64_t start = src.Int(0, g.n - 1);
  ctx << Text(g) << " start " << start;
  const Matrix d = AllPairs(g);
  size_t reach = 0;
  for (int64_t i = 0; i < g.n; i++) { reach += i != start && !std::isinf(d[static_cast<size_t>(i)][static_cast<size_t>(start)]); }
  ctx.Nontrivial(reach >= 2);
  G graph;
  Fill(graph, g);
  const auto r = gs::PerformDijkstrasAlgorithm(graph, start);
  CheckResult(r, g, d, start);
  // The same graph split between a base and an overlay.
  const size_t split = static_cast<size_t>(src.Choose(g.edges.size()));
  G base;
  Digraph first = g;
  first.edges.resize(split);
  Fill(base, first);
  Overlay overlay(base);
  for (size_t i = split; i < g.edges.size(); i++) { overlay.AddEdgeBetweenNodes(g.edges[i].from, g.edges[i].to, g.edges[i].weight); }
  CheckResult(gs::PerformDijkstrasAlgorithm(overlay, start), g, d, start);
  CheckResult(gs::PerformDijkstrasAlgorithm(base, start), first, AllPairs(first), start);
  // Serialization.
  std::vector<uint8_t> buffer(static_cast<size_t>(src.Choose(5)), 0x5a);
  const size_t offset = buffer.size();
  const uint64_t written = gs::DijkstrasResult::Serialize(r, buffer);
  PBT_CHECK("serialize", written == buffer.size() - offset, "");
  buffer.push_back(1);
  const auto back = gs::DijkstrasResult::Deserialize(buffer, offset);
  PBT_CHECK("serialize", back.BytesRead() == written && back.Value().Size() == r.Size(), "");
  // Onto a result that holds something else.
  gs::DijkstrasResult onto = gs::PerformDijkstrasAlgorithm(base, start);
  PBT_CHECK("serialize", onto.DeserializeSelf(buffer, offset) == written, "");
  CheckResult(onto, g, d, start);
  for (int64_t i = 0; i < g.n; i++)
  {
    PBT_CHECK("serialize", back.Value().GetNodeDistance(i) == r.GetNodeDistance(i) && back.Value().GetPreviousIndex(i) == r.GetPreviousIndex(i), "node ", i);
  }
}

PROP(large_graphs, "half of the nodes reach the start", 600, 20000)
{
  // Long chains with shortcuts, wide fans: the queue holds many stale entries.
  Digraph g = GenDigraph(src, 20, 90, true, false);
  Scale(g, GenScale(src));
  const int64_t start = src.Int(0, g.n - 1);
  const Matrix d = AllPairs(g);
  int64_t reach = 0;
  for (int64_t i = 0; i < g.n; i++) { reach += !std::isinf(d[static_cast<size_t>(i)][static_cast<size_t>(start)]); }
  ctx.Nontrivial(reach * 2 >= g.n);
  G graph;
  Fill(graph, g);
  CheckResult(gs::PerformDijkstrasAlgorithm(graph, start), g, d, start);
}

// Weights that are not integers: sums may differ in the last bits.
PROP(real_weights, "two or more nodes other than the start reach it", 60000, 2000000)
{
  Digraph g = GenDigraph(src, 1, 12, true, false);
  for (auto& e : g.edges)
  {
    if (!std::isinf(e.weight)) { e.weight = src.Unit() * std::pow(10.0, static_cast<double>(src.Bool() ? src.Int(-3, 6) : src.Int(-20, 20))); }
  }
  const int64_t start = src.Int(0, g.n - 1);
  const Matrix d = AllPairs(g);
  G graph;
  Fill(graph, g);
  const auto r = gs::PerformDijkstrasAlgorithm(graph, start);
  size_t reach = 0;
  for (int64_t i = 0; i < g.n; i++)
  {
    const double want = d[static_cast<size_t>(i)][static_cast<size_t>(start)];
    const double got = r.GetNodeDistance(i);
    reach += i != start && !std::isinf(want);
    PBT_CHECK("distance", got == want || std::abs(got - want) <= 1e-12 * want, "node ", i, ": ", got, " instead of ", want);
    if (i != start && !std::isinf(want))
    {
      const int64_t next = r.GetPreviousIndex(i);
      PBT_CHECK("predecessor", next >= 0 && next < g.n && std::abs(Direct(g, i, next) + r.GetNodeDistance(next) - got) <= 1e-12 * got, "node ", i);
    }
  }
  ctx.Nontrivial(reach >= 2);
}

PROP(start_outside_the_graph, "always", 3000, 50000)
{
  Digraph g = GenDigraph(src, 0, 6, true, false);
  G graph;
  Fill(graph, g);
  const int64_t bads[] = {-1, g.n, g.n + 1, std::numeric_limits<int64_t>::min(), std::numeric_limits<int64_t>::max()};
  ctx.Nontrivial();
  const int64_t bad = bads[src.Choose(4)];
  PBT_CHECK("start-range", pbt::Throws([&] { (void)gs::PerformDijkstrasAlgorithm(graph, bad); }), "start ", bad, " accepted");
}

// A result made of lists of different lengths is refused, however it is made.
PROP(mismatched_results_refused, "the lengths differ", 5000, 100000)
{
  const size_t a = src.Size(0, 5);
  const size_t b = src.Bool() ? a : src.Size(0, 5);
  const std::vector<int64_t> previous(a, 0);
  const std::vector<double> distances(b, 1.0);
  ctx.Nontrivial(a != b);
  PBT_CHECK("mismatch", pbt::Throws([&] { gs::DijkstrasResult r(previous, distances); }) == (a != b), a, " and ", b);
  std::vector<uint8_t> buffer;
  namespace ser = common_robotics_utilities::serialization;
  ser::SerializeMemcpyableVectorLike<int64_t>(previous, buffer);
  ser::SerializeMemcpyableVectorLike<double>(distances, buffer);
  PBT_CHECK("mismatch", pbt::Throws([&] { (void)gs::DijkstrasResult::Deserialize(buffer, 0); }) == (a != b), a, " and ", b);
}

// Tens of thousands of nodes.
PROP(huge_graphs, "half of the nodes reach the start", 1500, 40000)
{
  const Wide w = GenWide(src, ctx);
  const int64_t start = src.Int(0, w.n - 1);
  ctx << "start " << start;
  G graph;
  FillWide(graph, w);
  const auto r = gs::PerformDijkstrasAlgorithm(graph, start);
  const std::vector<double> want = w.From({{start, 0.0}}, true);
  PBT_CHECK("size", r.Size() == w.n, r.Size());
  int64_t reach = 0;
  for (int64_t i = 0; i < w.n; i++)
  {
    const double d = want[static_cast<size_t>(i)];
    PBT_CHECK("distance", r.GetNodeDistance(i) == d, "node ", i, ": ", r.GetNodeDistance(i), " instead of ", d);
    if (std::isinf(d)) { continue; }
    reach++;
    if (i == start) { continue; }
    const int64_t next = r.GetPreviousIndex(i);
    PBT_CHECK("predecessor", next >= 0 && next < w.n && w.Weight(i, next) + want[static_cast<size_t>(next)] == d, "node ", i, " has predecessor ", next);
  }
  ctx.Nontrivial(reach * 2 >= w.n);
}
