// Small weighted digraphs with an independent shortest-path reference (C12, C13, C15).
#pragma once

#include "pbt.hpp"

#include <random>
#include <set>

#include <common_robotics_utilities/simple_graph.hpp>

namespace digraphs
{
constexpr double kInf = std::numeric_limits<double>::infinity();

struct Edge
{
  int64_t from = 0;
  int64_t to = 0;
  double weight = 0.0;
  bool valid = true;
};

struct Digraph
{
  int64_t n = 0;
  std::vector<Edge> edges;
};

using Matrix = std::vector<std::vector<double>>;

// Integer weights so that sums are exact.
inline double GenWeight(pbt::Src& src, const bool with_inf)
{
  switch (src.Choose(7))
  {
    case 0: return 0.0;
    case 1: return 1.0;
    case 2: return with_inf ? kInf : 2.0;
    case 3: return static_cast<double>(src.Int(0, 1000));
    default: return static_cast<double>(src.Int(0, 12));
  }
}

inline Digraph GenDigraph(pbt::Src& src, const size_t lo, const size_t hi, const bool with_inf, const bool with_invalid)
{
  Digraph g;
  g.n = static_cast<int64_t>(src.Size(lo, hi));
  const size_t n = static_cast<size_t>(g.n);
  const uint64_t shape = src.Weighted({1, 4, 2, 2});
  const auto add = [&](const int64_t a, const int64_t b)
  {
    if (a == b) { return; }
    Edge e{a, b, GenWeight(src, with_inf), true};
    if (with_invalid) { e.valid = !src.Bool(1, 6); }
    g.edges.push_back(e);
  };
  if (n < 2) { return g; }
  const size_t count = shape == 0 ? src.Size(0, n) : shape == 1 ? src.Size(n, 4 * n) : src.Size(0, 2 * n);
  if (shape == 2)
  {
    // A chain with shortcuts: many improvements along the way.
    for (int64_t i = 0; i + 1 < g.n; i++) { add(i, i + 1); }
  }
  if (shape == 3)
  {
    for (int64_t i = 0; i + 1 < g.n; i++)
    {
      add(i, i + 1);
      add(i + 1, i);
    }
  }
  for (size_t i = 0; i < count; i++) { add(src.Int(0, g.n - 1), src.Int(0, g.n - 1)); }
  return g;
}

// All-pairs distances over the usable edges (Floyd-Warshall).
inline Matrix AllPairs(const Digraph& g)
{
  const size_t n = static_cast<size_t>(g.n);
  Matrix d(n, std::vector<double>(n, kInf));
  for (size_t i = 0; i < n; i++) { d[i][i] = 0.0; }
  for (const auto& e : g.edges)
  {
    if (!e.valid) { continue; }
    auto& at = d[static_cast<size_t>(e.from)][static_cast<size_t>(e.to)];
    at = std::min(at, e.weight);
  }
  for (size_t k = 0; k < n; k++)
  {
    for (size_t i = 0; i < n; i++)
    {
      for (size_t j = 0; j < n; j++) { d[i][j] = std::min(d[i][j], d[i][k] + d[k][j]); }
    }
  }
  return d;
}

// Cheapest usable direct edge, infinite when there is none.
inline double Direct(const Digraph& g, const int64_t a, const int64_t b)
{
  double best = kInf;
  for (const auto& e : g.edges)
  {
    if (e.valid && e.from == a && e.to == b) { best = std::min(best, e.weight); }
  }
  return best;
}

template<typename G>
void Fill(G& graph, const Digraph& g)
{
  for (int64_t i = 0; i < g.n; i++) { graph.AddNode(i); }
  for (const auto& e : g.edges)
  {
    graph.AddEdgeBetweenNodes(e.from, e.to, e.weight);
  }
}

// Weights are integers times one power of two, so that sums stay exact at any scale.
inline double GenScale(pbt::Src& src)
{
  return src.Bool(2, 3) ? 1.0 : std::ldexp(1.0, static_cast<int>(src.Int(-80, 80)));
}

inline void Scale(Digraph& g, const double scale)
{
  for (auto& e : g.edges) { e.weight *= scale; }
}

inline std::string Text(const Digraph& g)
{
  std::ostringstream s;
  s << g.n << " nodes:";
  for (const auto& e : g.edges) { s << " " << e.from << "->" << e.to << "(" << e.weight << (e.valid ? "" : "!") << ")"; }
  return s.str();
}
}  // namespace digraphs

// Graphs too large for all pairs: made from one number.
namespace digraphs
{
struct Wide
{
  int64_t n = 0;
  std::vector<std::vector<std::pair<int64_t, double>>> out;  // parallel edges are not made

  double Weight(const int64_t a, const int64_t b) const
  {
    for (const auto& e : out[static_cast<size_t>(a)]) { if (e.first == b) { return e.second; } }
    return kInf;
  }

  // Distances from (or, backwards, to) a set of nodes with costs of their own.
  std::vector<double> From(const std::vector<std::pair<int64_t, double>>& starts, const bool backwards) const
  {
    std::vector<std::vector<std::pair<int64_t, double>>> in(backwards ? out.size() : 0);
    if (backwards) { for (size_t a = 0; a < out.size(); a++) { for (const auto& e : out[a]) { in[static_cast<size_t>(e.first)].push_back({static_cast<int64_t>(a), e.second}); } } }
    const auto& next = backwards ? in : out;
    std::vector<double> d(out.size(), kInf);
    std::set<std::pair<double, int64_t>> open;
    for (const auto& s : starts) { auto& at = d[static_cast<size_t>(s.first)]; if (s.second < at) { at = s.second; } }
    for (const auto& s : starts) { open.insert({d[static_cast<size_t>(s.first)], s.first}); }
    while (!open.empty())
    {
      const auto top = *open.begin();
      open.erase(open.begin());
      for (const auto& e : next[static_cast<size_t>(top.second)])
      {
        auto& at = d[static_cast<size_t>(e.first)];
        if (top.first + e.second < at) { open.erase({at, e.first}); at = top.first + e.second; open.insert({at, e.first}); }
      }
    }
    return d;
  }
};

inline Wide GenWide(pbt::Src& src, pbt::Ctx& ctx)
{
  Wide w;
  static const int64_t sizes[] = {300, 1100, 5000, 40000, 70000};
  w.n = sizes[src.Weighted({4, 3, 2, 1, 1})] + src.Int(0, 50);
  const uint64_t shape = src.Choose(2);
  std::mt19937_64 random(src.AnyU64());
  w.out.resize(static_cast<size_t>(w.n));
  const auto weight = [&] { return static_cast<double>(random() % (random() % 4 == 0 ? 1000 : 10)); };
  const auto add = [&] (const int64_t a, const int64_t b) { if (a != b && std::isinf(w.Weight(a, b))) { w.out[static_cast<size_t>(a)].push_back({b, weight()}); } };
  const auto any = [&] { return static_cast<int64_t>(random() % static_cast<uint64_t>(w.n)); };
  if (shape == 0) { for (int64_t i = 0; i + 1 < w.n; i++) { add(i, i + 1); add(i + 1, i); } }  // long ways
  if (shape == 1) { for (int64_t i = 1; i < w.n; i++) { const int64_t hub = static_cast<int64_t>(random() % 3); add(i, hub); if (i % 7 == 0) { add(hub, i); } } }  // nodes of many edges
  const int64_t extra = shape == 0 ? w.n / 100 : shape == 1 ? w.n / 2 : 2 * w.n;
  for (int64_t i = 0; i < extra; i++) { add(any(), any()); }
  ctx << w.n << " nodes, shape " << shape << " ";
  ctx.Label(std::to_string(w.n / 1000) + "000 nodes");
  return w;
}

template<typename G>
void FillWide(G& graph, const Wide& w)
{
  for (int64_t i = 0; i < w.n; i++) { graph.AddNode(i); }
  for (int64_t i = 0; i < w.n; i++) { for (const auto& e : w.out[static_cast<size_t>(i)]) { graph.AddEdgeBetweenNodes(i, e.first, e.second); } }
}
}  // namespace digraphs
