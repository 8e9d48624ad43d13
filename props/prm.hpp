// Roadmap worlds and an independent roadmap model (C14, C15).
#pragma once

#include "pbt.hpp"
#include "digraphs.hpp"

#include <common_robotics_utilities/simple_prm_planner.hpp>

namespace prmw
{
namespace prm = common_robotics_utilities::simple_prm_planner;
namespace nn = common_robotics_utilities::simple_knearest_neighbors;
namespace sg = common_robotics_utilities::simple_graph;
namespace par = common_robotics_utilities::parallelism;
using digraphs::kInf;

struct P
{
  double x = 0.0;
  double y = 0.0;
  bool operator==(const P& o) const { return x == o.x && y == o.y; }
};

using Roadmap = sg::Graph<P>;
using RoadmapOverlay = sg::NonOwningGraphOverlay<P, Roadmap>;
using Path = std::vector<P>;

// Distances are dyadic numbers, so sums are exact; they obey the triangle
// inequality and, unless symmetric, cost more going right or up.
struct World
{
  bool symmetric = true;
  bool lattice = false;  // coarse coordinates: duplicates and ties
  bool close = false;    // with lattice: states very close to each other, too
  double scale = 1.0;    // of all coordinates, a power of two
  double right = 0.0;
  double up = 0.0;
  uint64_t salt = 0;
  uint64_t blocked = 0;      // of 16 edges
  uint64_t bad_states = 0;   // of 16 states

  double Distance(const P& a, const P& b) const
  {
    const double dx = b.x - a.x;
    const double dy = b.y - a.y;
    return std::abs(dx) + std::abs(dy) + right * std::max(0.0, dx) + up * std::max(0.0, dy);
  }

  uint64_t Id(const P& p) const
  {
    const double fine = 1073741824.0 / scale;
    return pbt::Mix(static_cast<uint64_t>(static_cast<int64_t>(p.x * fine)) * 1000003u + static_cast<uint64_t>(static_cast<int64_t>(p.y * fine)));
  }

  bool Valid(const P& p) const { return (pbt::Mix(Id(p) ^ salt) >> 20) % 16 >= bad_states; }

  bool Edge(const P& a, const P& b) const
  {
    const uint64_t i = Id(a);
    const uint64_t j = Id(b);
    const uint64_t key = symmetric ? (i ^ j) + (i & j) : i * 3 + j;
    return (pbt::Mix(key ^ (salt * 7)) >> 24) % 16 >= blocked;
  }

  P Sample(uint64_t z) const
  {
    z = pbt::Mix(z);
    const uint64_t range = lattice ? 4 : 64 * 1024;
    const double unit = lattice ? 1.0 : 1.0 / 1024.0;
    const double step = 1.0 / 1073741824.0;
    const double dx = close ? static_cast<double>((z >> 24) % 3) * step : 0.0;
    const double dy = close ? static_cast<double>((z >> 27) % 2) * step : 0.0;
    return P{(static_cast<double>(z % range) * unit + dx) * scale, (static_cast<double>((z >> 32) % range) * unit + dy) * scale};
  }
};

inline World GenWorld(pbt::Src& src, pbt::Ctx& ctx)
{
  World w;
  w.symmetric = src.Bool();
  w.lattice = src.Bool(1, 3);
  w.close = w.lattice && src.Bool();
  w.scale = src.Bool(1, 3) ? std::ldexp(1.0, static_cast<int>(src.Int(-40, 20))) : 1.0;
  if (!w.symmetric)
  {
    w.right = static_cast<double>(src.Choose(4)) / 2.0;
    w.up = static_cast<double>(src.Choose(3)) / 4.0;
  }
  w.salt = src.Choose(1u << 16);
  w.blocked = src.Bool(1, 4) ? 0 : src.Choose(10);
  w.bad_states = src.Bool() ? 0 : src.Choose(6);
  ctx << (w.symmetric ? "symmetric" : "asymmetric") << (w.lattice ? " lattice" : "") << (w.close ? " close" : "") << " scale " << w.scale << " right " << w.right << " up " << w.up << " blocked " << w.blocked << "/16 ";
  return w;
}

struct Link
{
  int64_t from = 0;
  int64_t to = 0;
  double weight = 0.0;
  bool operator<(const Link& o) const { return std::tie(from, to, weight) < std::tie(o.from, o.to, o.weight); }
  bool operator==(const Link& o) const { return from == o.from && to == o.to && (weight == o.weight); }
};

// What the roadmap should contain. Ambiguous once a tie decided who is a neighbour.
struct Model
{
  std::vector<P> nodes;
  std::vector<Link> links;
  bool ambiguous = false;

  std::vector<int64_t> Nearest(const std::function<double(const P&)>& distance, const int64_t k, const int64_t limit)
  {
    std::vector<std::pair<double, int64_t>> all;
    for (int64_t i = 0; i < limit; i++) { all.push_back({distance(nodes[static_cast<size_t>(i)]), i}); }
    std::sort(all.begin(), all.end());
    const size_t n = std::min(all.size(), static_cast<size_t>(k));
    if (n > 0 && n < all.size() && all[n - 1].first == all[n].first) { ambiguous = true; }
    std::vector<int64_t> out;
    for (size_t i = 0; i < n; i++) { out.push_back(all[i].second); }
    return out;
  }

  // Adding one state, as documented for AddNodeToRoadmap.
  int64_t Add(const World& w, const P& state, const bool new_to_roadmap, const int64_t k, const int64_t limit, const bool duplicates)
  {
    const auto distance = [&](const P& node) { return new_to_roadmap ? w.Distance(state, node) : w.Distance(node, state); };
    const auto near = Nearest(distance, k, limit);
    if (!duplicates)
    {
      int64_t zero = -1;
      size_t zeros = 0;
      for (const int64_t i : near) { if (distance(nodes[static_cast<size_t>(i)]) == 0.0) { zero = i; zeros++; } }
      if (zeros > 0)
      {
        // Several nodes at distance zero are all the same state: any may be named.
        if (zeros > 1) { ambiguous = true; }
        return zero;
      }
    }
    const int64_t index = static_cast<int64_t>(nodes.size());
    nodes.push_back(state);
    for (const int64_t i : near)
    {
      const P& other = nodes[static_cast<size_t>(i)];
      if (w.Edge(other, state)) { links.push_back(Link{i, index, w.Distance(other, state)}); }
      if (w.Edge(state, other)) { links.push_back(Link{index, i, w.Distance(state, other)}); }
    }
    return index;
  }
};

template<typename G>
std::vector<Link> LinksOf(const G& g)
{
  std::vector<Link> out;
  std::vector<Link> in;
  for (int64_t i = 0; i < g.Size(); i++)
  {
    for (const auto& e : g.GetNodeImmutable(i).GetOutEdgesImmutable())
    {
      PBT_CHECK("edge-node", e.GetFromIndex() == i, "out edge ", e.Print(), " at node ", i);
      out.push_back(Link{e.GetFromIndex(), e.GetToIndex(), e.GetWeight()});
    }
    for (const auto& e : g.GetNodeImmutable(i).GetInEdgesImmutable())
    {
      PBT_CHECK("edge-node", e.GetToIndex() == i, "in edge ", e.Print(), " at node ", i);
      in.push_back(Link{e.GetFromIndex(), e.GetToIndex(), e.GetWeight()});
    }
  }
  std::sort(out.begin(), out.end());
  std::sort(in.begin(), in.end());
  PBT_CHECK("both-ends", in == out, "edges recorded at sources and targets differ: ", out.size(), " and ", in.size());
  return out;
}

inline std::string Text(const std::vector<Link>& links)
{
  std::ostringstream s;
  for (const auto& l : links) { s << l.from << "->" << l.to << "(" << l.weight << ") "; }
  return s.str();
}

// Every edge valid with its weight, whatever the neighbours were.
template<typename G>
void CheckSound(const World& w, const G& g)
{
  PBT_CHECK("linkage", g.CheckGraphLinkage(), "inconsistent roadmap");
  const auto links = LinksOf(g);
  for (const auto& l : links)
  {
    PBT_CHECK("edge", l.from >= 0 && l.from < g.Size() && l.to >= 0 && l.to < g.Size() && l.from != l.to, l.from, "->", l.to);
    const P& a = g.GetNodeImmutable(l.from).GetValueImmutable();
    const P& b = g.GetNodeImmutable(l.to).GetValueImmutable();
    PBT_CHECK("edge-valid", w.Edge(a, b), "edge ", l.from, "->", l.to, " is not accepted by the edge check");
    PBT_CHECK("edge-weight", l.weight == w.Distance(a, b), "edge ", l.from, "->", l.to, " has weight ", l.weight, " instead of ", w.Distance(a, b));
  }
}

template<typename G>
void CheckModel(const World& w, const G& g, const Model& m)
{
  PBT_CHECK("size", g.Size() == static_cast<int64_t>(m.nodes.size()), g.Size(), " nodes instead of ", m.nodes.size());
  for (int64_t i = 0; i < g.Size(); i++)
  {
    PBT_CHECK("node", g.GetNodeImmutable(i).GetValueImmutable() == m.nodes[static_cast<size_t>(i)], "node ", i, " changed");
  }
  CheckSound(w, g);
  if (!m.ambiguous)
  {
    auto want = m.links;
    std::sort(want.begin(), want.end());
    const auto got = LinksOf(g);
    PBT_CHECK("edges", got == want, "edges ", Text(got), " instead of ", Text(want));
  }
}

struct Callbacks
{
  std::function<double(const P&, const P&)> distance;
  std::function<bool(const int32_t, const P&, const P&)> edge;
  std::function<bool(const int32_t, const P&)> state;
};

inline Callbacks MakeCallbacks(const World& w, pbt::Ctx& ctx, const int32_t threads)
{
  Callbacks c;
  c.distance = [&w](const P& a, const P& b) { return w.Distance(a, b); };
  c.edge = [&w, &ctx, threads](const int32_t t, const P& a, const P& b)
  {
    if (t < 0 || t >= threads) { ctx.FailAsync("thread", pbt::Str("edge check called as thread ", t, " of ", threads)); }
    return w.Edge(a, b);
  };
  c.state = [&w, &ctx, threads](const int32_t t, const P& a)
  {
    if (t < 0 || t >= threads) { ctx.FailAsync("thread", pbt::Str("state check called as thread ", t, " of ", threads)); }
    return w.Valid(a);
  };
  return c;
}

template<typename G>
Model ModelOf(const G& g)
{
  Model m;
  for (int64_t i = 0; i < g.Size(); i++) { m.nodes.push_back(g.GetNodeImmutable(i).GetValueImmutable()); }
  m.links = LinksOf(g);
  return m;
}
}  // namespace prmw
