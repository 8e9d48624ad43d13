// C11 Graphs
// PBT-SOURCES: serialization.cpp
// PBT-VARIANTS: plain asan tsan
// PBT-WORKERS: 4
#include "pbt.hpp"

#include <random>

#include <common_robotics_utilities/simple_graph.hpp>

namespace sg = common_robotics_utilities::simple_graph;
namespace par = common_robotics_utilities::parallelism;
namespace ser = common_robotics_utilities::serialization;

namespace
{
// Every edge record as the node keeps it.
struct EdgeModel
{
  int64_t from = 0;
  int64_t to = 0;
  double weight = 0.0;
  uint64_t scratchpad = 0;
};

template<typename V>
struct NodeModel
{
  V value;
  std::vector<EdgeModel> in;
  std::vector<EdgeModel> out;
};

template<typename V>
using Model = std::vector<NodeModel<V>>;

template<typename V>
struct Traits;

template<>
struct Traits<std::string>
{
  static std::string Make(const uint64_t z) { return std::string(z % 40, 'a') + std::to_string(z); }
  static ser::Serializer<std::string> Ser() { return [](const std::string& s, std::vector<uint8_t>& b) { return ser::SerializeString<char>(s, b); }; }
  static ser::Deserializer<std::string> Deser() { return [](const std::vector<uint8_t>& b, const uint64_t o) { return ser::DeserializeString<char>(b, o); }; }
};

template<>
struct Traits<Eigen::Vector4d>
{
  static Eigen::Vector4d Make(const uint64_t z) { return Eigen::Vector4d(static_cast<double>(z % 1000), 1.0, -0.5, static_cast<double>(z)); }
  static ser::Serializer<Eigen::Vector4d> Ser() { return [](const Eigen::Vector4d& s, std::vector<uint8_t>& b) { return ser::SerializeVector4d(s, b); }; }
  static ser::Deserializer<Eigen::Vector4d> Deser() { return [](const std::vector<uint8_t>& b, const uint64_t o) { return ser::DeserializeVector4d(b, o); }; }
};

template<>
struct Traits<int64_t>
{
  static int64_t Make(const uint64_t z) { return static_cast<int64_t>(z); }
  static ser::Serializer<int64_t> Ser() { return ser::SerializeMemcpyable<int64_t>; }
  static ser::Deserializer<int64_t> Deser() { return ser::DeserializeMemcpyable<int64_t>; }
};

bool SameWeight(const double a, const double b) { return std::memcmp(&a, &b, sizeof(double)) == 0; }

void CheckEdges(const std::vector<sg::GraphEdge>& got, const std::vector<EdgeModel>& want, const int64_t node, const char* which)
{
  PBT_CHECK("edges", got.size() == want.size(), "node ", node, " has ", got.size(), " ", which, " edges instead of ", want.size());
  for (size_t i = 0; i < got.size(); i++)
  {
    const auto& g = got[i];
    const auto& w = want[i];
    PBT_CHECK("edges", g.GetFromIndex() == w.from && g.GetToIndex() == w.to && SameWeight(g.GetWeight(), w.weight) && g.GetScratchpad() == w.scratchpad,
              "node ", node, " ", which, " edge ", i, " is ", g.Print(), "/", g.GetScratchpad(), " instead of ", w.from, "->", w.to, " ", w.weight, "/", w.scratchpad);
  }
}

template<typename V>
bool LinkageOf(const Model<V>& m)
{
  const int64_t n = static_cast<int64_t>(m.size());
  const auto ok = [&](const int64_t i) { return i >= 0 && i < n; };
  for (int64_t i = 0; i < n; i++)
  {
    for (const auto& e : m[static_cast<size_t>(i)].in)
    {
      if (!ok(e.from) || e.to != i || e.from == e.to) { return false; }
      const auto& other = m[static_cast<size_t>(e.from)].out;
      if (std::none_of(other.begin(), other.end(), [&](const EdgeModel& o) { return o.to == i; })) { return false; }
    }
    for (const auto& e : m[static_cast<size_t>(i)].out)
    {
      if (!ok(e.to) || e.from != i || e.from == e.to) { return false; }
      const auto& other = m[static_cast<size_t>(e.to)].in;
      if (std::none_of(other.begin(), other.end(), [&](const EdgeModel& o) { return o.from == i; })) { return false; }
    }
  }
  return true;
}

template<typename V, typename G>
void CheckSame(const G& g, const Model<V>& m, const bool linkage = true)
{
  const int64_t n = static_cast<int64_t>(m.size());
  PBT_CHECK("size", g.Size() == n, g.Size(), " instead of ", n);
  for (int64_t i = 0; i < n; i++)
  {
    const auto& node = g.GetNodeImmutable(i);
    PBT_CHECK("value", node.GetValueImmutable() == m[static_cast<size_t>(i)].value, "node ", i);
    CheckEdges(node.GetInEdgesImmutable(), m[static_cast<size_t>(i)].in, i, "in");
    CheckEdges(node.GetOutEdgesImmutable(), m[static_cast<size_t>(i)].out, i, "out");
    PBT_CHECK("range", g.IndexInRange(i), i);
  }
  for (const int64_t bad : {int64_t(-1), n, n + 1, std::numeric_limits<int64_t>::min(), std::numeric_limits<int64_t>::max()})
  {
    PBT_CHECK("range", !g.IndexInRange(bad), bad);
    PBT_CHECK("range", pbt::Throws([&] { (void)g.GetNodeImmutable(bad); }), "node ", bad, " of ", n, " returned");
  }
  if (!linkage) { return; }
  PBT_CHECK("linkage", g.CheckGraphLinkage() == LinkageOf(m), "CheckGraphLinkage gives ", g.CheckGraphLinkage());
}

double GenWeight(pbt::Src& src)
{
  switch (src.Weighted({4, 4, 4, 4, 1}))
  {
    case 4: return std::numeric_limits<double>::quiet_NaN();
    case 0: return static_cast<double>(src.Int(0, 10));
    case 1: return std::numeric_limits<double>::infinity();
    case 2: return src.AnyReal(100.0);
    default: return -0.0;
  }
}

template<typename V>
void ModelEdge(Model<V>& m, const int64_t a, const int64_t b, const double w)
{
  m[static_cast<size_t>(a)].out.push_back(EdgeModel{a, b, w, 0});
  m[static_cast<size_t>(b)].in.push_back(EdgeModel{a, b, w, 0});
}

// One operation applied to graph (or overlay) and model.
template<typename V, typename G>
void Operate(pbt::Src& src, pbt::Ctx& ctx, G& g, Model<V>& m, uint64_t& z)
{
  const int64_t n = static_cast<int64_t>(m.size());
  z = pbt::Mix(z);
  const auto any = [&] { return src.Int(0, n - 1); };
  switch (n == 0 ? 0 : src.Weighted({4, 8, 6, 2, 2, 2, 1}))
  {
    case 0:
    {
      const V v = Traits<V>::Make(z % 100000);
      ctx << "node ";
      const int64_t at = src.Bool() ? g.AddNode(v) : g.AddNode(sg::GraphNode<V>(v));
      PBT_CHECK("add-node", at == n, at, " instead of ", n);
      m.push_back(NodeModel<V>{v, {}, {}});
      break;
    }
    case 1:
    case 2:
    {
      const bool both = src.Bool(1, 3);
      const int64_t a = any();
      const int64_t b = any();
      const double w = GenWeight(src);
      ctx << (both ? "edges" : "edge") << "(" << a << "," << b << "," << w << ") ";
      const auto add = [&] { if (both) { g.AddEdgesBetweenNodes(a, b, w); } else { g.AddEdgeBetweenNodes(a, b, w); } };
      if (a == b) { PBT_CHECK("self-edge", pbt::Throws(add), "self edge accepted at ", a); break; }
      add();
      ModelEdge(m, a, b, w);
      if (both) { ModelEdge(m, b, a, w); }
      break;
    }
    case 3:
    {
      const std::vector<int64_t> bads {-1, n, n + 1, -n, std::numeric_limits<int64_t>::max(), std::numeric_limits<int64_t>::min()};
      int64_t a = src.Pick(bads);
      int64_t b = any();
      if (a >= 0 && a < n) { a = n; }
      if (src.Bool(1, 4)) { b = src.Bool() ? a : -1; }
      if (src.Bool()) { std::swap(a, b); }
      ctx << "bad(" << a << "," << b << ") ";
      PBT_CHECK("bad-edge", pbt::Throws([&] { g.AddEdgeBetweenNodes(a, b, 1.0); }), "edge ", a, "->", b, " accepted, size ", n);
      PBT_CHECK("bad-edge", pbt::Throws([&] { g.AddEdgesBetweenNodes(a, b, 1.0); }), "edges ", a, "<->", b, " accepted, size ", n);
      break;
    }
    case 4:
    {
      const int64_t a = any();
      const V v = Traits<V>::Make(z % 1000);
      g.GetNodeMutable(a).GetValueMutable() = v;
      m[static_cast<size_t>(a)].value = v;
      ctx << "value(" << a << ") ";
      break;
    }
    case 5:
    {
      // Change weight and scratchpad of one record.
      const int64_t a = any();
      auto& node = g.GetNodeMutable(a);
      const bool in = src.Bool();
      auto& edges = in ? node.GetInEdgesMutable() : node.GetOutEdgesMutable();
      auto& model = in ? m[static_cast<size_t>(a)].in : m[static_cast<size_t>(a)].out;
      if (edges.empty() || edges.size() != model.size()) { break; }
      const size_t i = static_cast<size_t>(src.Choose(edges.size() - 1));
      const double w = GenWeight(src);
      edges[i].SetWeight(w);
      edges[i].SetScratchpad(z);
      model[i].weight = w;
      model[i].scratchpad = z;
      ctx << "reweigh(" << a << ") ";
      break;
    }
    default:
    {
      // Remove all edges between two nodes, through the nodes.
      const int64_t a = any();
      const int64_t b = any();
      for (const auto& pair : {std::make_pair(a, b), std::make_pair(b, a)})
      {
        auto in = g.GetNodeImmutable(pair.first).GetInEdgesImmutable();
        auto out = g.GetNodeImmutable(pair.first).GetOutEdgesImmutable();
        in.erase(std::remove_if(in.begin(), in.end(), [&](const auto& e) { return e.GetFromIndex() == pair.second; }), in.end());
        out.erase(std::remove_if(out.begin(), out.end(), [&](const auto& e) { return e.GetToIndex() == pair.second; }), out.end());
        g.GetNodeMutable(pair.first).SetInEdges(in);
        g.GetNodeMutable(pair.first).SetOutEdges(out);
        auto& min = m[static_cast<size_t>(pair.first)].in;
        auto& mout = m[static_cast<size_t>(pair.first)].out;
        min.erase(std::remove_if(min.begin(), min.end(), [&](const auto& e) { return e.from == pair.second; }), min.end());
        mout.erase(std::remove_if(mout.begin(), mout.end(), [&](const auto& e) { return e.to == pair.second; }), mout.end());
      }
      ctx << "disconnect(" << a << "," << b << ") ";
      break;
    }
  }
}

template<typename V>
Model<V> PruneModel(const Model<V>& m, const std::unordered_set<int64_t>& gone)
{
  std::vector<int64_t> renumbered(m.size(), -1);
  int64_t next = 0;
  for (size_t i = 0; i < m.size(); i++)
  {
    if (gone.count(static_cast<int64_t>(i)) == 0) { renumbered[i] = next++; }
  }
  Model<V> out;
  for (size_t i = 0; i < m.size(); i++)
  {
    if (renumbered[i] < 0) { continue; }
    NodeModel<V> node{m[i].value, {}, {}};
    for (auto e : m[i].in)
    {
      if (gone.count(e.from)) { continue; }
      e.from = renumbered[static_cast<size_t>(e.from)];
      e.to = renumbered[static_cast<size_t>(e.to)];
      node.in.push_back(e);
    }
    for (auto e : m[i].out)
    {
      if (gone.count(e.to)) { continue; }
      e.from = renumbered[static_cast<size_t>(e.from)];
      e.to = renumbered[static_cast<size_t>(e.to)];
      node.out.push_back(e);
    }
    out.push_back(node);
  }
  return out;
}

std::unordered_set<int64_t> GenPrune(pbt::Src& src, const size_t n)
{
  std::unordered_set<int64_t> gone;
  const uint64_t style = src.Choose(4);
  for (size_t i = 0; i < n; i++)
  {
    const bool drop = style == 0 ? src.Bool(1, 8) : style == 1 ? src.Bool() : style == 2 ? src.Bool(7, 8) : style == 3 ? (i < n / 2) : true;
    if (drop) { gone.insert(static_cast<int64_t>(i)); }
  }
  // Nodes that do not exist can be asked for, too; there is nothing to remove.
  if (src.Bool(1, 3))
  {
    for (size_t k = src.Size(1, 6); k > 0; k--)
    {
      const int64_t past = static_cast<int64_t>(n) + src.Int(0, 3);
      gone.insert(src.Bool() ? past : src.Bool() ? -1 - src.Int(0, 3) : static_cast<int64_t>(src.AnyU64() | (1ull << 62)));
    }
  }
  return gone;
}

template<typename V>
void History(pbt::Src& src, pbt::Ctx& ctx)
{
  using G = sg::Graph<V>;
  using Overlay = sg::NonOwningGraphOverlay<V, G>;
  using Second = sg::NonOwningGraphOverlay<V, Overlay>;
  G g = src.Bool() ? G() : G(src.Int(0, 20));
  Model<V> m;
  uint64_t z = src.Choose(1u << 20);
  const size_t start = src.Size(0, 8);
  for (size_t i = 0; i < start; i++)
  {
    z = pbt::Mix(z);
    g.AddNode(Traits<V>::Make(z % 1000));
    m.push_back(NodeModel<V>{Traits<V>::Make(z % 1000), {}, {}});
  }
  G past;
  size_t prunes = 0;
  size_t others = 0;
  for (size_t step = 0; src.More(step, 0, 60, 25); step++)
  {
    const uint64_t what = src.Choose(15);
    if (what < 11)
    {
      Operate<V>(src, ctx, g, m, z);
    }
    else if (what == 11)
    {
      const auto gone = GenPrune(src, m.size());
      ctx << "prune[" << gone.size() << "/" << m.size() << "] ";
      const auto degree = par::DegreeOfParallelism(static_cast<int32_t>(src.Int(1, 6)));
      const G pruned = src.Bool() ? g.MakePrunedCopy(gone, degree) : sg::PruneGraph<G>(g, gone, degree);
      const Model<V> want = PruneModel(m, gone);
      CheckSame<V>(pruned, want);
      CheckSame<V>(g, m);
      if (!gone.empty() && !want.empty()) { prunes++; }
      if (src.Bool()) { g = pruned; m = want; }
    }
    else if (what == 12)
    {
      std::vector<uint8_t> buffer(static_cast<size_t>(src.Choose(3)), 0xab);
      const size_t offset = buffer.size();
      const uint64_t written = G::Serialize(g, buffer, Traits<V>::Ser());
      PBT_CHECK("serialize", written == buffer.size() - offset, written);
      buffer.resize(buffer.size() + static_cast<size_t>(src.Choose(2)), 0xcd);
      const auto back = G::Deserialize(buffer, offset, Traits<V>::Deser());
      PBT_CHECK("serialize", back.BytesRead() == written, back.BytesRead(), " instead of ", written);
      CheckSame<V>(back.Value(), m);
      // Onto a graph with other contents, more or fewer.
      G onto = past;
      for (size_t k = src.Size(0, 10); k > 0; k--)
      {
        onto.AddNode(Traits<V>::Make(k));
        if (onto.Size() > 1) { onto.AddEdgeBetweenNodes(onto.Size() - 2, onto.Size() - 1, 3.0); }
      }
      PBT_CHECK("deserialize-onto", onto.DeserializeSelf(buffer, offset, Traits<V>::Deser()) == written, "");
      CheckSame<V>(onto, m);
      past = g;
      if (src.Bool()) { g = src.Bool() ? back.Value() : onto; }
      ctx << "serialize ";
    }
    else if (what == 13)
    {
      G copy(g);
      Model<V> model = m;
      Operate<V>(src, ctx, copy, model, z);
      Operate<V>(src, ctx, copy, model, z);
      CheckSame<V>(copy, model);
      CheckSame<V>(g, m);
      if (src.Bool()) { G rebuilt(g.GetNodesImmutable()); CheckSame<V>(rebuilt, m); g = std::move(rebuilt); }
      g.ShrinkToFit();
      ctx << "copy ";
    }
    else
    {
      // An overlay over the graph, changed, then another over that.
      ctx << "overlay{";
      const G before = g;
      Overlay overlay = src.Bool() ? Overlay(g) : Overlay(&g);
      Model<V> model = m;
      CheckSame<V>(overlay, model);
      const size_t ops = src.Size(0, 8);
      for (size_t i = 0; i < ops; i++)
      {
        Operate<V>(src, ctx, overlay, model, z);
        CheckSame<V>(overlay, model);
      }
      CheckSame<V>(g, m);
      const Model<V> mid = model;
      Second second(overlay);
      Model<V> top = mid;
      Overlay duplicate(overlay);
      for (size_t i = 0; i < ops; i++) { Operate<V>(src, ctx, second, top, z); }
      Model<V> dup = mid;
      Operate<V>(src, ctx, duplicate, dup, z);
      CheckSame<V>(second, top);
      CheckSame<V>(duplicate, dup);
      CheckSame<V>(overlay, mid);
      CheckSame<V>(g, m);
      const auto gone = GenPrune(src, top.size());
      const auto pruned = sg::PruneGraph<Second, G>(second, gone, par::DegreeOfParallelism(static_cast<int32_t>(src.Int(1, 4))));
      CheckSame<V>(pruned, PruneModel(top, gone));
      const auto shared = std::make_shared<const G>(g);
      sg::OwningGraphOverlay<V, G> owning(shared);
      Model<V> own = m;
      Operate<V>(src, ctx, owning, own, z);
      Operate<V>(src, ctx, owning, own, z);
      CheckSame<V>(owning, own);
      CheckSame<V>(*shared, m);
      others += (ops > 0);
      ctx << "} ";
    }
    CheckSame<V>(g, m);
    if (!m.empty())
    {
      const int64_t size = g.Size();
      const int64_t some = src.Int(0, size);
      sg::GraphKNNAdapter<G> adapter(g, some);
      PBT_CHECK("adapter", adapter.size() == static_cast<size_t>(some), "");
      if (some > 0) { PBT_CHECK("adapter", &adapter[static_cast<size_t>(some - 1)] == &g.GetNodeImmutable(some - 1), ""); }
      PBT_CHECK("adapter", sg::GraphKNNAdapter<G>(g).size() == static_cast<size_t>(size), "");
      PBT_CHECK("adapter", pbt::Throws([&] { sg::GraphKNNAdapter<G>(g, size + 1); }), "");
      PBT_CHECK("adapter", pbt::Throws([&] { sg::GraphKNNAdapter<G>(g, -1); }), "");
    }
  }
  size_t edges = 0;
  for (const auto& node : m) { edges += node.out.size(); }
  ctx.Nontrivial(edges >= 2 || prunes > 0 || others > 0);
  if (prunes > 0) { ctx.Label("pruned with nodes left"); }
  if (others > 0) { ctx.Label("changed overlay"); }
}
}  // namespace

PROP(history_string, "two edges at the end, a partial prune, or a changed overlay", 40000, 1500000)
{
  History<std::string>(src, ctx);
}

PROP(history_vector4d, "two edges at the end, a partial prune, or a changed overlay", 40000, 1500000)
{
  History<Eigen::Vector4d>(src, ctx);
}

// Corruptions of a valid graph, and the consistency check on whatever results.
PROP(linkage_check, "at least one edge", 150000, 6000000)
{
  using V = int64_t;
  using G = sg::Graph<V>;
  const size_t n = src.Size(1, 12);
  Model<V> m;
  for (size_t i = 0; i < n; i++) { m.push_back(NodeModel<V>{static_cast<int64_t>(i), {}, {}}); }
  const size_t edges = src.Size(0, 20);
  for (size_t i = 0; i < edges; i++)
  {
    const int64_t a = src.Int(0, static_cast<int64_t>(n) - 1);
    const int64_t b = src.Int(0, static_cast<int64_t>(n) - 1);
    if (a != b) { ModelEdge(m, a, b, static_cast<double>(src.Int(0, 4))); ctx.Nontrivial(); }
  }
  const size_t damage = src.Size(0, 3);
  for (size_t d = 0; d < damage; d++)
  {
    const int64_t at = src.Int(0, static_cast<int64_t>(n) - 1);
    auto& node = m[static_cast<size_t>(at)];
    const bool in = src.Bool();
    auto& list = in ? node.in : node.out;
    const std::vector<int64_t> odd {-1, static_cast<int64_t>(n), at, 0, std::numeric_limits<int64_t>::min(), std::numeric_limits<int64_t>::max(), src.Int(0, static_cast<int64_t>(n) - 1)};
    const int64_t other = src.Pick(odd);
    switch (src.Choose(7))
    {
      case 0: if (!list.empty()) { list.erase(list.begin() + static_cast<int64_t>(src.Choose(list.size() - 1))); ctx << "drop "; } break;
      case 1: if (!list.empty()) { list[src.Choose(list.size() - 1)].from = other; ctx << "from "; } break;
      case 2: if (!list.empty()) { list[src.Choose(list.size() - 1)].to = other; ctx << "to "; } break;
      case 3: list.push_back(in ? EdgeModel{other, at, 1.0, 0} : EdgeModel{at, other, 1.0, 0}); ctx << "one-sided "; break;
      case 4: node.in.push_back(EdgeModel{at, at, 1.0, 0}); node.out.push_back(EdgeModel{at, at, 1.0, 0}); ctx << "self "; break;
      case 5: if (!list.empty()) { list.push_back(list[src.Choose(list.size() - 1)]); ctx << "double "; } break;
      case 6: m.pop_back(); m.push_back(NodeModel<V>{7, {}, {}}); ctx << "cleared last "; break;
      default: if (!list.empty()) { list[src.Choose(list.size() - 1)].weight += 1.0; ctx << "weight "; } break;
    }
  }
  const bool want = LinkageOf(m);
  ctx.Label(want ? "consistent" : "inconsistent");
  if (damage > 0 && want) { ctx.Label("consistent after damage"); }
  G g;
  typename std::remove_reference<decltype(g.GetNodesMutable())>::type nodes;
  for (const auto& node : m)
  {
    std::vector<sg::GraphEdge> in;
    std::vector<sg::GraphEdge> out;
    for (const auto& e : node.in) { in.emplace_back(e.from, e.to, e.weight, e.scratchpad); }
    for (const auto& e : node.out) { out.emplace_back(e.from, e.to, e.weight, e.scratchpad); }
    nodes.emplace_back(node.value, in, out);
    g.AddNode(nodes.back());
  }
  PBT_CHECK("linkage-check", g.CheckGraphLinkage() == want, "check gives ", !want, " for\n", g.Print());
  PBT_CHECK("linkage-check", sg::CheckGraphLinkage(g) == want, "");
  const sg::NonOwningGraphOverlay<V, G> overlay(g);
  PBT_CHECK("linkage-overlay", overlay.CheckGraphLinkage() == want, "");
  // Half of the nodes in the overlay only.
  G part;
  for (size_t i = 0; i < n / 2; i++) { part.AddNode(nodes[i]); }
  sg::NonOwningGraphOverlay<V, G> rest(part);
  for (size_t i = n / 2; i < n; i++) { rest.AddNode(nodes[i]); }
  PBT_CHECK("linkage-overlay", rest.CheckGraphLinkage() == want, "");
  PBT_CHECK("linkage-constructor", pbt::Throws([&] { G rebuilt(nodes); CheckSame<V>(rebuilt, m); }) == !want, "constructor ", want ? "refused" : "accepted");
  std::vector<uint8_t> buffer;
  G::Serialize(g, buffer, Traits<V>::Ser());
  PBT_CHECK("linkage-deserialize", pbt::Throws([&] { (void)G::Deserialize(buffer, 0, Traits<V>::Deser()); }) == !want, "deserialize ", want ? "refused" : "accepted");
  G kept;
  kept.AddNode(static_cast<int64_t>(99));
  const bool threw = pbt::Throws([&] { (void)kept.DeserializeSelf(buffer, 0, Traits<V>::Deser()); });
  PBT_CHECK("linkage-deserialize", threw == !want && (want || (kept.Size() == 1 && kept.GetNodeImmutable(0).GetValueImmutable() == 99)), "refused data changed the graph");
}

PROP(null_overlay_refused, "always", 10, 10)
{
  (void)src;
  ctx.Nontrivial();
  using G = sg::Graph<int64_t>;
  const G* none = nullptr;
  PBT_CHECK("null", pbt::Throws([&] { (sg::NonOwningGraphOverlay<int64_t, G>(none)); }), "accepted");
  PBT_CHECK("null", pbt::Throws([&] { sg::OwningGraphOverlay<int64_t, G>(std::shared_ptr<const G>()); }), "accepted");
}

PROP(edges_compare_and_serialize, "always", 30000, 1000000)
{
  ctx.Nontrivial();
  const auto index = [&] { return src.Bool() ? src.Int(-2, 2) : static_cast<int64_t>(src.AnyU64()); };
  const double weight = GenWeight(src);
  const sg::GraphEdge a(index(), index(), std::isnan(weight) ? 1.5 : weight, src.AnyU64());
  sg::GraphEdge b = a;
  PBT_CHECK("edge-equal", a == b, a.Print());
  std::vector<uint8_t> buffer;
  const uint64_t written = sg::GraphEdge::Serialize(a, buffer);
  const auto back = sg::GraphEdge::Deserialize(buffer, 0);
  PBT_CHECK("edge-serialize", back.Value() == a && back.BytesRead() == written && written == buffer.size() && SameWeight(back.Value().GetWeight(), a.GetWeight()), a.Print());
  switch (src.Choose(3))
  {
    case 0: b.SetFromIndex(a.GetFromIndex() ^ 1); break;
    case 1: b.SetToIndex(a.GetToIndex() ^ 1); break;
    case 2: b.SetWeight(a.GetWeight() == 3.0 ? 4.0 : 3.0); break;
    default: b.SetScratchpad(a.GetScratchpad() + 1); break;
  }
  PBT_CHECK("edge-equal", !(a == b), a.Print(), " equals ", b.Print());
}

// Graphs too large for indices or counts of few bits, and nodes of very many edges.
PROP(huge_graphs, "at least one node pruned and one kept", 300, 8000)
{
  using V = int64_t;
  using G = sg::Graph<V>;
  using Overlay = sg::NonOwningGraphOverlay<V, G>;
  static const int64_t sizes[] = {260, 1100, 5000, 34000, 70000};
  const int64_t n = sizes[src.Weighted({4, 4, 2, 1, 1})] + src.Int(0, 50);
  std::mt19937_64 random(src.AnyU64());
  const auto any = [&] { return static_cast<int64_t>(random() % static_cast<uint64_t>(n)); };
  G g;
  Model<V> m;
  for (int64_t i = 0; i < n; i++) { g.AddNode(i * 3); m.push_back(NodeModel<V>{i * 3, {}, {}}); }
  const auto add = [&](const int64_t a, const int64_t b)
  {
    if (a == b) { return; }
    const double w = static_cast<double>(random() % 100);
    g.AddEdgeBetweenNodes(a, b, w);
    ModelEdge(m, a, b, w);
  };
  if (src.Bool()) { for (int64_t i = 0; i + 1 < n; i++) { if (random() % 2) { add(i, i + 1); } else { add(i + 1, i); } } }
  for (int64_t i = 0; i < n; i++) { add(any(), any()); }
  if (src.Bool(1, 3))
  {
    const int64_t hub = any();
    const int64_t many = src.Bool() ? n : std::min<int64_t>(n, 300);
    for (int64_t i = 0; i < many; i++) { if (random() % 3 != 0) { add(i, hub); } else { add(hub, i); } }
    ctx.Label(many > 32768 ? "node of over 20000 edges" : "node of many edges");
  }
  ctx << n << " nodes ";
  ctx.Label(std::to_string(n / 1000) + "000 nodes");
  // The check itself compares every pair of edges at a node; the model's own is the same work again.
  CheckSame<V>(g, m, false);
  PBT_CHECK("linkage", g.CheckGraphLinkage(), "of a graph made of edges only");
  std::unordered_set<int64_t> gone;
  const uint64_t style = src.Weighted({4, 4, 1});
  if (style == 0) { for (size_t i = src.Size(0, 300); i > 0; i--) { gone.insert(any()); } }
  if (style == 1) { const int64_t first = any(); for (int64_t i = first; i < std::min(n, first + 2000); i++) { gone.insert(i); } }
  if (style == 2) { const int64_t kept = std::max<int64_t>(n / 4, n - 40000); for (int64_t i = 0; i < n - kept; i++) { gone.insert(i); } }
  ctx.Nontrivial(!gone.empty() && static_cast<int64_t>(gone.size()) < n);
  const auto degree = par::DegreeOfParallelism(static_cast<int32_t>(src.Bool() ? src.Int(1, 8) : src.Int(20, 40)));
  ctx << gone.size() << " pruned by " << degree.GetNumThreads() << " threads ";
  const Model<V> want = PruneModel(m, gone);
  CheckSame<V>(g.MakePrunedCopy(gone, degree), want, false);
  std::vector<uint8_t> buffer(static_cast<size_t>(src.Choose(9)), 0xab);
  const size_t offset = buffer.size();
  const uint64_t written = G::Serialize(g, buffer, Traits<V>::Ser());
  PBT_CHECK("serialize", written == buffer.size() - offset, written);
  const auto back = G::Deserialize(buffer, offset, Traits<V>::Deser());
  PBT_CHECK("serialize", back.BytesRead() == written, back.BytesRead(), " instead of ", written);
  CheckSame<V>(back.Value(), m, false);
  Overlay overlay(g);
  Model<V> model = m;
  for (size_t i = src.Size(1, 40); i > 0; i--)
  {
    const int64_t a = src.Bool() ? any() : static_cast<int64_t>(model.size()) - 1;
    const int64_t b = src.Bool() ? any() : 0;
    if (src.Bool(1, 4)) { PBT_CHECK("add-node", overlay.AddNode(int64_t(5)) == static_cast<int64_t>(model.size()), model.size()); model.push_back(NodeModel<V>{5, {}, {}}); }
    if (a != b) { overlay.AddEdgeBetweenNodes(a, b, 7.0); ModelEdge(model, a, b, 7.0); }
  }
  CheckSame<V>(overlay, model, false);
  CheckSame<V>(sg::PruneGraph<Overlay, G>(overlay, gone, degree), PruneModel(model, gone), false);
  CheckSame<V>(g, m, false);
  // One record damaged, anywhere.
  const int64_t at = any();
  auto& node = g.GetNodeMutable(at);
  auto& list = (node.GetOutEdgesImmutable().empty() || src.Bool()) ? node.GetInEdgesMutable() : node.GetOutEdgesMutable();
  if (!list.empty())
  {
    auto& edge = list[random() % list.size()];
    const bool in = &list == &node.GetInEdgesMutable();
    switch (src.Choose(2))
    {
      case 0: if (in) { edge.SetFromIndex(n); } else { edge.SetToIndex(n); } break;
      case 1: if (in) { edge.SetToIndex(at == 0 ? 1 : 0); } else { edge.SetFromIndex(at == 0 ? 1 : 0); } break;
      default: if (in) { edge.SetFromIndex(at); } else { edge.SetToIndex(at); } break;
    }
    PBT_CHECK("linkage", !g.CheckGraphLinkage(), "edge damaged at node ", at, ": ", edge.Print());
  }
}
