// C17 RRT tree containers, propagation functions and helpers
// PBT-VARIANTS: plain asan
#include "pbt.hpp"
#include "rrt.hpp"

#include <random>
#include <thread>

#include <common_robotics_utilities/simple_robot_model_interface.hpp>

using namespace rrtw;
namespace ser = common_robotics_utilities::serialization;
namespace par = common_robotics_utilities::parallelism;
namespace rmi = common_robotics_utilities::simple_robot_model_interface;
using Tree = rrt::SimpleRRTPlannerTree<S>;
using Node = rrt::SimpleRRTPlannerState<S>;
using Nodes = rrt::SimpleRRTPlannerStateVector<S>;

namespace
{
struct ModelNode
{
  S value;
  int64_t parent = -1;
  std::vector<int64_t> children;
};
using Model = std::vector<ModelNode>;

// Parents come before their children, both ends of every link agree, and
// a negative parent marks a root.
bool Consistent(const Model& m)
{
  const int64_t n = static_cast<int64_t>(m.size());
  for (int64_t i = 0; i < n; i++)
  {
    const ModelNode& node = m[static_cast<size_t>(i)];
    if (node.parent >= i) { return false; }
    if (node.parent >= 0)
    {
      const auto& c = m[static_cast<size_t>(node.parent)].children;
      if (std::count(c.begin(), c.end(), i) == 0) { return false; }
    }
    for (const int64_t c : node.children)
    {
      if (c <= i || c >= n || m[static_cast<size_t>(c)].parent != i) { return false; }
    }
  }
  return true;
}

Nodes ToNodes(const Model& m)
{
  Nodes nodes;
  for (const ModelNode& n : m) { nodes.emplace_back(n.value, n.parent, n.children); }
  return nodes;
}

void CheckNodes(const std::string& what, const Nodes& nodes, const Model& m)
{
  PBT_CHECK("nodes", nodes.size() == m.size(), what, ": ", nodes.size(), " nodes, expected ", m.size());
  for (size_t i = 0; i < m.size(); i++)
  {
    const Node& n = nodes[i];
    PBT_CHECK("nodes", n.GetValueImmutable() == m[i].value, what, ": node ", i, " holds state ", n.GetValueImmutable().id, ", expected ", m[i].value.id);
    PBT_CHECK("nodes", n.GetParentIndex() == m[i].parent, what, ": node ", i, " has parent ", n.GetParentIndex(), ", expected ", m[i].parent);
    PBT_CHECK("nodes", n.GetChildIndices() == m[i].children, what, ": node ", i, " has children ", pbt::Str(n.GetChildIndices()), ", expected ", pbt::Str(m[i].children));
  }
}

void CheckTree(const std::string& what, const Tree& tree, const Model& m)
{
  PBT_CHECK("size", tree.Size() == static_cast<int64_t>(m.size()) && tree.Empty() == m.empty(), what, ": size ", tree.Size(), " instead of ", m.size());
  CheckNodes(what, tree.GetNodesImmutable(), m);
  for (size_t i = 0; i < m.size(); i++)
  {
    PBT_CHECK("node-access", &tree.GetNodeImmutable(static_cast<int64_t>(i)) == &tree.GetNodesImmutable()[i], what, ": node ", i, " is another object");
  }
}

uint64_t WriteState(const S& s, std::vector<uint8_t>& buffer)
{
  const uint64_t before = buffer.size();
  ser::SerializeMemcpyable<int64_t>(s.id, buffer);
  ser::SerializeMemcpyable<int64_t>(s.revision, buffer);
  ser::SerializeString(s.payload, buffer);
  return buffer.size() - before;
}

ser::Deserialized<S> ReadState(const std::vector<uint8_t>& buffer, const uint64_t start)
{
  S s;
  uint64_t at = start;
  const auto id = ser::DeserializeMemcpyable<int64_t>(buffer, at);
  at += id.BytesRead();
  const auto revision = ser::DeserializeMemcpyable<int64_t>(buffer, at);
  at += revision.BytesRead();
  const auto payload = ser::DeserializeString<char>(buffer, at);
  at += payload.BytesRead();
  s.id = id.Value();
  s.revision = revision.Value();
  s.payload = payload.Value();
  return ser::MakeDeserialized(s, at - start);
}

void CheckRoundTrip(const Tree& tree, const Model& m, pbt::Src& src)
{
  std::vector<uint8_t> buffer = src.Blob(src.Choose(9));
  const std::vector<uint8_t> prefix = buffer;
  const uint64_t written = Tree::Serialize(tree, buffer, WriteState);
  PBT_CHECK("serialize", buffer.size() == prefix.size() + written, written, " bytes reported for ", buffer.size() - prefix.size());
  PBT_CHECK("serialize", std::equal(prefix.begin(), prefix.end(), buffer.begin()), "data before the tree changed");
  const size_t tail = src.Choose(9);
  for (size_t i = 0; i < tail; i++) { buffer.push_back(0xA5); }
  if (Consistent(m))
  {
    const auto back = Tree::Deserialize(buffer, prefix.size(), ReadState);
    PBT_CHECK("deserialize", back.BytesRead() == written, back.BytesRead(), " bytes read, ", written, " written");
    CheckTree("deserialized tree", back.Value(), m);
  }
  else
  {
    PBT_CHECK("deserialize-inconsistent", pbt::Throws([&] { Tree::Deserialize(buffer, prefix.size(), ReadState); }), "an inconsistent tree was deserialized");
  }
}

std::string Text(const Model& m)
{
  std::string out;
  for (const ModelNode& n : m) { out += pbt::Str(out.empty() ? "" : ", ", n.parent, n.children); }
  return out;
}

int64_t Wild(pbt::Src& src, const int64_t n)
{
  switch (src.Choose(5))
  {
    case 0: return -1;
    case 1: return n;
    case 2: return src.Bool() ? INT64_MIN : INT64_MAX;
    case 3: return -src.Int(1, 5);
    default: return src.Int(0, n + 2);
  }
}
}  // namespace

PROP(TreeHistory, "at least four nodes were added and one was rejected or the tree was replaced", 30000, 1500000)
{
  World w;
  Tree tree;
  switch (src.Choose(2))
  {
    case 1: tree = Tree(static_cast<int64_t>(src.Choose(20))); break;
    case 2: tree = Tree(Nodes()); break;
    default: break;
  }
  Model m;
  int64_t added = 0, special = 0;
  const size_t steps = src.Size(0, 30);
  for (size_t step = 0; step < steps; step++)
  {
    const int64_t n = static_cast<int64_t>(m.size());
    switch (src.Weighted({2, 8, 2, 1, 1, 1, 1, 1, 1}))
    {
      case 0:
      {
        ModelNode node;
        node.value = w.NewState(src);
        ctx << "root; ";
        PBT_CHECK("add", tree.AddNode(node.value) == n, "AddNode returned another index");
        m.push_back(node);
        added++;
        break;
      }
      case 1:
      {
        if (n == 0) { break; }
        ModelNode node;
        node.parent = src.Int(0, n - 1);
        const bool alias = src.Bool(1, 4);
        node.value = alias ? m[static_cast<size_t>(node.parent)].value : w.NewState(src);
        ctx << "child of " << node.parent << "; ";
        const int64_t index = alias ? tree.AddNodeAndConnect(tree.GetNodeImmutable(node.parent).GetValueImmutable(), node.parent) : tree.AddNodeAndConnect(node.value, node.parent);
        PBT_CHECK("add", index == n, "AddNodeAndConnect returned index ", index, " for node ", n);
        m[static_cast<size_t>(node.parent)].children.push_back(n);
        m.push_back(node);
        added++;
        break;
      }
      case 2:
      {
        const int64_t parent = src.Bool() ? n : src.Bool() ? -src.Int(1, 3) : n + src.Int(1, 5);
        ctx << "child of missing " << parent << "; ";
        PBT_CHECK("add-bad-parent", pbt::Throws([&] { tree.AddNodeAndConnect(w.NewState(src), parent); }), "a node was connected to parent ", parent, " of a tree with ", n, " nodes");
        special++;
        break;
      }
      case 3:
      {
        if (!src.Bool(1, 4)) { break; }
        ctx << "clear; ";
        tree.Clear();
        m.clear();
        break;
      }
      case 4:
      {
        // Replace everything by other nodes, legal or not.
        Model other = m;
        if (src.Bool() && n > 0) { other.resize(static_cast<size_t>(src.Int(0, n))); }
        if (src.Bool() && !other.empty()) { other[src.Choose(other.size() - 1)].parent = Wild(src, static_cast<int64_t>(other.size())); }
        const bool legal = Consistent(other);
        ctx << "set nodes " << (legal ? "" : "(illegal) ") << Text(other) << "; ";
        PBT_CHECK("set-nodes", tree.SetNodes(ToNodes(other)) == legal, "SetNodes ", legal ? "rejected consistent" : "accepted inconsistent", " nodes");
        if (legal) { m = other; }
        special++;
        break;
      }
      case 5:
      {
        ctx << "copy; ";
        Tree copy(tree);
        CheckTree("copy", copy, m);
        copy.AddNode(w.NewState(src));
        CheckTree("original of a changed copy", tree, m);
        Tree assigned;
        assigned = tree;
        tree = std::move(assigned);
        break;
      }
      case 6: CheckRoundTrip(tree, m, src); break;
      case 7:
      {
        if (n == 0) { break; }
        const int64_t i = src.Int(0, n - 1);
        ctx << "change " << i << "; ";
        if (src.Bool()) { tree.GetNodeMutable(i).GetValueMutable().revision++; }
        else { tree.GetNodesMutable()[static_cast<size_t>(i)].GetValueMutable().revision++; }
        m[static_cast<size_t>(i)].value.revision++;
        break;
      }
      default:
      {
        const int64_t i = src.Bool() ? n + src.Int(0, 3) : -src.Int(1, 3);
        PBT_CHECK("access", pbt::Throws([&] { tree.GetNodeImmutable(i); }) && pbt::Throws([&] { tree.GetNodeMutable(i); }), "node ", i, " of ", n, " could be accessed");
        break;
      }
    }
    CheckTree(pbt::Str("after step ", step), tree, m);
    PBT_CHECK("linkage", Tree::CheckNodeLinkage(tree.GetNodesImmutable()), "a tree built by additions is not well linked");
  }
  // The path to every node follows the parents from its root.
  for (size_t i = 0; i < m.size(); i++)
  {
    std::vector<S> expected;
    for (int64_t at = static_cast<int64_t>(i); at >= 0; at = m[static_cast<size_t>(at)].parent) { expected.insert(expected.begin(), m[static_cast<size_t>(at)].value); }
    PBT_CHECK("path", (rrt::ExtractSolutionPath<S, Tree, std::vector<S>>(tree, static_cast<int64_t>(i)) == expected), "path to node ", i);
    const auto paths = rrt::ExtractSolutionPaths<S, Tree, std::vector<S>>(tree, {static_cast<int64_t>(i), 0});
    PBT_CHECK("path", paths.size() == 2 && paths[0] == expected && paths[1].size() == 1 && paths[1][0] == m[0].value, "paths to nodes ", i, " and 0");
  }
  if (added >= 4 && special >= 1) { ctx.Nontrivial(); }
}

PROP(Linkage, "at least three nodes with a damaged link", 60000, 3000000)
{
  World w;
  Model m;
  const int64_t n = static_cast<int64_t>(src.Size(0, 10));
  for (int64_t i = 0; i < n; i++)
  {
    ModelNode node;
    node.value = w.NewState(src);
    if (i > 0 && src.Bool(4, 5))
    {
      node.parent = src.Int(0, i - 1);
      m[static_cast<size_t>(node.parent)].children.push_back(i);
    }
    else if (src.Bool(1, 4)) { node.parent = -src.Int(1, 9); }
    m.push_back(node);
  }
  if (n > 0 && src.Bool()) { std::reverse(m[0].children.begin(), m[0].children.end()); }
  const size_t damage = n == 0 ? 0 : src.Weighted({2, 4, 1, 1});
  for (size_t d = 0; d < damage; d++)
  {
    ModelNode& node = m[src.Choose(m.size() - 1)];
    switch (src.Choose(3))
    {
      case 0: node.parent = Wild(src, n); break;
      case 1:
      {
        const int64_t c = Wild(src, n);
        if (std::count(node.children.begin(), node.children.end(), c) == 0) { node.children.push_back(c); }
        break;
      }
      case 2: if (!node.children.empty()) { node.children.erase(node.children.begin() + static_cast<int64_t>(src.Choose(node.children.size() - 1))); } break;
      default:
      {
        // Both ends of a link that goes the wrong way
        const int64_t other = src.Int(0, n - 1);
        node.parent = other;
        const int64_t self = static_cast<int64_t>(&node - m.data());
        auto& c = m[static_cast<size_t>(other)].children;
        if (std::count(c.begin(), c.end(), self) == 0) { c.push_back(self); }
        break;
      }
    }
  }
  const bool legal = Consistent(m);
  ctx << (legal ? "legal: " : "illegal: ") << Text(m);
  ctx.Label(legal ? "legal" : "illegal");
  const Nodes nodes = ToNodes(m);
  PBT_CHECK("linkage", Tree::CheckNodeLinkage(nodes) == legal, "CheckNodeLinkage ", legal ? "rejects" : "accepts", " these nodes");
  Tree tree;
  tree.AddNode(w.NewState(src));
  const Tree before = tree;
  PBT_CHECK("set-nodes", tree.SetNodes(nodes) == legal, "SetNodes ", legal ? "rejects" : "accepts", " these nodes");
  CheckNodes("after SetNodes", tree.GetNodesImmutable(), legal ? m : Model{{before.GetNodeImmutable(0).GetValueImmutable(), -1, {}}});
  bool threw = false;
  try { const Tree built(nodes); CheckTree("constructed tree", built, m); }
  catch (const std::invalid_argument&) { threw = true; }
  PBT_CHECK("construct", threw == !legal, "the constructor ", legal ? "rejects" : "accepts", " these nodes");
  Tree raw;
  raw.GetNodesMutable() = nodes;
  CheckRoundTrip(raw, m, src);
  if (n >= 3 && !legal) { ctx.Nontrivial(); }
}

PROP(NodeHistory, "at least five link changes", 20000, 500000)
{
  World w;
  const S value = w.NewState(src);
  const int64_t parent = src.Int(-3, 9);
  std::vector<int64_t> children;
  int64_t p = -1;
  Node node(value);
  switch (src.Choose(2))
  {
    case 1: node = Node(value, parent); p = parent; break;
    case 2: children = {3, 9}; node = Node(value, parent, children); p = parent; break;
    default: break;
  }
  const size_t steps = src.Size(0, 20);
  for (size_t i = 0; i < steps; i++)
  {
    const int64_t x = src.Int(0, 9);
    switch (src.Weighted({5, 3, 1, 2, 1}))
    {
      case 0: ctx << "+" << x << " "; node.AddChildIndex(x); if (std::count(children.begin(), children.end(), x) == 0) { children.push_back(x); } break;
      case 1: ctx << "-" << x << " "; node.RemoveChildIndex(x); children.erase(std::remove(children.begin(), children.end(), x), children.end()); break;
      case 2: ctx << "clear "; node.ClearChildIndicies(); children.clear(); break;
      case 3: ctx << "parent " << x << " "; node.SetParentIndex(x); p = x; break;
      default:
      {
        std::vector<uint8_t> buffer(src.Choose(5), 7);
        const size_t start = buffer.size();
        const uint64_t written = Node::Serialize(node, buffer, WriteState);
        const auto back = Node::Deserialize(buffer, start, ReadState);
        PBT_CHECK("node-serialize", written == buffer.size() - start && back.BytesRead() == written, written, " bytes written, ", back.BytesRead(), " read, ", buffer.size() - start, " present");
        node = back.Value();
      }
    }
    PBT_CHECK("node", node.GetValueImmutable() == value && node.GetParentIndex() == p, "parent ", node.GetParentIndex(), " instead of ", p);
    PBT_CHECK("node-children", node.GetChildIndices() == children, "children ", node.GetChildIndices(), " instead of ", children);
  }
  if (steps >= 5) { ctx.Nontrivial(); }
}

namespace
{
using Vec = std::vector<double>;

// Straight-line motion with a distance that is scaled and costs more in one
// direction, and validity that depends on both ends of an edge.
struct Space
{
  double unit = 1.0;
  double scale = 1.0;
  double against = 1.0;
  double limit = 0.0;      // nothing beyond this along the first axis, if not 0
  uint64_t salt = 0;
  uint64_t blocked_of_64 = 0;

  double Distance(const Vec& a, const Vec& b) const
  {
    double sum = 0.0;
    for (size_t i = 0; i < a.size(); i++) { sum += (b[i] - a[i]) * (b[i] - a[i]); }
    return std::sqrt(sum) * scale * (b[0] - a[0] < -1e-6 * std::sqrt(sum) - 1e-13 * unit ? against : 1.0);
  }

  static Vec Interpolate(const Vec& a, const Vec& b, const double r)
  {
    Vec out;
    for (size_t i = 0; i < a.size(); i++) { out.push_back(a[i] + (b[i] - a[i]) * r); }
    return out;
  }

  bool Edge(const Vec& a, const Vec& b) const
  {
    if (limit != 0.0 && std::abs(b[0]) > limit) { return false; }
    uint64_t h = salt;
    for (const double x : a) { uint64_t bits; std::memcpy(&bits, &x, 8); h = pbt::Mix(h ^ bits); }
    for (const double x : b) { uint64_t bits; std::memcpy(&bits, &x, 8); h = pbt::Mix(h * 3 + bits); }
    return pbt::Mix(h) % 64 >= blocked_of_64;
  }
};

struct EdgeCall
{
  Vec from, to;
  bool ok = false;
};
}  // namespace

PROP(Propagation, "the target is more than one step away", 60000, 3000000)
{
  Space space;
  space.scale = src.Pick(std::vector<double>{1.0, 2.5, 0.125});
  space.against = src.Pick(std::vector<double>{1.0, 2.0});
  space.salt = src.AnyU64();
  space.blocked_of_64 = static_cast<uint64_t>(src.Pick(std::vector<int>{0, 4, 32, 64}));
  if (src.Bool(1, 4)) { space.limit = src.Real(0.5, 10.0); }
  const size_t dimensions = src.Size(1, 4);
  const bool lattice = src.Bool();
  const double unit = src.Bool(2, 3) ? 1.0 : src.Pick(std::vector<double>{1e-6, 1e-3, 1e3, 1e6});
  const auto coordinate = [&] { return unit * (lattice ? static_cast<double>(src.Int(-8, 8)) : src.Real(-10.0, 10.0)); };
  space.limit *= unit;
  space.unit = unit;
  Vec nearest, target;
  for (size_t i = 0; i < dimensions; i++) { nearest.push_back(coordinate()); target.push_back(coordinate()); }
  if (src.Bool(1, 8)) { target = nearest; }
  if (lattice && dimensions > 1 && src.Bool())
  {
    for (size_t i = 1; i < dimensions; i++) { target[i] = nearest[i]; }
  }
  const double distance = space.Distance(nearest, target);
  double step = unit;
  switch (src.Choose(4))
  {
    case 0: step = unit * (src.Bool() ? 1.0 : 0.25); break;
    case 1: step = unit * src.Real(0.05, 5.0); break;
    case 2: step = distance > 0.0 ? distance * src.Pick(std::vector<double>{1.0, 1.0 - 0x1p-53, 1.0 + 0x1p-52, 1.0 - 1e-7, 1.0 + 1e-7, 1.0 - 1e-4}) : 1.0; break;
    case 3: step = distance > 0.0 ? distance / static_cast<double>(src.Int(1, 12)) : 0.1; break;
    default: step = 1e6 * unit; break;
  }
  if (distance / step > 4000.0) { step = distance / 100.0; }
  if (distance > 0.0 && src.Bool(1, 2000)) { step = distance / src.Pick(std::vector<double>{1000.0, 9999.5, 33000.0, 70000.0}); }
  const bool connect = src.Bool();
  const bool bi = src.Bool();
  ctx << (bi ? "bidirectional " : "") << (connect ? "connect" : "extend") << " from" << pbt::Str(nearest) << " to " << pbt::Str(target) << " step " << step << " distance " << distance;

  std::vector<EdgeCall> calls;
  const std::function<double(const Vec&, const Vec&)> distance_fn = [&] (const Vec& a, const Vec& b) { return space.Distance(a, b); };
  const std::function<Vec(const Vec&, const Vec&, const double)> interpolate_fn = [&] (const Vec& a, const Vec& b, const double r)
  {
    PBT_CHECK("ratio", r >= 0.0 && r <= 1.0, "interpolation asked for ratio ", r);
    return Space::Interpolate(a, b, r);
  };
  const std::function<bool(const Vec&, const Vec&)> edge_fn = [&] (const Vec& a, const Vec& b)
  {
    calls.push_back({a, b, space.Edge(a, b)});
    return calls.back().ok;
  };
  rrt::ForwardPropagation<Vec> out;
  if (bi)
  {
    const auto fn = connect ? rrt::MakeKinematicBiRRTConnectPropagationFunction<Vec>(distance_fn, interpolate_fn, edge_fn, step)
                            : rrt::MakeKinematicBiRRTExtendPropagationFunction<Vec>(distance_fn, interpolate_fn, edge_fn, step);
    out = fn(nearest, target, src.Bool() ? rrt::BiRRTActiveTreeType::START_TREE : rrt::BiRRTActiveTreeType::GOAL_TREE);
  }
  else
  {
    const auto fn = connect ? rrt::MakeKinematicRRTConnectPropagationFunction<Vec>(distance_fn, interpolate_fn, edge_fn, step)
                            : rrt::MakeKinematicRRTExtendPropagationFunction<Vec>(distance_fn, interpolate_fn, edge_fn, step);
    out = fn(nearest, target);
  }

  // Rounding of positions and distances
  const double tolerance = 1e-9 * distance + 1e-14 * unit * 16.0 * space.scale * space.against * static_cast<double>(out.size() + 1);
  if (!connect) { PBT_CHECK("extend", out.size() <= 1, "extending produced ", out.size(), " states"); }
  Vec at = nearest;
  for (size_t i = 0; i < out.size(); i++)
  {
    const Vec& to = out[i].State();
    if (i == 0) { PBT_CHECK("chain", out[i].RelativeParentIndex() < 0, "the first state has relative parent ", out[i].RelativeParentIndex()); }
    else { PBT_CHECK("chain", out[i].RelativeParentIndex() == static_cast<int64_t>(i) - 1, "state ", i, " has relative parent ", out[i].RelativeParentIndex()); }
    bool accepted = false;
    if (i < calls.size()) { accepted = calls[i].ok && calls[i].from == at && calls[i].to == to; }
    for (size_t c = 0; c < calls.size() && !accepted; c++) { accepted = calls[c].ok && calls[c].from == at && calls[c].to == to; }
    PBT_CHECK("valid", accepted, "the edge from ", at, " to ", to, " was not accepted by the validity check");
    const double left = space.Distance(at, target);
    const double length = space.Distance(at, to);
    PBT_CHECK("step", length <= step + tolerance, "step ", i, " is ", length, " long, the step size is ", step);
    // Full steps along the way, then whatever is left
    PBT_CHECK("step", std::abs(length - std::min(step, left)) <= tolerance, "step ", i, " is ", length, " long with ", left, " left and step size ", step);
    PBT_CHECK("straight", std::abs(length + space.Distance(to, target) - left) <= tolerance, "step ", i, " leaves the line to the target");
    at = to;
  }
  const double left = space.Distance(at, target);
  if (!connect)
  {
    // One step, unless the only edge that makes sense is invalid
    if (out.empty())
    {
      bool refused = false;
      for (const EdgeCall& c : calls) { refused = refused || (!c.ok && c.from == nearest); }
      PBT_CHECK("extend-stop", refused, "extending produced nothing although no edge was refused");
    }
    if (!out.empty() && distance <= step) { PBT_CHECK("extend-target", out[0].State() == target, "a target within one step is not reached exactly"); }
  }
  else if (left > tolerance)
  {
    bool refused = false;
    for (const EdgeCall& c : calls) { refused = refused || (!c.ok && c.from == at); }
    PBT_CHECK("connect-stop", refused, "connecting stopped ", left, " before the target although no edge was refused");
  }
  if (connect && distance > tolerance && distance <= step * (1.0 - 1e-9) && !out.empty()) { PBT_CHECK("connect-target", out.size() == 1 && out[0].State() == target, "a target within one step is not reached exactly"); }
  ctx.Label("stopped by an invalid edge", left > tolerance && connect);
  ctx.Label("three or more steps", out.size() >= 3);
  if (distance > step) { ctx.Nontrivial(); }
}

PROP(HelperArguments, "always", 3000, 50000)
{
  ctx.Nontrivial();
  const std::function<double(const Vec&, const Vec&)> distance_fn = [] (const Vec&, const Vec&) { return 1.0; };
  const std::function<Vec(const Vec&, const Vec&, const double)> interpolate_fn = [] (const Vec& a, const Vec&, const double) { return a; };
  const std::function<bool(const Vec&, const Vec&)> edge_fn = [] (const Vec&, const Vec&) { return true; };
  const std::function<double()> unit = [] { return 0.5; };
  const double x = src.Bool(1, 3) ? src.Pick(std::vector<double>{0.0, -0.0, 1.0, -1.0, 1e-300, -1e-300, std::nextafter(1.0, 2.0), 2.0, 1e300, -1e300}) : src.Real(-2.0, 2.0);
  ctx << "argument " << x;
  const bool positive = x > 0.0;
  const bool probability = x >= 0.0 && x <= 1.0;
  const auto expect = [&] (const char* what, const bool legal, const std::function<void()>& make)
  {
    PBT_CHECK("arguments", pbt::Throws(make) == !legal, what, legal ? " rejects " : " accepts ", x);
  };
  expect("extend", positive, [&] { rrt::MakeKinematicRRTExtendPropagationFunction<Vec>(distance_fn, interpolate_fn, edge_fn, x); });
  expect("bidirectional extend", positive, [&] { rrt::MakeKinematicBiRRTExtendPropagationFunction<Vec>(distance_fn, interpolate_fn, edge_fn, x); });
  expect("connect", positive, [&] { rrt::MakeKinematicRRTConnectPropagationFunction<Vec>(distance_fn, interpolate_fn, edge_fn, x); });
  expect("bidirectional connect", positive, [&] { rrt::MakeKinematicBiRRTConnectPropagationFunction<Vec>(distance_fn, interpolate_fn, edge_fn, x); });
  expect("timeout helper", positive, [&] { rrt::TimeoutCheckHelper helper(x); });
  expect("timeout function", positive, [&] { rrt::MakeRRTTimeoutTerminationFunction(x); });
  expect("bidirectional timeout function", positive, [&] { rrt::MakeBiRRTTimeoutTerminationFunction(x); });
  expect("sample type selection", probability, [&] { rrt::MakeUniformRandomBiRRTSelectSampleTypeFunction<Vec>(unit, x); });
  expect("tree selection", probability, [&] { rrt::MakeUniformRandomBiRRTSelectActiveTreeFunction<Vec>(unit, x); });
  const rrt::SamplingFunction<Vec> sample = [] { return Vec{1.0}; };
  expect("goal sampling", probability, [&] { rrt::MakeStateAndGoalsSamplingFunction<Vec>(sample, {Vec{2.0}}, x, unit); });
  PBT_CHECK("arguments", pbt::Throws([&] { rrt::MakeStateAndGoalsSamplingFunction<Vec>(sample, std::vector<Vec>(), 0.5, unit); }), "goal sampling accepts having no goals");
}

PROP(Selection, "both outcomes are possible", 30000, 1000000)
{
  using Active = rrt::BiRRTActiveTreeType;
  using Type = rrt::BiRRTSampleType;
  const double bias = src.Bool(1, 3) ? src.Pick(std::vector<double>{0.0, 1.0, 0.5}) : src.Unit();
  std::vector<double> draws;
  size_t used = 0;
  const auto next = [&]
  {
    double u = src.Unit();
    switch (src.Choose(5))
    {
      case 0: u = bias < 1.0 ? bias : u; break;
      case 1: u = std::min(std::nextafter(bias, 2.0), 1.0 - 0x1p-53); break;
      case 2: u = std::max(0.0, std::nextafter(bias, -1.0)); break;
      default: break;
    }
    if (u >= 1.0) { u = 1.0 - 0x1p-53; }
    draws.push_back(u);
    used++;
    return u;
  };
  const std::function<double()> unit = next;
  rrt::SimpleRRTPlannerTree<Vec> start, goal;
  const int64_t nodes = src.Int(1, 7);
  for (int64_t i = 0; i < nodes; i++) { start.AddNode({static_cast<double>(i)}); goal.AddNode({-static_cast<double>(i)}); }
  const int64_t goals = src.Int(1, 6);
  std::vector<Vec> goal_states;
  for (int64_t i = 0; i < goals; i++) { goal_states.push_back({100.0 + static_cast<double>(i)}); }
  int64_t state_samples = 0;
  const rrt::SamplingFunction<Vec> sample = [&] { state_samples++; return Vec{-1000.0 - static_cast<double>(state_samples)}; };
  const auto type_fn = rrt::MakeUniformRandomBiRRTSelectSampleTypeFunction<Vec>(unit, bias);
  const auto active_fn = rrt::MakeUniformRandomBiRRTSelectActiveTreeFunction<Vec>(unit, bias);
  const auto tree_fn = rrt::MakeUniformRandomBiRRTTreeSamplingFunction<Vec>(unit);
  const auto goal_fn = rrt::MakeStateAndGoalsSamplingFunction<Vec>(sample, goal_states, bias, unit);
  goal_states.clear();
  ctx << "bias " << bias << " " << nodes << " nodes " << goals << " goals;";
  const size_t steps = src.Size(1, 12);
  for (size_t i = 0; i < steps; i++)
  {
    used = 0;
    draws.clear();
    const Active active = src.Bool() ? Active::START_TREE : Active::GOAL_TREE;
    switch (src.Choose(3))
    {
      case 0:
      {
        const Type t = type_fn(start, goal, active);
        PBT_CHECK("sample-type", used == 1 && (t == Type::TREE_SAMPLE) == (draws[0] <= bias), "draw ", draws, " with bias ", bias, " gives a ", t == Type::TREE_SAMPLE ? "tree" : "state", " sample");
        break;
      }
      case 1:
      {
        const Active a = active_fn(start, goal, active);
        PBT_CHECK("active-tree", used == 1 && (a != active) == (draws[0] <= bias), "draw ", draws, " with switching probability ", bias, a != active ? " switches" : " does not switch");
        break;
      }
      case 2:
      {
        const int64_t index = tree_fn(src.Bool() ? start : goal, active);
        PBT_CHECK("tree-sample", used == 1 && index >= 0 && index < nodes, "index ", index, " sampled from a tree of ", nodes);
        PBT_CHECK("tree-sample", std::abs(static_cast<double>(index) + 0.5 - draws[0] * static_cast<double>(nodes)) <= 0.5 + 1e-9, "draw ", draws, " gives index ", index, " of ", nodes);
        break;
      }
      default:
      {
        const int64_t before = state_samples;
        const Vec s = goal_fn();
        if (draws.at(0) > bias)
        {
          PBT_CHECK("goal-sampling", state_samples == before + 1 && s[0] == -1000.0 - static_cast<double>(state_samples), "draw ", draws, " above the bias ", bias, " gives ", s[0], " instead of a new state");
        }
        else
        {
          const double index = s[0] - 100.0;
          PBT_CHECK("goal-sampling", state_samples == before && index >= 0.0 && index < static_cast<double>(goals), "draw ", draws, " within the bias ", bias, " gives ", s[0], " instead of a goal");
          if (goals > 1) { PBT_CHECK("goal-sampling", std::abs(index + 0.5 - draws.at(1) * static_cast<double>(goals)) <= 0.5 + 1e-9, "draw ", draws[1], " gives goal ", index, " of ", goals); }
        }
      }
    }
  }
  if (bias > 0.0 && bias < 1.0 && goals > 1) { ctx.Nontrivial(); }
}

PROP_CONCURRENT(Neighbors, "at least two candidates", 4000, 100000)
{
  rrt::SimpleRRTPlannerTree<Vec> tree;
  const int64_t n = static_cast<int64_t>(src.Size(0, 30));
  Space space;
  space.against = src.Pick(std::vector<double>{1.0, 3.0});
  const bool lattice = src.Bool();
  const bool far = src.Bool(1, 4);  // distances that hardly differ
  for (int64_t i = 0; i < n; i++)
  {
    Vec v{lattice ? static_cast<double>(src.Int(-3, 3)) : src.Real(-10.0, 10.0), static_cast<double>(src.Int(-2, 2))};
    if (far) { v[0] = 1e6 + v[0] * 1e-7; }
    if (i > 0 && src.Bool()) { tree.AddNodeAndConnect(v, src.Int(0, i - 1)); }
    else { tree.AddNode(v); }
  }
  const Vec q{static_cast<double>(src.Int(-4, 4)), static_cast<double>(src.Int(-3, 3))};
  const std::function<double(const Vec&, const Vec&)> distance_fn = [&] (const Vec& a, const Vec& b)
  {
    if (b != q) { ctx.FailAsync("neighbor-arguments", "the distance function did not get the sample second"); }
    return space.Distance(a, b);
  };
  const par::DegreeOfParallelism degree(static_cast<int32_t>(src.Int(1, 5)));
  const size_t form = src.Choose(2);
  ctx << n << " nodes, form " << form << ", " << degree.GetNumThreads() << " threads";
  const auto find = [&]
  {
    switch (form)
    {
      case 0: return rrt::MakeLinearRRTNearestNeighborsFunction<Vec>(distance_fn, degree)(tree, q);
      case 1: return rrt::MakeKinematicLinearRRTNearestNeighborsFunction<Vec>(distance_fn, degree)(tree, q);
      default: return rrt::MakeKinematicLinearBiRRTNearestNeighborsFunction<Vec>(distance_fn, degree)(tree, q, rrt::BiRRTActiveTreeType::GOAL_TREE);
    }
  };
  if (n == 0)
  {
    PBT_CHECK("neighbor-empty", pbt::Throws(find), "an empty tree has a nearest neighbor");
    return;
  }
  const int64_t index = find();
  PBT_CHECK("neighbor", index >= 0 && index < n, "nearest neighbor ", index, " of ", n);
  for (int64_t i = 0; i < n; i++)
  {
    PBT_CHECK("neighbor", space.Distance(tree.GetNodeImmutable(index).GetValueImmutable(), q) <= space.Distance(tree.GetNodeImmutable(i).GetValueImmutable(), q), "node ", i, " is nearer than ", index);
  }
  if (n >= 2) { ctx.Nontrivial(); }
}

// Only claims that clock readings around the calls prove are checked.
PROP(Timeout, "the time was over at least once", 300, 3000)
{
  using Clock = std::chrono::steady_clock;
  const double timeout = src.Pick(std::vector<double>{0.0005, 0.002, 1000.0});
  rrt::TimeoutCheckHelper helper(timeout);
  auto rrt_fn = rrt::MakeRRTTimeoutTerminationFunction(timeout);
  auto birrt_fn = rrt::MakeBiRRTTimeoutTerminationFunction(timeout);
  ctx << "timeout " << timeout << ":";
  struct Timer { bool started = false; Clock::time_point before, after; };
  Timer timers[3];
  const auto judge = [&] (Timer& t, const char* what, const std::function<bool()>& call)
  {
    const auto before = Clock::now();
    const bool over = call();
    const auto after = Clock::now();
    if (!t.started)
    {
      PBT_CHECK("timeout", !over, what, ": over at the first check, which starts the clock");
      t = {true, before, after};
      return;
    }
    if (std::chrono::duration<double>(after - t.before).count() < timeout) { PBT_CHECK("timeout", !over, what, ": over too early"); }
    if (std::chrono::duration<double>(before - t.after).count() > timeout) { PBT_CHECK("timeout", over, what, ": not over after the timeout"); ctx.Nontrivial(); }
  };
  const size_t steps = src.Size(1, 8);
  for (size_t i = 0; i < steps; i++)
  {
    switch (src.Choose(6))
    {
      case 0: ctx << " sleep"; std::this_thread::sleep_for(std::chrono::microseconds(src.Pick(std::vector<int>{100, 700, 2200}))); break;
      case 1: ctx << " check-or-start"; judge(timers[0], "helper", [&] { return helper.CheckOrStart(); }); break;
      case 2:
        ctx << " check";
        if (timers[0].started) { judge(timers[0], "helper", [&] { return helper.Check(); }); }
        else { PBT_CHECK("timeout", pbt::Throws([&] { helper.Check(); }), "checked a timeout that was not started"); }
        break;
      case 3: ctx << " start"; { const auto before = Clock::now(); helper.Start(); timers[0] = {true, before, Clock::now()}; } break;
      case 4: ctx << " reset"; helper.Reset(); timers[0] = Timer(); break;
      case 5: ctx << " rrt"; judge(timers[1], "RRT termination", [&] { return rrt_fn(src.Int(0, 100)); }); break;
      default: ctx << " birrt"; judge(timers[2], "BiRRT termination", [&] { return birrt_fn(src.Int(0, 100), 0); }); break;
    }
  }
}

namespace
{
class Robot : public rmi::SimpleRobotModelInterface<Eigen::VectorXd>
{
public:
  Robot* Clone() const override { return new Robot(*this); }
  const Eigen::VectorXd& GetPosition() const override { return position_; }
  const Eigen::VectorXd& SetPosition(const Eigen::VectorXd& config) override { position_ = config; return position_; }
  std::vector<std::string> GetLinkNames() const override { return {}; }
  Eigen::Isometry3d GetLinkTransform(const int64_t) const override { return Eigen::Isometry3d::Identity(); }
  Eigen::Isometry3d GetLinkTransform(const std::string&) const override { return Eigen::Isometry3d::Identity(); }
  common_robotics_utilities::math::VectorIsometry3d GetLinkTransforms() const override { return {}; }
  common_robotics_utilities::math::MapStringIsometry3d GetLinkTransformsMap() const override { return {}; }
  double ComputeConfigurationDistance(const Eigen::VectorXd& a, const Eigen::VectorXd& b) const override { return (b - 2.0 * a).sum(); }
  Eigen::VectorXd ComputePerDimensionConfigurationSignedDistance(const Eigen::VectorXd& a, const Eigen::VectorXd& b) const override { return b - 2.0 * a; }
  Eigen::VectorXd InterpolateBetweenConfigurations(const Eigen::VectorXd& a, const Eigen::VectorXd& b, const double r) const override { return a + r * (b - a); }
  Eigen::VectorXd AverageConfigurations(const std::vector<Eigen::VectorXd>& c) const override { return c.at(0); }
  Eigen::Matrix<double, 3, Eigen::Dynamic> ComputeLinkPointTranslationJacobian(const std::string&, const Eigen::Vector4d&) const override { return Eigen::Matrix<double, 3, Eigen::Dynamic>::Zero(3, 2); }
  Eigen::Matrix<double, 6, Eigen::Dynamic> ComputeLinkPointJacobian(const std::string&, const Eigen::Vector4d&) const override { return Eigen::Matrix<double, 6, Eigen::Dynamic>::Zero(6, 2); }

private:
  Eigen::VectorXd position_;
};
}  // namespace

PROP(RobotModel, "more than one joint", 5000, 100000)
{
  Robot robot;
  const int64_t n = static_cast<int64_t>(src.Size(1, 8));
  const auto vector = [&] { Eigen::VectorXd v(n); for (int64_t i = 0; i < n; i++) { v[i] = src.Real(-5.0, 5.0); } return v; };
  const Eigen::VectorXd q = vector();
  const Eigen::VectorXd a = vector();
  const Eigen::VectorXd b = vector();
  robot.SetPosition(q);
  const Eigen::VectorXd distance = robot.ComputePerDimensionConfigurationDistance(a, b);
  const Eigen::VectorXd to = robot.ComputePerDimensionConfigurationDistanceTo(b);
  const Eigen::VectorXd signed_to = robot.ComputePerDimensionConfigurationSignedDistanceTo(b);
  PBT_CHECK("robot", robot.ComputeConfigurationDistanceTo(b) == (b - 2.0 * q).sum(), "distance to a configuration");
  for (int64_t i = 0; i < n; i++)
  {
    PBT_CHECK("robot", distance[i] == std::abs(b[i] - 2.0 * a[i]), "distance of joint ", i, " is ", distance[i]);
    PBT_CHECK("robot", to[i] == std::abs(b[i] - 2.0 * q[i]), "distance to joint ", i, " is ", to[i]);
    PBT_CHECK("robot", signed_to[i] == b[i] - 2.0 * q[i], "signed distance to joint ", i, " is ", signed_to[i]);
  }
  ctx << n << " joints";
  if (n > 1) { ctx.Nontrivial(); }
}

// Trees too large for indices or counts of few bits, long ways to the root and nodes of many children.
PROP_CONCURRENT(HugeTrees, "more than 1000 nodes", 250, 6000)
{
  static const int64_t sizes[] = {260, 1100, 5000, 34000, 70000};
  const int64_t n = sizes[src.Weighted({4, 4, 2, 1, 1})] + src.Int(0, 50);
  const uint64_t shape = src.Choose(3);
  std::mt19937_64 random(src.AnyU64());
  ctx << n << " nodes, shape " << shape << " ";
  ctx.Label(std::to_string(n / 1000) + "000 nodes");
  if (n > 1000) { ctx.Nontrivial(); }
  World w;
  Tree tree;
  Model m;
  rrt::SimpleRRTPlannerTree<Vec> positions(n);
  for (int64_t i = 0; i < n; i++)
  {
    ModelNode node;
    const int64_t any = i == 0 ? -1 : static_cast<int64_t>(random() % static_cast<uint64_t>(i));
    node.parent = i == 0 ? -1 : shape == 0 ? i - 1 : (shape == 1 && i < 3000) ? 0 : (shape == 2 && i > n / 2) ? i - 1 : any;
    if (random() % 500 == 0) { node.parent = -1; }
    node.value.id = i + 1;
    node.value.revision = static_cast<int64_t>(random() % 1000);
    const int64_t index = node.parent < 0 ? tree.AddNode(node.value) : tree.AddNodeAndConnect(node.value, node.parent);
    PBT_CHECK("add", index == i, "index ", index, " for node ", i);
    if (node.parent >= 0) { m[static_cast<size_t>(node.parent)].children.push_back(i); }
    m.push_back(node);
    const Vec v{static_cast<double>(random() % 100000) / 7.0, static_cast<double>(random() % 100000)};
    if (node.parent < 0) { positions.AddNode(v); } else { positions.AddNodeAndConnect(v, node.parent); }
  }
  CheckTree("huge tree", tree, m);
  PBT_CHECK("linkage", Tree::CheckNodeLinkage(tree.GetNodesImmutable()), "a tree built by additions is not well linked");
  CheckRoundTrip(tree, m, src);
  std::vector<int64_t> ends{0, n - 1, n / 2};
  for (size_t i = src.Choose(5); i > 0; i--) { ends.push_back(static_cast<int64_t>(random() % static_cast<uint64_t>(n))); }
  std::vector<std::vector<S>> expected;
  for (const int64_t end : ends)
  {
    std::vector<S> path;
    for (int64_t at = end; at >= 0; at = m[static_cast<size_t>(at)].parent) { path.push_back(m[static_cast<size_t>(at)].value); }
    std::reverse(path.begin(), path.end());
    PBT_CHECK("path", (rrt::ExtractSolutionPath<S, Tree, std::vector<S>>(tree, end) == path), "path to node ", end, " of ", path.size(), " states");
    expected.push_back(path);
  }
  PBT_CHECK("path", (rrt::ExtractSolutionPaths<S, Tree, std::vector<S>>(tree, ends) == expected), "paths to several nodes");
  // The nearest of very many.
  const int64_t hit = static_cast<int64_t>(random() % static_cast<uint64_t>(n));
  Vec q = positions.GetNodeImmutable(hit).GetValueImmutable();
  if (src.Bool()) { q[0] += 0.01; }
  const std::function<double(const Vec&, const Vec&)> distance_fn = [] (const Vec& a, const Vec& b) { return std::hypot(a[0] - b[0], a[1] - b[1]); };
  const par::DegreeOfParallelism degree(static_cast<int32_t>(src.Bool() ? src.Int(1, 8) : src.Int(9, 40)));
  double best = std::numeric_limits<double>::infinity();
  for (const auto& node : positions.GetNodesImmutable()) { best = std::min(best, distance_fn(node.GetValueImmutable(), q)); }
  for (const int64_t index : {rrt::MakeLinearRRTNearestNeighborsFunction<Vec>(distance_fn, degree)(positions, q),
                              rrt::MakeKinematicLinearBiRRTNearestNeighborsFunction<Vec>(distance_fn, degree)(positions, q, rrt::BiRRTActiveTreeType::START_TREE)})
  {
    PBT_CHECK("neighbor", index >= 0 && index < n && distance_fn(positions.GetNodeImmutable(index).GetValueImmutable(), q) == best, "node ", index, " is not the nearest, ", best, " away");
  }
  // One damaged link, anywhere.
  Model damaged = m;
  const size_t at = random() % m.size();
  auto& children = damaged[at].children;
  switch (src.Choose(3))
  {
    case 0: damaged[at].parent = n; break;
    case 1: if (children.empty()) { children.push_back(n); } else { children.pop_back(); } break;
    case 2: if (at + 1 < m.size() && m[at + 1].parent != static_cast<int64_t>(at)) { children.push_back(static_cast<int64_t>(at) + 1); } break;
    default: damaged[at].parent = static_cast<int64_t>(at); children.push_back(static_cast<int64_t>(at)); break;
  }
  const bool legal = Consistent(damaged);
  PBT_CHECK("linkage", Tree::CheckNodeLinkage(ToNodes(damaged)) == legal, "CheckNodeLinkage ", legal ? "rejects" : "accepts", " nodes damaged at ", at);
}
