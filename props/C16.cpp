// C16 RRT and bidirectional RRT planning
// PBT-VARIANTS: plain asan
#include "pbt.hpp"
#include "rrt.hpp"

#include <deque>

using namespace rrtw;

namespace
{
// Another tree container with the interface the planners need.
class DequeTree
{
public:
  using NodeType = rrt::SimpleRRTPlannerState<S>;
  int64_t Size() const { return static_cast<int64_t>(nodes_.size()); }
  bool Empty() const { return nodes_.empty(); }
  const NodeType& GetNodeImmutable(const int64_t index) const { return nodes_.at(static_cast<size_t>(index)); }
  NodeType& GetNodeMutable(const int64_t index) { return nodes_.at(static_cast<size_t>(index)); }
  int64_t AddNode(const S& value)
  {
    nodes_.emplace_back(value);
    return Size() - 1;
  }
  int64_t AddNodeAndConnect(const S& value, const int64_t parent)
  {
    nodes_.at(static_cast<size_t>(parent)).AddChildIndex(Size());
    nodes_.emplace_back(value, parent);
    return Size() - 1;
  }

private:
  std::deque<NodeType> nodes_;
};

struct ModelNode
{
  S value;
  int64_t parent = -1;
};
using ModelTree = std::vector<ModelNode>;

template<typename Tree>
void CheckTree(const std::string& what, const Tree& tree, const ModelTree& model)
{
  PBT_CHECK("tree", tree.Size() == static_cast<int64_t>(model.size()), what, " has ", tree.Size(), " nodes, ", model.size(), " expected");
  std::vector<std::vector<int64_t>> children(model.size());
  for (size_t i = 0; i < model.size(); i++)
  {
    if (model[i].parent >= 0) { children[static_cast<size_t>(model[i].parent)].push_back(static_cast<int64_t>(i)); }
  }
  for (size_t i = 0; i < model.size(); i++)
  {
    const auto& node = tree.GetNodeImmutable(static_cast<int64_t>(i));
    PBT_CHECK("tree-state", node.GetValueImmutable() == model[i].value, what, " node ", i, " holds state ", node.GetValueImmutable().id, ", expected ", model[i].value.id);
    const bool root = node.GetParentIndex() < 0 && model[i].parent < 0;
    PBT_CHECK("tree-parent", root || node.GetParentIndex() == model[i].parent, what, " node ", i, " has parent ", node.GetParentIndex(), ", expected ", model[i].parent);
    auto got = node.GetChildIndices();
    std::sort(got.begin(), got.end());
    PBT_CHECK("tree-children", got == children[i], what, " node ", i, " children ", pbt::Str(got), " expected ", pbt::Str(children[i]));
  }
}

template<typename Tree>
ModelTree GenTree(Tree& tree, World& w, pbt::Src& src, const size_t lo)
{
  ModelTree model;
  const size_t n = src.Size(lo, 8);
  for (size_t i = 0; i < n; i++)
  {
    ModelNode node;
    node.value = w.NewState(src);
    if (i > 0 && src.Bool(2, 3)) { node.parent = src.Int(0, static_cast<int64_t>(i) - 1); }
    if (node.parent < 0) { tree.AddNode(node.value); }
    else { tree.AddNodeAndConnect(node.value, node.parent); }
    model.push_back(node);
  }
  return model;
}

// What a propagation function returned, and which model nodes its states became.
struct Pending
{
  std::vector<S> values;
  std::vector<int64_t> relatives;
  std::vector<int64_t> indices;
  rrt::ForwardPropagation<S> states;
  bool Done() const { return indices.size() == values.size(); }

  // Appends the next state to the model.
  int64_t Insert(ModelTree& model, const int64_t nearest)
  {
    const size_t k = indices.size();
    ModelNode node;
    node.value = values[k];
    node.parent = relatives[k] < 0 ? nearest : indices[static_cast<size_t>(relatives[k])];
    indices.push_back(static_cast<int64_t>(model.size()));
    model.push_back(node);
    return indices.back();
  }
};

Pending GenPropagation(World& w, pbt::Src& src, const bool bad, bool& broken)
{
  Pending p;
  size_t n = 0;
  switch (src.Weighted({60, 150, 150, 30, 1}))
  {
    case 0: break;
    case 1: n = 1; break;
    case 2: n = static_cast<size_t>(src.Int(2, 5)); break;
    case 3: n = static_cast<size_t>(src.Int(6, 25)); break;
    default: n = static_cast<size_t>(src.Int(200, 700)); break;
  }
  const bool chain = src.Bool();
  for (size_t i = 0; i < n; i++)
  {
    int64_t relative = static_cast<int64_t>(i) - 1;
    if (!chain)
    {
      relative = src.Int(-1, static_cast<int64_t>(i) - 1);
      if (relative < 0 && src.Bool(1, 4)) { relative = -src.Int(1, 1000); }
    }
    if (bad && src.Bool(1, 8)) { relative = static_cast<int64_t>(i) + (src.Bool() ? 0 : src.Int(1, 1000)); broken = true; }
    const S value = w.NewState(src);
    if (!broken)
    {
      p.values.push_back(value);
      p.relatives.push_back(relative);
    }
    p.states.emplace_back(value, relative);
  }
  return p;
}

// What a callback that is given a tree may do to it, done to the model as well.
template<typename Tree>
void ChangeTree(Tree& tree, ModelTree& model, World& w, pbt::Src& src, const int64_t index, const size_t original)
{
  switch (src.Choose(3))
  {
    case 0:
      model[static_cast<size_t>(index)].value.revision++;
      tree.GetNodeMutable(index).GetValueMutable().revision++;
      break;
    case 1:
    {
      // Another parent for the state, as in RRT*.
      ModelNode& node = model[static_cast<size_t>(index)];
      if (index == 0 || node.parent < 0) { break; }
      const int64_t parent = src.Int(0, index - 1);
      tree.GetNodeMutable(node.parent).RemoveChildIndex(index);
      node.parent = parent;
      tree.GetNodeMutable(index).SetParentIndex(parent);
      tree.GetNodeMutable(parent).AddChildIndex(index);
      break;
    }
    case 2:
    {
      // States of its own.
      const int64_t count = src.Int(1, 3);
      for (int64_t i = 0; i < count; i++)
      {
        ModelNode extra;
        extra.value = w.NewState(src);
        extra.parent = src.Int(0, static_cast<int64_t>(model.size()) - 1);
        tree.AddNodeAndConnect(extra.value, extra.parent);
        model.push_back(extra);
      }
      break;
    }
    default:
    {
      // Another state that was not there in the beginning.
      if (model.size() > original)
      {
        const int64_t other = src.Int(static_cast<int64_t>(original), static_cast<int64_t>(model.size()) - 1);
        model[static_cast<size_t>(other)].value.revision++;
        tree.GetNodeMutable(other).GetValueMutable().revision++;
      }
      break;
    }
  }
}

using Path = std::vector<S>;
Path Chain(const ModelTree& model, int64_t index)
{
  Path out;
  while (index >= 0)
  {
    out.push_back(model[static_cast<size_t>(index)].value);
    index = model[static_cast<size_t>(index)].parent;
  }
  std::reverse(out.begin(), out.end());
  return out;
}

std::string Ids(const Path& path)
{
  std::string out;
  for (const S& s : path) { out += (out.empty() ? "" : " ") + std::to_string(s.id); }
  return "[" + out + "]";
}

template<typename Container>
Path ToPath(const Container& c) { return Path(c.begin(), c.end()); }

template<typename Container>
void CheckPaths(const std::vector<Container>& got, const std::vector<Path>& expected)
{
  PBT_CHECK("solutions", got.size() == expected.size(), "got ", got.size(), " paths, expected ", expected.size());
  for (size_t i = 0; i < got.size(); i++)
  {
    PBT_CHECK("path", ToPath(got[i]) == expected[i], "path ", i, " ", Ids(ToPath(got[i])), " expected ", Ids(expected[i]));
  }
}

void CheckStat(const rrt::PlanningStatistics& statistics, const std::string& name, const int64_t expected)
{
  const auto found = statistics.find(name);
  PBT_CHECK("statistics", found != statistics.end(), name, " is not reported");
  PBT_CHECK("statistics", found->second == static_cast<double>(expected), name, " is ", found->second, ", expected ", expected);
}

template<typename Tree, typename Container>
void RunRrt(pbt::Src& src, pbt::Ctx& ctx, const bool single, const bool bad)
{
  World w;
  w.salt = src.AnyU64();
  w.goals_of_16 = static_cast<uint64_t>(src.Pick(std::vector<int>{1, 0, 4, 16}));
  Tree tree;
  ModelTree model = GenTree(tree, w, src, 1);
  const ModelTree original = model;
  const bool with_added = src.Bool(3, 4);
  const bool mutating = with_added && src.Bool(1, 3);
  const bool with_goal = src.Bool(3, 4);
  const int64_t limit_calls = src.Int(0, 12);
  const int64_t limit_size = src.Bool(1, 3) ? src.Int(1, 40) : 1000000;
  ctx << (single ? "single " : "multi ") << (with_added ? "added-callback " : "") << (with_goal ? "goal-callback " : "") << model.size() << " nodes, at most " << limit_calls << " iterations or " << limit_size << " nodes";

  std::vector<int64_t> goals;         // model indices of goal states, in order found
  std::vector<int64_t> goals_reported;
  for (size_t i = 0; i < model.size(); i++) { if (w.Goal(model[i].value)) { goals.push_back(static_cast<int64_t>(i)); } }
  int64_t iterations = 0;
  int64_t samples = 0, successes = 0, failures = 0;
  bool stopped = false, broken = false;
  int stage = 0;  // 0 termination, 1 sample, 2 neighbour, 3 propagate, 4 insert
  uint64_t sample_id = 0;
  int64_t nearest = -1;
  Pending pending;
  const auto commit = [&]
  {
    if (with_added) { PBT_CHECK("added-callback", pending.Done(), "announced ", pending.indices.size(), " of ", pending.values.size(), " new states"); }
    while (!pending.Done())
    {
      const int64_t index = pending.Insert(model, nearest);
      if (w.Goal(model[static_cast<size_t>(index)].value)) { goals.push_back(index); }
    }
    pending = Pending();
  };

  const rrt::RRTTerminationCheckFunction terminate = [&] (const int64_t size)
  {
    PBT_CHECK("termination", !stopped, "asked again after termination was signalled");
    PBT_CHECK("order", stage == 0 || stage == 4, "termination check in the middle of an iteration");
    commit();
    PBT_CHECK("termination-size", size == static_cast<int64_t>(model.size()), "termination check got size ", size, " for a tree of ", model.size());
    CheckTree("tree", tree, model);
    stage = 1;
    stopped = iterations++ >= limit_calls || size >= limit_size;
    return stopped;
  };
  const rrt::SamplingFunction<uint64_t> sample = [&] ()
  {
    PBT_CHECK("termination", !stopped, "sampled after termination was signalled");
    PBT_CHECK("order", stage == 1, "sampled without a termination check in between");
    if (single) { PBT_CHECK("single", goals.empty(), "sampled although a solution had been found"); }
    stage = 2;
    samples++;
    sample_id = src.AnyU64();
    return sample_id;
  };
  const rrt::RRTNearestNeighborFunction<S, Tree, uint64_t> neighbor = [&] (const Tree& t, const uint64_t& s)
  {
    PBT_CHECK("order", stage == 2, "nearest neighbor without a new sample");
    PBT_CHECK("sample", s == sample_id, "neighbor asked for another sample");
    CheckTree("tree given to neighbor function", t, model);
    stage = 3;
    nearest = src.Int(0, static_cast<int64_t>(model.size()) - 1);
    return nearest;
  };
  const rrt::RRTForwardPropagationFunction<S, uint64_t> propagate = [&] (const S& from, const uint64_t& s)
  {
    PBT_CHECK("order", stage == 3, "propagated without a nearest neighbor");
    PBT_CHECK("sample", s == sample_id, "propagated towards another sample");
    PBT_CHECK("nearest", from == model[static_cast<size_t>(nearest)].value, "propagated from state ", from.id, " instead of ", model[static_cast<size_t>(nearest)].value.id);
    stage = 4;
    pending = GenPropagation(w, src, bad, broken);
    (pending.states.empty() ? failures : successes)++;
    return pending.states;
  };
  rrt::RRTStateAddedCallbackFunction<S, Tree> added;
  if (with_added)
  {
    added = [&] (Tree& t, const int64_t index)
    {
      PBT_CHECK("added-callback", &t == &tree, "callback got another tree");
      PBT_CHECK("added-callback", stage == 4 && !pending.Done(), "callback for a state that was not propagated");
      const int64_t expected = pending.Insert(model, nearest);
      PBT_CHECK("added-callback", index == expected, "callback for index ", index, ", expected ", expected);
      const ModelNode& node = model[static_cast<size_t>(index)];
      PBT_CHECK("added-callback", t.Size() > index && t.GetNodeImmutable(index).GetValueImmutable() == node.value && t.GetNodeImmutable(index).GetParentIndex() == node.parent, "new state is not in the tree when it is announced");
      if (mutating && src.Bool(1, 3)) { ChangeTree(t, model, w, src, index, original.size()); }
      if (w.Goal(model[static_cast<size_t>(index)].value)) { goals.push_back(index); }
    };
  }
  rrt::RRTGoalReachedCallbackFunction<S, Tree> reached;
  if (with_goal)
  {
    reached = [&] (Tree& t, const int64_t index)
    {
      PBT_CHECK("goal-callback", &t == &tree, "callback got another tree");
      PBT_CHECK("goal-callback", index >= 0 && index < t.Size(), "callback for missing index ", index);
      PBT_CHECK("goal-callback", w.Goal(t.GetNodeImmutable(index).GetValueImmutable()), "callback for state ", index, " which is not a goal");
      goals_reported.push_back(index);
      if (mutating && stage == 4 && src.Bool(1, 3)) { ChangeTree(t, model, w, src, index, original.size()); }
    };
  }
  const rrt::RRTCheckGoalReachedFunction<S> check = [&] (const S& s) { return w.Goal(s); };

  bool threw = false;
  std::vector<Container> paths;
  rrt::PlanningStatistics statistics;
  const auto plan = [&]
  {
    if (single)
    {
      const auto result = rrt::RRTPlanSinglePath<S, Tree, uint64_t, Container>(tree, sample, neighbor, propagate, added, check, reached, terminate);
      if (!result.Path().empty()) { paths.push_back(result.Path()); }
      statistics = result.Statistics();
    }
    else
    {
      const auto result = rrt::RRTPlanMultiPath<S, Tree, uint64_t, Container>(tree, sample, neighbor, propagate, added, check, reached, terminate);
      paths = result.Paths();
      statistics = result.Statistics();
    }
  };
  if (bad)
  {
    try { plan(); }
    catch (const std::out_of_range&) { threw = true; }
    PBT_CHECK("bad-parent", threw == broken, broken ? "a propagated state with an impossible parent was accepted" : "threw for legal propagations");
    if (threw)
    {
      // What was inserted before the bad state is still well linked.
      while (!pending.Done()) { pending.Insert(model, nearest); }
      CheckTree("tree after a rejected propagation", tree, model);
      ctx.Label("rejected", true);
      ctx.Nontrivial();
      return;
    }
  }
  else { plan(); }

  PBT_CHECK("termination", stopped || (single && !goals.empty()) || (single && stage == 4), "planning stopped before termination was signalled");
  commit();
  CheckTree("final tree", tree, model);
  for (size_t i = 0; i < original.size(); i++) { PBT_CHECK("original", model[i].value == original[i].value, "original node ", i, " changed"); }
  if (with_goal) { PBT_CHECK("goal-callback", goals_reported == goals, "goal callbacks ", pbt::Str(goals_reported), " expected ", pbt::Str(goals)); }
  std::vector<Path> expected;
  for (const int64_t goal : goals) { expected.push_back(Chain(model, goal)); }
  const int64_t solutions = static_cast<int64_t>(expected.size());
  if (single)
  {
    if (expected.size() > 1) { expected.resize(1); }
    PBT_CHECK("termination", stopped || !goals.empty(), "planning stopped without a solution before termination was signalled");
  }
  CheckPaths(paths, expected);
  CheckStat(statistics, "total_samples", samples);
  CheckStat(statistics, "successful_samples", successes);
  CheckStat(statistics, "failed_samples", failures);
  CheckStat(statistics, "total_states", static_cast<int64_t>(model.size()));
  CheckStat(statistics, "solutions", solutions);
  PBT_CHECK("statistics", statistics.at("planning_time") >= 0.0, "negative planning time");
  for (const Path& path : expected) { if (path.size() > 3) { ctx.Label("path of more than 3 states", true); } }
  ctx.Label("several solutions", solutions > 1);
  if (successes >= 2 && solutions >= 1) { ctx.Nontrivial(); }
}

struct Bridge { int64_t start; int64_t goal; };

template<typename Tree, typename Container>
void RunBiRrt(pbt::Src& src, pbt::Ctx& ctx, const bool single, const bool bad)
{
  using Active = rrt::BiRRTActiveTreeType;
  using Type = rrt::BiRRTSampleType;
  World w;
  w.salt = src.AnyU64();
  w.connected_of_16 = static_cast<uint64_t>(src.Pick(std::vector<int>{1, 0, 4, 16}));
  Tree trees[2];
  ModelTree models[2];
  models[0] = GenTree(trees[0], w, src, 1);
  models[1] = GenTree(trees[1], w, src, 1);
  const ModelTree originals[2] = {models[0], models[1]};
  const bool with_added = src.Bool(3, 4);
  const bool mutating = with_added && src.Bool(1, 3);
  const bool with_bridge = src.Bool(3, 4);
  const int64_t limit_calls = src.Int(0, 14);
  const int64_t limit_size = src.Bool(1, 3) ? src.Int(2, 40) : 1000000;
  const bool tree_only = src.Bool(1, 3);
  ctx << (single ? "single " : "multi ") << (with_added ? "added-callback " : "") << (with_bridge ? "bridge-callback " : "") << models[0].size() << "+" << models[1].size() << " nodes, at most " << limit_calls << " iterations or " << limit_size << " nodes";

  std::vector<Bridge> bridges;
  std::vector<Bridge> reported;
  for (size_t i = 0; i < models[0].size(); i++)
  {
    for (size_t j = 0; j < models[1].size(); j++)
    {
      if (w.Connected(models[0][i].value, models[1][j].value, 0)) { bridges.push_back({static_cast<int64_t>(i), static_cast<int64_t>(j)}); }
    }
  }
  size_t active = 0;
  int64_t iterations = 0, samples = 0, successes = 0, failures = 0, swaps = 0;
  int64_t active_iterations[2] = {0, 0};
  bool stopped = false, broken = false;
  int stage = 0;  // 0 start/after selection, 1 type, 2 target, 3 neighbour, 4 propagate, 5 insert
  Type type = Type::STATE_SAMPLE;
  int64_t target_index = -1;
  S target;
  int64_t nearest = -1;
  Pending pending;
  const auto is = [] (const Active a) { return a == Active::START_TREE ? size_t(0) : size_t(1); };
  const auto connect = [&] (const int64_t index)
  {
    if (type == Type::TREE_SAMPLE && w.Connected(models[active][static_cast<size_t>(index)].value, target, active))
    {
      bridges.push_back(active == 0 ? Bridge{index, target_index} : Bridge{target_index, index});
    }
  };
  const auto commit = [&]
  {
    ModelTree& model = models[active];
    if (with_added) { PBT_CHECK("added-callback", pending.Done(), "announced ", pending.indices.size(), " of ", pending.values.size(), " new states"); }
    while (!pending.Done()) { connect(pending.Insert(model, nearest)); }
    pending = Pending();
  };
  const auto both = [&] (const Tree& s, const Tree& g)
  {
    CheckTree("start tree", s, models[0]);
    CheckTree("goal tree", g, models[1]);
  };

  const rrt::BiRRTTerminationCheckFunction terminate = [&] (const int64_t start_size, const int64_t goal_size)
  {
    PBT_CHECK("termination", !stopped, "asked again after termination was signalled");
    PBT_CHECK("order", stage == 0, "termination check in the middle of an iteration");
    PBT_CHECK("termination-size", start_size == static_cast<int64_t>(models[0].size()) && goal_size == static_cast<int64_t>(models[1].size()), "termination check got sizes ", start_size, " and ", goal_size, " for trees of ", models[0].size(), " and ", models[1].size());
    both(trees[0], trees[1]);
    stage = 1;
    stopped = iterations++ >= limit_calls || start_size + goal_size >= limit_size;
    return stopped;
  };
  const rrt::BiRRTSelectSampleTypeFunction<S, Tree> select_type = [&] (const Tree& s, const Tree& g, const Active a)
  {
    PBT_CHECK("termination", !stopped, "iterated after termination was signalled");
    PBT_CHECK("order", stage == 1, "sample type selected out of order");
    PBT_CHECK("active", is(a) == active, "sample type selected for the wrong active tree");
    if (single) { PBT_CHECK("single", bridges.empty(), "iterated although a solution had been found"); }
    both(s, g);
    active_iterations[active]++;
    stage = 2;
    type = tree_only || src.Bool() ? Type::TREE_SAMPLE : Type::STATE_SAMPLE;
    return type;
  };
  const rrt::SamplingFunction<S> sample = [&] ()
  {
    PBT_CHECK("order", stage == 2, "state sampled out of order");
    PBT_CHECK("sample-type", type == Type::STATE_SAMPLE, "state sampled although a tree sample was selected");
    stage = 3;
    samples++;
    target = w.NewState(src);
    target_index = -1;
    return target;
  };
  const rrt::BiRRTTreeSamplingFunction<S, Tree> tree_sample = [&] (const Tree& t, const Active a)
  {
    PBT_CHECK("order", stage == 2, "tree sampled out of order");
    PBT_CHECK("sample-type", type == Type::TREE_SAMPLE, "tree sampled although a state sample was selected");
    PBT_CHECK("active", is(a) == active, "tree sampled for the wrong active tree");
    CheckTree("target tree given to sampling function", t, models[1 - active]);
    stage = 3;
    samples++;
    target_index = src.Int(0, static_cast<int64_t>(models[1 - active].size()) - 1);
    target = models[1 - active][static_cast<size_t>(target_index)].value;
    return target_index;
  };
  const rrt::BiRRTNearestNeighborFunction<S, Tree> neighbor = [&] (const Tree& t, const S& s, const Active a)
  {
    PBT_CHECK("order", stage == 3, "nearest neighbor without a new sample");
    PBT_CHECK("active", is(a) == active, "neighbor asked in the wrong active tree");
    PBT_CHECK("sample", s == target, "neighbor asked for state ", s.id, " instead of ", target.id);
    CheckTree("active tree given to neighbor function", t, models[active]);
    stage = 4;
    nearest = src.Int(0, static_cast<int64_t>(models[active].size()) - 1);
    return nearest;
  };
  const rrt::BiRRTPropagationFunction<S> propagate = [&] (const S& from, const S& to, const Active a)
  {
    PBT_CHECK("order", stage == 4, "propagated without a nearest neighbor");
    PBT_CHECK("active", is(a) == active, "propagated for the wrong active tree");
    PBT_CHECK("sample", to == target, "propagated towards state ", to.id, " instead of ", target.id);
    PBT_CHECK("nearest", from == models[active][static_cast<size_t>(nearest)].value, "propagated from state ", from.id);
    stage = 5;
    pending = GenPropagation(w, src, bad, broken);
    (pending.states.empty() ? failures : successes)++;
    return pending.states;
  };
  rrt::BiRRTStateAddedCallbackFunction<S, Tree> added;
  if (with_added)
  {
    added = [&] (Tree& t, const int64_t index, const Active a)
    {
      PBT_CHECK("added-callback", is(a) == active && &t == &trees[active], "callback got another tree");
      PBT_CHECK("added-callback", stage == 5 && !pending.Done(), "callback for a state that was not propagated");
      const int64_t expected = pending.Insert(models[active], nearest);
      PBT_CHECK("added-callback", index == expected, "callback for index ", index, ", expected ", expected);
      const ModelNode& node = models[active][static_cast<size_t>(index)];
      PBT_CHECK("added-callback", t.Size() > index && t.GetNodeImmutable(index).GetValueImmutable() == node.value && t.GetNodeImmutable(index).GetParentIndex() == node.parent, "new state is not in the tree when it is announced");
      if (mutating && src.Bool(1, 3)) { ChangeTree(t, models[active], w, src, index, originals[active].size()); }
      connect(index);
    };
  }
  const rrt::BiRRTStatesConnectedFunction<S> connected = [&] (const S& from, const S& to, const Active a) { return w.Connected(from, to, is(a)); };
  rrt::BiRRTGoalBridgeCallbackFunction<S, Tree> bridge;
  if (with_bridge)
  {
    bridge = [&] (Tree& s, const int64_t start_index, Tree& g, const int64_t goal_index, const Active a)
    {
      PBT_CHECK("bridge-callback", &s == &trees[0] && &g == &trees[1] && is(a) == active, "callback got other trees");
      PBT_CHECK("bridge-callback", start_index >= 0 && start_index < s.Size() && goal_index >= 0 && goal_index < g.Size(), "callback for missing states ", start_index, " and ", goal_index);
      reported.push_back({start_index, goal_index});
      if (mutating && stage == 5 && src.Bool(1, 3))
      {
        const size_t t = src.Choose(1);
        Tree& changed = t == 0 ? s : g;
        if (t == active) { ChangeTree(changed, models[t], w, src, t == 0 ? start_index : goal_index, originals[t].size()); }
        else
        {
          // Values in the sampled tree stay as they are: which of them the rest of the propagation is compared with is left open.
          ModelNode extra;
          extra.value = w.NewState(src);
          extra.parent = src.Int(0, changed.Size() - 1);
          changed.AddNodeAndConnect(extra.value, extra.parent);
          models[t].push_back(extra);
        }
      }
    };
  }
  const rrt::BiRRTSelectActiveTreeFunction<S, Tree> select_tree = [&] (const Tree& s, const Tree& g, const Active a)
  {
    PBT_CHECK("order", stage == 5, "active tree selected out of order");
    PBT_CHECK("active", is(a) == active, "active tree is not the one last selected");
    commit();
    both(s, g);
    stage = 0;
    const size_t next = src.Bool() ? 1 - active : active;
    if (next != active) { swaps++; }
    active = next;
    return active == 0 ? Active::START_TREE : Active::GOAL_TREE;
  };

  std::vector<Container> paths;
  rrt::PlanningStatistics statistics;
  const auto plan = [&]
  {
    if (single)
    {
      const auto result = rrt::BiRRTPlanSinglePath<S, Tree, Container>(trees[0], trees[1], select_type, sample, tree_sample, neighbor, propagate, added, connected, bridge, select_tree, terminate);
      if (!result.Path().empty()) { paths.push_back(result.Path()); }
      statistics = result.Statistics();
    }
    else
    {
      const auto result = rrt::BiRRTPlanMultiPath<S, Tree, Container>(trees[0], trees[1], select_type, sample, tree_sample, neighbor, propagate, added, connected, bridge, select_tree, terminate);
      paths = result.Paths();
      statistics = result.Statistics();
    }
  };
  if (bad)
  {
    bool threw = false;
    try { plan(); }
    catch (const std::out_of_range&) { threw = true; }
    PBT_CHECK("bad-parent", threw == broken, broken ? "a propagated state with an impossible parent was accepted" : "threw for legal propagations");
    if (threw)
    {
      while (!pending.Done()) { pending.Insert(models[active], nearest); }
      both(trees[0], trees[1]);
      ctx.Nontrivial();
      return;
    }
  }
  else { plan(); }

  if (single) { PBT_CHECK("termination", stopped || !bridges.empty(), "planning stopped without a solution before termination was signalled"); }
  else { PBT_CHECK("termination", stopped, "planning stopped before termination was signalled"); }
  both(trees[0], trees[1]);
  if (with_bridge)
  {
    PBT_CHECK("bridge-callback", reported.size() == bridges.size(), reported.size(), " goal bridge callbacks for ", bridges.size(), " bridges");
    for (size_t i = 0; i < bridges.size(); i++)
    {
      PBT_CHECK("bridge-callback", reported[i].start == bridges[i].start && reported[i].goal == bridges[i].goal, "bridge ", i, " reported as ", reported[i].start, "-", reported[i].goal, ", expected ", bridges[i].start, "-", bridges[i].goal);
    }
  }
  std::vector<Path> expected;
  for (const Bridge& b : bridges)
  {
    Path path = Chain(models[0], b.start);
    Path rest = Chain(models[1], b.goal);
    path.insert(path.end(), rest.rbegin(), rest.rend());
    expected.push_back(path);
  }
  const int64_t solutions = static_cast<int64_t>(expected.size());
  if (single && expected.size() > 1) { expected.resize(1); }
  CheckPaths(paths, expected);
  CheckStat(statistics, "total_samples", samples);
  CheckStat(statistics, "successful_samples", successes);
  CheckStat(statistics, "failed_samples", failures);
  CheckStat(statistics, "active_tree_swaps", swaps);
  CheckStat(statistics, "start_tree_active_iterations", active_iterations[0]);
  CheckStat(statistics, "goal_tree_active_iterations", active_iterations[1]);
  CheckStat(statistics, "total_states", static_cast<int64_t>(models[0].size() + models[1].size()));
  CheckStat(statistics, "solutions", solutions);
  PBT_CHECK("statistics", statistics.at("planning_time") >= 0.0, "negative planning time");
  ctx.Label("several solutions", solutions > 1);
  ctx.Label("swapped", swaps > 0);
  if (successes >= 2 && solutions >= 1 && active_iterations[1] > 0) { ctx.Nontrivial(); }
}
}  // namespace

PROP(RRT, "at least two propagations succeeded and a goal was reached", 100000, 3000000)
{
  const bool single = src.Bool(1, 3);
  switch (src.Weighted({3, 1, 1}))
  {
    case 0: RunRrt<rrt::SimpleRRTPlannerTree<S>, std::vector<S>>(src, ctx, single, false); break;
    case 1: RunRrt<DequeTree, std::vector<S>>(src, ctx, single, false); break;
    default: RunRrt<rrt::SimpleRRTPlannerTree<S>, std::deque<S>>(src, ctx, single, false); break;
  }
}

PROP(BiRRT, "at least two propagations succeeded, the goal tree was active and the trees were connected", 100000, 3000000)
{
  const bool single = src.Bool(1, 3);
  switch (src.Weighted({3, 1, 1}))
  {
    case 0: RunBiRrt<rrt::SimpleRRTPlannerTree<S>, std::vector<S>>(src, ctx, single, false); break;
    case 1: RunBiRrt<DequeTree, std::vector<S>>(src, ctx, single, false); break;
    default: RunBiRrt<rrt::SimpleRRTPlannerTree<S>, std::deque<S>>(src, ctx, single, false); break;
  }
}

PROP(IllegalPropagation, "a propagation with an impossible parent was rejected", 30000, 500000)
{
  const bool single = src.Bool(1, 3);
  if (src.Bool()) { RunRrt<rrt::SimpleRRTPlannerTree<S>, std::vector<S>>(src, ctx, single, true); }
  else { RunBiRrt<rrt::SimpleRRTPlannerTree<S>, std::vector<S>>(src, ctx, single, true); }
}

PROP(NoStart, "always", 300, 2000)
{
  using Tree = rrt::SimpleRRTPlannerTree<S>;
  using Active = rrt::BiRRTActiveTreeType;
  World w;
  w.salt = src.AnyU64();
  ctx.Nontrivial();
  Tree trees[2];
  const auto never = [] { pbt::Fail("no-start", "a callback was called although a tree is empty"); };
  const bool bi = src.Bool();
  const bool single = src.Bool();
  ctx << (bi ? "bidirectional " : "single tree ") << (single ? "single" : "multi");
  bool threw = false;
  if (bi)
  {
    const size_t full = src.Choose(2);
    if (full < 2) { GenTree(trees[full], w, src, 1); }
    const rrt::BiRRTSelectSampleTypeFunction<S, Tree> a = [&] (const Tree&, const Tree&, const Active) { never(); return rrt::BiRRTSampleType::STATE_SAMPLE; };
    const rrt::SamplingFunction<S> b = [&] { never(); return S(); };
    const rrt::BiRRTTreeSamplingFunction<S, Tree> c = [&] (const Tree&, const Active) { never(); return int64_t(0); };
    const rrt::BiRRTNearestNeighborFunction<S, Tree> d = [&] (const Tree&, const S&, const Active) { never(); return int64_t(0); };
    const rrt::BiRRTPropagationFunction<S> e = [&] (const S&, const S&, const Active) { never(); return rrt::ForwardPropagation<S>(); };
    const rrt::BiRRTStatesConnectedFunction<S> f = [&] (const S&, const S&, const Active) { never(); return false; };
    const rrt::BiRRTSelectActiveTreeFunction<S, Tree> g = [&] (const Tree&, const Tree&, const Active) { never(); return Active::START_TREE; };
    const rrt::BiRRTTerminationCheckFunction h = [&] (const int64_t, const int64_t) { return true; };
    threw = pbt::ThrowsA<std::invalid_argument>([&]
    {
      if (single) { rrt::BiRRTPlanSinglePath<S, Tree>(trees[0], trees[1], a, b, c, d, e, {}, f, {}, g, h); }
      else { rrt::BiRRTPlanMultiPath<S, Tree>(trees[0], trees[1], a, b, c, d, e, {}, f, {}, g, h); }
    });
  }
  else
  {
    const rrt::SamplingFunction<S> b = [&] { never(); return S(); };
    const rrt::RRTNearestNeighborFunction<S, Tree, S> d = [&] (const Tree&, const S&) { never(); return int64_t(0); };
    const rrt::RRTForwardPropagationFunction<S, S> e = [&] (const S&, const S&) { never(); return rrt::ForwardPropagation<S>(); };
    const rrt::RRTCheckGoalReachedFunction<S> f = [&] (const S&) { never(); return false; };
    const rrt::RRTTerminationCheckFunction h = [&] (const int64_t) { return true; };
    threw = pbt::ThrowsA<std::invalid_argument>([&]
    {
      if (single) { rrt::RRTPlanSinglePath<S, Tree, S>(trees[0], b, d, e, {}, f, {}, h); }
      else { rrt::RRTPlanMultiPath<S, Tree, S>(trees[0], b, d, e, {}, f, {}, h); }
    });
  }
  PBT_CHECK("no-start", threw, "planning without a start or goal state was not rejected");
}

// A negative nearest neighbor index means there is none: planning ends and
// the trees keep what they have.
PROP(NoNeighbor, "some states were added before", 10000, 200000)
{
  using Tree = rrt::SimpleRRTPlannerTree<S>;
  using Active = rrt::BiRRTActiveTreeType;
  World w;
  w.salt = src.AnyU64();
  w.goals_of_16 = 0;
  w.connected_of_16 = 0;
  Tree trees[2];
  ModelTree models[2];
  models[0] = GenTree(trees[0], w, src, 1);
  models[1] = GenTree(trees[1], w, src, 1);
  const bool bi = src.Bool();
  const int64_t after = src.Int(0, 5);
  ctx << (bi ? "bidirectional" : "single tree") << " no neighbor at iteration " << after;
  int64_t calls = 0;
  bool gave_up = false;
  const auto negative = [&] { gave_up = true; return -src.Int(1, 100); };
  const auto alive = [&] { PBT_CHECK("no-neighbor", !gave_up, "planning went on without a nearest neighbor"); };
  try
  {
    if (bi)
    {
      const rrt::BiRRTSelectSampleTypeFunction<S, Tree> a = [&] (const Tree&, const Tree&, const Active) { alive(); return src.Bool() ? rrt::BiRRTSampleType::STATE_SAMPLE : rrt::BiRRTSampleType::TREE_SAMPLE; };
      const rrt::SamplingFunction<S> b = [&] { alive(); return w.NewState(src); };
      const rrt::BiRRTTreeSamplingFunction<S, Tree> c = [&] (const Tree& t, const Active) { alive(); return src.Int(0, t.Size() - 1); };
      const rrt::BiRRTNearestNeighborFunction<S, Tree> d = [&] (const Tree& t, const S&, const Active) { alive(); return calls++ == after ? negative() : src.Int(0, t.Size() - 1); };
      const rrt::BiRRTPropagationFunction<S> e = [&] (const S&, const S&, const Active active)
      {
        alive();
        const S s = w.NewState(src);
        models[active == Active::START_TREE ? 0 : 1].push_back({s, -2});
        return rrt::ForwardPropagation<S>{rrt::PropagatedState<S>(s, -1)};
      };
      const rrt::BiRRTStatesConnectedFunction<S> f = [&] (const S&, const S&, const Active) { alive(); return false; };
      const rrt::BiRRTSelectActiveTreeFunction<S, Tree> g = [&] (const Tree&, const Tree&, const Active) { alive(); return src.Bool() ? Active::START_TREE : Active::GOAL_TREE; };
      const rrt::BiRRTTerminationCheckFunction h = [&] (const int64_t, const int64_t) { return calls > 20; };
      rrt::BiRRTPlanMultiPath<S, Tree>(trees[0], trees[1], a, b, c, d, e, {}, f, {}, g, h);
    }
    else
    {
      const rrt::SamplingFunction<S> b = [&] { alive(); return w.NewState(src); };
      const rrt::RRTNearestNeighborFunction<S, Tree, S> d = [&] (const Tree& t, const S&) { alive(); return calls++ == after ? negative() : src.Int(0, t.Size() - 1); };
      const rrt::RRTForwardPropagationFunction<S, S> e = [&] (const S&, const S&)
      {
        alive();
        const S s = w.NewState(src);
        models[0].push_back({s, -2});
        return rrt::ForwardPropagation<S>{rrt::PropagatedState<S>(s, -1)};
      };
      const rrt::RRTCheckGoalReachedFunction<S> f = [&] (const S&) { alive(); return false; };
      const rrt::RRTTerminationCheckFunction h = [&] (const int64_t) { return calls > 20; };
      rrt::RRTPlanMultiPath<S, Tree, S>(trees[0], b, d, e, {}, f, {}, h);
    }
  }
  catch (const std::out_of_range&) {}
  for (size_t t = 0; t < 2; t++)
  {
    PBT_CHECK("no-neighbor", trees[t].Size() == static_cast<int64_t>(models[t].size()), "tree ", t, " has ", trees[t].Size(), " nodes, expected ", models[t].size());
    PBT_CHECK("no-neighbor", Tree::CheckNodeLinkage(trees[t].GetNodesImmutable()), "tree ", t, " is not well linked");
  }
  if (after > 0) { ctx.Nontrivial(); }
}
