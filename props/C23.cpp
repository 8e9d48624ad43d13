// C23 K-means clustering
// PBT-VARIANTS: plain asan tsan
// PBT-WORKERS: 4
#include "pbt.hpp"

#include <random>

#include <common_robotics_utilities/simple_kmeans_clustering.hpp>

namespace km = common_robotics_utilities::simple_kmeans_clustering;
namespace par = common_robotics_utilities::parallelism;

namespace
{
// Coordinates and weights are small integers, so that sums are exact whatever their order; a mean is one division.
struct Item
{
  int64_t id = -7;
  double x = 0.0;
  double y = 0.0;
};

using Items = std::vector<Item>;

double SquaredDistance(const Item& a, const Item& b) { return (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y); }

struct Averager
{
  const Items* data = nullptr;
  const std::vector<double>* weights = nullptr;
  Item nowhere;
  Item Mean(const Items& members, const std::vector<double>* member_weights) const
  {
    if (members.empty()) { return nowhere; }
    Item out;
    double total = 0.0;
    for (size_t i = 0; i < members.size(); i++)
    {
      const double w = member_weights ? member_weights->at(i) : 1.0;
      out.x += w * members[i].x;
      out.y += w * members[i].y;
      total += w;
    }
    out.x /= total;
    out.y /= total;
    out.id = -1;
    return out;
  }
};
}  // namespace

PROP_CONCURRENT(Cluster, "at least three clusters, each with an item, the largest with at least three", 40000, 1200000)
{
  const bool large = src.Bool(1, 4);
  // Items evenly along a line take many iterations to settle into many clusters.
  const bool line = src.Bool(1, 24);
  const size_t n = line ? src.Size(60, 300) : src.Size(0, large ? 150 : 25);
  // Powers of two leave all arithmetic exact.
  const double scale = src.Bool(2, 3) ? 1.0 : std::ldexp(1.0, static_cast<int>(src.Int(-60, 60)));
  const int64_t reach = src.Bool(1, 4) ? 3 : 30;
  const bool weighted = src.Bool();
  Items data;
  std::vector<double> weights;
  const double offset = src.Bool(1, 6) ? 0x1p30 : 0.0;
  for (size_t i = 0; i < n; i++)
  {
    if (line)
    {
      data.push_back({static_cast<int64_t>(i), scale * static_cast<double>(i), 0.0});
      weights.push_back(1.0);
      continue;
    }
    data.push_back({static_cast<int64_t>(i), scale * (offset + static_cast<double>(src.Int(-reach, reach))), scale * static_cast<double>(src.Int(-reach, reach))});
    weights.push_back(static_cast<double>(src.Int(1, 9)));
  }
  const int32_t k = line ? static_cast<int32_t>(src.Int(2, 24)) : src.Bool(1, 12) ? static_cast<int32_t>(src.Int(-2, 60)) : static_cast<int32_t>(src.Int(1, std::max<int64_t>(1, std::min<int64_t>(static_cast<int64_t>(n), 8))));
  const int64_t seed = src.Bool(1, 6) ? static_cast<int64_t>(src.AnyU64()) : src.Int(0, 100);
  const bool preliminary = src.Bool();
  const int32_t threads = static_cast<int32_t>(src.Int(1, 9));
  ctx << n << " items within " << reach << ", " << k << " clusters, seed " << seed << (weighted ? ", weighted" : "") << (preliminary ? ", preliminary" : "") << ", " << threads << " threads";

  Averager averager;
  averager.data = &data;
  averager.weights = &weights;
  averager.nowhere.x = src.Bool() ? scale * 1e6 : 0.0;
  averager.nowhere.y = averager.nowhere.x;

  // The averages asked for are over items of the data with their own weights, each item in at most one cluster at a time.
  std::function<double(const Item&, const Item&)> distance = SquaredDistance;
  int64_t rounds = 0;
  const auto run = [&] (const par::DegreeOfParallelism& d, const bool log)
  {
    std::atomic<int64_t> averages{0};
    const auto count = [&]
    {
      if (averages.fetch_add(1) == int64_t{2000} * std::max(k, 1)) { ctx.FailAsync("converges", "no convergence after 2000 iterations"); throw std::runtime_error("no convergence"); }
    };
    const auto check_members = [&] (const Items& members)
    {
      std::set<int64_t> ids;
      for (const Item& m : members)
      {
        const bool known = m.id >= 0 && static_cast<size_t>(m.id) < n && data[static_cast<size_t>(m.id)].x == m.x && data[static_cast<size_t>(m.id)].y == m.y;
        if (!known || !ids.insert(m.id).second) { ctx.FailAsync("members", "the average of something other than distinct items of the data was asked for"); }
      }
    };
    std::atomic<int64_t> lines{0};
    const common_robotics_utilities::utility::LoggingFunction logger = [&] (const std::string& text) { if (!text.empty()) { lines++; } };
    std::vector<int32_t> labels;
    if (weighted)
    {
      const std::function<Item(const Items&, const std::vector<double>&)> average = [&] (const Items& members, const std::vector<double>& member_weights)
      {
        count();
        check_members(members);
        if (members.size() != member_weights.size()) { ctx.FailAsync("members", "items and weights of different lengths"); return Item(); }
        for (size_t i = 0; i < members.size(); i++)
        {
          const size_t id = static_cast<size_t>(members[i].id);
          if (id < n && weights[id] != member_weights[i]) { ctx.FailAsync("weights", "an item was given another item's weight"); }
        }
        return averager.Mean(members, &member_weights);
      };
      labels = log ? km::ClusterWeighted<Item, Items>(data, weights, distance, average, k, seed, preliminary, d, logger)
                   : km::ClusterWeighted<Item, Items>(data, weights, distance, average, k, seed, preliminary, d);
    }
    else
    {
      const std::function<Item(const Items&)> average = [&] (const Items& members)
      {
        count();
        check_members(members);
        return averager.Mean(members, nullptr);
      };
      labels = log ? km::Cluster<Item, Items>(data, distance, average, k, seed, preliminary, d, logger)
                   : km::Cluster<Item, Items>(data, distance, average, k, seed, preliminary, d);
    }
    if (log && k > 1 && n > 0) { PBT_CHECK("log", lines > 0, "nothing was logged"); }
    rounds = averages / std::max(k, 1);
    return labels;
  };
  const auto serial = par::DegreeOfParallelism::None();
  const par::DegreeOfParallelism degree(threads);

  if (n == 0)
  {
    PBT_CHECK("empty", run(serial, false).empty() && run(degree, false).empty(), "labels for no items");
    return;
  }
  if (k <= 0 || k > static_cast<int64_t>(n))
  {
    PBT_CHECK("cluster-count", pbt::ThrowsA<std::exception>([&] { run(serial, false); }), k, " clusters of ", n, " items");
    PBT_CHECK("cluster-count", pbt::ThrowsA<std::exception>([&] { run(degree, false); }), k, " clusters of ", n, " items");
    return;
  }
  const std::vector<int32_t> labels = run(serial, src.Bool());
  PBT_CHECK("labels", labels.size() == n, labels.size(), " labels for ", n, " items");
  for (const int32_t label : labels) { PBT_CHECK("labels", label >= 0 && label < k, "label ", label, " of ", k, " clusters"); }
  // Every item is labelled with the cluster whose mean is nearest.
  std::vector<Items> members(static_cast<size_t>(k));
  std::vector<std::vector<double>> member_weights(static_cast<size_t>(k));
  for (size_t i = 0; i < n; i++)
  {
    members[static_cast<size_t>(labels[i])].push_back(data[i]);
    member_weights[static_cast<size_t>(labels[i])].push_back(weights[i]);
  }
  Items means;
  for (size_t c = 0; c < members.size(); c++) { means.push_back(averager.Mean(members[c], weighted ? &member_weights[c] : nullptr)); }
  if (k > 1)
  {
    for (size_t i = 0; i < n; i++)
    {
      const double own = SquaredDistance(data[i], means[static_cast<size_t>(labels[i])]);
      for (size_t c = 0; c < means.size(); c++)
      {
        const double other = SquaredDistance(data[i], means[c]);
        PBT_CHECK("nearest", !(other < own), "item ", i, " at ", data[i].x, ",", data[i].y, " is labelled ", labels[i], " at squared distance ", own, ", cluster ", c, " is at ", other);
      }
    }
  }
  PBT_CHECK("deterministic", run(serial, src.Bool()) == labels, "the same call gave other labels");
  PBT_CHECK("parallel", run(degree, src.Bool()) == labels, threads, " threads gave other labels");

  // Without preliminary clustering, the first centres are distinct items of the data.
  if (k > 1 && !preliminary)
  {
    std::set<int64_t> lefts;
    std::set<int64_t> rights;
    bool averaged = false;
    distance = [&] (const Item& a, const Item& b)
    {
      if (a.id < 0 || b.id < 0) { averaged = true; }
      if (!averaged) { lefts.insert(a.id); rights.insert(b.id); }
      return SquaredDistance(a, b);
    };
    run(serial, false);
    distance = SquaredDistance;
    PBT_CHECK("initial-centres", std::min(lefts.size(), rights.size()) == static_cast<size_t>(k) && std::max(lefts.size(), rights.size()) == n,
              "the first iteration compared ", lefts.size(), " with ", rights.size(), " items, there are ", n, " items and ", k, " clusters");
  }

  // The steps clustering consists of.
  if (k > 1 && src.Bool(1, 3))
  {
    const auto again = km::PerformSingleClusteringIteration<Item, Items>(data, means, distance, degree);
    PBT_CHECK("step", again.size() == n, "labels of one step");
    for (size_t i = 0; i < n; i++)
    {
      const double own = SquaredDistance(data[i], means[static_cast<size_t>(again[i])]);
      for (const Item& mean : means) { PBT_CHECK("step", !(SquaredDistance(data[i], mean) < own), "item ", i, " is not labelled with the nearest centre"); }
    }
    const std::function<Item(const Items&, const std::vector<double>&)> average = [&] (const Items& m, const std::vector<double>& w) { return averager.Mean(m, &w); };
    const Items centers = km::ComputeClusterCentersWeighted<Item, Items>(data, weights, labels, average, k, degree);
    PBT_CHECK("centers", centers.size() == static_cast<size_t>(k), centers.size(), " centres of ", k, " clusters");
    for (size_t c = 0; c < centers.size(); c++)
    {
      const Item expected = averager.Mean(members[c], &member_weights[c]);
      PBT_CHECK("centers", centers[c].x == expected.x && centers[c].y == expected.y, "centre of cluster ", c);
    }
    std::vector<int32_t> short_labels = labels;
    short_labels.pop_back();
    PBT_CHECK("mismatch", pbt::ThrowsA<std::invalid_argument>([&] { km::ComputeClusterCentersWeighted<Item, Items>(data, weights, short_labels, average, k, degree); }), "labels missing");
    PBT_CHECK("mismatch", pbt::ThrowsA<std::invalid_argument>([&] { km::CheckForConvergence(short_labels, labels); }), "labels missing");
    PBT_CHECK("convergence", km::CheckForConvergence(labels, labels), "equal labels have not converged");
    std::vector<int32_t> changed = labels;
    changed[src.Choose(n - 1)]++;
    PBT_CHECK("convergence", !km::CheckForConvergence(labels, changed) && !km::CheckForConvergence(changed, labels), "different labels have converged");
    if (weighted)
    {
      std::vector<double> short_weights = weights;
      short_weights.pop_back();
      PBT_CHECK("mismatch", pbt::ThrowsA<std::exception>([&] { km::ClusterWeighted<Item, Items>(data, short_weights, distance, average, k, seed, preliminary, degree); }), "weights missing");
    }
  }
  size_t largest = 0;
  size_t smallest = n;
  for (const auto& m : members) { largest = std::max(largest, m.size()); smallest = std::min(smallest, m.size()); }
  ctx.Label("preliminary clustering", preliminary && std::ceil(static_cast<double>(n) * 0.125) >= k * 5 && k > 1);
  ctx.Label("a cluster without items", smallest == 0);
  ctx.Label("more than 10 iterations", rounds > 10);
  ctx.Label("more than 50 iterations", rounds > 50);
  ctx.Label("more than 100 iterations", rounds > 100);
  if (k >= 3 && smallest >= 1 && largest >= 3) { ctx.Nontrivial(); }
}

// Many items along a line take many iterations to settle.
PROP_CONCURRENT(SlowConvergence, "more than 50 iterations are needed", 150, 5000)
{
  const size_t n = static_cast<size_t>(src.Int(500, 2200));
  const int32_t k = static_cast<int32_t>(src.Int(10, 24));
  const int64_t seed = src.Int(0, 1000000);
  const double scale = std::ldexp(1.0, static_cast<int>(src.Int(-40, 40)));
  const bool skewed = src.Bool();
  const par::DegreeOfParallelism degree(static_cast<int32_t>(src.Int(1, 4)));
  std::vector<double> data;
  for (size_t i = 0; i < n; i++) { data.push_back(scale * (skewed ? static_cast<double>(i) * static_cast<double>(i) : static_cast<double>(i))); }
  ctx << n << (skewed ? " squares, " : " items on a line, ") << k << " clusters, seed " << seed << ", scale " << scale;
  std::atomic<int64_t> averages{0};
  const std::function<double(const double&, const double&)> distance = [] (const double& a, const double& b) { return std::abs(a - b); };
  const auto mean = [] (const std::vector<double>& members)
  {
    double sum = 0.0;
    for (const double x : members) { sum += x; }
    return members.empty() ? -1.0 : sum / static_cast<double>(members.size());
  };
  const std::function<double(const std::vector<double>&)> average = [&] (const std::vector<double>& members) { averages++; return mean(members); };
  const auto labels = km::Cluster<double>(data, distance, average, k, seed, src.Bool(1, 4), degree);
  PBT_CHECK("labels", labels.size() == n, labels.size(), " labels for ", n, " items");
  std::vector<std::vector<double>> members(static_cast<size_t>(k));
  for (size_t i = 0; i < n; i++)
  {
    PBT_CHECK("labels", labels[i] >= 0 && labels[i] < k, "label ", labels[i]);
    members[static_cast<size_t>(labels[i])].push_back(data[i]);
  }
  std::vector<double> means;
  for (const auto& m : members) { means.push_back(mean(m)); }
  for (size_t i = 0; i < n; i++)
  {
    const double own = std::abs(data[i] - means[static_cast<size_t>(labels[i])]);
    for (const double other : means) { PBT_CHECK("nearest", !(std::abs(data[i] - other) < own), "item ", i, " is ", own, " from the mean of its cluster, ", std::abs(data[i] - other), " from another after ", averages / k, " iterations"); }
  }
  ctx.Nontrivial(averages / k > 50);
  ctx.Label("more than 100 iterations", averages / k > 100);
  ctx.Label("more than 200 iterations", averages / k > 200);
}

// Very many items or clusters.
PROP_CONCURRENT(LargeData, "more than 100 clusters or 30000 items", 300, 5000)
{
  const bool wide = src.Bool(1, 3);
  const size_t n = static_cast<size_t>(wide ? src.Int(33000, 70000) : src.Int(1000, 4000));
  const int32_t k = static_cast<int32_t>(wide ? src.Int(2, 5) : src.Bool() ? src.Int(2, 60) : src.Int(120, 400));
  const bool weighted = src.Bool();
  const bool preliminary = src.Bool();
  const int64_t seed = src.Int(0, 1000000);
  const int64_t reach = src.Bool() ? 20 : 3000;
  std::mt19937_64 random(src.AnyU64());
  Items data;
  std::vector<double> weights;
  for (size_t i = 0; i < n; i++)
  {
    data.push_back({static_cast<int64_t>(i), static_cast<double>(static_cast<int64_t>(random() % static_cast<uint64_t>(reach))), static_cast<double>(random() % 7)});
    weights.push_back(weighted ? static_cast<double>(1 + random() % 9) : 1.0);
  }
  const par::DegreeOfParallelism degree(static_cast<int32_t>(src.Bool() ? src.Int(2, 8) : src.Int(9, 40)));
  ctx << n << " items within " << reach << ", " << k << " clusters, seed " << seed << (weighted ? ", weighted" : "") << (preliminary ? ", preliminary" : "") << ", " << degree.GetNumThreads() << " threads";
  Averager averager;
  const std::function<Item(const Items&, const std::vector<double>&)> weighted_average = [&] (const Items& members, const std::vector<double>& w) { return averager.Mean(members, &w); };
  const std::function<Item(const Items&)> average = [&] (const Items& members) { return averager.Mean(members, nullptr); };
  const std::function<double(const Item&, const Item&)> distance = SquaredDistance;
  const auto run = [&] (const par::DegreeOfParallelism& d)
  {
    return weighted ? km::ClusterWeighted<Item, Items>(data, weights, distance, weighted_average, k, seed, preliminary, d)
                    : km::Cluster<Item, Items>(data, distance, average, k, seed, preliminary, d);
  };
  const auto labels = run(degree);
  PBT_CHECK("labels", labels.size() == n, labels.size(), " labels for ", n, " items");
  std::vector<Items> members(static_cast<size_t>(k));
  std::vector<std::vector<double>> member_weights(static_cast<size_t>(k));
  for (size_t i = 0; i < n; i++)
  {
    PBT_CHECK("labels", labels[i] >= 0 && labels[i] < k, "label ", labels[i], " of ", k, " clusters");
    members[static_cast<size_t>(labels[i])].push_back(data[i]);
    member_weights[static_cast<size_t>(labels[i])].push_back(weights[i]);
  }
  Items means;
  for (size_t c = 0; c < members.size(); c++) { means.push_back(averager.Mean(members[c], &member_weights[c])); }
  for (size_t i = 0; i < n; i++)
  {
    const double own = SquaredDistance(data[i], means[static_cast<size_t>(labels[i])]);
    for (const Item& mean : means) { PBT_CHECK("nearest", !(SquaredDistance(data[i], mean) < own), "item ", i, " is labelled ", labels[i], " but nearer to another mean"); }
  }
  PBT_CHECK("parallel", run(par::DegreeOfParallelism::None()) == labels, degree.GetNumThreads(), " threads gave other labels than one");
  ctx.Nontrivial(k > 100 || n > 30000);
}

namespace
{
const bool kKnown = [] {
  pbt::KnownRegistry().push_back({"K-means asks the averaging function for the mean of an empty cluster (items 0 0 0 1 in two clusters, seeds 0 to 15)", [] {
    const Items data = {{0, 0, 0}, {1, 0, 0}, {2, 0, 0}, {3, 1, 1}};
    const std::function<Item(const Items&)> average = [] (const Items& members)
    {
      if (members.empty()) { throw std::invalid_argument("the mean of nothing"); }
      return members.front();
    };
    for (int64_t seed = 0; seed < 16; seed++)
    {
      try { km::Cluster<Item, Items>(data, std::function<double(const Item&, const Item&)>(SquaredDistance), average, 2, seed, false, par::DegreeOfParallelism::None()); }
      catch (const std::invalid_argument&) { return true; }
    }
    return false;
  }});
  return true;
}();
}  // namespace
