// C22 Hierarchical clustering
// PBT-VARIANTS: plain asan tsan
// PBT-WORKERS: 4
#include "pbt.hpp"

#include <random>

#include <common_robotics_utilities/math.hpp>
#include <common_robotics_utilities/simple_hierarchical_clustering.hpp>

namespace hc = common_robotics_utilities::simple_hierarchical_clustering;
namespace par = common_robotics_utilities::parallelism;
using common_robotics_utilities::math::BuildPairwiseDistanceMatrix;

namespace
{
struct Item { int64_t id; int64_t x; int64_t y; };

using Clusters = std::vector<std::vector<int64_t>>;

struct Metric
{
  uint64_t style = 0;
  uint64_t salt = 0;
  double operator()(const Item& a, const Item& b) const
  {
    const int64_t lo = std::min(a.id, b.id);
    const int64_t hi = std::max(a.id, b.id);
    const uint64_t h = pbt::Mix(salt + static_cast<uint64_t>(lo) * 1009u + static_cast<uint64_t>(hi));
    if (lo == hi) { return 0.0; }
    switch (style)
    {
      case 0: return static_cast<double>(std::abs(a.x - b.x) + std::abs(a.y - b.y));
      case 1: return static_cast<double>(h % 4);
      case 2: return static_cast<double>(h % 100000);
      case 3: return static_cast<double>(std::abs(a.x - b.x));
      case 4: return 1.0;
      case 5: return 0.0;
      case 6: return std::hypot(static_cast<double>(a.x - b.x), static_cast<double>(a.y - b.y));
      case 7: return static_cast<double>(h % 9) * 0x1p-1074;
      case 8: return 0x1p40 + static_cast<double>(h % 60);
      default: return (h % 6 == 0) ? std::numeric_limits<double>::infinity() : static_cast<double>(h % 30);
    }
  }
};

Clusters Canonical(Clusters clusters)
{
  for (auto& c : clusters) { std::sort(c.begin(), c.end()); }
  std::sort(clusters.begin(), clusters.end());
  return clusters;
}

std::string Text(const Clusters& clusters)
{
  std::string out;
  for (const auto& c : clusters)
  {
    out += "{";
    for (const int64_t e : c) { out += std::to_string(e) + " "; }
    out += "}";
  }
  return out;
}

// Every item in exactly one, nonempty, cluster.
void CheckPartition(const Clusters& clusters, const size_t n, const std::string& form)
{
  std::vector<int> seen(n, 0);
  for (const auto& c : clusters)
  {
    PBT_CHECK("partition", !c.empty(), form, ": an empty cluster in ", Text(clusters));
    for (const int64_t e : c)
    {
      PBT_CHECK("partition", e >= 0 && static_cast<size_t>(e) < n, form, ": index ", e, " of ", n, " items");
      seen[static_cast<size_t>(e)]++;
    }
  }
  for (size_t i = 0; i < n; i++) { PBT_CHECK("partition", seen[i] == 1, form, ": item ", i, " is in ", seen[i], " clusters"); }
}

// Connected components under the bound, and the largest join of the spanning forest (found by sorted union).
std::pair<Clusters, double> Components(const Eigen::MatrixXd& d, const double bound)
{
  const size_t n = static_cast<size_t>(d.rows());
  std::vector<size_t> parent(n);
  for (size_t i = 0; i < n; i++) { parent[i] = i; }
  const std::function<size_t(size_t)> root = [&] (size_t i) { while (parent[i] != i) { i = parent[i]; } return i; };
  std::vector<std::tuple<double, size_t, size_t>> edges;
  for (size_t i = 0; i < n; i++)
  {
    for (size_t j = i + 1; j < n; j++)
    {
      const double v = d(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j));
      if (v <= bound) { edges.emplace_back(v, i, j); }
    }
  }
  std::sort(edges.begin(), edges.end());
  double last = 0.0;
  for (const auto& [v, i, j] : edges)
  {
    if (root(i) != root(j)) { last = v; parent[root(j)] = root(i); }
  }
  std::map<size_t, std::vector<int64_t>> by_root;
  for (size_t i = 0; i < n; i++) { by_root[root(i)].push_back(static_cast<int64_t>(i)); }
  Clusters out;
  for (auto& entry : by_root) { out.push_back(entry.second); }
  return {Canonical(out), last};
}

double Diameter(const Eigen::MatrixXd& d, const std::vector<int64_t>& a, const std::vector<int64_t>& b)
{
  double out = 0.0;
  for (const int64_t i : a)
  {
    for (const int64_t j : b) { if (i != j) { out = std::max(out, d(i, j)); } }
  }
  return out;
}

// Greedy agglomeration by complete linkage when no two candidate joins tie, so that the clusters are determined.
bool Greedy(const Eigen::MatrixXd& d, const double bound, Clusters& out)
{
  out.clear();
  const size_t n = static_cast<size_t>(d.rows());
  std::vector<std::vector<double>> apart(n, std::vector<double>(n, 0.0));
  for (size_t i = 0; i < n; i++)
  {
    out.push_back({static_cast<int64_t>(i)});
    for (size_t j = 0; j < n; j++) { apart[i][j] = Diameter(d, {static_cast<int64_t>(i)}, {static_cast<int64_t>(j)}); }
  }
  while (true)
  {
    double best = std::numeric_limits<double>::infinity();
    size_t a = 0;
    size_t b = 0;
    bool tie = false;
    for (size_t i = 0; i < n; i++)
    {
      if (out[i].empty()) { continue; }
      for (size_t j = i + 1; j < n; j++)
      {
        if (out[j].empty()) { continue; }
        const double v = apart[i][j];
        if (v < best) { best = v; a = i; b = j; tie = false; }
        else if (v == best) { tie = true; }
      }
    }
    if (!(best <= bound) || a == b) { break; }
    if (tie) { return false; }
    out[a].insert(out[a].end(), out[b].begin(), out[b].end());
    out[b].clear();
    for (size_t i = 0; i < n; i++)
    {
      apart[a][i] = std::max(apart[a][i], apart[b][i]);
      apart[i][a] = apart[a][i];
    }
  }
  out.erase(std::remove_if(out.begin(), out.end(), [] (const std::vector<int64_t>& c) { return c.empty(); }), out.end());
  return true;
}
}  // namespace

PROP_CONCURRENT(Cluster, "there are at least two clusters, one of which has at least three items", 12000, 400000)
{
  Metric metric;
  metric.style = src.Choose(9);
  metric.salt = src.AnyU64();
  const size_t n = src.Size(0, src.Bool(1, 40) ? 120 : src.Bool(1, 5) ? 40 : 14);
  const int64_t reach = src.Int(1, 12);
  std::vector<Item> items;
  for (size_t i = 0; i < n; i++) { items.push_back({static_cast<int64_t>(i), src.Int(-reach, reach), src.Int(-reach, reach)}); }
  const hc::ClusterStrategy strategy = src.Bool() ? hc::ClusterStrategy::SINGLE_LINK : hc::ClusterStrategy::COMPLETE_LINK;
  const bool single = strategy == hc::ClusterStrategy::SINGLE_LINK;
  const int32_t threads = static_cast<int32_t>(src.Int(1, 9));
  const par::DegreeOfParallelism degree(threads);
  const auto serial = par::DegreeOfParallelism::None();
  const std::function<double(const Item&, const Item&)> distance = metric;

  Eigen::MatrixXd matrix(static_cast<Eigen::Index>(n), static_cast<Eigen::Index>(n));
  for (size_t i = 0; i < n; i++)
  {
    for (size_t j = 0; j < n; j++) { matrix(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)) = metric(items[i], items[j]); }
  }
  for (const auto& d : {serial, degree})
  {
    const Eigen::MatrixXd built = BuildPairwiseDistanceMatrix<Item>(items, distance, d);
    PBT_CHECK("matrix", built.rows() == matrix.rows() && built.cols() == matrix.cols() && (n == 0 || (built.array() == matrix.array()).all()), "the distance matrix differs from the distances");
  }

  double bound = 0.0;
  switch (src.Weighted({6, 1, 1, 1, 1}))
  {
    case 0:
      // At or next to one of the distances.
      if (n > 0)
      {
        bound = matrix(static_cast<Eigen::Index>(src.Choose(n - 1)), static_cast<Eigen::Index>(src.Choose(n - 1)));
        const uint64_t nudge = src.Choose(2);
        if (nudge == 1 && std::isfinite(bound)) { bound = std::nextafter(bound, -1.0); }
        if (nudge == 2) { bound = std::nextafter(bound, std::numeric_limits<double>::infinity()); }
        if (!std::isfinite(bound)) { bound = std::numeric_limits<double>::max(); }
      }
      break;
    case 1: bound = static_cast<double>(src.Int(0, 30)); break;
    case 2: bound = -1.0; break;
    case 3: bound = 0.0; break;
    default: bound = std::numeric_limits<double>::max(); break;
  }
  ctx << n << " items, distance " << metric.style << ", " << (single ? "single" : "complete") << " link, bound " << bound << ", " << threads << " threads";

  if (n == 0)
  {
    for (const auto& d : {serial, degree})
    {
      PBT_CHECK("empty", pbt::ThrowsA<std::invalid_argument>([&] { hc::Cluster<Item>(items, distance, bound, strategy, d); }), "no items were clustered");
      PBT_CHECK("empty", pbt::ThrowsA<std::invalid_argument>([&] { hc::IndexCluster<Item>(items, distance, bound, strategy, d); }), "no items were clustered");
      PBT_CHECK("empty", pbt::ThrowsA<std::invalid_argument>([&] { hc::IndexClusterWithDistanceMatrix(matrix, bound, strategy, d); }), "no items were clustered");
      PBT_CHECK("empty", pbt::ThrowsA<std::invalid_argument>([&] { hc::ClusterWithDistanceMatrix<Item>(items, matrix, bound, strategy, d); }), "no items were clustered");
    }
    return;
  }

  const auto reference = hc::IndexClusterWithDistanceMatrix(matrix, bound, strategy, serial);
  const Clusters clusters = Canonical(reference.Clusters());
  CheckPartition(clusters, n, "serial");
  const double spacing = reference.FinalClosestDistance();
  if (single)
  {
    const auto expected = Components(matrix, bound);
    PBT_CHECK("single-link", clusters == expected.first, "clusters ", Text(clusters), ", connected components ", Text(expected.first));
    PBT_CHECK("final-distance", spacing == expected.second, "last join reported at ", spacing, ", it was at ", expected.second);
  }
  else
  {
    double widest = 0.0;
    for (const auto& c : clusters)
    {
      const double diameter = Diameter(matrix, c, c);
      PBT_CHECK("complete-link", c.size() == 1 || diameter <= bound, "a cluster of ", Text(clusters), " is ", diameter, " wide, the bound is ", bound);
      widest = std::max(widest, diameter);
    }
    for (size_t i = 0; i < clusters.size(); i++)
    {
      for (size_t j = i + 1; j < clusters.size(); j++)
      {
        const double joined = Diameter(matrix, clusters[i], clusters[j]);
        PBT_CHECK("complete-link", !(joined <= bound), "clusters ", i, " and ", j, " of ", Text(clusters), " could be joined at ", joined, ", the bound is ", bound);
      }
    }
    PBT_CHECK("final-distance", spacing == widest, "last join reported at ", spacing, ", the widest cluster is ", widest);
    Clusters greedy;
    if (Greedy(matrix, bound, greedy))
    {
      PBT_CHECK("agglomeration", clusters == Canonical(greedy), "clusters ", Text(clusters), ", joining the closest first gives ", Text(Canonical(greedy)));
      ctx.Label("complete link without ties", clusters.size() < n);
    }
  }

  for (const auto& d : {serial, degree})
  {
    const std::string form = d.IsParallel() ? std::to_string(threads) + " threads" : "serial";
    const auto by_matrix = hc::IndexClusterWithDistanceMatrix(matrix, bound, strategy, d);
    PBT_CHECK("forms", Canonical(by_matrix.Clusters()) == clusters, "by matrix, ", form, ": ", Text(by_matrix.Clusters()), ", serial: ", Text(clusters));
    PBT_CHECK("forms", by_matrix.FinalClosestDistance() == spacing, "by matrix, ", form, ": last join at ", by_matrix.FinalClosestDistance(), ", serial ", spacing);
    const auto by_function = hc::IndexCluster<Item>(items, distance, bound, strategy, d);
    PBT_CHECK("forms", Canonical(by_function.Clusters()) == clusters, "by function, ", form, ": ", Text(by_function.Clusters()), ", serial: ", Text(clusters));
    PBT_CHECK("forms", by_function.FinalClosestDistance() == spacing, "by function, ", form, ": last join at ", by_function.FinalClosestDistance(), ", serial ", spacing);
    const auto check_items = [&] (const std::vector<std::vector<Item>>& groups, const double last, const char* name)
    {
      Clusters ids;
      for (const auto& group : groups)
      {
        ids.emplace_back();
        for (const Item& item : group)
        {
          ids.back().push_back(item.id);
          PBT_CHECK("items", item.id >= 0 && static_cast<size_t>(item.id) < n && items[static_cast<size_t>(item.id)].x == item.x && items[static_cast<size_t>(item.id)].y == item.y, "an item was changed");
        }
      }
      PBT_CHECK("forms", Canonical(ids) == clusters, name, ", ", form, ": ", Text(ids), ", serial by index: ", Text(clusters));
      PBT_CHECK("forms", last == spacing, name, ", ", form, ": last join at ", last, ", serial by index ", spacing);
    };
    const auto element = hc::Cluster<Item>(items, distance, bound, strategy, d);
    check_items(element.Clusters(), element.FinalClosestDistance(), "items by function");
    const auto element_matrix = hc::ClusterWithDistanceMatrix<Item>(items, matrix, bound, strategy, d);
    check_items(element_matrix.Clusters(), element_matrix.FinalClosestDistance(), "items by matrix");
  }

  if (src.Bool(1, 6))
  {
    const Eigen::Index rows = src.Bool() ? matrix.rows() : src.Int(0, 20);
    const Eigen::Index cols = src.Bool() ? matrix.cols() : src.Int(0, 20);
    const Eigen::MatrixXd wrong = Eigen::MatrixXd::Ones(rows, cols);
    if (rows != matrix.rows() || cols != matrix.cols())
    {
      PBT_CHECK("matrix-size", pbt::ThrowsA<std::invalid_argument>([&] { hc::ClusterWithDistanceMatrix<Item>(items, wrong, bound, strategy, degree); }), "a ", rows, "x", cols, " matrix was accepted for ", n, " items");
    }
    if (rows != cols)
    {
      PBT_CHECK("matrix-size", pbt::ThrowsA<std::invalid_argument>([&] { hc::IndexClusterWithDistanceMatrix(wrong, bound, strategy, degree); }), "a ", rows, "x", cols, " matrix was accepted");
    }
  }
  size_t largest = 0;
  for (const auto& c : clusters) { largest = std::max(largest, c.size()); }
  if (clusters.size() >= 2 && largest >= 3) { ctx.Nontrivial(); }
}

// Many items: too many for indices of few bits or for short cuts that only hold for few clusters.
PROP_CONCURRENT(LargeSets, "there are at least two clusters, one of which has at least three items", 300, 6000)
{
  const hc::ClusterStrategy strategy = src.Bool() ? hc::ClusterStrategy::SINGLE_LINK : hc::ClusterStrategy::COMPLETE_LINK;
  const bool single = strategy == hc::ClusterStrategy::SINGLE_LINK;
  const size_t n = static_cast<size_t>(src.Int(130, src.Bool(1, 4) ? 420 : 280));
  std::mt19937_64 random(src.AnyU64());
  // Distances without ties, or coarse ones with very many.
  const bool coarse = src.Bool(1, 3);
  const double clumps = static_cast<double>(src.Int(1, 40));
  std::vector<Item> items;
  Eigen::MatrixXd matrix(static_cast<Eigen::Index>(n), static_cast<Eigen::Index>(n));
  std::vector<double> x;
  for (size_t i = 0; i < n; i++)
  {
    items.push_back({static_cast<int64_t>(i), 0, 0});
    x.push_back(std::floor(static_cast<double>(random() % 1000) / 1000.0 * clumps) * 100.0 + static_cast<double>(random() % 1000) / 100.0);
  }
  for (size_t i = 0; i < n; i++)
  {
    for (size_t j = 0; j <= i; j++)
    {
      double v = i == j ? 0.0 : std::abs(x[i] - x[j]) + (coarse ? 0.0 : 1e-3 * static_cast<double>(random() % (1u << 30)) / (1u << 30));
      if (coarse) { v = std::floor(v); }
      matrix(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)) = v;
      matrix(static_cast<Eigen::Index>(j), static_cast<Eigen::Index>(i)) = v;
    }
  }
  const double bound = src.Pick(std::vector<double>{12.0, 0.5, 3.0, 100.0, 350.0, 1e9});
  const par::DegreeOfParallelism degree(static_cast<int32_t>(src.Bool() ? src.Int(2, 8) : src.Int(9, 40)));
  ctx << n << " items in " << clumps << " clumps" << (coarse ? ", coarse, " : ", ") << (single ? "single" : "complete") << " link, bound " << bound << ", " << degree.GetNumThreads() << " threads";
  const std::function<double(const Item&, const Item&)> distance = [&] (const Item& a, const Item& b) { return matrix(a.id, b.id); };
  const auto result = src.Bool() ? hc::IndexClusterWithDistanceMatrix(matrix, bound, strategy, degree) : hc::IndexCluster<Item>(items, distance, bound, strategy, degree);
  const Clusters clusters = Canonical(result.Clusters());
  CheckPartition(clusters, n, "parallel");
  if (single)
  {
    const auto expected = Components(matrix, bound);
    PBT_CHECK("single-link", clusters == expected.first, "clusters ", Text(clusters), ", connected components ", Text(expected.first));
    PBT_CHECK("final-distance", result.FinalClosestDistance() == expected.second, "last join reported at ", result.FinalClosestDistance(), ", it was at ", expected.second);
  }
  else
  {
    double widest = 0.0;
    for (const auto& c : clusters) { widest = std::max(widest, Diameter(matrix, c, c)); }
    PBT_CHECK("complete-link", widest <= bound, "a cluster is ", widest, " wide, the bound is ", bound);
    for (size_t i = 0; i < clusters.size(); i++)
    {
      for (size_t j = i + 1; j < clusters.size(); j++) { PBT_CHECK("complete-link", !(Diameter(matrix, clusters[i], clusters[j]) <= bound), "clusters ", i, " and ", j, " could be joined"); }
    }
    PBT_CHECK("final-distance", result.FinalClosestDistance() == widest, "last join reported at ", result.FinalClosestDistance(), ", the widest cluster is ", widest);
    Clusters greedy;
    if (Greedy(matrix, bound, greedy))
    {
      PBT_CHECK("agglomeration", clusters == Canonical(greedy), "clusters ", Text(clusters), ", joining the closest first gives ", Text(Canonical(greedy)));
      ctx.Label("complete link without ties");
    }
  }
  const auto serial = hc::ClusterWithDistanceMatrix<Item>(items, matrix, bound, strategy, par::DegreeOfParallelism::None());
  Clusters ids;
  for (const auto& group : serial.Clusters()) { ids.emplace_back(); for (const Item& item : group) { ids.back().push_back(item.id); } }
  PBT_CHECK("forms", Canonical(ids) == clusters && serial.FinalClosestDistance() == result.FinalClosestDistance(), "items in serial: ", Text(ids), ", indices in parallel: ", Text(clusters));
  size_t largest = 0;
  for (const auto& c : clusters) { largest = std::max(largest, c.size()); }
  if (clusters.size() >= 2 && largest >= 3) { ctx.Nontrivial(); }
}
