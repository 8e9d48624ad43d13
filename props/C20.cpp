// C20 Hausdorff distance
// PBT-VARIANTS: plain asan tsan
// PBT-WORKERS: 4
#include "pbt.hpp"

#include <random>

#include <deque>

#include <common_robotics_utilities/simple_hausdorff_distance.hpp>

namespace hd = common_robotics_utilities::simple_hausdorff_distance;
namespace par = common_robotics_utilities::parallelism;

namespace
{
struct A { double x; };
struct B { double x; };

struct Metric
{
  uint64_t style = 0;
  uint64_t salt = 0;
  double operator()(const A& a, const B& b) const
  {
    switch (style)
    {
      case 0: return std::abs(a.x - b.x);
      case 1: return std::floor(std::abs(a.x - b.x) / 4.0);
      case 2: return std::max(0.0, a.x - b.x);  // not symmetric, zero for different elements
      case 3: return 0.0;
      case 4: return static_cast<double>(pbt::Mix(salt + static_cast<uint64_t>(static_cast<int64_t>(a.x * 64.0)) * 1009u + static_cast<uint64_t>(static_cast<int64_t>(b.x * 64.0))) % 50);
      case 5: return (pbt::Mix(salt + static_cast<uint64_t>(static_cast<int64_t>(b.x))) % 3 == 0) ? std::numeric_limits<double>::infinity() : std::abs(a.x - b.x);
      case 6: return std::numeric_limits<double>::infinity();
      case 7: return std::abs(a.x - b.x) * 1e-318;
      case 8: return std::abs(a.x - b.x) * 1e300;
      default: return 1e9 + std::floor(std::abs(a.x - b.x));
    }
  }
};

template<typename First, typename Second>
void Run(pbt::Src& src, pbt::Ctx& ctx)
{
  Metric metric;
  metric.style = src.Choose(9);
  metric.salt = src.AnyU64();
  const bool lattice = src.Bool();
  const auto value = [&] { return lattice ? static_cast<double>(src.Int(-6, 6)) : src.Real(-100.0, 100.0); };
  First first;
  Second second;
  const size_t n = src.Size(0, src.Bool(1, 40) ? 300 : 40);
  for (size_t i = 0; i < n; i++) { first.push_back({value()}); }
  const size_t m = src.Size(0, src.Bool(1, 40) ? 300 : 40);
  for (size_t i = 0; i < m; i++) { second.push_back({value()}); }
  const int32_t threads = static_cast<int32_t>(src.Int(1, 9));
  const par::DegreeOfParallelism degree(threads);
  Eigen::MatrixXd matrix(static_cast<Eigen::Index>(n), static_cast<Eigen::Index>(m));
  double expected = 0.0;
  for (size_t i = 0; i < n; i++)
  {
    double least = std::numeric_limits<double>::infinity();
    for (size_t j = 0; j < m; j++)
    {
      matrix(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)) = metric(first[i], second[j]);
      least = std::min(least, metric(first[i], second[j]));
    }
    expected = std::max(expected, least);
  }
  ctx << n << " and " << m << " elements, distance " << metric.style << ", " << threads << " threads";
  const std::function<double(const A&, const B&)> distance = metric;
  const auto by_function = [&] (const par::DegreeOfParallelism& d) { return hd::ComputeDistance<A, B, First, Second>(first, second, distance, d); };
  const auto by_matrix = [&] (const par::DegreeOfParallelism& d) { return hd::ComputeDistance<A, B, First, Second>(first, second, matrix, d); };
  const auto serial = par::DegreeOfParallelism::None();
  if (n == 0 || m == 0)
  {
    for (const auto& d : {serial, degree})
    {
      PBT_CHECK("empty", pbt::ThrowsA<std::invalid_argument>([&] { by_function(d); }), "an empty distribution has a distance");
      PBT_CHECK("empty", pbt::ThrowsA<std::invalid_argument>([&] { by_matrix(d); }), "an empty distribution has a distance");
    }
    return;
  }
  PBT_CHECK("function", by_function(serial) == expected, "serial: ", by_function(serial), ", expected ", expected);
  PBT_CHECK("function-parallel", by_function(degree) == expected, threads, " threads: ", by_function(degree), ", expected ", expected);
  PBT_CHECK("matrix", by_matrix(serial) == expected, "matrix, serial: ", by_matrix(serial), ", expected ", expected);
  PBT_CHECK("matrix-parallel", by_matrix(degree) == expected, "matrix, ", threads, " threads: ", by_matrix(degree), ", expected ", expected);
  if (src.Bool(1, 4))
  {
    const Eigen::Index rows = src.Bool() ? matrix.rows() : src.Int(0, 41);
    const Eigen::Index cols = src.Bool() ? matrix.cols() : src.Int(0, 41);
    if (rows != matrix.rows() || cols != matrix.cols())
    {
      matrix = Eigen::MatrixXd::Zero(rows, cols);
      PBT_CHECK("matrix-size", pbt::ThrowsA<std::invalid_argument>([&] { by_matrix(serial); }), "a ", rows, "x", cols, " matrix was accepted");
      PBT_CHECK("matrix-size", pbt::ThrowsA<std::invalid_argument>([&] { by_matrix(degree); }), "a ", rows, "x", cols, " matrix was accepted in parallel");
    }
  }
  if (n >= 2 && m >= 2 && n != m && expected > 0.0) { ctx.Nontrivial(); }
}
}  // namespace

PROP_CONCURRENT(Hausdorff, "both distributions have at least two elements, their sizes differ and the distance is positive", 80000, 4000000)
{
  switch (src.Weighted({3, 1, 1}))
  {
    case 0: Run<std::vector<A>, std::vector<B>>(src, ctx); break;
    case 1: Run<std::deque<A>, std::vector<B>>(src, ctx); break;
    default: Run<std::vector<A>, std::deque<B>>(src, ctx); break;
  }
}

// Distributions too large for indices of few bits, and more threads.
PROP_CONCURRENT(LargeDistributions, "both distributions have at least 300 elements", 600, 8000)
{
  Metric metric;
  metric.style = src.Choose(9);
  metric.salt = src.AnyU64();
  size_t n = static_cast<size_t>(src.Int(300, 2500));
  size_t m = static_cast<size_t>(src.Int(300, 1500));
  if (src.Bool(1, 4)) { n = static_cast<size_t>(src.Int(33000, 70000)); m = static_cast<size_t>(src.Int(1, 12)); }
  if (src.Bool()) { std::swap(n, m); }
  std::mt19937_64 random(src.AnyU64());
  const double spread = src.Bool() ? 6.0 : 100000.0;
  std::vector<A> first;
  std::vector<B> second;
  const auto value = [&] { return std::floor(static_cast<double>(random() % 65536) / 65536.0 * spread) / 4.0; };
  for (size_t i = 0; i < n; i++) { first.push_back({value()}); }
  for (size_t j = 0; j < m; j++) { second.push_back({value()}); }
  // One element may be far from everything else.
  if (src.Bool()) { first[random() % n].x = 7e5; }
  const par::DegreeOfParallelism degree(static_cast<int32_t>(src.Bool() ? src.Int(2, 9) : src.Int(10, 48)));
  ctx << n << " and " << m << " elements, distance " << metric.style << ", " << degree.GetNumThreads() << " threads";
  Eigen::MatrixXd matrix(static_cast<Eigen::Index>(n), static_cast<Eigen::Index>(m));
  double expected = 0.0;
  for (size_t i = 0; i < n; i++)
  {
    double least = std::numeric_limits<double>::infinity();
    for (size_t j = 0; j < m; j++)
    {
      const double d = metric(first[i], second[j]);
      matrix(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)) = d;
      least = std::min(least, d);
    }
    expected = std::max(expected, least);
  }
  const std::function<double(const A&, const B&)> distance = metric;
  for (const auto& d : {par::DegreeOfParallelism::None(), degree})
  {
    const double by_function = hd::ComputeDistance<A, B>(first, second, distance, d);
    const double by_matrix = hd::ComputeDistance<A, B>(first, second, matrix, d);
    PBT_CHECK("function", by_function == expected, d.GetNumThreads(), " threads: ", by_function, ", expected ", expected);
    PBT_CHECK("matrix", by_matrix == expected, "matrix, ", d.GetNumThreads(), " threads: ", by_matrix, ", expected ", expected);
  }
  if (n >= 300 && m >= 300) { ctx.Nontrivial(); }
}
