// C21 Dynamic time warping
#include "pbt.hpp"

#include <random>

#include <deque>

#include <common_robotics_utilities/simple_dtw.hpp>

namespace dtw = common_robotics_utilities::simple_dtw;

namespace
{
struct A { int64_t x; };
struct B { int64_t x; };

struct Metric
{
  uint64_t style = 0;
  uint64_t salt = 0;
  double operator()(const A& a, const B& b) const
  {
    const uint64_t h = pbt::Mix(salt + static_cast<uint64_t>(a.x) * 1009u + static_cast<uint64_t>(b.x) * 31u);
    switch (style)
    {
      case 0: return static_cast<double>(std::abs(a.x - b.x));
      case 1: return static_cast<double>(h % 4);
      case 2: return static_cast<double>(h % 1000);
      case 3: return static_cast<double>(h % 2);
      case 4: return static_cast<double>(std::abs(a.x - b.x)) * 0x1p-1074;
      case 5: return (h % 4 == 0) ? std::numeric_limits<double>::infinity() : static_cast<double>(h % 7);
      case 6: return static_cast<double>((a.x - b.x) * (a.x - b.x)) * 0x1p900;
      case 7: return 0.0;
      default: return 0x1p30 + static_cast<double>(h % 30);
    }
  }
};

// Least cost of aligning the first i + 1 with the first j + 1 elements, by walking alignments forward from (0, 0).
template<typename First, typename Second>
double Walk(const First& first, const Second& second, const Metric& metric, const size_t i, const size_t j)
{
  const double here = metric(first[i], second[j]);
  if (i + 1 == first.size() && j + 1 == second.size()) { return here; }
  double best = std::numeric_limits<double>::infinity();
  if (i + 1 < first.size()) { best = std::min(best, Walk(first, second, metric, i + 1, j)); }
  if (j + 1 < second.size()) { best = std::min(best, Walk(first, second, metric, i, j + 1)); }
  if (i + 1 < first.size() && j + 1 < second.size()) { best = std::min(best, Walk(first, second, metric, i + 1, j + 1)); }
  return here + best;
}

// The same for longer sequences: shortest path over the cells (relaxed until nothing changes, from the far end).
template<typename First, typename Second>
double Relax(const First& first, const Second& second, const Metric& metric)
{
  const size_t n = first.size();
  const size_t m = second.size();
  std::vector<std::vector<double>> rest(n, std::vector<double>(m, std::numeric_limits<double>::infinity()));
  for (size_t i = n; i-- > 0;)
  {
    for (size_t j = m; j-- > 0;)
    {
      double next = (i + 1 == n && j + 1 == m) ? 0.0 : std::numeric_limits<double>::infinity();
      if (i + 1 < n) { next = std::min(next, rest[i + 1][j]); }
      if (j + 1 < m) { next = std::min(next, rest[i][j + 1]); }
      if (i + 1 < n && j + 1 < m) { next = std::min(next, rest[i + 1][j + 1]); }
      rest[i][j] = metric(first[i], second[j]) + next;
    }
  }
  return rest[0][0];
}

template<typename Container>
Container Sequence(pbt::Src& src, const size_t lo, const size_t hi)
{
  Container out;
  const size_t n = src.Size(lo, hi);
  for (size_t i = 0; i < n; i++) { out.push_back({src.Int(-4, 4)}); }
  return out;
}

template<typename Container>
std::string Text(const Container& c)
{
  std::string out = "[";
  for (const auto& e : c) { out += std::to_string(e.x) + " "; }
  return out + "]";
}

template<typename First, typename Second>
void Run(pbt::Src& src, pbt::Ctx& ctx)
{
  std::unique_ptr<dtw::SimpleDTW<A, B, First, Second>> evaluator;
  if (src.Bool()) { evaluator = std::make_unique<dtw::SimpleDTW<A, B, First, Second>>(); }
  else
  {
    const ssize_t rows = src.Int(0, 12);
    const ssize_t cols = src.Int(0, 12);
    ctx << "evaluator made for " << rows << " by " << cols;
    evaluator = std::make_unique<dtw::SimpleDTW<A, B, First, Second>>(rows, cols);
  }
  int interesting = 0;
  for (size_t round = 0; src.More(round, 1, 8, 3); round++)
  {
    Metric metric;
    metric.style = src.Choose(8);
    metric.salt = src.AnyU64();
    const bool small = src.Bool(2, 3);
    const size_t longest = small ? 5 : src.Bool(1, 20) ? 150 : 30;
    const auto first = Sequence<First>(src, 0, longest);
    const auto second = Sequence<Second>(src, 0, longest);
    ctx << "distance " << metric.style << " " << Text(first) << " " << Text(second);
    const std::function<double(const A&, const B&)> distance = metric;
    if (src.Bool(1, 12))
    {
      auto copy = std::make_unique<dtw::SimpleDTW<A, B, First, Second>>(*evaluator);
      evaluator = std::move(copy);
    }
    if (first.empty() || second.empty())
    {
      PBT_CHECK("empty", pbt::ThrowsA<std::invalid_argument>([&] { evaluator->EvaluateWarpingCost(first, second, distance); }), "an empty sequence has a warping cost");
      PBT_CHECK("empty", pbt::ThrowsA<std::invalid_argument>([&] { dtw::EvaluateWarpingCost<A, B, First, Second>(first, second, distance); }), "an empty sequence has a warping cost");
      continue;
    }
    const bool walkable = first.size() <= 5 && second.size() <= 5;
    const double expected = walkable ? Walk(first, second, metric, 0, 0) : Relax(first, second, metric);
    if (src.Bool(1, 10))
    {
      // An evaluation that is cut short by the distance function leaves the evaluator usable.
      size_t budget = src.Choose(first.size() * second.size() - 1);
      const std::function<double(const A&, const B&)> failing = [&] (const A& a, const B& b)
      {
        if (budget-- == 0) { throw std::domain_error("distance"); }
        return metric(a, b);
      };
      PBT_CHECK("throwing", pbt::ThrowsA<std::domain_error>([&] { evaluator->EvaluateWarpingCost(first, second, failing); }), "the exception of the distance function was lost");
    }
    const double reused = evaluator->EvaluateWarpingCost(first, second, distance);
    PBT_CHECK("reused", reused == expected, "reused evaluator says ", reused, ", the best alignment costs ", expected, " for ", Text(first), " and ", Text(second));
    const double fresh = dtw::EvaluateWarpingCost<A, B, First, Second>(first, second, distance);
    PBT_CHECK("fresh", fresh == expected, "fresh evaluator says ", fresh, ", the best alignment costs ", expected, " for ", Text(first), " and ", Text(second));
    if (first.size() != second.size() && first.size() > 1 && second.size() > 1 && expected > 0.0) { interesting++; }
  }
  if (interesting >= 2) { ctx.Nontrivial(); }
}
}  // namespace

PROP(Warping, "two pairs of sequences of different lengths over one with positive cost are evaluated by one evaluator", 300000, 10000000)
{
  switch (src.Weighted({3, 1, 1}))
  {
    case 0: Run<std::vector<A>, std::vector<B>>(src, ctx); break;
    case 1: Run<std::deque<A>, std::vector<B>>(src, ctx); break;
    default: Run<std::vector<A>, std::deque<B>>(src, ctx); break;
  }
}

// Sequences too long for indices of few bits, some through one evaluator.
PROP(LongSequences, "a pair of sequences of at least 300 elements each", 400, 8000)
{
  dtw::SimpleDTW<A, B> evaluator;
  std::mt19937_64 random(src.AnyU64());
  for (size_t round = 0; src.More(round, 1, 4, 2); round++)
  {
    Metric metric;
    metric.style = src.Choose(8);
    metric.salt = src.AnyU64();
    size_t n = static_cast<size_t>(src.Int(260, 1200));
    size_t m = static_cast<size_t>(src.Int(260, 1200));
    if (src.Bool(1, 3)) { n = static_cast<size_t>(src.Int(33000, 70000)); m = static_cast<size_t>(src.Int(1, 12)); }
    else if (src.Bool(1, 4)) { n = static_cast<size_t>(src.Int(1, 12)); }
    if (src.Bool()) { std::swap(n, m); }
    std::vector<A> first;
    std::vector<B> second;
    if (src.Bool(1, 4) && std::max(n, m) < 2000) { n = m; }
    // Noise, or a few long runs, whose alignment leaves the diagonal far.
    const bool runs = src.Bool();
    int64_t value = 0;
    const auto next = [&] (const size_t length)
    {
      if (!runs) { return static_cast<int64_t>(random() % 9) - 4; }
      if (random() % (1 + length / 2) == 0) { value = static_cast<int64_t>(random() % 9) - 4; }
      return value;
    };
    for (size_t i = 0; i < n; i++) { first.push_back({next(n)}); }
    value = 0;
    for (size_t j = 0; j < m; j++) { second.push_back({next(m)}); }
    ctx << n << " and " << m << " elements, distance " << metric.style << "; ";
    const std::function<double(const A&, const B&)> distance = metric;
    const double expected = Relax(first, second, metric);
    const double reused = evaluator.EvaluateWarpingCost(first, second, distance);
    PBT_CHECK("reused", reused == expected, "reused evaluator says ", reused, ", the best alignment costs ", expected);
    const double fresh = dtw::EvaluateWarpingCost<A, B>(first, second, distance);
    PBT_CHECK("fresh", fresh == expected, "fresh evaluator says ", fresh, ", the best alignment costs ", expected);
    if (n >= 300 && m >= 300) { ctx.Nontrivial(); }
  }
}
