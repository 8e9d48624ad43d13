// C10 K nearest neighbours
// PBT-VARIANTS: plain asan tsan
// PBT-WORKERS: 4
#include "pbt.hpp"

#include <deque>

#include <common_robotics_utilities/simple_knearest_neighbors.hpp>

namespace nn = common_robotics_utilities::simple_knearest_neighbors;
namespace par = common_robotics_utilities::parallelism;
using Result = std::vector<nn::IndexAndDistance>;

namespace
{
struct Item
{
  double x = 0.0;
  uint64_t id = 0;
};

struct Query
{
  double x = 0.0;
  uint64_t style = 0;
};

// Distances with ties, infinities and asymmetry; depends on both arguments.
double Distance(const Item& i, const Query& q)
{
  switch (q.style)
  {
    case 0: return std::abs(i.x - q.x);
    case 1: return std::floor(std::abs(i.x - q.x) / 3.0);
    case 2: return 0.0;
    case 3: return static_cast<double>(pbt::Mix(i.id ^ 77u) % 5);
    case 4: return (pbt::Mix(i.id) % 3 == 0) ? std::numeric_limits<double>::infinity() : std::abs(i.x - q.x);
    case 5: return i.x - q.x;  // negative values order too
    case 6: return 1e9 + std::abs(i.x - q.x);
    default: return 1e-320 * static_cast<double>(pbt::Mix(i.id) % 100);
  }
}

std::string Text(const Result& r)
{
  std::ostringstream s;
  for (const auto& e : r) { s << e.Index() << ":" << e.Distance() << " "; }
  return s.str();
}

template<typename Container>
void CheckResult(const Result& r, const Container& items, const size_t lo, const size_t hi, const Query& q, const int64_t k,
                 const char* form)
{
  const size_t n = std::min(hi - lo, static_cast<size_t>(k));
  PBT_CHECK("count", r.size() == n, form, ": ", r.size(), " results instead of ", n);
  std::set<int64_t> seen;
  std::vector<double> got;
  for (const auto& e : r)
  {
    PBT_CHECK("in-range", e.Index() >= static_cast<int64_t>(lo) && e.Index() < static_cast<int64_t>(hi), form, ": index ", e.Index());
    PBT_CHECK("distinct", seen.insert(e.Index()).second, form, ": index ", e.Index(), " twice in ", Text(r));
    const double d = Distance(items[static_cast<size_t>(e.Index())], q);
    PBT_CHECK("distance", e.Distance() == d, form, ": index ", e.Index(), " distance ", e.Distance(), " instead of ", d);
    got.push_back(d);
  }
  std::vector<double> all;
  for (size_t i = lo; i < hi; i++) { all.push_back(Distance(items[i], q)); }
  std::sort(all.begin(), all.end());
  if (n < hi - lo)
  {
    PBT_CHECK("ordered", std::is_sorted(got.begin(), got.end()), form, ": ", Text(r));
  }
  std::sort(got.begin(), got.end());
  all.resize(n);
  PBT_CHECK("nearest", got == all, form, ": ", Text(r));
}

template<typename Container>
void CheckForms(const Container& items, const size_t lo, const size_t hi, const Query& q, const int64_t k, const int32_t threads)
{
  const std::function<double(const Item&, const Query&)> fn = Distance;
  const par::DegreeOfParallelism degree(threads);
  CheckResult(nn::GetKNearestNeighborsInRangeSerial<Item, Query, Container>(items, lo, hi, q, fn, k), items, lo, hi, q, k, "serial range");
  CheckResult(nn::GetKNearestNeighborsInRangeParallel<Item, Query, Container>(items, lo, hi, q, fn, k, degree), items, lo, hi, q, k, "parallel range");
  CheckResult(nn::GetKNearestNeighborsInRange<Item, Query, Container>(items, lo, hi, q, fn, k, degree), items, lo, hi, q, k, "range");
  const size_t n = items.size();
  CheckResult(nn::GetKNearestNeighborsSerial<Item, Query, Container>(items, q, fn, k), items, 0, n, q, k, "serial");
  CheckResult(nn::GetKNearestNeighborsParallel<Item, Query, Container>(items, q, fn, k, degree), items, 0, n, q, k, "parallel");
  CheckResult(nn::GetKNearestNeighbors<Item, Query, Container>(items, q, fn, k, degree), items, 0, n, q, k, "default");
}

struct Case
{
  std::vector<Item> items;
  Query q;
  size_t lo = 0;
  size_t hi = 0;
  int64_t k = 0;
  int32_t threads = 1;
};

Case Gen(pbt::Src& src, pbt::Ctx& ctx)
{
  Case c;
  const size_t n = src.Bool(1, 8) ? src.Size(100, 400) : src.Size(0, 40);
  uint64_t z = src.Choose(1u << 30);
  const int64_t spread = src.Bool() ? 5 : 1000;
  for (size_t i = 0; i < n; i++)
  {
    z = pbt::Mix(z);
    c.items.push_back(Item{static_cast<double>(static_cast<int64_t>(z % static_cast<uint64_t>(spread))), z >> 20});
  }
  c.q.x = static_cast<double>(src.Int(0, spread));
  c.q.style = src.Choose(7);
  c.lo = src.Bool(1, 3) ? 0 : src.Choose(n);
  c.hi = src.Bool(1, 3) ? n : c.lo + src.Choose(n - c.lo);
  const int64_t size = static_cast<int64_t>(c.hi - c.lo);
  switch (src.Choose(4))
  {
    case 0: c.k = 1; break;
    case 1: c.k = std::max<int64_t>(0, size + src.Int(-2, 2)); break;
    case 2: c.k = src.Int(0, size + 2); break;
    case 3: c.k = std::numeric_limits<int64_t>::max() - src.Int(0, 2); break;
    default: c.k = src.Int(0, 8); break;
  }
  c.threads = static_cast<int32_t>(src.Int(1, 12));
  ctx << n << " items, range [" << c.lo << "," << c.hi << "), K " << c.k << ", " << c.threads << " threads, distance style " << c.q.style;
  ctx.Nontrivial(c.k > 0 && c.k < size && c.threads > 1);
  ctx.Label(c.k >= size ? "K covers the range" : "K below the range");
  return c;
}
}  // namespace

PROP_CONCURRENT(matches_brute_force, "K between 1 and the range size, more than one thread", 60000, 1500000)
{
  const Case c = Gen(src, ctx);
  CheckForms(c.items, c.lo, c.hi, c.q, c.k, c.threads);
  const std::function<double(const Item&, const Query&)> fn = Distance;
  if (src.Bool(1, 4))
  {
    const std::deque<Item> other(c.items.begin(), c.items.end());
    CheckForms(other, c.lo, c.hi, c.q, c.k, c.threads);
    ctx.Label("deque");
  }
  // Invalid arguments.
  const par::DegreeOfParallelism d(c.threads);
  const int64_t bad = src.Bool() ? -1 : std::numeric_limits<int64_t>::min() + src.Int(0, 5);
  PBT_CHECK("rejects", pbt::Throws([&] { nn::GetKNearestNeighbors<Item, Query>(c.items, c.q, fn, bad, d); })
            && pbt::Throws([&] { nn::GetKNearestNeighborsSerial<Item, Query>(c.items, c.q, fn, bad); })
            && pbt::Throws([&] { nn::GetKNearestNeighborsParallel<Item, Query>(c.items, c.q, fn, bad, d); }), "K=", bad);
  const size_t over = c.items.size() + 1 + src.Choose(3);
  PBT_CHECK("rejects", pbt::Throws([&] { nn::GetKNearestNeighborsInRangeSerial<Item, Query>(c.items, c.lo, over, c.q, fn, c.k); })
            && pbt::Throws([&] { nn::GetKNearestNeighborsInRangeParallel<Item, Query>(c.items, c.lo, over, c.q, fn, c.k, d); }), "range end ", over);
  if (c.hi > c.lo)
  {
    PBT_CHECK("rejects", pbt::Throws([&] { nn::GetKNearestNeighborsInRangeSerial<Item, Query>(c.items, c.hi, c.lo, c.q, fn, c.k); })
              && pbt::Throws([&] { nn::GetKNearestNeighborsInRangeParallel<Item, Query>(c.items, c.hi, c.lo, c.q, fn, c.k, d); }), "inverted range");
  }
}

PROP_CONCURRENT(inside_other_parallel_code, "K between 1 and the range size, more than one thread", 15000, 300000)
{
  const Case c = Gen(src, ctx);
  const int32_t outer = static_cast<int32_t>(src.Int(2, 4));
  const auto work = [&](const int32_t, const int64_t)
  {
    try { CheckForms(c.items, c.lo, c.hi, c.q, c.k, c.threads); }
    catch (const pbt::Failure& f) { ctx.FailAsync(f.tag, "nested: " + f.msg); }
  };
  const auto backend = src.Bool() ? par::ParallelForBackend::ASYNC : par::ParallelForBackend::OPENMP;
  par::StaticParallelForIndexLoop(par::DegreeOfParallelism(outer), 0, outer, work, backend);
  ctx.ThrowAsync();
}

// Sets too large for indices or counts of few bits, K of the same order, many threads.
PROP_CONCURRENT(large_sets, "K between 1 and the range size, more than one thread", 1000, 20000)
{
  static const size_t sizes[] = {1000, 5000, 40000, 70000};
  Case c;
  const size_t n = sizes[src.Weighted({4, 3, 2, 2})] + src.Size(0, 100);
  uint64_t z = src.AnyU64();
  const uint64_t spread = src.Bool() ? 50 : 1000000;
  for (size_t i = 0; i < n; i++)
  {
    z = pbt::Mix(z);
    c.items.push_back(Item{static_cast<double>(z % spread), z >> 20});
  }
  if (src.Bool(1, 4)) { std::sort(c.items.begin(), c.items.end(), [](const Item& a, const Item& b) { return a.x > b.x; }); }
  c.q.x = static_cast<double>(src.Choose(spread));
  c.q.style = src.Choose(7);
  c.lo = src.Bool() ? 0 : src.Choose(n);
  c.hi = src.Bool() ? n : c.lo + src.Choose(n - c.lo);
  const int64_t size = static_cast<int64_t>(c.hi - c.lo);
  switch (src.Choose(3))
  {
    case 0: c.k = src.Int(1, 300); break;
    case 1: c.k = std::max<int64_t>(0, size - src.Int(0, 3)); break;
    case 2: c.k = src.Int(0, size); break;
    default: c.k = std::min<int64_t>(size, src.Int(250, 70000)); break;
  }
  c.threads = src.Bool() ? static_cast<int32_t>(src.Int(2, 12)) : static_cast<int32_t>(src.Int(30, 64));
  ctx << n << " items, range [" << c.lo << "," << c.hi << "), K " << c.k << ", " << c.threads << " threads, distance style " << c.q.style;
  ctx.Nontrivial(c.k > 0 && c.k < size);
  ctx.Label(std::to_string(n / 1000) + "000 items");
  CheckForms(c.items, c.lo, c.hi, c.q, c.k, c.threads);
}
