// C09 parallel loops
// PBT-VARIANTS: plain asan tsan
// PBT-WORKERS: 4
#include "pbt.hpp"

#include <array>
#include <atomic>
#include <condition_variable>
#include <memory>
#include <thread>

#include <common_robotics_utilities/parallelism.hpp>

namespace par = common_robotics_utilities::parallelism;
namespace omp = common_robotics_utilities::openmp_helpers;
using Backend = par::ParallelForBackend;
using Range = par::ThreadWorkRange;

namespace
{
struct Boom : public std::exception
{
  explicit Boom(const int64_t i) : index(i) {}
  int64_t index;
};

// Exceptions need not be derived from std::exception.
template<typename Base>
struct OtherBoom : public Base
{
  int64_t index;
  template<typename... Arguments>
  explicit OtherBoom(const int64_t i, const Arguments&... arguments) : Base(arguments...), index(i) {}
};

struct BareBoom
{
  int64_t index;
};

enum class Form { kStaticRange, kDynamicRange, kStaticIndex, kDynamicIndex };

const char* Name(const Form f)
{
  switch (f)
  {
    case Form::kStaticRange: return "static range";
    case Form::kDynamicRange: return "dynamic range";
    case Form::kStaticIndex: return "static index";
    default: return "dynamic index";
  }
}

const char* Name(const Backend b)
{
  return b == Backend::OPENMP ? "openmp" : b == Backend::ASYNC ? "async" : "best";
}

struct Plan
{
  Form form;
  Backend backend;
  int32_t threads;
  int64_t start;
  int64_t end;
  uint64_t delays;      // 0: none
  uint64_t throw_seed;  // 0: nothing throws
  uint64_t throw_every;
  uint64_t throw_kind;  // 0: std::runtime_error, 1: class of its own, 2: plain integer, 3-5: other standard exceptions

  bool Throws(const int64_t i) const
  {
    return throw_seed != 0 && pbt::Mix(throw_seed ^ static_cast<uint64_t>(i)) % throw_every == 0;
  }

  void Delay(const int64_t i) const
  {
    if (delays == 0) { return; }
    const uint64_t r = pbt::Mix(delays ^ (static_cast<uint64_t>(i) * 977u));
    switch (r % 6)
    {
      case 0: std::this_thread::yield(); break;
      case 1: ::usleep(static_cast<useconds_t>((r >> 8) % 120)); break;
      case 2:
      {
        volatile uint64_t x = 0;
        for (uint64_t k = 0; k < (r >> 8) % 3000; k++) { x = x + k; }
        break;
      }
      default: break;
    }
  }
};

std::string Text(const Plan& p)
{
  return pbt::Str(Name(p.form), " ", Name(p.backend), " threads ", p.threads, " [", p.start, ",", p.end, ")",
                  p.delays ? " delays" : "", p.throw_seed ? " throws" : "");
}

// What one loop was seen to do.
class Observer
{
public:
  explicit Observer(const Plan& plan, pbt::Ctx& ctx)
      : plan_(plan), ctx_(ctx), hits_(static_cast<size_t>(plan.end - plan.start)), effects_(hits_.size(), -1),
        busy_(static_cast<size_t>(plan.threads))
  {
    for (auto& h : hits_) { h.store(0); }
    for (auto& b : busy_) { b.store(0); }
  }

  void Enter(const int32_t worker)
  {
    if (worker < 0 || worker >= plan_.threads)
    {
      ctx_.FailAsync("worker-number", pbt::Str(Text(plan_), ": worker number ", worker));
      return;
    }
    // Only loops on their own team are exclusive per worker number.
    if (busy_[static_cast<size_t>(worker)].fetch_add(1) != 0)
    {
      ctx_.FailAsync("worker-exclusive", pbt::Str(Text(plan_), ": worker number ", worker, " used by two calls at once"));
    }
    active_++;
  }

  void Leave(const int32_t worker)
  {
    if (worker < 0 || worker >= plan_.threads) { return; }
    active_--;
    busy_[static_cast<size_t>(worker)].fetch_sub(1);
  }

  void Visit(const int64_t i)
  {
    if (i < plan_.start || i >= plan_.end)
    {
      ctx_.FailAsync("index-in-range", pbt::Str(Text(plan_), ": called for index ", i));
      return;
    }
    const size_t k = static_cast<size_t>(i - plan_.start);
    if (hits_[k].fetch_add(1) != 0) { ctx_.FailAsync("index-once", pbt::Str(Text(plan_), ": index ", i, " visited twice")); return; }
    effects_[k] = i;  // plain write: visible after the loop
    plan_.Delay(i);
    if (plan_.Throws(i))
    {
      threw_++;
      switch (plan_.throw_kind)
      {
        case 0: throw Boom(i);
        case 1: throw BareBoom{i};
        case 3: throw OtherBoom<std::invalid_argument>(i, "told to");
        case 4: throw OtherBoom<std::bad_alloc>(i);
        case 5: throw OtherBoom<std::system_error>(i, std::make_error_code(std::errc::resource_unavailable_try_again));
        default: throw i;
      }
    }
  }

  void Finished(const bool loop_threw, const int64_t thrown_index)
  {
    ctx_.ThrowAsync();
    PBT_CHECK("waits", active_.load() == 0, Text(plan_), ": ", active_.load(), " calls still running after the loop returned");
    const int64_t threw = threw_.load();
    PBT_CHECK("exception-reaches-caller", loop_threw == (threw > 0), Text(plan_), ": ", threw, " calls threw, loop ", loop_threw ? "threw" : "returned");
    if (loop_threw)
    {
      PBT_CHECK("exception-is-one-thrown", thrown_index >= plan_.start && thrown_index < plan_.end && plan_.Throws(thrown_index)
                && hits_[static_cast<size_t>(thrown_index - plan_.start)].load() == 1, Text(plan_), ": ", thrown_index);
      return;
    }
    for (size_t k = 0; k < hits_.size(); k++)
    {
      PBT_CHECK("index-covered", hits_[k].load() == 1, Text(plan_), ": index ", plan_.start + static_cast<int64_t>(k), " visited ",
                hits_[k].load(), " times");
      PBT_CHECK("effects-visible", effects_[k] == plan_.start + static_cast<int64_t>(k), Text(plan_));
    }
  }

private:
  const Plan plan_;
  pbt::Ctx& ctx_;
  std::vector<std::atomic<int>> hits_;
  std::vector<int64_t> effects_;
  std::vector<std::atomic<int>> busy_;
  std::atomic<int64_t> active_{0};
  std::atomic<int64_t> threw_{0};
};

struct Inside
{
  Observer& o;
  const int32_t w;
  Inside(Observer& ob, const int32_t worker) : o(ob), w(worker) { o.Enter(w); }
  ~Inside() { o.Leave(w); }
};

void RunPlan(const Plan& p, Observer& o, const std::function<void(int64_t)>& inner = nullptr)
{
  const par::DegreeOfParallelism degree(p.threads);
  const auto on_range = [&](const Range& r)
  {
    const Inside inside(o, r.GetThreadNum());
    for (int64_t i = r.GetRangeStart(); i < r.GetRangeEnd(); i++)
    {
      o.Visit(i);
      if (inner) { inner(i); }
    }
  };
  const auto on_index = [&](const int32_t thread, const int64_t i)
  {
    const Inside inside(o, thread);
    o.Visit(i);
    if (inner) { inner(i); }
  };
  switch (p.form)
  {
    case Form::kStaticRange: par::StaticParallelForRangeLoop(degree, p.start, p.end, on_range, p.backend); break;
    case Form::kDynamicRange: par::DynamicParallelForRangeLoop(degree, p.start, p.end, on_range, p.backend); break;
    case Form::kStaticIndex: par::StaticParallelForIndexLoop(degree, p.start, p.end, on_index, p.backend); break;
    default: par::DynamicParallelForIndexLoop(degree, p.start, p.end, on_index, p.backend); break;
  }
}

void RunAndCheck(const Plan& p, pbt::Ctx& ctx)
{
  Observer o(p, ctx);
  bool threw = false;
  int64_t index = 0;
  try { RunPlan(p, o); }
  catch (const Boom& b) { threw = p.throw_kind == 0; index = b.index; }
  catch (const BareBoom& b) { threw = p.throw_kind == 1; index = b.index; }
  catch (const int64_t i) { threw = p.throw_kind == 2; index = i; }
  catch (const OtherBoom<std::invalid_argument>& b) { threw = p.throw_kind == 3; index = b.index; }
  catch (const OtherBoom<std::bad_alloc>& b) { threw = p.throw_kind == 4; index = b.index; }
  catch (const OtherBoom<std::system_error>& b) { threw = p.throw_kind == 5; index = b.index; }
  o.Finished(threw, index);
}

Plan GenPlan(pbt::Src& src, const int64_t most)
{
  Plan p;
  p.form = static_cast<Form>(src.Choose(3));
  p.backend = static_cast<Backend>(src.Choose(2));
  p.threads = static_cast<int32_t>(src.Bool(1, 6) ? src.Int(9, 20) : src.Int(1, 8));
  switch (src.Choose(4))
  {
    case 0: p.start = 0; break;
    case 1: p.start = src.Int(-50, 50); break;
    case 2: p.start = src.Bool() ? std::numeric_limits<int64_t>::min() + src.Int(0, 3)
                                 : std::numeric_limits<int64_t>::max() - 200 + src.Int(0, 3); break;
    case 3: p.start = src.Int(-3000000000, 3000000000); break;
    default: p.start = src.Int(-3, 3); break;
  }
  int64_t n = 0;
  switch (src.Choose(3))
  {
    case 0: n = src.Int(0, 3); break;
    case 1: n = p.threads + src.Int(-2, 2); break;
    case 2: n = p.threads * src.Int(1, 3) + src.Int(-1, 1); break;
    default: n = src.Int(0, most); break;
  }
  n = std::max<int64_t>(0, std::min(n, most));
  p.end = p.start + n;
  p.delays = src.Bool(2, 3) ? 1 + src.Choose(1u << 30) : 0;
  p.throw_seed = 0;
  p.throw_every = 1;
  p.throw_kind = 0;
  return p;
}
}  // namespace

PROP_CONCURRENT(every_index_exactly_once, "at least two threads and two indices", 40000, 600000)
{
  const Plan p = GenPlan(src, 60);
  ctx << Text(p);
  ctx.Nontrivial(p.threads > 1 && p.end - p.start > 1);
  ctx.Label(pbt::Str(Name(p.form), " ", Name(p.backend)));
  if (p.start != 0) { ctx.Label("range not starting at 0"); }
  RunAndCheck(p, ctx);
}

// Ranges longer than one or two bytes count, and large teams.
PROP_CONCURRENT(long_loops, "at least two threads", 400, 8000)
{
  Plan p = GenPlan(src, 60);
  p.delays = 0;
  p.threads = static_cast<int32_t>(src.Bool(1, 4) ? src.Int(20, 48) : src.Int(1, 8));
  const int64_t n = src.Bool(1, 8) ? src.Int(30000, 70000) : src.Int(200, 3000);
  if (p.start > 0) { p.start = std::min(p.start, std::numeric_limits<int64_t>::max() - n); }
  p.end = p.start + n;
  if (src.Bool(1, 4))
  {
    p.throw_seed = 1 + src.Choose(1u << 30);
    p.throw_every = 1 + src.Choose(100000);
    p.throw_kind = src.Choose(5);
  }
  ctx << Text(p);
  ctx.Nontrivial(p.threads > 1);
  ctx.Label(pbt::Str(Name(p.form), " ", Name(p.backend)));
  RunAndCheck(p, ctx);
}

PROP_CONCURRENT(exceptions_reach_the_caller, "a call throws with at least two threads", 20000, 300000)
{
  Plan p = GenPlan(src, 50);
  p.throw_seed = 1 + src.Choose(1u << 30);
  p.throw_every = 1 + src.Choose(20);
  p.throw_kind = src.Choose(5);
  ctx << Text(p);
  bool any = false;
  for (int64_t i = p.start; i < p.end; i++) { any = any || p.Throws(i); }
  ctx.Nontrivial(any && p.threads > 1);
  RunAndCheck(p, ctx);
}

PROP_CONCURRENT(loops_inside_loops, "both loops have at least two threads and indices", 10000, 200000)
{
  Plan outer = GenPlan(src, 6);
  Plan inner = GenPlan(src, 8);
  outer.threads = std::min(outer.threads, 4);
  inner.threads = std::min(inner.threads, 4);
  ctx << Text(outer) << " around " << Text(inner);
  ctx.Nontrivial(outer.threads > 1 && inner.threads > 1 && outer.end - outer.start > 1 && inner.end - inner.start > 1);
  Observer o(outer, ctx);
  RunPlan(outer, o, [&](const int64_t)
  {
    try { RunAndCheck(inner, ctx); }
    catch (const pbt::Failure& f) { ctx.FailAsync(f.tag, "inner: " + f.msg); }
  });
  o.Finished(false, 0);
}

PROP_CONCURRENT(huge_ranges_are_partitioned, "more than 2^33 indices", 15000, 300000)
{
  // Range loops over ranges too large to visit one by one.
  int64_t start = static_cast<int64_t>(src.AnyU64());
  int64_t end = static_cast<int64_t>(src.AnyU64());
  if (end < start) { std::swap(start, end); }
  constexpr int64_t kMost = int64_t(1) << 62;
  if (static_cast<uint64_t>(end) - static_cast<uint64_t>(start) > static_cast<uint64_t>(kMost)) { end = start + kMost; }
  const int32_t threads = static_cast<int32_t>(src.Int(1, 12));
  const Backend backend = static_cast<Backend>(src.Choose(2));
  ctx << "[" << start << "," << end << ") threads " << threads << " " << Name(backend);
  ctx.Nontrivial(end - start > (int64_t(1) << 33));
  std::mutex m;
  std::vector<std::pair<int64_t, int64_t>> got;
  par::StaticParallelForRangeLoop(par::DegreeOfParallelism(threads), start, end, [&](const Range& r)
  {
    std::lock_guard<std::mutex> lock(m);
    got.emplace_back(r.GetRangeStart(), r.GetRangeEnd());
    if (r.GetThreadNum() < 0 || r.GetThreadNum() >= threads) { ctx.FailAsync("worker-number", pbt::Str(r.GetThreadNum())); }
  }, backend);
  ctx.ThrowAsync();
  std::sort(got.begin(), got.end());
  int64_t at = start;
  for (const auto& r : got)
  {
    PBT_CHECK("partition", r.first == at && r.second >= r.first && r.second <= end, "range [", r.first, ",", r.second, ") after ", at);
    at = r.second;
  }
  PBT_CHECK("partition", at == end, "covered up to ", at);
}

PROP(static_partition_helper, "remainder not zero and more than one thread", 200000, 5000000)
{
  int64_t start = static_cast<int64_t>(src.AnyU64());
  int64_t end = static_cast<int64_t>(src.AnyU64());
  if (src.Bool()) { start = src.Int(-100, 100); end = start + src.Int(0, 100); }
  if (end < start) { std::swap(start, end); }
  constexpr int64_t kMost = int64_t(1) << 62;
  if (static_cast<uint64_t>(end) - static_cast<uint64_t>(start) > static_cast<uint64_t>(kMost)) { end = start + kMost; }
  const int64_t threads = src.Int(1, 24);
  ctx << "[" << start << "," << end << ") threads " << threads;
  ctx.Nontrivial((end - start) % threads != 0);
  int64_t at = start;
  int64_t least = std::numeric_limits<int64_t>::max();
  int64_t most = 0;
  for (int64_t t = 0; t < threads; t++)
  {
    const auto r = par::CalcStaticThreadRangeStartAndEnd(start, end, threads, t);
    PBT_CHECK("partition", r.first == at && r.second >= at, "thread ", t, " gets [", r.first, ",", r.second, ") after ", at);
    at = r.second;
    least = std::min(least, r.second - r.first);
    most = std::max(most, r.second - r.first);
  }
  PBT_CHECK("partition", at == end, "ends at ", at);
  PBT_CHECK("balanced", most - least <= 1, least, " to ", most);
  PBT_CHECK("rejects", pbt::Throws([&] { par::CalcStaticThreadRangeStartAndEnd(start, end, threads, threads); })
            && pbt::Throws([&] { par::CalcStaticThreadRangeStartAndEnd(start, end, threads, -1); })
            && pbt::Throws([&] { par::CalcStaticThreadRangeStartAndEnd(start, end, 0, 0); }), "");
  if (end > start)
  {
    PBT_CHECK("rejects", pbt::Throws([&] { par::CalcStaticThreadRangeStartAndEnd(end, start, threads, 0); })
              && pbt::Throws([&] { Range(end, start, 0); }) && pbt::Throws([&] { Range(start, end, -1); }), "");
    const par::DegreeOfParallelism d(static_cast<int32_t>(threads));
    for (const Backend b : {Backend::OPENMP, Backend::ASYNC, Backend::BEST_AVAILABLE})
    {
      const auto never = [&](const Range&) { ctx.FailAsync("rejects", "called for an inverted range"); };
      PBT_CHECK("rejects", pbt::Throws([&] { par::StaticParallelForRangeLoop(d, end, start, never, b); })
                && pbt::Throws([&] { par::DynamicParallelForRangeLoop(d, end, start, never, b); }), "");
    }
    ctx.ThrowAsync();
  }
  const int32_t bad = -static_cast<int32_t>(src.Choose(5));
  PBT_CHECK("degree", pbt::Throws([&] { par::DegreeOfParallelism d(bad); }), bad);
  const par::DegreeOfParallelism d(static_cast<int32_t>(threads));
  PBT_CHECK("degree", d.GetNumThreads() == threads && d.IsParallel() == (threads > 1), "");
  PBT_CHECK("degree", par::DegreeOfParallelism::None().GetNumThreads() == 1 && par::DegreeOfParallelism().GetNumThreads() == 1, "");
}

#if defined(_OPENMP)
PROP_CONCURRENT(openmp_thread_settings, "nested changes", 2000, 20000)
{
  const int32_t initial = omp::GetNumOmpThreads();
  PBT_CHECK("omp", !omp::IsOmpInParallel() && omp::GetContextNumOmpThreads() == 1 && omp::GetContextOmpThreadNum() == 0, "");
  const int32_t a = static_cast<int32_t>(src.Int(1, 8));
  const int32_t b = static_cast<int32_t>(src.Int(1, 8));
  ctx << a << " then " << b;
  ctx.Nontrivial(a != b);
  {
    const omp::ChangeOmpNumThreadsWrapper outer(a);
    PBT_CHECK("omp", omp::GetNumOmpThreads() == a && omp::GetMaxNumOmpThreads() == a
              && par::DegreeOfParallelism::FromOmp().GetNumThreads() == a, a, " got ", omp::GetNumOmpThreads());
    {
      const omp::ChangeOmpNumThreadsWrapper inner(b);
      PBT_CHECK("omp", omp::GetNumOmpThreads() == b, b, " got ", omp::GetNumOmpThreads());
      {
        const omp::DisableOmpWrapper off;
        PBT_CHECK("omp", omp::GetNumOmpThreads() == 1, "");
      }
      PBT_CHECK("omp-restored", omp::GetNumOmpThreads() == b, b, " got ", omp::GetNumOmpThreads());
    }
    PBT_CHECK("omp-restored", omp::GetNumOmpThreads() == a, a, " got ", omp::GetNumOmpThreads());
    PBT_CHECK("omp", pbt::Throws([&] { omp::ChangeOmpNumThreadsWrapper bad(0); })
              && pbt::Throws([&] { omp::ChangeOmpNumThreadsWrapper bad(-3); }), "");
    PBT_CHECK("omp-restored", omp::GetNumOmpThreads() == a, "");
  }
  PBT_CHECK("omp-restored", omp::GetNumOmpThreads() == initial, "");
  std::atomic<int> refused{0};
  std::vector<int> seen(8, 0);
  #pragma omp parallel num_threads(4)
  {
    try { omp::ChangeOmpNumThreadsWrapper bad(2); }
    catch (const std::exception&) { refused++; }
    if (!omp::IsOmpInParallel()) { ctx.FailAsync("omp", "not in parallel"); }
    if (omp::GetContextNumOmpThreads() != 4) { ctx.FailAsync("omp", "team size"); }
    #pragma omp critical
    seen[static_cast<size_t>(omp::GetContextOmpThreadNum())]++;
  }
  ctx.ThrowAsync();
  PBT_CHECK("omp", refused.load() == 4 && seen[0] == 1 && seen[1] == 1 && seen[2] == 1 && seen[3] == 1, "");
}
#endif
