// Small property-based-testing engine used by every check in /verif.
//
// Every random decision of a generator is one number on a "choice tape".  A
// case is completely determined by its tape, so that
//   * generation is deterministic from VERIF_SEED,
//   * shrinking works on the tape (delete / zero / minimise choices) and needs
//     no per-type shrinker,
//   * the tape is the replay file.
// Cases run in forked workers with the tape in shared memory, so that a crash,
// a sanitizer report or a hang is an ordinary, shrinkable failure.
#pragma once

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <mutex>
#include <new>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>
#include <array>
#include <deque>
#include <list>
#include <memory>
#include <numeric>
#include <random>
#include <stdexcept>
#include <thread>
#include <type_traits>
#include <unordered_map>

namespace pbt
{
// --------------------------------------------------------------------------
// Allocation cap: an allocation above the cap throws std::bad_alloc, in every
// build flavour, so that hostile lengths behave the same with and without ASan.
// --------------------------------------------------------------------------
inline size_t& AllocationCap()
{
  static size_t cap = size_t(1) << 30;
  return cap;
}

struct Failure
{
  std::string tag;
  std::string msg;
};

struct Discard
{
};

inline uint64_t Mix(uint64_t z)
{
  z += 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

inline uint64_t HashString(const std::string& s)
{
  uint64_t h = 1469598103934665603ull;
  for (const char c : s) { h = (h ^ static_cast<uint8_t>(c)) * 1099511628211ull; }
  return h;
}

constexpr size_t kMaxTape = size_t(1) << 17;

struct Slot
{
  std::atomic<uint64_t> case_index;
  std::atomic<uint64_t> start_ms;
  std::atomic<uint32_t> state;  // 0 idle, 1 running, 2 failed, 3 worker done
  std::atomic<uint64_t> evaluations;
  std::atomic<uint64_t> discards;
  std::atomic<uint64_t> nontrivial;
  uint32_t tape_len;
  char tag[256];
  char msg[16384];
  char note[16384];
  uint64_t tape[kMaxTape];
};

inline uint64_t NowMs()
{
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return static_cast<uint64_t>(ts.tv_sec) * 1000u
         + static_cast<uint64_t>(ts.tv_nsec) / 1000000u;
}

// --------------------------------------------------------------------------
// Choice source
// --------------------------------------------------------------------------
class Src
{
public:
  Src(Slot* slot, const uint64_t seed) : slot_(slot), state_(seed)
  {
    slot_->tape_len = 0;
  }

  Src(Slot* slot, const std::vector<uint64_t>& tape)
      : slot_(slot), replay_(true), replay_tape_(tape)
  {
    slot_->tape_len = 0;
  }

  bool Replaying() const { return replay_; }

  // A choice in [0, max].
  uint64_t Choose(const uint64_t max)
  {
    uint64_t v = 0;
    if (replay_)
    {
      v = (pos_ < replay_tape_.size()) ? replay_tape_[pos_] : 0;
      pos_++;
      if (v > max) { v = (max == 0) ? 0 : v % (max + 1); }
    }
    else
    {
      v = (max == std::numeric_limits<uint64_t>::max()) ? Next()
                                                        : Next() % (max + 1);
    }
    Record(v);
    return v;
  }

  // Record a value decided by the runner (used for the size of a case).
  uint64_t Forced(const uint64_t value, const uint64_t max)
  {
    if (replay_) { return Choose(max); }
    Record(value);
    return value;
  }

  // ---- integers ----------------------------------------------------------
  // Shrinks towards lo.
  int64_t Int(const int64_t lo, const int64_t hi)
  {
    return static_cast<int64_t>(
        static_cast<uint64_t>(lo)
        + Choose(static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo)));
  }

  size_t Size(const size_t lo, const size_t hi)
  {
    return lo + static_cast<size_t>(Choose(hi - lo));
  }

  // Shrinks towards false; true with probability num/den.
  bool Bool(const uint64_t num = 1, const uint64_t den = 2)
  {
    return Choose(den - 1) >= (den - num);
  }

  // Any 64 bit value, boundary-biased, shrinks to 0.
  uint64_t AnyU64()
  {
    switch (Choose(5))
    {
      case 0: return Choose(16);
      case 1: return Choose(255);
      case 2: return uint64_t(1) << Choose(63);
      case 3: return (uint64_t(1) << Choose(63)) - 1u;
      case 4: return ~Choose(16);
      default: return Choose(std::numeric_limits<uint64_t>::max());
    }
  }

  // Index into a list of weights, shrinks to 0.
  size_t Weighted(const std::vector<uint64_t>& weights)
  {
    uint64_t total = 0;
    for (const uint64_t w : weights) { total += w; }
    uint64_t v = Choose(total - 1);
    for (size_t i = 0; i < weights.size(); i++)
    {
      if (v < weights[i]) { return i; }
      v -= weights[i];
    }
    return weights.size() - 1;
  }

  template<typename T>
  const T& Pick(const std::vector<T>& items)
  {
    return items[Choose(items.size() - 1)];
  }

  // List-building helper:  for (size_t n = 0; src.More(n, lo, hi, avg); n++)
  // Each element carries its own continue flag, so shrinking can delete single
  // elements.
  bool More(const size_t n, const size_t lo, const size_t hi, const double avg)
  {
    if (n < lo) { return true; }
    if (n >= hi) { return false; }
    const double p = avg / (avg + 1.0);
    const uint64_t threshold = static_cast<uint64_t>(p * 1024.0);
    return Choose(1023) >= (1024u - threshold);
  }

  // ---- doubles -----------------------------------------------------------
  double Unit() { return static_cast<double>(Choose((1ull << 53) - 1)) * 0x1.0p-53; }

  // Double in [lo, hi]; shrinks to small "round" values when they are in range.
  double Real(const double lo, const double hi)
  {
    double v = 0.0;
    switch (Choose(7))
    {
      case 0:
        v = static_cast<double>(Choose(16)) * (Bool() ? -1.0 : 1.0);
        break;
      case 1:
        v = static_cast<double>(Choose(64)) * 0.25 * (Bool() ? -1.0 : 1.0);
        break;
      case 2:
        v = (Bool() ? lo : hi);
        break;
      case 3:
        v = Bool() ? std::nextafter(hi, lo) : std::nextafter(lo, hi);
        break;
      case 4:
        v = lo + (hi - lo) * static_cast<double>(Choose(1000)) / 1000.0;
        break;
      case 5:
        v = static_cast<double>(Choose(2000)) * 0.1 * (Bool() ? -1.0 : 1.0);
        break;
      default:
        v = lo + (hi - lo) * Unit();
        break;
    }
    if (!(v >= lo && v <= hi)) { v = lo + (hi - lo) * Unit(); }
    return v;
  }

  // Any finite double of moderate magnitude.
  double AnyReal(const double scale = 1e6)
  {
    switch (Choose(6))
    {
      case 0: return static_cast<double>(Int(-16, 16));
      case 1: return static_cast<double>(Int(-64, 64)) * 0.125;
      case 2: return static_cast<double>(Int(-2000, 2000)) * 0.1;
      case 3: return (Unit() * 2.0 - 1.0) * scale;
      case 4: return (Unit() * 2.0 - 1.0) * std::pow(10.0, static_cast<double>(Int(-12, 6)));
      case 5: return Bool() ? -0.0 : 0.0;
      default: return (Unit() * 2.0 - 1.0);
    }
  }

  // A block of bytes from two choices (for sizes where one choice per byte
  // would be wasteful). Style 0 zeros, 1 few symbols, 2 runs, 3 incompressible.
  std::vector<uint8_t> Blob(const size_t n)
  {
    std::vector<uint8_t> bytes(n, 0);
    const uint64_t style = Choose(3);
    uint64_t z = Choose(std::numeric_limits<uint64_t>::max());
    size_t run = 0;
    uint8_t current = 0;
    for (size_t i = 0; i < n; i++)
    {
      z = z * 6364136223846793005ull + 1442695040888963407ull;
      const uint64_t r = (z ^ (z >> 29)) >> 24;
      if (style == 1) { bytes[i] = static_cast<uint8_t>((r >> 3) % 3); }
      else if (style == 2)
      {
        if (run == 0) { run = 1 + r % 97; current = static_cast<uint8_t>(r >> 8); }
        run--;
        bytes[i] = current;
      }
      else if (style == 3) { bytes[i] = static_cast<uint8_t>(r >> 5); }
    }
    return bytes;
  }

  std::vector<uint64_t> Tape() const
  {
    return std::vector<uint64_t>(slot_->tape, slot_->tape + slot_->tape_len);
  }

  size_t size_hint = 50;

private:
  uint64_t Next()
  {
    state_ += 0x9E3779B97F4A7C15ull;
    uint64_t z = state_;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }

  void Record(const uint64_t v)
  {
    if (slot_->tape_len >= kMaxTape) { throw Discard(); }
    slot_->tape[slot_->tape_len++] = v;
  }

  Slot* slot_;
  bool replay_ = false;
  std::vector<uint64_t> replay_tape_;
  size_t pos_ = 0;
  uint64_t state_ = 0;
};

// --------------------------------------------------------------------------
// Per-case context: classification, notes, asynchronous failures
// --------------------------------------------------------------------------
class Ctx
{
public:
  bool quick = true;
  bool replay = false;
  std::string scratch_dir;

  void Label(const std::string& label) { labels[label]++; }
  void Label(const std::string& label, const bool when) { if (when) { Label(label); } }

  void Nontrivial(const bool value = true) { if (value) { nontrivial_ = true; } }

  // Free-form rendering of the generated case (for samples / replay files).
  template<typename T>
  Ctx& operator<<(const T& v)
  {
    note_ << v;
    if (slot != nullptr)
    {
      // Straight into shared memory: survives a crash of this process.
      const std::string text = note_.str();
      const size_t n = std::min(sizeof(slot->note) - 1, text.size());
      if (n > slot_pos_)
      {
        std::memcpy(slot->note + slot_pos_, text.data() + slot_pos_, n - slot_pos_);
        slot_pos_ = n;
        slot->note[n] = 0;
      }
    }
    return *this;
  }

  // Report a failure from inside a callback (any thread, does not throw).
  void FailAsync(const std::string& tag, const std::string& msg)
  {
    std::lock_guard<std::mutex> lock(mutex_);
    if (async_.tag.empty()) { async_.tag = tag; async_.msg = msg; }
  }

  void ThrowAsync()
  {
    std::lock_guard<std::mutex> lock(mutex_);
    if (!async_.tag.empty()) { throw async_; }
  }

  bool IsNontrivial() const { return nontrivial_; }
  std::string Note() const { return note_.str(); }

  std::map<std::string, uint64_t> labels;
  Slot* slot = nullptr;

private:
  size_t slot_pos_ = 0;
  bool nontrivial_ = false;
  std::ostringstream note_;
  std::mutex mutex_;
  Failure async_;
};

[[noreturn]] inline void Fail(const std::string& tag, const std::string& msg)
{
  throw Failure{tag, msg};
}

template<typename T>
inline void CatOne(std::ostringstream& s, const T& t) { s << t; }

template<typename T, typename A>
inline void CatOne(std::ostringstream& s, const std::vector<T, A>& t)
{
  s << "[";
  for (size_t i = 0; i < t.size(); i++)
  {
    if (i > 0) { s << " "; }
    CatOne(s, static_cast<T>(t[i]));
  }
  s << "]";
}

inline void Cat(std::ostringstream&) {}

template<typename T, typename... Args>
inline void Cat(std::ostringstream& s, const T& t, const Args&... args)
{
  CatOne(s, t);
  Cat(s, args...);
}

template<typename... Args>
inline std::string Str(const Args&... args)
{
  std::ostringstream s;
  s.precision(17);
  Cat(s, args...);
  return s.str();
}

// CHECK(tag, condition, message parts...)
#define PBT_CHECK(tag, cond, ...)                                              \
  do                                                                           \
  {                                                                            \
    if (!(cond))                                                               \
    {                                                                          \
      ::pbt::Fail(tag, ::pbt::Str("[", __FILE__, ":", __LINE__, "] ", #cond,   \
                                  " -- ", ::pbt::Str(__VA_ARGS__)));           \
    }                                                                          \
  } while (0)

// True iff f throws something derived from std::exception.
template<typename F>
inline bool Throws(const F& f)
{
  try { f(); }
  catch (const Failure&) { throw; }
  catch (const Discard&) { throw; }
  catch (const std::exception&) { return true; }
  return false;
}

template<typename E, typename F>
inline bool ThrowsA(const F& f)
{
  try { f(); }
  catch (const Failure&) { throw; }
  catch (const Discard&) { throw; }
  catch (const E&) { return true; }
  catch (const std::exception&) { return false; }
  return false;
}

// --------------------------------------------------------------------------
// Properties
// --------------------------------------------------------------------------
using PropFn = std::function<void(Src&, Ctx&)>;

struct Prop
{
  std::string name;
  std::string rule;        // what counts as non-trivial
  uint64_t quick_cases;    // target number of cases, quick tier
  uint64_t thorough_cases; // target number of cases, thorough tier
  PropFn fn;
  bool concurrent = false; // outcome may depend on thread schedule
  double timeout_s = 20.0; // per-case time limit (a hang is a failure)
};

inline std::vector<Prop>& Registry()
{
  static std::vector<Prop> props;
  return props;
}

struct Registrar
{
  explicit Registrar(const Prop& p) { Registry().push_back(p); }
};

// Known findings: executed on every run; the entry must still fail for a
// KNOWN-FINDING line to be printed.
struct Known
{
  std::string text;
  std::function<bool()> still_fails;
};

inline std::vector<Known>& KnownRegistry()
{
  static std::vector<Known> k;
  return k;
}

// --------------------------------------------------------------------------
// Execution of one case
// --------------------------------------------------------------------------
enum class Outcome { kPass, kDiscard, kFail };

inline void CopyTo(char* dst, const size_t cap, const std::string& s)
{
  const size_t n = std::min(cap - 1, s.size());
  std::memcpy(dst, s.data(), n);
  dst[n] = 0;
}

inline Outcome RunCase(
    const Prop& prop, Slot* slot, Src& src, Ctx& ctx, const uint64_t size)
{
  slot->tag[0] = 0;
  slot->msg[0] = 0;
  slot->note[0] = 0;
  Outcome outcome = Outcome::kPass;
  if (ctx.replay) { ctx.slot = slot; }
  try
  {
    src.size_hint = static_cast<size_t>(src.Forced(size, 100));
    prop.fn(src, ctx);
    ctx.ThrowAsync();
  }
  catch (const Discard&)
  {
    outcome = Outcome::kDiscard;
  }
  catch (const Failure& f)
  {
    CopyTo(slot->tag, sizeof(slot->tag), f.tag);
    CopyTo(slot->msg, sizeof(slot->msg), f.msg);
    outcome = Outcome::kFail;
  }
  catch (const std::exception& e)
  {
    CopyTo(slot->tag, sizeof(slot->tag), "unexpected-exception");
    CopyTo(slot->msg, sizeof(slot->msg),
           std::string("unexpected exception: ") + e.what());
    outcome = Outcome::kFail;
  }
  CopyTo(slot->note, sizeof(slot->note), ctx.Note());
  return outcome;
}

inline uint64_t CaseSeed(const uint64_t seed, const std::string& name,
                         const uint64_t index)
{
  return Mix(Mix(seed ^ HashString(name)) + index * 0x9E3779B97F4A7C15ull);
}

// Sizes: sweep small to large, repeatedly, so that every size is met early.
inline uint64_t CaseSize(const uint64_t index)
{
  static const uint64_t table[] = {5, 15, 30, 10, 50, 20, 80, 3, 40, 100,
                                   8, 60, 25, 12, 90, 35};
  return table[(index / 8) % 16];
}

inline std::string JsonEscape(const std::string& s)
{
  std::string out;
  for (const char ch : s)
  {
    const unsigned char c = static_cast<unsigned char>(ch);
    if (c == '"' || c == '\\') { out += '\\'; out += ch; }
    else if (c == '\n') { out += "\\n"; }
    else if (c < 0x20 || c >= 0x7f)
    {
      char buf[8];
      std::snprintf(buf, sizeof(buf), "\\u%04x", c);
      out += buf;
    }
    else { out += ch; }
  }
  return out;
}

struct Options
{
  std::string property;
  std::string tier = "quick";
  uint64_t seed = 1;
  uint32_t workers = 8;
  double time_budget_s = 30.0;
  double case_scale = 1.0;
  std::string out_json;
  std::string replay_dir = ".";
  std::string replay_file;
  std::string scratch_dir;
  std::string variant = "plain";
  std::string only;
};

struct PropStats
{
  uint64_t evaluations = 0;
  uint64_t discards = 0;
  uint64_t nontrivial = 0;
  uint64_t distinct_nontrivial = 0;
  double wall_s = 0.0;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
};

struct Found
{
  bool valid = false;
  std::string prop;
  std::string tag;
  std::string msg;
  std::string note;
  std::vector<uint64_t> tape;
};

inline Slot* MakeSlot()
{
  void* p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { std::perror("mmap"); std::exit(3); }
  return new (p) Slot();
}

inline void FreeSlot(Slot* s) { munmap(s, sizeof(Slot)); }

inline void QuietStreams(const std::string& stderr_to)
{
  const int null_fd = open("/dev/null", O_WRONLY);
  if (null_fd >= 0) { dup2(null_fd, 1); }
  if (!stderr_to.empty())
  {
    const int fd = open(stderr_to.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) { dup2(fd, 2); close(fd); }
  }
  else if (null_fd >= 0) { dup2(null_fd, 2); }
  if (null_fd >= 0) { close(null_fd); }
}

inline void WorkerMain(
    const Prop& prop, Slot* slot, const Options& opt, const uint32_t worker,
    const uint64_t cases, const uint64_t deadline_ms,
    const std::string& result_path)
{
  std::map<std::string, uint64_t> labels;
  std::unordered_set<uint64_t> hashes;
  std::vector<std::string> samples;
  for (uint64_t index = worker; index < cases; index += opt.workers)
  {
    if (NowMs() >= deadline_ms) { break; }
    slot->case_index.store(index);
    slot->start_ms.store(NowMs());
    slot->state.store(1);
    Src src(slot, CaseSeed(opt.seed, prop.name, index));
    Ctx ctx;
    ctx.quick = (opt.tier == "quick");
    ctx.scratch_dir = opt.scratch_dir;
    const Outcome outcome = RunCase(prop, slot, src, ctx, CaseSize(index));
    slot->start_ms.store(0);
    if (outcome == Outcome::kFail)
    {
      slot->evaluations++;
      slot->state.store(2);
      _exit(1);
    }
    slot->state.store(0);
    if (outcome == Outcome::kDiscard)
    {
      slot->discards++;
      continue;
    }
    slot->evaluations++;
    for (const auto& kv : ctx.labels) { labels[kv.first] += kv.second; }
    if (ctx.IsNontrivial())
    {
      slot->nontrivial++;
      uint64_t h = 0xcbf29ce484222325ull;
      for (uint32_t i = 0; i < slot->tape_len; i++)
      {
        h = Mix(h ^ slot->tape[i]);
      }
      const bool fresh = hashes.insert(h).second;
      if (fresh && samples.size() < 3 && hashes.size() >= 5
          && !ctx.Note().empty())
      {
        samples.push_back(ctx.Note());
      }
    }
  }
  std::ofstream out(result_path);
  out << labels.size() << "\n";
  for (const auto& kv : labels) { out << kv.second << " " << kv.first << "\n"; }
  out << hashes.size() << "\n";
  for (const uint64_t h : hashes) { out << h << "\n"; }
  out << samples.size() << "\n";
  for (const std::string& s : samples)
  {
    std::string flat = s.substr(0, 1500);
    std::replace(flat.begin(), flat.end(), '\n', ' ');
    out << flat << "\n";
  }
  out.close();
  slot->state.store(3);
  _exit(0);
}

// Run one tape in a child. Returns true if it failed (found filled in).
inline bool RunTape(
    const Prop& prop, const std::vector<uint64_t>& tape, const Options& opt,
    const double timeout_s, Slot* slot, Found& found,
    const std::string& stderr_to = "")
{
  std::fflush(nullptr);
  slot->state.store(1);
  slot->tape_len = 0;
  slot->tag[0] = 0;
  slot->msg[0] = 0;
  slot->note[0] = 0;
  const pid_t pid = fork();
  if (pid == 0)
  {
    setpgid(0, 0);
    QuietStreams(stderr_to);
    Src src(slot, tape);
    Ctx ctx;
    ctx.quick = (opt.tier == "quick");
    ctx.replay = true;
    ctx.scratch_dir = opt.scratch_dir;
    const Outcome outcome = RunCase(prop, slot, src, ctx, 0);
    slot->state.store(outcome == Outcome::kFail ? 2u : 3u);
    _exit(outcome == Outcome::kFail ? 1 : 0);
  }
  if (pid < 0) { return false; }
  const uint64_t deadline = NowMs() + static_cast<uint64_t>(timeout_s * 1000.0);
  int status = 0;
  bool hang = false;
  useconds_t nap = 50;
  while (true)
  {
    const pid_t r = waitpid(pid, &status, WNOHANG);
    if (r == pid) { break; }
    if (NowMs() > deadline)
    {
      hang = true;
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
      break;
    }
    usleep(nap);
    nap = std::min<useconds_t>(nap * 2, 5000);
  }
  const uint32_t state = slot->state.load();
  if (!hang && state == 3) { return false; }
  found.valid = true;
  found.prop = prop.name;
  found.tape.assign(slot->tape, slot->tape + slot->tape_len);
  found.note = slot->note;
  if (hang)
  {
    found.tag = "hang";
    found.msg = Str("case did not finish within ", timeout_s, " s");
  }
  else if (state == 2)
  {
    found.tag = slot->tag;
    found.msg = slot->msg;
  }
  else
  {
    found.tag = "crash";
    found.msg = WIFSIGNALED(status)
                    ? Str("process died with signal ", WTERMSIG(status))
                    : Str("process exited with status ", WEXITSTATUS(status),
                          " (sanitizer report or abort)");
  }
  return true;
}

inline Found Shrink(const Prop& prop, const Found& start, const Options& opt,
                    const double budget_s)
{
  Slot* slot = MakeSlot();
  Found best = start;
  const bool hang = (start.tag == "hang");
  const double timeout = prop.timeout_s;
  const uint64_t deadline = NowMs() + static_cast<uint64_t>(budget_s * 1000.0);
  uint64_t tried = 0;
  const int repeats = prop.concurrent ? 5 : 1;
  const auto attempt = [&] (const std::vector<uint64_t>& tape) -> bool
  {
    if (NowMs() > deadline) { return false; }
    tried++;
    for (int r = 0; r < repeats; r++)
    {
      Found f;
      if (RunTape(prop, tape, opt, timeout, slot, f) && f.tag == best.tag
          && (f.tape.size() < best.tape.size()
              || (f.tape.size() == best.tape.size() && f.tape < best.tape)))
      {
        best = f;
        return true;
      }
    }
    return false;
  };
  bool improved = true;
  while (improved && NowMs() < deadline)
  {
    improved = false;
    // Truncate.
    for (size_t keep = best.tape.size() / 2; keep > 0 && keep < best.tape.size();)
    {
      std::vector<uint64_t> t(best.tape.begin(),
                              best.tape.begin() + static_cast<ssize_t>(keep));
      if (attempt(t)) { improved = true; keep = best.tape.size() / 2; }
      else { keep += (best.tape.size() - keep + 1) / 2; if (best.tape.size() - keep < 2) { break; } }
      if (NowMs() > deadline) { break; }
    }
    // Delete chunks.
    for (size_t chunk = std::min<size_t>(64, best.tape.size()); chunk >= 1; chunk /= 2)
    {
      for (size_t i = best.tape.size(); i-- > 0;)
      {
        if (i + chunk > best.tape.size()) { continue; }
        std::vector<uint64_t> t = best.tape;
        t.erase(t.begin() + static_cast<ssize_t>(i),
                t.begin() + static_cast<ssize_t>(i + chunk));
        if (attempt(t)) { improved = true; }
        if (NowMs() > deadline) { break; }
      }
      if (NowMs() > deadline || hang) { break; }
    }
    // Zero chunks.
    for (size_t chunk : {size_t(8), size_t(4), size_t(2)})
    {
      for (size_t i = 0; i + chunk <= best.tape.size(); i += chunk)
      {
        std::vector<uint64_t> t = best.tape;
        bool any = false;
        for (size_t j = i; j < i + chunk; j++) { any = any || t[j] != 0; t[j] = 0; }
        if (any && attempt(t)) { improved = true; }
        if (NowMs() > deadline) { break; }
      }
    }
    // Minimise single choices.
    for (size_t i = 0; i < best.tape.size(); i++)
    {
      if (NowMs() > deadline) { break; }
      if (best.tape[i] == 0) { continue; }
      {
        std::vector<uint64_t> t = best.tape;
        t[i] = 0;
        if (attempt(t)) { improved = true; continue; }
      }
      uint64_t lo = 0;
      uint64_t hi = (i < best.tape.size()) ? best.tape[i] : 0;
      int steps = 0;
      while (hi > lo + 1 && steps++ < 24 && NowMs() < deadline)
      {
        const uint64_t mid = lo + (hi - lo) / 2;
        std::vector<uint64_t> t = best.tape;
        if (i >= t.size()) { break; }
        t[i] = mid;
        if (attempt(t))
        {
          improved = true;
          if (i >= best.tape.size()) { break; }
          hi = best.tape[i];
        }
        else { lo = mid; }
      }
    }
  }
  std::cerr << "shrink: " << start.tape.size() << " -> " << best.tape.size()
            << " choices, " << tried << " candidates\n";
  FreeSlot(slot);
  return best;
}

inline const Prop* FindProp(const std::string& name)
{
  for (const Prop& p : Registry()) { if (p.name == name) { return &p; } }
  return nullptr;
}

inline bool ReadReplay(const std::string& path, std::string& prop,
                       std::vector<uint64_t>& tape)
{
  std::ifstream in(path);
  if (!in) { return false; }
  std::string line;
  while (std::getline(in, line))
  {
    if (line.rfind("subproperty: ", 0) == 0) { prop = line.substr(13); }
    if (line.rfind("tape:", 0) == 0)
    {
      std::istringstream s(line.substr(5));
      uint64_t v = 0;
      while (s >> v) { tape.push_back(v); }
      return true;
    }
  }
  return false;
}

inline std::string WriteReplay(const Options& opt, const Found& f,
                               const std::string& stderr_text)
{
  mkdir(opt.replay_dir.c_str(), 0755);
  const std::string path = opt.replay_dir + "/" + opt.property + "-"
                           + f.prop + "-" + opt.variant + "-"
                           + std::to_string(HashString(f.msg) % 100000) + ".replay";
  std::ofstream out(path);
  out << "property: " << opt.property << "\n"
      << "subproperty: " << f.prop << "\n"
      << "variant: " << opt.variant << "\n"
      << "seed: " << opt.seed << "\n"
      << "tag: " << f.tag << "\n"
      << "tape:";
  for (const uint64_t v : f.tape) { out << " " << v; }
  out << "\n--- failure\n" << f.msg << "\n--- generated case\n" << f.note << "\n";
  if (!stderr_text.empty())
  {
    out << "--- stderr of the failing process\n" << stderr_text << "\n";
  }
  return path;
}

inline std::string ReadFile(const std::string& path, const size_t cap)
{
  std::ifstream in(path);
  std::ostringstream s;
  s << in.rdbuf();
  std::string r = s.str();
  if (r.size() > cap) { r.resize(cap); }
  return r;
}

inline Found RunProp(const Prop& prop, const Options& opt, PropStats& stats,
                     const double time_share_s)
{
  const uint64_t begin = NowMs();
  uint64_t cases = (opt.tier == "quick") ? prop.quick_cases : prop.thorough_cases;
  cases = static_cast<uint64_t>(static_cast<double>(cases) * opt.case_scale);
  if (cases < opt.workers) { cases = opt.workers; }
  const uint64_t deadline = begin + static_cast<uint64_t>(time_share_s * 1000.0);
  const uint32_t workers = opt.workers;
  std::vector<Slot*> slots;
  std::vector<pid_t> pids;
  std::vector<std::string> results;
  std::vector<std::string> stderrs;
  std::fflush(nullptr);
  for (uint32_t w = 0; w < workers; w++)
  {
    slots.push_back(MakeSlot());
    results.push_back(opt.scratch_dir + "/result-" + std::to_string(w));
    stderrs.push_back(opt.scratch_dir + "/stderr-" + std::to_string(w));
    const pid_t pid = fork();
    if (pid == 0)
    {
      QuietStreams(stderrs.back());
      WorkerMain(prop, slots.back(), opt, w, cases, deadline, results.back());
    }
    pids.push_back(pid);
  }
  Found found;
  std::vector<bool> alive(workers, true);
  uint32_t remaining = workers;
  while (remaining > 0)
  {
    bool progressed = false;
    for (uint32_t w = 0; w < workers; w++)
    {
      if (!alive[w]) { continue; }
      int status = 0;
      const pid_t r = waitpid(pids[w], &status, WNOHANG);
      bool hang = false;
      if (r != pids[w])
      {
        const uint64_t start = slots[w]->start_ms.load();
        if (start != 0
            && NowMs() > start + static_cast<uint64_t>(prop.timeout_s * 1000.0))
        {
          hang = true;
          kill(pids[w], SIGKILL);
          waitpid(pids[w], &status, 0);
        }
        else { continue; }
      }
      progressed = true;
      alive[w] = false;
      remaining--;
      Slot* s = slots[w];
      if (!hang && s->state.load() == 3)
      {
        std::ifstream in(results[w]);
        size_t n = 0;
        in >> n;
        for (size_t i = 0; i < n; i++)
        {
          uint64_t c = 0;
          std::string name;
          in >> c;
          in.get();
          std::getline(in, name);
          stats.labels[name] += c;
        }
        in >> n;
        stats.distinct_nontrivial += n;
        for (size_t i = 0; i < n; i++) { uint64_t h = 0; in >> h; }
        in >> n;
        in.get();
        for (size_t i = 0; i < n; i++)
        {
          std::string line;
          std::getline(in, line);
          if (stats.samples.size() < 4) { stats.samples.push_back(line); }
        }
        continue;
      }
      if (!found.valid)
      {
        found.valid = true;
        found.prop = prop.name;
        found.tape.assign(s->tape, s->tape + s->tape_len);
        found.note = s->note;
        if (hang)
        {
          found.tag = "hang";
          found.msg = Str("case ", s->case_index.load(),
                          " did not finish within ", prop.timeout_s, " s");
        }
        else if (s->state.load() == 2) { found.tag = s->tag; found.msg = s->msg; }
        else
        {
          found.tag = "crash";
          found.msg = WIFSIGNALED(status)
                          ? Str("process died with signal ", WTERMSIG(status))
                          : Str("process exited with status ",
                                WEXITSTATUS(status));
        }
      }
    }
    if (found.valid && remaining > 0)
    {
      for (uint32_t w = 0; w < workers; w++)
      {
        if (alive[w])
        {
          kill(pids[w], SIGKILL);
          int status = 0;
          waitpid(pids[w], &status, 0);
          alive[w] = false;
        }
      }
      remaining = 0;
    }
    if (!progressed) { usleep(2000); }
  }
  for (uint32_t w = 0; w < workers; w++)
  {
    stats.evaluations += slots[w]->evaluations.load();
    stats.discards += slots[w]->discards.load();
    stats.nontrivial += slots[w]->nontrivial.load();
    FreeSlot(slots[w]);
    unlink(results[w].c_str());
    unlink(stderrs[w].c_str());
  }
  stats.wall_s = static_cast<double>(NowMs() - begin) / 1000.0;
  return found;
}

// A failure counts only if it replays (3 of 3; a schedule-dependent property
// counts if it fails again at least once in many tries, because its oracle does
// not depend on the schedule).
inline bool Confirm(const Prop& prop, const Found& f, const Options& opt,
                    Found& confirmed)
{
  Slot* slot = MakeSlot();
  bool ok = true;
  if (!prop.concurrent)
  {
    const int times = 3;
    for (int i = 0; i < times && ok; i++)
    {
      Found r;
      ok = RunTape(prop, f.tape, opt,
                   prop.timeout_s * (f.tag == "hang" ? 2.0 : 3.0), slot, r,
                   opt.scratch_dir + "/confirm-stderr");
      if (ok) { confirmed = r; }
    }
  }
  else
  {
    ok = false;
    for (int i = 0; i < 60 && !ok; i++)
    {
      Found r;
      ok = RunTape(prop, f.tape, opt, prop.timeout_s * 2.0, slot, r,
                   opt.scratch_dir + "/confirm-stderr");
      if (ok) { confirmed = r; }
    }
  }
  FreeSlot(slot);
  return ok;
}

inline std::string Arg(int argc, char** argv, const std::string& key,
                       const std::string& def)
{
  for (int i = 1; i + 1 < argc; i++)
  {
    if (key == argv[i]) { return argv[i + 1]; }
  }
  return def;
}

inline int Main(int argc, char** argv)
{
  Options opt;
  opt.property = Arg(argc, argv, "--property", "C00");
  opt.tier = Arg(argc, argv, "--tier", "quick");
  opt.seed = std::strtoull(Arg(argc, argv, "--seed", "1").c_str(), nullptr, 10);
  opt.workers = static_cast<uint32_t>(
      std::strtoul(Arg(argc, argv, "--workers", "8").c_str(), nullptr, 10));
  opt.time_budget_s = std::strtod(Arg(argc, argv, "--time", "30").c_str(), nullptr);
  opt.case_scale = std::strtod(Arg(argc, argv, "--scale", "1").c_str(), nullptr);
  opt.out_json = Arg(argc, argv, "--out", "");
  opt.replay_dir = Arg(argc, argv, "--replay-dir", ".");
  opt.replay_file = Arg(argc, argv, "--replay", "");
  opt.variant = Arg(argc, argv, "--variant", "plain");
  opt.only = Arg(argc, argv, "--only", "");
  opt.scratch_dir = Arg(argc, argv, "--scratch", "");
  if (opt.scratch_dir.empty())
  {
    char tmpl[] = "/tmp/pbt-XXXXXX";
    opt.scratch_dir = mkdtemp(tmpl);
  }
  signal(SIGPIPE, SIG_IGN);
  // Cap memory use in flavours that allow it (ASan reserves address space).
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
  {
    struct rlimit rl;
    rl.rlim_cur = rl.rlim_max = size_t(3) << 30;
    setrlimit(RLIMIT_AS, &rl);
  }
#endif
  {
    struct rlimit rl;
    rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
  }

  if (!opt.replay_file.empty())
  {
    std::string name;
    std::vector<uint64_t> tape;
    if (!ReadReplay(opt.replay_file, name, tape))
    {
      std::cerr << "cannot read replay file\n";
      return 3;
    }
    const Prop* prop = FindProp(name);
    if (prop == nullptr) { std::cerr << "no such subproperty\n"; return 3; }
    Found f;
    f.tape = tape;
    Found r;
    if (Confirm(*prop, f, opt, r))
    {
      std::cout << "REPRODUCED " << name << " [" << r.tag << "]\n" << r.msg
                << "\n" << r.note << "\n"
                << ReadFile(opt.scratch_dir + "/confirm-stderr", 8000) << "\n";
      std::cout << "VIOLATION property=" << opt.property
                << " replay=" << opt.replay_file << "\n";
      return 1;
    }
    std::cout << "not reproduced\n";
    return 0;
  }

  const uint64_t begin = NowMs();
  std::vector<std::pair<const Prop*, PropStats>> all;
  Found violation;
  std::string replay_path;
  uint64_t unconfirmed = 0;

  // Known findings (each one in a child of its own).
  std::vector<std::string> known_lines;
  for (const Known& k : KnownRegistry())
  {
    std::fflush(nullptr);
    const pid_t pid = fork();
    if (pid == 0)
    {
      QuietStreams("");
      bool fails = true;
      try { fails = k.still_fails(); } catch (...) { fails = true; }
      _exit(fails ? 1 : 0);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0))
    {
      known_lines.push_back("KNOWN-FINDING: property=" + opt.property + " " + k.text);
    }
  }
  for (const std::string& line : known_lines) { std::cout << line << "\n"; }
  std::cout.flush();

  double remaining_budget = opt.time_budget_s;
  size_t remaining_props = 0;
  for (const Prop& p : Registry())
  {
    if (opt.only.empty() || opt.only == p.name) { remaining_props++; }
  }
  for (const Prop& p : Registry())
  {
    if (!opt.only.empty() && opt.only != p.name) { continue; }
    PropStats stats;
    // A subproperty may use its fair share of what is left of the budget.
    const double share = std::max(
        1.0, remaining_budget * 1.6 / (static_cast<double>(remaining_props) + 0.6));
    Found f = RunProp(p, opt, stats, share);
    remaining_budget = std::max(0.0, remaining_budget - stats.wall_s);
    remaining_props--;
    std::cerr << opt.property << "/" << opt.variant << " " << p.name << ": "
              << stats.evaluations << " cases, " << stats.distinct_nontrivial
              << " distinct non-trivial, " << stats.discards << " discarded, "
              << stats.wall_s << " s\n";
    if (!std::getenv("PBT_QUIET_LABELS"))
    {
      for (const auto& kv : stats.labels)
      {
        std::cerr << "    " << kv.first << ": " << kv.second << "\n";
      }
    }
    all.emplace_back(&p, stats);
    if (f.valid)
    {
      std::cerr << "failure in " << p.name << " [" << f.tag << "] " << f.msg << "\n";
      const double shrink_budget = (opt.tier == "quick") ? 40.0 : 90.0;
      Found confirmed;
      Found small = f;
      if (Confirm(p, f, opt, confirmed))
      {
        small = confirmed;
        small = Shrink(p, small, opt, shrink_budget);
        Found c2;
        if (Confirm(p, small, opt, c2)) { small = c2; }
        else { small = confirmed; }
        violation = small;
        replay_path = WriteReplay(
            opt, small,
            small.tag == "crash"
                ? ReadFile(opt.scratch_dir + "/confirm-stderr", 8000) : "");
        std::cerr << "minimal failing case [" << small.tag << "] " << small.msg
                  << "\n" << small.note << "\n";
        if (small.tag == "crash")
        {
          std::cerr << ReadFile(opt.scratch_dir + "/confirm-stderr", 4000) << "\n";
        }
        break;
      }
      unconfirmed++;
      std::cerr << "failure did not replay; not reported as a violation\n";
    }
  }

  const double wall = static_cast<double>(NowMs() - begin) / 1000.0;
  if (!opt.out_json.empty())
  {
    std::ofstream out(opt.out_json);
    out << "{\"variant\": \"" << opt.variant << "\", \"wall_s\": " << wall
        << ", \"unconfirmed\": " << unconfirmed
        << ", \"known\": " << known_lines.size()
        << ", \"violation\": \"" << JsonEscape(replay_path) << "\", \"props\": [";
    bool first = true;
    for (const auto& item : all)
    {
      if (!first) { out << ", "; }
      first = false;
      const PropStats& st = item.second;
      out << "{\"name\": \"" << JsonEscape(item.first->name) << "\", \"rule\": \""
          << JsonEscape(item.first->rule) << "\", \"evaluations\": "
          << st.evaluations << ", \"discards\": " << st.discards
          << ", \"nontrivial\": " << st.nontrivial
          << ", \"distinct_nontrivial\": " << st.distinct_nontrivial
          << ", \"wall_s\": " << st.wall_s << ", \"labels\": {";
      bool f2 = true;
      for (const auto& kv : st.labels)
      {
        if (!f2) { out << ", "; }
        f2 = false;
        out << "\"" << JsonEscape(kv.first) << "\": " << kv.second;
      }
      out << "}, \"samples\": [";
      f2 = true;
      for (const std::string& s : st.samples)
      {
        if (!f2) { out << ", "; }
        f2 = false;
        out << "\"" << JsonEscape(s) << "\"";
      }
      out << "]}";
    }
    out << "]}\n";
  }
  if (violation.valid)
  {
    std::cout << "VIOLATION property=" << opt.property << " replay="
              << replay_path << "\n";
    return 1;
  }
  return 0;
}
}  // namespace pbt

// PROP(name, rule, quick_cases, thorough_cases) { body using src, ctx }
#define PBT_PROP_IMPL(ident, name, rule, quick_cases, thorough_cases, conc, tmo) \
  static void ident(::pbt::Src& src, ::pbt::Ctx& ctx);                         \
  static ::pbt::Registrar ident##_registrar(::pbt::Prop{                       \
      name, rule, quick_cases, thorough_cases, ident, conc, tmo});             \
  static void ident([[maybe_unused]] ::pbt::Src& src,                          \
                    [[maybe_unused]] ::pbt::Ctx& ctx)
#define PROP(ident, rule, quick_cases, thorough_cases)                         \
  PBT_PROP_IMPL(ident, #ident, rule, quick_cases, thorough_cases, false, 20.0)
#define PROP_CONCURRENT(ident, rule, quick_cases, thorough_cases)              \
  PBT_PROP_IMPL(ident, #ident, rule, quick_cases, thorough_cases, true, 20.0)
