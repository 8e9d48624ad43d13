// C30 General utilities
// PBT-VARIANTS: plain asan tsan
// PBT-THREADS: 4
#include "pbt.hpp"

#include <common_robotics_utilities/utility.hpp>

namespace utility = common_robotics_utilities::utility;

namespace c30
{
struct Record
{
  int64_t number;
  std::string text;
  bool flag;
  double real;
  bool operator==(const Record& o) const { return number == o.number && text == o.text && flag == o.flag && real == o.real; }
};
}  // namespace c30

CRU_MAKE_HASHABLE(c30::Record, t.number, t.text, t.flag, t.real)

namespace
{
struct Log
{
  std::vector<std::string> messages;
  utility::LoggingFunction Function() { return [this] (const std::string& m) { messages.push_back(m); }; }
};

template<typename T>
T Number(pbt::Src& src, const std::vector<T>& others)
{
  if (!others.empty() && src.Bool(1, 4)) { return src.Pick(others); }
  if constexpr (std::is_floating_point<T>::value)
  {
    if (src.Bool(1, 10)) { return src.Bool() ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity(); }
    if (!others.empty() && src.Bool(1, 5)) { return std::nextafter(src.Pick(others), static_cast<T>(src.Bool() ? 1e30 : -1e30)); }
    return static_cast<T>(src.Bool() ? src.Real(-2.0, 2.0) : src.Real(-1e6, 1e6));
  }
  else
  {
    switch (src.Choose(3))
    {
      case 0: return static_cast<T>(src.Choose(4));
      case 1: return static_cast<T>(src.AnyU64());
      case 2: return src.Bool() ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
      default: return static_cast<T>(src.Choose(100));
    }
  }
}

template<typename T>
void ClampCase(pbt::Src& src, pbt::Ctx& ctx)
{
  std::vector<T> pool;
  const T low = Number<T>(src, pool); pool.push_back(low);
  const T high = Number<T>(src, pool); pool.push_back(high);
  const T value = Number<T>(src, pool);
  ctx << "clamp " << +value << " to " << +low << ", " << +high << "\n";
  Log log;
  if (low > high)
  {
    ctx.Label("impossible range");
    PBT_CHECK("rejected", pbt::ThrowsA<std::invalid_argument>([&] { utility::ClampValue<T>(value, low, high); }), "an impossible range was accepted");
    PBT_CHECK("rejected", pbt::ThrowsA<std::invalid_argument>([&] { utility::ClampValueAndLog<T>(value, low, high, log.Function()); }), "an impossible range was accepted");
    return;
  }
  const T expected = value < low ? low : (high < value ? high : value);
  const T silent = utility::ClampValue<T>(value, low, high);
  const T logged = utility::ClampValueAndLog<T>(value, low, high, log.Function());
  PBT_CHECK("clamped", silent == expected && logged == expected && utility::ClampValueAndLog<T>(value, low, high) == expected, "became ", +silent, " and ", +logged, " instead of ", +expected);
  const bool changed = !(expected == value);
  PBT_CHECK("reported", log.messages.size() == (changed ? 1U : 0U), log.messages.size(), " messages when the value was ", changed ? "changed" : "kept");
  PBT_CHECK("reported", !changed || !log.messages[0].empty(), "an empty message");
  ctx.Label("changed", changed);
  if (changed || value == low || value == high) { ctx.Nontrivial(); }
}

template<typename T>
void SpreadCase(pbt::Src& src, pbt::Ctx& ctx)
{
  std::vector<T> pool;
  std::vector<T> limits;
  for (size_t i = 0; i < 3; i++) { const T v = Number<T>(src, pool); pool.push_back(v); limits.push_back(v); }
  if (src.Bool(7, 8)) { std::sort(limits.begin(), limits.end()); }
  const T low = limits[0], middle = limits[1], high = limits[2];
  const T value = Number<T>(src, pool);
  ctx << "spread " << +value << " over " << +low << ", " << +middle << ", " << +high << "\n";
  Log log;
  if (low > middle || middle > high)
  {
    ctx.Label("impossible range");
    PBT_CHECK("rejected", pbt::ThrowsA<std::invalid_argument>([&] { utility::SpreadValue<T>(value, low, middle, high); }), "impossible thresholds were accepted");
    PBT_CHECK("rejected", pbt::ThrowsA<std::invalid_argument>([&] { utility::SpreadValueAndLog<T>(value, low, middle, high, log.Function()); }), "impossible thresholds were accepted");
    return;
  }
  // Values strictly between the thresholds move out to the one on their side of the middle.
  T expected = value;
  if (value >= middle) { if (value < high) { expected = high; } }
  else if (value > low) { expected = low; }
  const T silent = utility::SpreadValue<T>(value, low, middle, high);
  const T logged = utility::SpreadValueAndLog<T>(value, low, middle, high, log.Function());
  PBT_CHECK("spread", silent == expected && logged == expected && utility::SpreadValueAndLog<T>(value, low, middle, high) == expected, "became ", +silent, " and ", +logged, " instead of ", +expected);
  const bool changed = !(expected == value);
  PBT_CHECK("reported", log.messages.size() == (changed ? 1U : 0U), log.messages.size(), " messages when the value was ", changed ? "changed" : "kept");
  ctx.Label("changed", changed);
  if (changed || value == low || value == high || value == middle) { ctx.Nontrivial(); }
}
}  // namespace

PROP(Clamping, "a value was changed, or on a limit", 600000, 20000000)
{
  switch (src.Choose(9))
  {
    case 0: ClampCase<double>(src, ctx); break;
    case 1: ClampCase<float>(src, ctx); break;
    case 2: ClampCase<int32_t>(src, ctx); break;
    case 3: ClampCase<uint64_t>(src, ctx); break;
    case 4: ClampCase<int8_t>(src, ctx); break;
    case 5: SpreadCase<double>(src, ctx); break;
    case 6: SpreadCase<float>(src, ctx); break;
    case 7: SpreadCase<int32_t>(src, ctx); break;
    case 8: SpreadCase<uint64_t>(src, ctx); break;
    default: SpreadCase<int16_t>(src, ctx); break;
  }
}

namespace
{
template<typename T>
void BitCase(pbt::Src& src, pbt::Ctx& ctx)
{
  constexpr uint32_t width = static_cast<uint32_t>(sizeof(T) * 8);
  T value = static_cast<T>(src.AnyU64());
  std::vector<bool> model(width);
  for (uint32_t i = 0; i < width; i++) { model[i] = (static_cast<uint64_t>(value) >> i) & 1U; }
  size_t changes = 0;
  const size_t steps = src.Size(1, 12);
  for (size_t step = 0; step < steps; step++)
  {
    const uint32_t position = static_cast<uint32_t>(src.Choose(width - 1));
    const bool bit = src.Bool();
    ctx << width << "-bit " << static_cast<uint64_t>(value) << " position " << position << " := " << bit << "\n";
    changes += (model[position] != bit) ? 1 : 0;
    const T changed = utility::SetBit<T>(value, position, bit);
    static_assert(std::is_same<decltype(utility::SetBit<T>(value, position, bit)), T>::value, "SetBit keeps the type");
    model[position] = bit;
    for (uint32_t i = 0; i < width; i++)
    {
      PBT_CHECK("set", (((static_cast<uint64_t>(changed) >> i) & 1U) != 0) == model[i], "bit ", i, " of the result is wrong");
      PBT_CHECK("get", utility::GetBit<T>(changed, i) == model[i], "bit ", i, " is read as ", !model[i]);
    }
    value = changed;
  }
  if (changes > 0 && changes < steps) { ctx.Nontrivial(); }
}
}  // namespace

PROP(Bits, "some bits were changed and some kept", 120000, 4000000)
{
  switch (src.Choose(3))
  {
    case 0: BitCase<uint8_t>(src, ctx); break;
    case 1: BitCase<uint16_t>(src, ctx); break;
    case 2: BitCase<uint32_t>(src, ctx); break;
    default: BitCase<uint64_t>(src, ctx); break;
  }
}

namespace
{
// Draws from [0, 1), its very ends, and (close to) fractions of a count.
double Draw(pbt::Src& src, const long double count)
{
  switch (src.Choose(4))
  {
    case 0: return 0.0;
    case 1: return std::nextafter(1.0, 0.0);
    case 2:
    {
      double v = static_cast<double>(std::floor(static_cast<long double>(src.Unit()) * count) / count);
      if (src.Bool()) { v = std::nextafter(v, src.Bool() ? 0.0 : 1.0); }
      return std::min(std::max(v, 0.0), std::nextafter(1.0, 0.0));
    }
    default:
    {
      const double v = src.Unit();
      return v < 1.0 ? v : 0.5;
    }
  }
}

template<typename T>
T AnyInteger(pbt::Src& src)
{
  switch (src.Choose(4))
  {
    case 0: return static_cast<T>(src.Choose(10));
    case 1: return static_cast<T>(src.AnyU64());
    case 2: return src.Bool() ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
    case 3: return static_cast<T>(std::numeric_limits<T>::max() - static_cast<T>(src.Choose(5)));
    default: return static_cast<T>(src.Int(-100, 100));
  }
}

template<typename T>
void IndexCase(pbt::Src& src, pbt::Ctx& ctx)
{
  size_t draws = 0;
  double draw = 0.0;
  const utility::UniformUnitRealFunction function = [&] { draws++; return draw; };
  if (src.Bool())
  {
    const T size = AnyInteger<T>(src);
    ctx << sizeof(T) << " bytes, size " << +size;
    if (size < 1)
    {
      ctx.Label("nothing to choose from");
      PBT_CHECK("rejected", pbt::ThrowsA<std::invalid_argument>([&] { utility::GetUniformRandomIndex<T>(function, size); }), "choosing from nothing was accepted");
      return;
    }
    draw = Draw(src, static_cast<long double>(size));
    ctx << ", draw " << draw;
    const T index = utility::GetUniformRandomIndex<T>(function, size);
    PBT_CHECK("index", index >= 0 && index < size, "index ", +index);
    PBT_CHECK("draws", draws == 1, draws, " draws for one index");
    // Every index gets an equal share of [0, 1), up to the precision of a double.
    const long double position = static_cast<long double>(draw) * static_cast<long double>(size);
    const long double slack = static_cast<long double>(size) * 4.0L * std::numeric_limits<double>::epsilon();
    PBT_CHECK("share", static_cast<long double>(index) <= position + slack && position < static_cast<long double>(index) + 1.0L + slack, "index ", +index, " is not the share of the draw");
    if (size > 1) { ctx.Nontrivial(); }
  }
  else
  {
    const T start = AnyInteger<T>(src);
    const T end = src.Bool(1, 4) ? static_cast<T>(src.Bool() ? start : static_cast<T>(static_cast<uint64_t>(start) + src.Choose(8))) : AnyInteger<T>(src);
    ctx << sizeof(T) << " bytes, range " << +start << " to " << +end;
    if (end < start)
    {
      ctx.Label("nothing to choose from");
      PBT_CHECK("rejected", pbt::ThrowsA<std::invalid_argument>([&] { utility::GetUniformRandomInRange<T>(function, start, end); }), "choosing from nothing was accepted");
      return;
    }
    const long double count = static_cast<long double>(end) - static_cast<long double>(start) + 1.0L;
    draw = Draw(src, count);
    ctx << ", draw " << draw;
    const T value = utility::GetUniformRandomInRange<T>(function, start, end);
    PBT_CHECK("range", value >= start && value <= end, "value ", +value);
    PBT_CHECK("draws", draws == 1, draws, " draws for one value");
    const long double offset = static_cast<long double>(value) - static_cast<long double>(start);
    const long double position = static_cast<long double>(draw) * count;
    const long double slack = count * 4.0L * std::numeric_limits<double>::epsilon();
    PBT_CHECK("share", offset <= position + slack && position < offset + 1.0L + slack, "value ", +value, " is not the share of the draw");
    if (end > start) { ctx.Nontrivial(); }
  }
}
}  // namespace

PROP(RandomIndices, "there was something to choose between", 600000, 20000000)
{
  switch (src.Choose(7))
  {
    case 0: IndexCase<int8_t>(src, ctx); break;
    case 1: IndexCase<uint8_t>(src, ctx); break;
    case 2: IndexCase<int16_t>(src, ctx); break;
    case 3: IndexCase<uint16_t>(src, ctx); break;
    case 4: IndexCase<int32_t>(src, ctx); break;
    case 5: IndexCase<uint32_t>(src, ctx); break;
    case 6: IndexCase<int64_t>(src, ctx); break;
    default: IndexCase<uint64_t>(src, ctx); break;
  }
}

namespace
{
// Multisets: each element of one can be matched with an equal, not yet matched element of the other.
template<typename T>
bool Includes(const std::vector<T>& set, const std::vector<T>& subset)
{
  std::vector<bool> used(set.size());
  for (const T& item : subset)
  {
    bool found = false;
    for (size_t i = 0; i < set.size() && !found; i++) { if (!used[i] && set[i] == item) { used[i] = true; found = true; } }
    if (!found) { return false; }
  }
  return true;
}

template<typename T>
void CollectionCase(pbt::Src& src, pbt::Ctx& ctx, const std::function<T(void)>& item)
{
  std::vector<T> a, b;
  const size_t n = src.Size(0, src.Bool(1, 8) ? 30 : 8);
  for (size_t i = 0; i < n; i++) { a.push_back(item()); }
  b = a;
  // Permuted, with some changes.
  for (size_t i = 0; i + 1 < b.size(); i++) { std::swap(b[i], b[i + static_cast<size_t>(src.Choose(b.size() - 1 - i))]); }
  switch (src.Choose(5))
  {
    case 0: break;
    case 1: if (!b.empty()) { b.erase(b.begin() + static_cast<int64_t>(src.Choose(b.size() - 1))); } break;
    case 2: b.push_back(item()); break;
    case 3: if (!b.empty()) { b[static_cast<size_t>(src.Choose(b.size() - 1))] = item(); } break;
    case 4: if (!b.empty()) { b[static_cast<size_t>(src.Choose(b.size() - 1))] = src.Pick(b); } break;
    default: b.clear(); for (size_t i = src.Size(0, src.Bool(1, 8) ? 30 : 8); i > 0; i--) { b.push_back(item()); } break;
  }
  ctx << a.size() << " against " << b.size() << " items\n";
  const bool sub_ab = Includes(b, a), sub_ba = Includes(a, b), equal = sub_ab && sub_ba;
  ctx.Label("equal", equal);
  ctx.Label("proper subset", sub_ab != sub_ba);
  ctx.Label("unrelated", !sub_ab && !sub_ba);
  if (!a.empty() && !b.empty()) { ctx.Nontrivial(); }
  PBT_CHECK("subset", utility::IsSubset<T>(a, b) == sub_ba && utility::IsSubset<T>(b, a) == sub_ab, "subsets are misjudged");
  PBT_CHECK("equal", utility::CollectionsEqual<T>(a, b) == equal && utility::CollectionsEqual<T>(b, a) == equal, "equality is misjudged");
  const std::list<T> list_a(a.begin(), a.end());
  const std::deque<T> deque_b(b.begin(), b.end());
  const std::multiset<T> set_b(b.begin(), b.end());
  const bool l1 = utility::IsSubset<T, std::list<T>, std::deque<T>>(list_a, deque_b);
  const bool l2 = utility::IsSubset<T, std::multiset<T>, std::list<T>>(set_b, list_a);
  const bool l3 = utility::CollectionsEqual<T, std::list<T>, std::multiset<T>>(list_a, set_b);
  PBT_CHECK("containers", l1 == sub_ba && l2 == sub_ab && l3 == equal, "the kind of container makes a difference");
}
}  // namespace

PROP(Collections, "neither collection is empty", 200000, 6000000)
{
  if (src.Bool())
  {
    CollectionCase<int64_t>(src, ctx, [&] { return src.Int(-2, 3); });
  }
  else
  {
    CollectionCase<std::string>(src, ctx, [&] { return std::string(static_cast<size_t>(src.Choose(2)), static_cast<char>('a' + src.Choose(1))); });
  }
}

PROP(Maps, "at least two entries, and a key looked up in vain", 120000, 4000000)
{
  using Map = std::map<int64_t, std::string>;
  using Hashed = std::unordered_map<int64_t, std::string>;
  using Entries = std::vector<std::pair<int64_t, std::string>>;
  Entries entries;
  const size_t n = src.Size(0, 12);
  for (size_t i = 0; i < n; i++) { entries.emplace_back(src.Int(-4, 9), "v" + std::to_string(src.Choose(99))); }
  Map model;
  for (const auto& e : entries) { model[e.first] = e.second; }  // later entries win
  std::vector<int64_t> keys;
  std::vector<std::string> values;
  for (const auto& e : entries) { keys.push_back(e.first); values.push_back(e.second); }
  ctx << n << " entries, " << model.size() << " keys\n";
  const Map map = utility::MakeFromKeysAndValues<int64_t, std::string>(entries);
  const Hashed hashed = utility::MakeFromKeysAndValues<int64_t, std::string, Hashed>(entries);
  const Map zipped = utility::MakeFromKeysAndValues<int64_t, std::string>(keys, values);
  const Hashed zipped_hashed = utility::MakeFromKeysAndValues<int64_t, std::string, Hashed>(keys, values);
  PBT_CHECK("made", map == model && zipped == model, "the map made differs");
  PBT_CHECK("made", hashed == Hashed(model.begin(), model.end()) && zipped_hashed == hashed, "the map made differs");
  {
    std::vector<std::string> other = values;
    if (src.Bool() || other.empty()) { other.push_back("x"); } else { other.pop_back(); }
    PBT_CHECK("rejected", pbt::ThrowsA<std::invalid_argument>([&] { utility::MakeFromKeysAndValues<int64_t, std::string>(keys, other); }), "keys and values of different counts were accepted");
  }
  std::vector<int64_t> model_keys;
  for (const auto& e : model) { model_keys.push_back(e.first); }
  const std::vector<int64_t> map_keys = utility::GetKeysFromMapLike<int64_t, std::string>(map);
  PBT_CHECK("keys", map_keys == model_keys, "the keys differ");
  std::vector<int64_t> hashed_keys = utility::GetKeysFromMapLike<int64_t, std::string, Hashed>(hashed);
  {
    size_t i = 0;
    PBT_CHECK("keys", hashed_keys.size() == hashed.size(), "the keys differ");
    for (const auto& e : hashed) { PBT_CHECK("keys", hashed_keys[i++] == e.first, "the keys differ"); }
  }
  const std::set<int64_t> set(keys.begin(), keys.end());
  const std::multiset<int64_t> multiset(keys.begin(), keys.end());
  PBT_CHECK("keys", (utility::GetKeysFromSetLike<int64_t>(set) == model_keys), "the members of a set differ");
  PBT_CHECK("keys", (utility::GetKeysFromSetLike<int64_t, std::multiset<int64_t>>(multiset) == std::vector<int64_t>(multiset.begin(), multiset.end())), "the members of a multiset differ");
  // Containers with more than one entry per key list it as often.
  using Several = std::multimap<int64_t, std::string>;
  Several several;
  for (size_t i = 0; i < std::min(keys.size(), values.size()); i++) { several.emplace(keys[i], values[i]); }
  std::vector<int64_t> several_keys;
  for (const auto& e : several) { several_keys.push_back(e.first); }
  PBT_CHECK("keys", (utility::GetKeysFromMapLike<int64_t, std::string, Several>(several) == several_keys), "the keys of a multimap differ");
  PBT_CHECK("entries", (utility::GetKeysAndValues<int64_t, std::string, Several>(several) == Entries(several.begin(), several.end())), "the entries of a multimap differ");
  const Entries listed = utility::GetKeysAndValues<int64_t, std::string>(map);
  PBT_CHECK("entries", listed == Entries(model.begin(), model.end()), "the entries differ");
  const Entries listed_hashed = utility::GetKeysAndValues<int64_t, std::string, Hashed>(hashed);
  PBT_CHECK("entries", listed_hashed == Entries(hashed.begin(), hashed.end()), "the entries differ");
  PBT_CHECK("round trip", (utility::MakeFromKeysAndValues<int64_t, std::string, Hashed>(listed_hashed) == hashed), "listing and making again differs");
  bool vain = false;
  for (int64_t key = -5; key <= 10; key++)
  {
    const auto found = model.find(key);
    const std::string fallback = "none" + std::to_string(key);
    const std::string expected = found != model.end() ? found->second : fallback;
    vain |= found == model.end();
    const std::string got = utility::RetrieveOrDefault<int64_t, std::string>(map, key, fallback);
    const std::string got_hashed = utility::RetrieveOrDefault<int64_t, std::string, Hashed>(hashed, key, fallback);
    PBT_CHECK("retrieved", got == expected && got_hashed == expected, "key ", key, " gives ", got, " instead of ", expected);
  }
  if (model.size() >= 2 && vain) { ctx.Nontrivial(); }
}

PROP(Strings, "some but not all strings contain the pattern", 100000, 4000000)
{
  const auto text = [&] (const size_t most) { std::string s; for (size_t i = static_cast<size_t>(src.Choose(most)); i > 0; i--) { s.push_back(static_cast<char>(src.Bool(1, 12) ? '\0' : 'a' + src.Choose(1))); } return s; };
  const std::string pattern = text(3);
  std::vector<std::string> strings;
  size_t containing = 0;
  const size_t n = src.Size(0, 6);
  for (size_t i = 0; i < n; i++)
  {
    strings.push_back(src.Bool(2, 3) ? text(3) + pattern + text(3) : text(6));
    const std::string& s = strings.back();
    bool found = false;
    for (size_t at = 0; at + pattern.size() <= s.size(); at++) { found |= std::equal(pattern.begin(), pattern.end(), s.begin() + static_cast<int64_t>(at)); }
    containing += found ? 1 : 0;
  }
  ctx << n << " strings, " << containing << " containing the pattern\n";
  const bool expected = containing == n;
  const bool got = utility::CheckAllStringsForSubstring(strings, pattern);
  const std::list<std::string> list(strings.begin(), strings.end());
  PBT_CHECK("substring", got == expected && utility::CheckAllStringsForSubstring(list, pattern) == expected, "said ", got, " when ", containing, " of ", n, " contain it");
  ctx.Label("all", expected);
  if (containing > 0 && containing < n) { ctx.Nontrivial(); }
}

PROP(Hashes, "the records differ in one field at least", 80000, 3000000)
{
  std::vector<c30::Record> records;
  const size_t n = src.Size(2, 30);
  for (size_t i = 0; i < n; i++)
  {
    c30::Record r;
    if (!records.empty() && src.Bool(2, 3))
    {
      r = src.Pick(records);
      switch (src.Choose(4))
      {
        case 0: r.number += src.Int(-3, 3); break;
        case 1: r.text += static_cast<char>('a' + src.Choose(2)); break;
        case 2: r.flag = !r.flag; break;
        case 3: r.real += 0.25; break;
        default: break;
      }
    }
    else { r = {src.Int(-1000, 1000), std::string(static_cast<size_t>(src.Choose(4)), 'q'), src.Bool(), src.Real(-5.0, 5.0)}; }
    records.push_back(r);
  }
  const std::hash<c30::Record> hasher;
  std::unordered_set<c30::Record> set;
  std::vector<c30::Record> distinct;
  std::set<size_t> hashes;
  for (const auto& r : records)
  {
    const c30::Record copy{r.number, std::string(r.text.data(), r.text.size()), r.flag, r.real == 0.0 ? -r.real : r.real};
    PBT_CHECK("equal", hasher(r) == hasher(copy), "equal values hash differently");
    set.insert(r);
    if (std::find(distinct.begin(), distinct.end(), r) == distinct.end()) { distinct.push_back(r); hashes.insert(hasher(r)); }
    size_t a = 17, b = 17;
    utility::hash_combine(a, r.number, r.text, r.flag, r.real);
    utility::hash_combine(b, copy.number, copy.text, copy.flag, copy.real);
    PBT_CHECK("equal", a == b, "equal values combine differently");
    size_t none = 99;
    utility::hash_combine(none);
    PBT_CHECK("nothing", none == 99, "combining nothing changed the seed");
  }
  PBT_CHECK("set", set.size() == distinct.size(), "a set of ", set.size(), " for ", distinct.size(), " different records");
  for (const auto& r : distinct) { PBT_CHECK("set", set.count(r) == 1, "a record is lost"); }
  PBT_CHECK("spread", hashes.size() * 2 >= distinct.size(), hashes.size(), " hashes for ", distinct.size(), " different records");
  ctx << distinct.size() << " different records of " << n << ", " << hashes.size() << " hashes\n";
  if (distinct.size() > 1) { ctx.Nontrivial(); }
}

namespace
{
using Atomic = utility::CopyableMoveableAtomic<int64_t>;
using Relaxed = utility::CopyableMoveableAtomic<int64_t, std::memory_order_relaxed>;
}  // namespace

PROP(Atomics, "values were copied after being changed", 100000, 4000000)
{
  std::vector<Atomic> a(2, Atomic(5));
  std::vector<Relaxed> b(2, Relaxed(-5));
  std::vector<int64_t> ma(2, 5), mb(2, -5);
  const size_t length = src.Size(2, 30);
  bool changed = false, copied = false;
  for (size_t step = 0; step < length; step++)
  {
    const size_t i = static_cast<size_t>(src.Choose(a.size() - 1)), j = static_cast<size_t>(src.Choose(b.size() - 1)), k = static_cast<size_t>(src.Choose(a.size() - 1));
    const int64_t v = src.Bool(1, 6) ? static_cast<int64_t>(src.AnyU64() >> 2) : src.Int(-50, 50);
    const uint64_t op = src.Choose(13);
    ctx << op << " ";
    if (op >= 4) { copied |= changed; }
    switch (op)
    {
      case 0: a[i].store(v); ma[i] = v; changed = true; break;
      case 1: b[j].store(v, std::memory_order_release); mb[j] = v; changed = true; break;
      case 2:
      {
        const int64_t before = a[i].fetch_add(v);
        PBT_CHECK("fetch", before == ma[i], "fetch_add gives ", before, " for ", ma[i]);
        ma[i] = static_cast<int64_t>(static_cast<uint64_t>(ma[i]) + static_cast<uint64_t>(v));
        changed = true;
        break;
      }
      case 3:
      {
        const int64_t before = b[j].fetch_sub(v);
        PBT_CHECK("fetch", before == mb[j], "fetch_sub gives ", before, " for ", mb[j]);
        mb[j] = static_cast<int64_t>(static_cast<uint64_t>(mb[j]) - static_cast<uint64_t>(v));
        changed = true;
        break;
      }
      case 4: a[i] = a[k]; ma[i] = ma[k]; break;
      case 5: { Atomic copy(a[i]); a[k] = std::move(copy); ma[k] = ma[i]; break; }
      case 6: a[i] = b[j]; ma[i] = mb[j]; break;
      case 7: b[j] = a[i]; mb[j] = ma[i]; break;
      case 8: { const Atomic copy(b[j]); a[i] = copy; ma[i] = mb[j]; break; }
      case 9: { Relaxed copy(Atomic{a[i]}); b[j] = std::move(copy); mb[j] = ma[i]; break; }
      case 10: { Atomic& self = a[i]; a[i] = self; break; }
      case 11: { Atomic moved(std::move(a[i])); a[i] = moved; break; }
      case 12: if (a.size() < 6) { const Atomic copy = a[i]; const int64_t m = ma[i]; a.push_back(copy); ma.push_back(m); } break;
      default: b[j] = Atomic(v); mb[j] = v; break;
    }
    for (size_t x = 0; x < a.size(); x++) { PBT_CHECK("value", a[x].load() == ma[x] && a[x].load(std::memory_order_relaxed) == ma[x], "value ", a[x].load(), " instead of ", ma[x]); }
    for (size_t x = 0; x < b.size(); x++) { PBT_CHECK("value", b[x].load() == mb[x] && b[x].load(std::memory_order_acquire) == mb[x], "value ", b[x].load(), " instead of ", mb[x]); }
  }
  PBT_CHECK("default", utility::CopyableMoveableAtomic<int32_t>().load() == 0 && utility::CopyableMoveableAtomic<bool>().load() == false, "the default value is not zero");
#ifndef PBT_LENIENT
  utility::CopyableMoveableAtomic<bool> flag(true);
  utility::CopyableMoveableAtomic<bool> other;
  other = flag;
  PBT_CHECK("value", other.load(), "a flag was lost");
  utility::CopyableMoveableAtomic<double> real(0.5), real_copy(real);
  real.store(1.5);
  PBT_CHECK("value", real_copy.load() == 0.5 && real.load() == 1.5, "copies are not independent");
#endif
  utility::CopyableMoveableAtomic<uint8_t> small(250);
  PBT_CHECK("fetch", small.fetch_add(10) == 250 && small.load() == 4 && small.fetch_sub(5) == 4 && small.load() == 255, "small numbers do not wrap");
  if (copied) { ctx.Nontrivial(); }
}

PROP_CONCURRENT(AtomicThreads, "at least two threads updated the same value", 2000, 40000)
{
  const size_t threads = src.Size(2, 4);
  const size_t rounds = src.Size(1, 400);
  const bool relaxed = src.Bool();
  ctx << threads << " threads, " << rounds << " rounds\n";
  ctx.Nontrivial();
  const auto run = [&] (auto& value, auto& published)
  {
    std::vector<int64_t> lowest(threads, 0), sums(threads, 0);
    std::vector<std::set<int64_t>> tickets(threads);
    std::atomic<bool> go(false);
    std::vector<std::thread> pool;
    for (size_t t = 0; t < threads; t++)
    {
      pool.emplace_back([&, t]
      {
        while (!go.load()) { }
        int64_t last = -1;
        for (size_t i = 0; i < rounds; i++)
        {
          const int64_t ticket = value.fetch_add(1);
          tickets[t].insert(ticket);
          if (ticket <= last) { lowest[t] = -1; }
          last = ticket;
          published.fetch_sub(static_cast<int64_t>(t) + 1);
          const std::decay_t<decltype(value)> snapshot(value);  // copies may be taken at any time
          if (snapshot.load() <= ticket) { lowest[t] = -2; }
        }
      });
    }
    go.store(true);
    for (auto& t : pool) { t.join(); }
    std::set<int64_t> all;
    int64_t expected = 0;
    for (size_t t = 0; t < threads; t++)
    {
      PBT_CHECK("order", lowest[t] == 0, "a thread saw older values after newer ones (", lowest[t], ")");
      all.insert(tickets[t].begin(), tickets[t].end());
      expected -= static_cast<int64_t>(rounds) * (static_cast<int64_t>(t) + 1);
    }
    PBT_CHECK("lost", all.size() == threads * rounds && value.load() == static_cast<int64_t>(threads * rounds), "updates were lost: ", all.size(), " tickets, value ", value.load());
    PBT_CHECK("lost", published.load() == expected, "updates were lost: ", published.load(), " instead of ", expected);
  };
  if (relaxed) { Relaxed value(0), published(0); run(value, published); }
  else { Atomic value(0), published(0); run(value, published); }
  // A store publishes what was written before it.
  int64_t payload = 0;
  utility::CopyableMoveableAtomic<bool> ready(false);
  std::thread writer([&] { payload = 42; ready.store(true); });
  utility::CopyableMoveableAtomic<bool> seen(false);
  while (!seen.load()) { seen = ready; }
  const int64_t got = payload;
  writer.join();
  PBT_CHECK("published", got == 42, "what was written before a store is not visible after the load: ", got);
}

namespace
{
static_assert(!std::is_copy_constructible<utility::OnScopeExit>::value && !std::is_move_constructible<utility::OnScopeExit>::value && !std::is_copy_assignable<utility::OnScopeExit>::value && !std::is_move_assignable<utility::OnScopeExit>::value, "scope exits are neither copied nor moved");

struct Plan
{
  std::vector<bool> released;  // per action in this scope
  int way = 0;                 // how the scope is left
  std::vector<Plan> inner;
};

struct Left : std::exception { };

Plan MakePlan(pbt::Src& src, const int depth)
{
  Plan plan;
  const size_t n = src.Size(0, 3);
  for (size_t i = 0; i < n; i++) { plan.released.push_back(src.Bool(1, 3)); }
  plan.way = static_cast<int>(src.Choose(3));
  if (depth > 0) { for (size_t i = src.Size(0, 2); i > 0; i--) { plan.inner.push_back(MakePlan(src, depth - 1)); } }
  return plan;
}

// What the scopes should do: actions in reverse order of their creation, at the end of their scope.
void Model(const Plan& plan, const std::string& name, std::vector<std::string>& trace)
{
  for (size_t i = 0; i < plan.inner.size(); i++) { Model(plan.inner[i], name + "." + std::to_string(i), trace); }
  trace.push_back("end " + name);
  for (size_t i = plan.released.size(); i > 0; i--) { if (!plan.released[i - 1]) { trace.push_back(name + ":" + std::to_string(i - 1)); } }
}

void Run(const Plan& plan, const std::string& name, std::vector<std::string>& trace)
{
  const std::shared_ptr<int> token = std::make_shared<int>(1);
  for (int once = 0; once < 2; once++)
  {
    std::list<std::unique_ptr<utility::OnScopeExit>> guards;  // destroyed from the back below
    struct Unwind { std::list<std::unique_ptr<utility::OnScopeExit>>& g; ~Unwind() { while (!g.empty()) { g.pop_back(); } } } unwind{guards};
    for (size_t i = 0; i < plan.released.size(); i++)
    {
      const std::string text = name + ":" + std::to_string(i);
      guards.push_back(std::make_unique<utility::OnScopeExit>([&trace, text, token] { trace.push_back(text); }));
      PBT_CHECK("enabled", guards.back()->IsEnabled(), "a new action is not enabled");
    }
    {
      size_t i = 0;
      for (auto& g : guards)
      {
        if (plan.released[i++]) { g->Disable(); g->Disable(); PBT_CHECK("enabled", !g->IsEnabled(), "a released action is still enabled"); }
        else { PBT_CHECK("enabled", g->IsEnabled(), "an action was released with another"); }
      }
    }
    for (size_t i = 0; i < plan.inner.size(); i++)
    {
      const std::string inner = name + "." + std::to_string(i);
      if (plan.inner[i].way == 1) { try { Run(plan.inner[i], inner, trace); PBT_CHECK("harness", false, "no exception"); } catch (const Left&) { } }
      else { Run(plan.inner[i], inner, trace); }
    }
    trace.push_back("end " + name);
    if (plan.way == 0) { return; }
    if (plan.way == 1) { throw Left(); }
    if (plan.way == 2) { break; }
    once = 1;  // fall through the end of the loop
  }
}
}  // namespace

PROP(ScopeExits, "actions run in several scopes, one of them left by an exception", 100000, 3000000)
{
  Plan plan = MakePlan(src, 3);
  if (plan.way == 1) { plan.way = 0; }
  std::vector<std::string> expected, trace;
  Model(plan, "s", expected);
  Run(plan, "s", trace);
  std::string text;
  for (const auto& t : trace) { text += t + " "; }
  ctx << text;
  PBT_CHECK("trace", trace == expected, "actions ran as ", text);
  PBT_CHECK("rejected", pbt::ThrowsA<std::invalid_argument>([] { utility::OnScopeExit none(std::function<void(void)>{}); }), "a missing action was accepted");
  std::function<int(const Plan&)> throwing = [&] (const Plan& p) { int n = (p.way == 1 && !p.released.empty()) ? 1 : 0; for (const auto& i : p.inner) { n += throwing(i); } return n; };
  if (throwing(plan) > 0) { ctx.Nontrivial(); }
}

PROP(Alignments, "some but not all addresses are aligned", 50000, 1000000)
{
  alignas(256) static unsigned char storage[1024];
  const uint64_t alignment = src.Bool(4, 5) ? (uint64_t{1} << src.Choose(7)) : src.Choose(40) + 1;
  bool yes = false, no = false;
  for (int i = 0; i < 8; i++)
  {
    const size_t offset = static_cast<size_t>(src.Bool() ? src.Choose(15) * 16 : src.Choose(255));
    const unsigned char& item = storage[offset];
    const bool expected = reinterpret_cast<uintptr_t>(std::addressof(item)) % alignment == 0;
    (expected ? yes : no) = true;
    ctx << offset << (expected ? " is " : " is not ") << "aligned to " << alignment << "\n";
    Log log;
    PBT_CHECK("check", utility::CheckAlignment(item, alignment) == expected && utility::CheckAlignment(item, alignment, log.Function()) == expected, "alignment is misjudged");
    PBT_CHECK("reported", log.messages.size() == 1, log.messages.size(), " messages");
    PBT_CHECK("require", pbt::ThrowsA<std::runtime_error>([&] { utility::RequireAlignment(item, alignment); }) == !expected, "alignment is misjudged");
    const bool eigen = reinterpret_cast<uintptr_t>(std::addressof(item)) % EIGEN_DEFAULT_ALIGN_BYTES == 0;
    PBT_CHECK("require", pbt::ThrowsA<std::runtime_error>([&] { utility::RequireEigenAlignment(item); }) == !eigen, "alignment for Eigen is misjudged");
  }
  utility::NoOpLoggingFunction()("nothing happens");
  if (yes && no) { ctx.Nontrivial(); }
}

PROP_CONCURRENT(Futures, "the result came from another thread", 2000, 40000)
{
  const uint64_t kind = src.Choose(3);
  const int64_t value = src.Int(-1000, 1000);
  ctx << "kind " << kind << " value " << value;
  std::promise<int64_t> promise;
  std::future<int64_t> future = promise.get_future();
  PBT_CHECK("ready", !utility::IsFutureReady(future) && !utility::IsFutureReady(future), "ready before there is a result");
  if (kind == 0) { promise.set_value(value); }
  else if (kind == 1) { promise.set_exception(std::make_exception_ptr(std::runtime_error("none"))); }
  else if (kind == 2)
  {
    ctx.Nontrivial();
    std::thread other([&] { promise.set_value(value); });
    while (!utility::IsFutureReady(future)) { std::this_thread::yield(); }
    PBT_CHECK("ready", future.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "ready without a result");
    other.join();
  }
  else
  {
    // A deferred call has not run, and asking must not run it.
    bool ran = false;
    std::future<int64_t> deferred = std::async(std::launch::deferred, [&] { ran = true; return value; });
    PBT_CHECK("deferred", !utility::IsFutureReady(deferred) && !ran, "asking ran the deferred call");
    PBT_CHECK("value", deferred.get() == value, "the result differs");
    promise.set_value(value);
  }
  PBT_CHECK("ready", utility::IsFutureReady(future) && utility::IsFutureReady(future) && future.valid(), "not ready when there is a result");
  if (kind == 1) { PBT_CHECK("value", pbt::ThrowsA<std::runtime_error>([&] { future.get(); }), "the exception is lost"); }
  else { PBT_CHECK("value", future.get() == value, "the result differs"); }
}
