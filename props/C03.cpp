// C03 network serialization
// PBT-SOURCES: serialization.cpp
#include "codecs.hpp"

using codecs::Buffer;
using codecs::GenScalar;
namespace ser = common_robotics_utilities::serialization;

namespace
{
// Independent big-endian encoder.
template<typename T>
void Encode(const T& v, Buffer& out)
{
  uint64_t bits = 0;
  if constexpr (std::is_same<T, float>::value)
  {
    uint32_t b;
    std::memcpy(&b, &v, 4);
    bits = b;
  }
  else if constexpr (std::is_same<T, double>::value) { std::memcpy(&bits, &v, 8); }
  else { bits = static_cast<uint64_t>(v); }
  for (int shift = static_cast<int>(sizeof(T)) * 8 - 8; shift >= 0; shift -= 8)
  {
    out.push_back(static_cast<uint8_t>((bits >> shift) & 0xffu));
  }
}

void EncodeCount(const size_t n, Buffer& out) { Encode<uint64_t>(n, out); }

template<typename T>
using Vec = std::vector<T>;

// Runs serialize, compares with the expected bytes, deserializes in the middle
// of other data, and tries truncations.
template<typename V>
void RoundTrip(pbt::Src& src, pbt::Ctx& ctx, const std::string& name, const V& value,
               const Buffer& expected,
               const std::function<uint64_t(const V&, Buffer&)>& put,
               const std::function<ser::Deserialized<V>(const Buffer&, uint64_t)>& get,
               const std::function<bool(const V&, const V&)>& eq)
{
  ctx.Label(name);
  Buffer buffer(src.Size(0, 9), 0x77);
  const Buffer before = buffer;
  const uint64_t start = buffer.size();
  const uint64_t written = put(value, buffer);
  ctx << name << " at " << start << " " << codecs::HexDump(expected, 120);
  PBT_CHECK("bytes-written", buffer.size() == start + written, name, " reported ", written,
            " appended ", buffer.size() - start);
  PBT_CHECK("prefix-kept", std::equal(before.begin(), before.end(), buffer.begin()), name);
  PBT_CHECK("big-endian",
            Buffer(buffer.begin() + static_cast<ssize_t>(start), buffer.end()) == expected,
            name, " gave ", codecs::HexDump(Buffer(buffer.begin() + static_cast<ssize_t>(start), buffer.end()), 120),
            " expected ", codecs::HexDump(expected, 120));
  const size_t tail = src.Bool() ? src.Size(0, 9) : 0;
  for (size_t i = 0; i < tail; i++) { buffer.push_back(static_cast<uint8_t>(src.Choose(255))); }
  buffer.shrink_to_fit();
  const Buffer original = buffer;
  const auto d = get(buffer, start);
  PBT_CHECK("value", eq(d.Value(), value), name, " did not round trip");
  PBT_CHECK("bytes-read", d.BytesRead() == written, name, " read ", d.BytesRead());
  PBT_CHECK("buffer-kept", buffer == original, "");
  const uint64_t step = written > 64 ? written / 32 : 1;
  for (uint64_t keep = src.Choose(step - 1); keep < written; keep += step)
  {
    const Buffer cut(buffer.begin(), buffer.begin() + static_cast<ssize_t>(start + keep));
    PBT_CHECK("truncated", pbt::Throws([&] () { get(cut, start); }),
              name, " accepted ", keep, " of ", written, " bytes");
  }
}

template<typename T>
bool SameVec(const Vec<T>& a, const Vec<T>& b)
{
  if (a.size() != b.size()) { return false; }
  for (size_t i = 0; i < a.size(); i++) { if (!codecs::BitEqual(a[i], b[i])) { return false; } }
  return true;
}

template<typename T>
void CheckScalar(pbt::Src& src, pbt::Ctx& ctx, const std::string& name)
{
  const T v = GenScalar<T>(src);
  Buffer expected;
  Encode<T>(v, expected);
  RoundTrip<T>(src, ctx, name, v, expected, ser::SerializeNetworkMemcpyable<T>,
               ser::DeserializeNetworkMemcpyable<T>,
               [] (const T& a, const T& b) { return codecs::BitEqual(a, b); });
  // In place: only the value's own bytes change, and only if there is room.
  Buffer room(src.Size(0, 20));
  for (auto& x : room) { x = static_cast<uint8_t>(src.Choose(255)); }
  const uint64_t at = src.Bool(1, 16) ? src.AnyU64() : src.Choose(22);
  const Buffer before = room;
  if (at <= room.size() && sizeof(T) <= room.size() - at)
  {
    const uint64_t n = ser::SerializeNetworkMemcpyableInPlace<T>(v, room, at);
    PBT_CHECK("in-place-count", n == sizeof(T), name, " ", n);
    Buffer want = before;
    std::copy(expected.begin(), expected.end(), want.begin() + static_cast<ssize_t>(at));
    PBT_CHECK("in-place", room == want, name, " in place at ", at, ": ", codecs::HexDump(room),
              " from ", codecs::HexDump(before));
  }
  else
  {
    PBT_CHECK("in-place-room",
              pbt::Throws([&] () { ser::SerializeNetworkMemcpyableInPlace<T>(v, room, at); }),
              name, " written at ", at, " of a buffer of ", room.size());
    PBT_CHECK("in-place", room == before, "");
  }
}

template<typename T>
void CheckVectors(pbt::Src& src, pbt::Ctx& ctx, const std::string& name)
{
  Vec<T> v(codecs::GenLen(src));
  for (auto& x : v) { x = GenScalar<T>(src); }
  ctx.Nontrivial(v.size() >= 2);
  Buffer expected;
  EncodeCount(v.size(), expected);
  for (const T& x : v) { Encode<T>(x, expected); }
  if (src.Bool())
  {
    RoundTrip<Vec<T>>(src, ctx, "memvec<" + name + ">", v, expected,
                      [] (const Vec<T>& x, Buffer& b) { return ser::SerializeNetworkMemcpyableVectorLike<T>(x, b); },
                      [] (const Buffer& b, const uint64_t o) { return ser::DeserializeNetworkMemcpyableVectorLike<T>(b, o); },
                      SameVec<T>);
  }
  else
  {
    RoundTrip<Vec<T>>(src, ctx, "vector<" + name + ">", v, expected,
                      [] (const Vec<T>& x, Buffer& b) { return ser::SerializeNetworkVectorLike<T>(x, b, ser::SerializeNetworkMemcpyable<T>); },
                      [] (const Buffer& b, const uint64_t o) { return ser::DeserializeNetworkVectorLike<T>(b, o, ser::DeserializeNetworkMemcpyable<T>); },
                      SameVec<T>);
  }
}

using Map = std::map<uint16_t, Vec<double>>;
uint64_t PutVec(const Vec<double>& v, Buffer& b) { return ser::SerializeNetworkMemcpyableVectorLike<double>(v, b); }
ser::Deserialized<Vec<double>> GetVec(const Buffer& b, const uint64_t o)
{
  return ser::DeserializeNetworkMemcpyableVectorLike<double>(b, o);
}
}  // namespace

PROP(scalars, "always", 1200000, 20000000)
{
  ctx.Nontrivial();
  switch (src.Choose(9))
  {
    case 0: CheckScalar<uint8_t>(src, ctx, "uint8"); break;
    case 1: CheckScalar<int8_t>(src, ctx, "int8"); break;
    case 2: CheckScalar<uint16_t>(src, ctx, "uint16"); break;
    case 3: CheckScalar<int16_t>(src, ctx, "int16"); break;
    case 4: CheckScalar<uint32_t>(src, ctx, "uint32"); break;
    case 5: CheckScalar<int32_t>(src, ctx, "int32"); break;
    case 6: CheckScalar<uint64_t>(src, ctx, "uint64"); break;
    case 7: CheckScalar<int64_t>(src, ctx, "int64"); break;
    case 8: CheckScalar<float>(src, ctx, "float"); break;
    default: CheckScalar<double>(src, ctx, "double"); break;
  }
}

PROP(vectors, "at least 2 elements", 400000, 6000000)
{
  switch (src.Choose(9))
  {
    case 0: CheckVectors<uint8_t>(src, ctx, "uint8"); break;
    case 1: CheckVectors<int8_t>(src, ctx, "int8"); break;
    case 2: CheckVectors<uint16_t>(src, ctx, "uint16"); break;
    case 3: CheckVectors<int16_t>(src, ctx, "int16"); break;
    case 4: CheckVectors<uint32_t>(src, ctx, "uint32"); break;
    case 5: CheckVectors<int32_t>(src, ctx, "int32"); break;
    case 6: CheckVectors<uint64_t>(src, ctx, "uint64"); break;
    case 7: CheckVectors<int64_t>(src, ctx, "int64"); break;
    case 8: CheckVectors<float>(src, ctx, "float"); break;
    default: CheckVectors<double>(src, ctx, "double"); break;
  }
}

PROP(maps_sets_and_nesting, "at least 2 elements", 300000, 5000000)
{
  switch (src.Choose(2))
  {
    case 0:
    {
      Map m;
      for (size_t n = 0; src.More(n, 0, 10, 3.0); n++)
      {
        Vec<double> v(src.Size(0, 4));
        for (auto& x : v) { x = GenScalar<double>(src); }
        m[GenScalar<uint16_t>(src)] = v;
      }
      ctx.Nontrivial(m.size() >= 2);
      Buffer expected;
      EncodeCount(m.size(), expected);
      for (const auto& kv : m)
      {
        Encode<uint16_t>(kv.first, expected);
        EncodeCount(kv.second.size(), expected);
        for (const double x : kv.second) { Encode<double>(x, expected); }
      }
      RoundTrip<Map>(src, ctx, "map<uint16,memvec<double>>", m, expected,
          [] (const Map& x, Buffer& b)
          {
            return ser::SerializeNetworkMapLike<uint16_t, Vec<double>>(
                x, b, ser::SerializeNetworkMemcpyable<uint16_t>, PutVec);
          },
          [] (const Buffer& b, const uint64_t o)
          {
            return ser::DeserializeNetworkMapLike<uint16_t, Vec<double>>(
                b, o, ser::DeserializeNetworkMemcpyable<uint16_t>, GetVec);
          },
          [] (const Map& a, const Map& b)
          {
            return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(),
                [] (const auto& x, const auto& y)
                { return x.first == y.first && SameVec<double>(x.second, y.second); });
          });
      break;
    }
    case 1:
    {
      std::set<int32_t> s;
      for (size_t n = 0; src.More(n, 0, 20, 5.0); n++) { s.insert(GenScalar<int32_t>(src)); }
      ctx.Nontrivial(s.size() >= 2);
      Buffer expected;
      EncodeCount(s.size(), expected);
      for (const int32_t x : s) { Encode<int32_t>(x, expected); }
      RoundTrip<std::set<int32_t>>(src, ctx, "set<int32>", s, expected,
          [] (const std::set<int32_t>& x, Buffer& b)
          { return ser::SerializeNetworkSetLike<int32_t>(x, b, ser::SerializeNetworkMemcpyable<int32_t>); },
          [] (const Buffer& b, const uint64_t o)
          { return ser::DeserializeNetworkSetLike<int32_t>(b, o, ser::DeserializeNetworkMemcpyable<int32_t>); },
          [] (const std::set<int32_t>& a, const std::set<int32_t>& b) { return a == b; });
      break;
    }
    default:
    {
      using VV = std::vector<Vec<double>>;
      VV v;
      for (size_t n = 0; src.More(n, 0, 8, 3.0); n++)
      {
        Vec<double> w(src.Size(0, 4));
        for (auto& x : w) { x = GenScalar<double>(src); }
        v.push_back(w);
      }
      ctx.Nontrivial(v.size() >= 2);
      Buffer expected;
      EncodeCount(v.size(), expected);
      for (const auto& w : v)
      {
        EncodeCount(w.size(), expected);
        for (const double x : w) { Encode<double>(x, expected); }
      }
      RoundTrip<VV>(src, ctx, "vector<memvec<double>>", v, expected,
          [] (const VV& x, Buffer& b) { return ser::SerializeNetworkVectorLike<Vec<double>>(x, b, PutVec); },
          [] (const Buffer& b, const uint64_t o) { return ser::DeserializeNetworkVectorLike<Vec<double>>(b, o, GetVec); },
          [] (const VV& a, const VV& b)
          { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), SameVec<double>); });
      break;
    }
  }
}

PROP(strings, "at least 2 characters", 300000, 5000000)
{
  std::string s(codecs::GenLen(src), 'x');
  for (auto& c : s) { c = static_cast<char>(src.AnyU64()); }
  ctx.Nontrivial(s.size() >= 2);
  Buffer expected;
  EncodeCount(s.size(), expected);
  for (const char c : s) { expected.push_back(static_cast<uint8_t>(c)); }
  RoundTrip<std::string>(src, ctx, "string", s, expected,
      [] (const std::string& x, Buffer& b) { return ser::SerializeNetworkString<char>(x, b); },
      [] (const Buffer& b, const uint64_t o) { return ser::DeserializeNetworkString<char>(b, o); },
      [] (const std::string& a, const std::string& b) { return a == b; });
}

PROP(host_network_conversions, "always", 600000, 10000000)
{
  const uint64_t v = src.AnyU64();
  ctx << v;
  ctx.Nontrivial();
  const auto bytes_of = [] (const auto x)
  {
    Buffer b(sizeof(x));
    std::memcpy(b.data(), &x, sizeof(x));
    return b;
  };
  const uint8_t v8 = static_cast<uint8_t>(v);
  const uint16_t v16 = static_cast<uint16_t>(v);
  const uint32_t v32 = static_cast<uint32_t>(v);
  Buffer e;
  Encode(v8, e);
  PBT_CHECK("host-to-network", bytes_of(ser::HostToNetwork8(v8)) == e, "");
  e.clear(); Encode(v16, e);
  PBT_CHECK("host-to-network", bytes_of(ser::HostToNetwork16(v16)) == e, "");
  e.clear(); Encode(v32, e);
  PBT_CHECK("host-to-network", bytes_of(ser::HostToNetwork32(v32)) == e, "");
  e.clear(); Encode(v, e);
  PBT_CHECK("host-to-network", bytes_of(ser::HostToNetwork64(v)) == e, "");
  PBT_CHECK("inverse", ser::NetworkToHost8(ser::HostToNetwork8(v8)) == v8
            && ser::NetworkToHost16(ser::HostToNetwork16(v16)) == v16
            && ser::NetworkToHost32(ser::HostToNetwork32(v32)) == v32
            && ser::NetworkToHost64(ser::HostToNetwork64(v)) == v, "");
  PBT_CHECK("inverse", ser::HostToNetwork16(ser::NetworkToHost16(v16)) == v16
            && ser::HostToNetwork32(ser::NetworkToHost32(v32)) == v32
            && ser::HostToNetwork64(ser::NetworkToHost64(v)) == v, "");
}

// Long containers.
PROP(long_containers, "more than 255 elements", 8000, 120000)
{
  const size_t n = src.Bool(3, 4) ? src.Size(250, 5000) : src.Size(65000, 70000);
  const auto blob = src.Blob(n);
  ctx << "n=" << n;
  ctx.Nontrivial(n > 255);
  Vec<int16_t> v(n);
  for (size_t i = 0; i < n; i++) { v[i] = static_cast<int16_t>(blob[i] * 131 + i); }
  Buffer expected;
  EncodeCount(n, expected);
  switch (src.Choose(3))
  {
    case 0:
      for (const int16_t x : v) { Encode<int16_t>(x, expected); }
      RoundTrip<Vec<int16_t>>(src, ctx, "long memvec<int16>", v, expected,
                              [] (const Vec<int16_t>& x, Buffer& b) { return ser::SerializeNetworkMemcpyableVectorLike<int16_t>(x, b); },
                              [] (const Buffer& b, const uint64_t o) { return ser::DeserializeNetworkMemcpyableVectorLike<int16_t>(b, o); },
                              SameVec<int16_t>);
      break;
    case 1:
      for (const int16_t x : v) { Encode<int16_t>(x, expected); }
      RoundTrip<Vec<int16_t>>(src, ctx, "long vector<int16>", v, expected,
                              [] (const Vec<int16_t>& x, Buffer& b) { return ser::SerializeNetworkVectorLike<int16_t>(x, b, ser::SerializeNetworkMemcpyable<int16_t>); },
                              [] (const Buffer& b, const uint64_t o) { return ser::DeserializeNetworkVectorLike<int16_t>(b, o, ser::DeserializeNetworkMemcpyable<int16_t>); },
                              SameVec<int16_t>);
      break;
    case 2:
      expected.insert(expected.end(), blob.begin(), blob.end());
      RoundTrip<std::string>(src, ctx, "long string", std::string(blob.begin(), blob.end()), expected,
                             [] (const std::string& x, Buffer& b) { return ser::SerializeNetworkString<char>(x, b); },
                             [] (const Buffer& b, const uint64_t o) { return ser::DeserializeNetworkString<char>(b, o); },
                             [] (const std::string& a, const std::string& b) { return a == b; });
      break;
    default:
    {
      using IntSet = std::set<uint32_t>;
      IntSet set;
      for (size_t i = 0; i < n; i++) { set.insert(static_cast<uint32_t>(i * 65599)); }
      for (const uint32_t x : set) { Encode<uint32_t>(x, expected); }
      RoundTrip<IntSet>(src, ctx, "long set<uint32>", set, expected,
                        [] (const IntSet& x, Buffer& b) { return ser::SerializeNetworkSetLike<uint32_t>(x, b, ser::SerializeNetworkMemcpyable<uint32_t>); },
                        [] (const Buffer& b, const uint64_t o) { return ser::DeserializeNetworkSetLike<uint32_t>(b, o, ser::DeserializeNetworkMemcpyable<uint32_t>); },
                        [] (const IntSet& a, const IntSet& b) { return a == b; });
      break;
    }
  }
}

// Containers whose order leaves elements equivalent keep them in their order.
PROP(equivalent_elements_keep_their_order, "at least 3 elements", 60000, 1000000)
{
  if (src.Bool())
  {
    using Multi = std::multimap<int8_t, uint16_t, codecs::ByTens>;
    Multi m;
    for (size_t n = 0; src.More(n, 0, 12, 5.0); n++) { m.insert({GenScalar<int8_t>(src), GenScalar<uint16_t>(src)}); }
    ctx.Nontrivial(m.size() >= 3);
    Buffer expected;
    EncodeCount(m.size(), expected);
    for (const auto& kv : m) { Encode<int8_t>(kv.first, expected); Encode<uint16_t>(kv.second, expected); }
    RoundTrip<Multi>(src, ctx, "multimap", m, expected,
                     [] (const Multi& x, Buffer& b) { return ser::SerializeNetworkMapLike<int8_t, uint16_t, Multi>(x, b, ser::SerializeNetworkMemcpyable<int8_t>, ser::SerializeNetworkMemcpyable<uint16_t>); },
                     [] (const Buffer& b, const uint64_t o) { return ser::DeserializeNetworkMapLike<int8_t, uint16_t, Multi>(b, o, ser::DeserializeNetworkMemcpyable<int8_t>, ser::DeserializeNetworkMemcpyable<uint16_t>); },
                     [] (const Multi& a, const Multi& b) { return a == b; });
  }
  else
  {
    using Multi = std::multiset<int16_t, codecs::ByTens>;
    Multi m;
    for (size_t n = 0; src.More(n, 0, 12, 5.0); n++) { m.insert(static_cast<int16_t>(src.Int(-40, 40))); }
    ctx.Nontrivial(m.size() >= 3);
    Buffer expected;
    EncodeCount(m.size(), expected);
    for (const int16_t x : m) { Encode<int16_t>(x, expected); }
    RoundTrip<Multi>(src, ctx, "multiset", m, expected,
                     [] (const Multi& x, Buffer& b) { return ser::SerializeNetworkSetLike<int16_t, Multi>(x, b, ser::SerializeNetworkMemcpyable<int16_t>); },
                     [] (const Buffer& b, const uint64_t o) { return ser::DeserializeNetworkSetLike<int16_t, Multi>(b, o, ser::DeserializeNetworkMemcpyable<int16_t>); },
                     [] (const Multi& a, const Multi& b) { return a == b; });
  }
}

// Arbitrary bytes as network data: a value inside the buffer or an exception.
PROP(damaged_network_data, "a count above what the buffer holds", 600000, 10000000)
{
  pbt::AllocationCap() = size_t(1) << 26;
  Buffer buffer;
  uint64_t count = 0;
  switch (src.Choose(4))
  {
    case 0: count = src.Choose(8); break;
    case 1: count = uint64_t(1) << src.Choose(63); break;
    case 2: count = ~src.Choose(40); break;
    case 3: count = (uint64_t(1) << (61 + src.Choose(2))) + src.Choose(4); break;
    default: count = src.AnyU64(); break;
  }
  EncodeCount(count, buffer);
  for (size_t n = 0; src.More(n, 0, 64, 16.0); n++) { buffer.push_back(static_cast<uint8_t>(src.Choose(255))); }
  if (src.Bool(1, 8)) { buffer.resize(src.Choose(buffer.size())); }
  buffer = Buffer(buffer);
  ctx << "count " << count << " buffer " << codecs::HexDump(buffer);
  ctx.Nontrivial(count > buffer.size());
  // Now and then at an offset that is not in the buffer.
  const uint64_t at = src.Bool(1, 8) ? src.Bool() ? ~src.Choose(20) : buffer.size() + src.Choose(9) : 0;
  if (at != 0) { ctx << " at " << at; }
  const auto consumed = [&] (const std::string& name, const uint64_t n, const uint64_t elements, const uint64_t size)
  {
    PBT_CHECK("consumed", at == 0, name, " read at offset ", at, " of ", buffer.size());
    PBT_CHECK("consumed", n <= buffer.size(), name, " reports ", n, " of ", buffer.size());
    PBT_CHECK("count", elements == count && n == 8 + count * size, name, " gave ", elements, " elements");
    ctx.Label("outcome: value");
  };
  const auto attempt = [&] (const std::string& name, const std::function<void()>& f)
  {
    ctx.Label(name);
    try { f(); }
    catch (const pbt::Failure&) { throw; }
    catch (const std::exception&) { ctx.Label("outcome: exception"); }
    catch (...) { pbt::Fail("foreign-exception", name); }
  };
  attempt("memvec<double>", [&] () { const auto d = ser::DeserializeNetworkMemcpyableVectorLike<double>(buffer, at);
                                     consumed("memvec<double>", d.BytesRead(), d.Value().size(), 8); });
  attempt("memvec<uint8>", [&] () { const auto d = ser::DeserializeNetworkMemcpyableVectorLike<uint8_t>(buffer, at);
                                    consumed("memvec<uint8>", d.BytesRead(), d.Value().size(), 1); });
  attempt("vector<int16>", [&] () { const auto d = ser::DeserializeNetworkVectorLike<int16_t>(buffer, at, ser::DeserializeNetworkMemcpyable<int16_t>);
                                    consumed("vector<int16>", d.BytesRead(), d.Value().size(), 2); });
  attempt("string", [&] () { const auto d = ser::DeserializeNetworkString<char>(buffer, at);
                             consumed("string", d.BytesRead(), d.Value().size(), 1); });
}
