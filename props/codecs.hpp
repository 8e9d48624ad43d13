// A zoo of serializable types for the serialization properties (C01, C02, C03).
#pragma once

#include "pbt.hpp"

#include <array>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

#include <Eigen/Geometry>
#include <Eigen/StdVector>

#include <common_robotics_utilities/serialization.hpp>

namespace codecs
{
namespace ser = common_robotics_utilities::serialization;
using Buffer = std::vector<uint8_t>;

// --- bit-exact comparison --------------------------------------------------
template<typename T>
bool BitEqual(const T& a, const T& b)
{
  return std::memcmp(&a, &b, sizeof(T)) == 0;
}

inline double GenDoubleBits(pbt::Src& src)
{
  switch (src.Choose(6))
  {
    case 0: return static_cast<double>(src.Int(-3, 3));
    case 1: return src.AnyReal();
    case 2: return src.Bool() ? std::numeric_limits<double>::infinity()
                              : -std::numeric_limits<double>::infinity();
    case 3: return src.Bool() ? -0.0 : std::numeric_limits<double>::denorm_min();
    default:
    {
      const uint64_t bits = src.AnyU64();
      double d;
      std::memcpy(&d, &bits, 8);
      return d;
    }
  }
}

template<typename T>
T GenScalar(pbt::Src& src)
{
  if constexpr (std::is_same<T, bool>::value) { return src.Bool(); }
  else if constexpr (std::is_same<T, double>::value) { return GenDoubleBits(src); }
  else if constexpr (std::is_same<T, float>::value)
  {
    const uint32_t bits = static_cast<uint32_t>(src.AnyU64() >> (src.Bool() ? 32 : 0));
    float f;
    std::memcpy(&f, &bits, 4);
    return f;
  }
  else { return static_cast<T>(src.AnyU64()); }
}

struct PlainStruct
{
  int32_t a = 0;
  double b = 0;
  uint8_t c = 0;
};

// --- codecs ----------------------------------------------------------------
// Each codec: Type, Gen, Ser, Des, Eq
template<typename T>
struct Mem
{
  using Type = T;
  static T Gen(pbt::Src& src) { return GenScalar<T>(src); }
  static uint64_t Ser(const T& v, Buffer& b) { return ser::SerializeMemcpyable<T>(v, b); }
  static ser::Deserialized<T> Des(const Buffer& b, const uint64_t o)
  {
    return ser::DeserializeMemcpyable<T>(b, o);
  }
  static bool Eq(const T& a, const T& b) { return BitEqual(a, b); }
};

struct MemStruct
{
  using Type = PlainStruct;
  static Type Gen(pbt::Src& src)
  {
    Type s;
    std::memset(static_cast<void*>(&s), 0, sizeof(s));
    s.a = GenScalar<int32_t>(src);
    s.b = GenScalar<double>(src);
    s.c = GenScalar<uint8_t>(src);
    return s;
  }
  static uint64_t Ser(const Type& v, Buffer& b) { return ser::SerializeMemcpyable<Type>(v, b); }
  static ser::Deserialized<Type> Des(const Buffer& b, const uint64_t o)
  {
    return ser::DeserializeMemcpyable<Type>(b, o);
  }
  static bool Eq(const Type& x, const Type& y)
  {
    return x.a == y.a && BitEqual(x.b, y.b) && x.c == y.c;
  }
};

inline size_t GenLen(pbt::Src& src, const size_t scale = 1)
{
  switch (src.Choose(7))
  {
    case 0: return 0;
    case 1: return 1;
    case 7: return src.Size(0, 300 / scale);
    default: return src.Size(0, std::max<size_t>(2, src.size_hint / (6 * scale)));
  }
}

template<typename C>
struct Str
{
  using Type = std::basic_string<C>;
  static Type Gen(pbt::Src& src)
  {
    Type s(GenLen(src), C());
    for (auto& c : s) { c = GenScalar<C>(src); }
    return s;
  }
  static uint64_t Ser(const Type& v, Buffer& b) { return ser::SerializeString<C>(v, b); }
  static ser::Deserialized<Type> Des(const Buffer& b, const uint64_t o)
  {
    return ser::DeserializeString<C>(b, o);
  }
  static bool Eq(const Type& a, const Type& b) { return a == b; }
};

template<typename T, typename V = std::vector<T>>
struct MemVec
{
  using Type = V;
  static V Gen(pbt::Src& src)
  {
    V v(static_cast<typename std::conditional<
            std::is_same<V, Eigen::VectorXd>::value, Eigen::Index, size_t>::type>(
        GenLen(src)));
    for (size_t i = 0; i < static_cast<size_t>(v.size()); i++)
    {
      v.data()[i] = GenScalar<T>(src);
    }
    return v;
  }
  static uint64_t Ser(const V& v, Buffer& b)
  {
    return ser::SerializeMemcpyableVectorLike<T, V>(v, b);
  }
  static ser::Deserialized<V> Des(const Buffer& b, const uint64_t o)
  {
    return ser::DeserializeMemcpyableVectorLike<T, V>(b, o);
  }
  static bool Eq(const V& a, const V& b)
  {
    if (a.size() != b.size()) { return false; }
    for (size_t i = 0; i < static_cast<size_t>(a.size()); i++)
    {
      if (!BitEqual(a.data()[i], b.data()[i])) { return false; }
    }
    return true;
  }
};

template<typename Inner, typename V = std::vector<typename Inner::Type>>
struct Vec
{
  using T = typename Inner::Type;
  using Type = V;
  static V Gen(pbt::Src& src)
  {
    V v;
    const size_t n = GenLen(src, 3);
    for (size_t i = 0; i < n; i++) { v.push_back(Inner::Gen(src)); }
    return v;
  }
  static uint64_t Ser(const V& v, Buffer& b)
  {
    return ser::SerializeVectorLike<T, V>(v, b, Inner::Ser);
  }
  static ser::Deserialized<V> Des(const Buffer& b, const uint64_t o)
  {
    return ser::DeserializeVectorLike<T, V>(b, o, Inner::Des);
  }
  static bool Eq(const V& a, const V& b)
  {
    if (a.size() != b.size()) { return false; }
    for (size_t i = 0; i < a.size(); i++)
    {
      const T x = a[i];
      const T y = b[i];
      if (!Inner::Eq(x, y)) { return false; }
    }
    return true;
  }
};

template<typename A, typename B>
struct Pair
{
  using Type = std::pair<typename A::Type, typename B::Type>;
  static Type Gen(pbt::Src& src)
  {
    auto a = A::Gen(src);
    auto b = B::Gen(src);
    return Type(a, b);
  }
  static uint64_t Ser(const Type& v, Buffer& b)
  {
    return ser::SerializePair<typename A::Type, typename B::Type>(v, b, A::Ser, B::Ser);
  }
  static ser::Deserialized<Type> Des(const Buffer& b, const uint64_t o)
  {
    return ser::DeserializePair<typename A::Type, typename B::Type>(b, o, A::Des, B::Des);
  }
  static bool Eq(const Type& x, const Type& y)
  {
    return A::Eq(x.first, y.first) && B::Eq(x.second, y.second);
  }
};

// An order under which different keys are equivalent.
struct ByTens
{
  template<typename T>
  bool operator()(const T& a, const T& b) const { return a / 10 > b / 10; }
};

// Keys with an ordering compatible with Eq only (no floating point keys).
template<typename A, typename B,
         typename M = std::map<typename A::Type, typename B::Type>,
         bool Ordered = true>
struct Map
{
  using K = typename A::Type;
  using V = typename B::Type;
  using Type = M;
  static M Gen(pbt::Src& src)
  {
    M m;
    const size_t n = GenLen(src, 3);
    for (size_t i = 0; i < n; i++)
    {
      auto k = A::Gen(src);
      auto v = B::Gen(src);
      m.insert(std::make_pair(k, v));
    }
    return m;
  }
  static uint64_t Ser(const M& v, Buffer& b)
  {
    return ser::SerializeMapLike<K, V, M>(v, b, A::Ser, B::Ser);
  }
  static ser::Deserialized<M> Des(const Buffer& b, const uint64_t o)
  {
    return ser::DeserializeMapLike<K, V, M>(b, o, A::Des, B::Des);
  }
  static bool Eq(const M& a, const M& b)
  {
    if (a.size() != b.size()) { return false; }
    if constexpr (Ordered)
    {
      auto x = a.begin();
      auto y = b.begin();
      for (; x != a.end(); ++x, ++y)
      {
        if (!A::Eq(x->first, y->first) || !B::Eq(x->second, y->second))
        {
          return false;
        }
      }
      return true;
    }
    else
    {
      for (const auto& kv : a)
      {
        const auto f = b.find(kv.first);
        if (f == b.end() || !B::Eq(f->second, kv.second)) { return false; }
      }
      return true;
    }
  }
};

template<typename A, typename S = std::set<typename A::Type>>
struct Set
{
  using K = typename A::Type;
  using Type = S;
  static S Gen(pbt::Src& src)
  {
    S m;
    const size_t n = GenLen(src, 2);
    for (size_t i = 0; i < n; i++) { m.insert(A::Gen(src)); }
    return m;
  }
  static uint64_t Ser(const S& v, Buffer& b)
  {
    return ser::SerializeSetLike<K, S>(v, b, A::Ser);
  }
  static ser::Deserialized<S> Des(const Buffer& b, const uint64_t o)
  {
    return ser::DeserializeSetLike<K, S>(b, o, A::Des);
  }
  static bool Eq(const S& a, const S& b) { return a == b; }
};

struct MatXd
{
  using Type = Eigen::MatrixXd;
  static Type Gen(pbt::Src& src)
  {
    const int64_t r = src.Int(0, 5);
    const int64_t c = src.Int(0, 5);
    Type m(r, c);
    for (int64_t i = 0; i < r * c; i++) { m.data()[i] = GenDoubleBits(src); }
    return m;
  }
  static uint64_t Ser(const Type& v, Buffer& b) { return ser::SerializeMatrixXd(v, b); }
  static ser::Deserialized<Type> Des(const Buffer& b, const uint64_t o)
  {
    return ser::DeserializeMatrixXd(b, o);
  }
  static bool Eq(const Type& a, const Type& b)
  {
    if (a.rows() != b.rows() || a.cols() != b.cols()) { return false; }
    for (Eigen::Index i = 0; i < a.size(); i++)
    {
      if (!BitEqual(a.data()[i], b.data()[i])) { return false; }
    }
    return true;
  }
};

struct VecXd : MemVec<double, Eigen::VectorXd>
{
  static uint64_t Ser(const Type& v, Buffer& b) { return ser::SerializeVectorXd(v, b); }
  static ser::Deserialized<Type> Des(const Buffer& b, const uint64_t o)
  {
    return ser::DeserializeVectorXd(b, o);
  }
};

#define CODEC_FIXED(NAME, TYPE, COUNT, DATA, FN)                               \
  struct NAME                                                                  \
  {                                                                            \
    using Type = TYPE;                                                         \
    static Type Gen(pbt::Src& src)                                             \
    {                                                                          \
      Type v;                                                                  \
      for (int i = 0; i < COUNT; i++) { v.DATA.data()[i] = GenDoubleBits(src); } \
      return v;                                                                \
    }                                                                          \
    static uint64_t Ser(const Type& v, Buffer& b) { return ser::Serialize##FN(v, b); } \
    static ser::Deserialized<Type> Des(const Buffer& b, const uint64_t o)      \
    {                                                                          \
      return ser::Deserialize##FN(b, o);                                       \
    }                                                                          \
    static bool Eq(const Type& a, const Type& b)                               \
    {                                                                          \
      return std::memcmp(a.DATA.data(), b.DATA.data(), COUNT * 8) == 0;        \
    }                                                                          \
  };
CODEC_FIXED(V2, Eigen::Vector2d, 2, derived(), Vector2d)
CODEC_FIXED(V3, Eigen::Vector3d, 3, derived(), Vector3d)
CODEC_FIXED(V4, Eigen::Vector4d, 4, derived(), Vector4d)
CODEC_FIXED(Quat, Eigen::Quaterniond, 4, coeffs(), Quaterniond)
CODEC_FIXED(Iso, Eigen::Isometry3d, 16, matrix(), Isometry3d)

// --- type erasure ----------------------------------------------------------
struct Any
{
  std::string name;
  std::function<std::shared_ptr<void>(pbt::Src&)> gen;
  std::function<uint64_t(const void*, Buffer&)> ser;
  std::function<std::pair<std::shared_ptr<void>, uint64_t>(const Buffer&, uint64_t)> des;
  std::function<bool(const void*, const void*)> eq;
};

template<typename C>
Any Make(const std::string& name)
{
  using T = typename C::Type;
  Any a;
  a.name = name;
  a.gen = [] (pbt::Src& src) { return std::static_pointer_cast<void>(std::make_shared<T>(C::Gen(src))); };
  a.ser = [] (const void* v, Buffer& b) { return C::Ser(*static_cast<const T*>(v), b); };
  a.des = [] (const Buffer& b, const uint64_t o)
  {
    const auto d = C::Des(b, o);
    return std::make_pair(std::static_pointer_cast<void>(std::make_shared<T>(d.Value())),
                          static_cast<uint64_t>(d.BytesRead()));
  };
  a.eq = [] (const void* x, const void* y)
  {
    return C::Eq(*static_cast<const T*>(x), *static_cast<const T*>(y));
  };
  return a;
}

inline std::string HexDump(const Buffer& b, const size_t cap = 400)
{
  std::ostringstream s;
  s << std::hex;
  for (size_t i = 0; i < b.size() && i < cap; i++)
  {
    s << (b[i] < 16 ? "0" : "") << static_cast<int>(b[i]);
  }
  if (b.size() > cap) { s << "...(" << std::dec << b.size() << " bytes)"; }
  return s.str();
}

// with_bool: bool payloads cannot hold arbitrary bytes, so they are left out of
// the hostile-input zoo.
inline const std::vector<Any>& Zoo(const bool with_bool)
{
  static const auto build = [] (const bool b)
  {
    std::vector<Any> z;
    if (b)
    {
      z.push_back(Make<Mem<bool>>("bool"));
      z.push_back(Make<Vec<Mem<bool>>>("vector<bool>"));
      z.push_back(Make<Map<Str<char>, Mem<bool>>>("map<string,bool>"));
    }
    z.push_back(Make<Mem<char>>("char"));
    z.push_back(Make<Mem<int8_t>>("int8"));
    z.push_back(Make<Mem<uint8_t>>("uint8"));
    z.push_back(Make<Mem<int16_t>>("int16"));
    z.push_back(Make<Mem<uint16_t>>("uint16"));
    z.push_back(Make<Mem<int32_t>>("int32"));
    z.push_back(Make<Mem<uint32_t>>("uint32"));
    z.push_back(Make<Mem<int64_t>>("int64"));
    z.push_back(Make<Mem<uint64_t>>("uint64"));
    z.push_back(Make<Mem<float>>("float"));
    z.push_back(Make<Mem<double>>("double"));
    z.push_back(Make<MemStruct>("struct"));
    z.push_back(Make<Str<char>>("string"));
    z.push_back(Make<Str<wchar_t>>("wstring"));
    z.push_back(Make<Str<char16_t>>("u16string"));
    z.push_back(Make<Str<char32_t>>("u32string"));
    z.push_back(Make<MemVec<uint8_t>>("memvec<uint8>"));
    z.push_back(Make<MemVec<int16_t>>("memvec<int16>"));
    z.push_back(Make<MemVec<int32_t>>("memvec<int32>"));
    z.push_back(Make<MemVec<float>>("memvec<float>"));
    z.push_back(Make<MemVec<double>>("memvec<double>"));
    z.push_back(Make<MemVec<double, Eigen::VectorXd>>("memvec<double,VectorXd>"));
    z.push_back(Make<Vec<Mem<int32_t>>>("vector<int32>"));
    z.push_back(Make<Vec<Mem<double>>>("vector<double>"));
    z.push_back(Make<Vec<Str<char>>>("vector<string>"));
    z.push_back(Make<Vec<Vec<Mem<uint16_t>>>>("vector<vector<uint16>>"));
    z.push_back(Make<Vec<Pair<Mem<int32_t>, Str<char>>>>("vector<pair<int32,string>>"));
    z.push_back(Make<Pair<Mem<int8_t>, Mem<double>>>("pair<int8,double>"));
    z.push_back(Make<Pair<Str<char>, Vec<Mem<int64_t>>>>("pair<string,vector<int64>>"));
    z.push_back(Make<Map<Mem<int32_t>, Mem<double>>>("map<int32,double>"));
    z.push_back(Make<Map<Str<char>, Vec<Mem<int16_t>>>>("map<string,vector<int16>>"));
    z.push_back(Make<Map<Mem<int8_t>, Map<Mem<uint16_t>, Str<char>>>>("map<int8,map<uint16,string>>"));
    z.push_back(Make<Map<Mem<uint64_t>, Str<char>, std::unordered_map<uint64_t, std::string>, false>>("unordered_map<uint64,string>"));
    z.push_back(Make<Map<Mem<int8_t>, Mem<int32_t>, std::multimap<int8_t, int32_t>>>("multimap<int8,int32>"));
    z.push_back(Make<Set<Mem<int32_t>>>("set<int32>"));
    z.push_back(Make<Set<Str<char>>>("set<string>"));
    z.push_back(Make<Set<Mem<uint16_t>, std::unordered_set<uint16_t>>>("unordered_set<uint16>"));
    z.push_back(Make<Set<Mem<int8_t>, std::multiset<int8_t>>>("multiset<int8>"));
    z.push_back(Make<Set<Mem<int8_t>, std::multiset<int8_t, ByTens>>>("multiset<int8,ByTens>"));
    z.push_back(Make<Set<Mem<int16_t>, std::set<int16_t, ByTens>>>("set<int16,ByTens>"));
    z.push_back(Make<Map<Mem<int8_t>, Mem<int16_t>, std::multimap<int8_t, int16_t, ByTens>>>("multimap<int8,int16,ByTens>"));
    z.push_back(Make<MatXd>("MatrixXd"));
    z.push_back(Make<VecXd>("VectorXd"));
    z.push_back(Make<V2>("Vector2d"));
    z.push_back(Make<V3>("Vector3d"));
    z.push_back(Make<V4>("Vector4d"));
    z.push_back(Make<Quat>("Quaterniond"));
    z.push_back(Make<Iso>("Isometry3d"));
    z.push_back(Make<Vec<V3>>("vector<Vector3d>"));
    z.push_back(Make<Vec<Iso, std::vector<Eigen::Isometry3d, Eigen::aligned_allocator<Eigen::Isometry3d>>>>("aligned vector<Isometry3d>"));
    z.push_back(Make<Map<Str<char>, MatXd>>("map<string,MatrixXd>"));
    return z;
  };
  static const std::vector<Any> with = build(true);
  static const std::vector<Any> without = build(false);
  return with_bool ? with : without;
}
}  // namespace codecs
