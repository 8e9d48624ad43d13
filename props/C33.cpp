// C33 Printing
// PBT-VARIANTS: plain asan
#include "pbt.hpp"

#include <random>

#include <forward_list>
#include <Eigen/Geometry>
#include <common_robotics_utilities/print.hpp>

namespace print = common_robotics_utilities::print;

namespace c33
{
// A type of the user's own.
struct Own
{
  int64_t id = 0;
  bool operator<(const Own& o) const { return id < o.id; }
  bool operator>(const Own& o) const { return id > o.id; }
  bool operator==(const Own& o) const { return id == o.id; }
};
std::ostream& operator<<(std::ostream& os, const Own& o) { return os << "own#" << o.id; }

struct OwnHash { size_t operator()(const Own& o) const { return static_cast<size_t>(o.id % 3); } };

// Everything but Eigen's allocator works the same way with another one.
template<typename T>
struct Alloc : std::allocator<T>
{
  using value_type = T;
  Alloc() = default;
  template<typename U> Alloc(const Alloc<U>&) { }
  template<typename U> struct rebind { using other = Alloc<U>; };
};
}  // namespace c33

namespace
{
using c33::Own;

template<typename T> struct Kind { static constexpr int value = 0; };  // 1 sequence, 2 set, 3 map
template<typename T, size_t N> struct Kind<std::array<T, N>> { static constexpr int value = 1; };
template<typename... A> struct Kind<std::vector<A...>> { static constexpr int value = 1; };
template<typename... A> struct Kind<std::list<A...>> { static constexpr int value = 1; };
template<typename... A> struct Kind<std::forward_list<A...>> { static constexpr int value = 1; };
template<typename... A> struct Kind<std::deque<A...>> { static constexpr int value = 1; };
template<typename... A> struct Kind<std::set<A...>> { static constexpr int value = 2; };
template<typename... A> struct Kind<std::multiset<A...>> { static constexpr int value = 2; };
template<typename... A> struct Kind<std::unordered_set<A...>> { static constexpr int value = 2; };
template<typename... A> struct Kind<std::unordered_multiset<A...>> { static constexpr int value = 2; };
template<typename... A> struct Kind<std::map<A...>> { static constexpr int value = 3; };
template<typename... A> struct Kind<std::multimap<A...>> { static constexpr int value = 3; };
template<typename... A> struct Kind<std::unordered_map<A...>> { static constexpr int value = 3; };
template<typename... A> struct Kind<std::unordered_multimap<A...>> { static constexpr int value = 3; };

std::string Twelve(const double v) { std::ostringstream os; os.precision(12); os << v; return os.str(); }

std::string Named(const char* names, const std::vector<double>& values)
{
  std::string text = "<";
  for (size_t i = 0; i < values.size(); i++) { text += std::string(i > 0 ? " " : "") + names[i] + ": " + Twelve(values[i]); }
  return text + ">";
}

// The reference renderer.
template<typename T> struct Render
{
  static std::string Text(const T& v, const bool delimiters, const std::string& separator)
  {
    if constexpr (Kind<T>::value != 0)
    {
      std::vector<std::string> parts;
      for (const auto& item : v) { parts.push_back(Render<typename std::decay<decltype(item)>::type>::Text(item, delimiters, separator)); }
      if (parts.empty()) { return ""; }
      static const char* brackets = "[](){}";
      const size_t k = static_cast<size_t>(Kind<T>::value - 1) * 2;
      std::string text = delimiters ? std::string(1, brackets[k]) : "";
      for (size_t i = 0; i < parts.size(); i++) { if (i > 0) { text += separator; } text += parts[i]; }
      return text + (delimiters ? std::string(1, brackets[k + 1]) : "");
    }
    else
    {
      std::ostringstream os;
      os << v;
      return os.str();
    }
  }
};
template<typename A, typename B> struct Render<std::pair<A, B>>
{
  static std::string Text(const std::pair<A, B>& v, const bool delimiters, const std::string& separator)
  {
    const std::string inner = Render<typename std::decay<A>::type>::Text(v.first, delimiters, separator) + ": " + Render<typename std::decay<B>::type>::Text(v.second, delimiters, separator);
    return delimiters ? "<" + inner + ">" : inner;
  }
};
template<typename... A> struct RenderBools;
template<typename Alloc> struct Render<std::vector<bool, Alloc>>
{
  static std::string Text(const std::vector<bool, Alloc>& v, const bool delimiters, const std::string& separator)
  {
    return Render<std::deque<bool>>::Text(std::deque<bool>(v.begin(), v.end()), delimiters, separator);
  }
};
template<> struct Render<bool> { static std::string Text(const bool v, bool, const std::string&) { return v ? "true" : "false"; } };
template<> struct Render<uint8_t> { static std::string Text(const uint8_t v, bool, const std::string&) { return std::to_string(static_cast<int>(v)); } };
template<> struct Render<Eigen::Vector2d> { static std::string Text(const Eigen::Vector2d& v, bool, const std::string&) { return "Vector2d: " + Named("xy", {v(0), v(1)}); } };
template<> struct Render<Eigen::Vector3d> { static std::string Text(const Eigen::Vector3d& v, bool, const std::string&) { return "Vector3d: " + Named("xyz", {v(0), v(1), v(2)}); } };
template<> struct Render<Eigen::Vector4d> { static std::string Text(const Eigen::Vector4d& v, bool, const std::string&) { return "Vector4d: " + Named("xyzw", {v(0), v(1), v(2), v(3)}); } };
template<> struct Render<Eigen::Quaterniond> { static std::string Text(const Eigen::Quaterniond& q, bool, const std::string&) { return "Quaterniond: " + Named("xyzw", {q.x(), q.y(), q.z(), q.w()}); } };
template<> struct Render<Eigen::VectorXd>
{
  static std::string Text(const Eigen::VectorXd& v, bool, const std::string&)
  {
    std::string text = "VectorXd: <";
    for (Eigen::Index i = 0; i < v.size(); i++) { text += (i > 0 ? ", " : "") + Twelve(v(i)); }
    return text + ">";
  }
};
template<> struct Render<Eigen::MatrixXd>
{
  static std::string Text(const Eigen::MatrixXd& m, bool, const std::string&)
  {
    std::string text = "MatrixXd:\n[";
    for (Eigen::Index r = 0; r < m.rows(); r++) { for (Eigen::Index c = 0; c < m.cols(); c++) { text += (c > 0 ? ", " : (r > 0 ? "\n" : "")) + Twelve(m(r, c)); } }
    return text + "]";
  }
};

double Real(pbt::Src& src)
{
  switch (src.Choose(3))
  {
    case 0: return static_cast<double>(src.Int(-100, 100));
    case 1: return src.Real(-1.0, 1.0);
    case 2: return src.AnyReal(1e6);
    default: { static const std::vector<double> odd = {0.0, -0.0, 1e300, -1e-300, std::numeric_limits<double>::infinity(), 123456.789012, 0.1, 1234567.0}; return src.Pick(odd); }
  }
}

size_t Count(pbt::Src& src) { return src.Bool(1, 1000) ? static_cast<size_t>(src.Int(100, 400)) : src.Size(0, src.Bool(1, 10) ? 40 : 4); }

template<typename T> struct Make
{
  static T Any(pbt::Src& src)
  {
    if constexpr (Kind<T>::value == 1)
    {
      T v;
      if constexpr (std::is_same<T, std::forward_list<typename T::value_type>>::value) { for (size_t n = Count(src); n > 0; n--) { v.push_front(Make<typename T::value_type>::Any(src)); } }
      else { for (size_t n = Count(src); n > 0; n--) { v.push_back(Make<typename T::value_type>::Any(src)); } }
      return v;
    }
    else if constexpr (Kind<T>::value == 2)
    {
      T v;
      for (size_t n = Count(src); n > 0; n--) { v.insert(Make<typename T::key_type>::Any(src)); }
      return v;
    }
    else if constexpr (Kind<T>::value == 3)
    {
      T v;
      for (size_t n = Count(src); n > 0; n--) { auto k = Make<typename T::key_type>::Any(src); v.emplace(k, Make<typename T::mapped_type>::Any(src)); }
      return v;
    }
    else if constexpr (std::is_same<T, bool>::value) { return src.Bool(); }
    else if constexpr (std::is_floating_point<T>::value) { return static_cast<T>(Real(src)); }
    else if constexpr (std::is_same<T, char>::value) { return static_cast<char>('a' + src.Choose(25)); }
    else if constexpr (std::is_integral<T>::value) { return src.Bool(1, 4) ? static_cast<T>(src.AnyU64()) : static_cast<T>(src.Choose(6)); }
    else { return T(src); }
  }
};
template<> struct Make<std::string>
{
  static std::string Any(pbt::Src& src)
  {
    std::string s;
    static const std::vector<char> alphabet = {'a', 'b', ',', ' ', '[', '>', ':', '\n'};
    if (src.Bool(1, 400)) { s = std::string(static_cast<size_t>(src.Int(5, 1 << static_cast<int>(src.Int(3, 17)))), src.Pick(alphabet)); s.push_back('c'); return s; }
    for (size_t n = static_cast<size_t>(src.Choose(4)); n > 0; n--) { s.push_back(src.Pick(alphabet)); }
    return s;
  }
};
template<> struct Make<Own> { static Own Any(pbt::Src& src) { return Own{src.Int(-5, 5)}; } };
template<typename A, typename B> struct Make<std::pair<A, B>> { static std::pair<A, B> Any(pbt::Src& src) { A a = Make<A>::Any(src); return std::pair<A, B>(a, Make<B>::Any(src)); } };
template<typename T, size_t N> struct Make<std::array<T, N>> { static std::array<T, N> Any(pbt::Src& src) { std::array<T, N> v{}; for (auto& i : v) { i = Make<T>::Any(src); } return v; } };
template<> struct Make<Eigen::Vector2d> { static Eigen::Vector2d Any(pbt::Src& src) { Eigen::Vector2d v; for (int i = 0; i < 2; i++) { v(i) = Real(src); } return v; } };
template<> struct Make<Eigen::Vector3d> { static Eigen::Vector3d Any(pbt::Src& src) { Eigen::Vector3d v; for (int i = 0; i < 3; i++) { v(i) = Real(src); } return v; } };
template<> struct Make<Eigen::Vector4d> { static Eigen::Vector4d Any(pbt::Src& src) { Eigen::Vector4d v; for (int i = 0; i < 4; i++) { v(i) = Real(src); } return v; } };
template<> struct Make<Eigen::VectorXd> { static Eigen::VectorXd Any(pbt::Src& src) { Eigen::VectorXd v(static_cast<Eigen::Index>(src.Choose(src.Bool(1, 200) ? 300 : 12))); for (Eigen::Index i = 0; i < v.size(); i++) { v(i) = Real(src); } return v; } };
template<> struct Make<Eigen::MatrixXd>
{
  static Eigen::MatrixXd Any(pbt::Src& src)
  {
    const bool large = src.Bool(1, 200);
    const Eigen::Index rows = static_cast<Eigen::Index>(src.Choose(large ? 40 : 5)), cols = static_cast<Eigen::Index>(src.Choose(large ? 40 : 5));
    Eigen::MatrixXd m(rows, cols);
    for (Eigen::Index r = 0; r < rows; r++) { for (Eigen::Index c = 0; c < cols; c++) { m(r, c) = Real(src); } }
    return m;
  }
};
template<> struct Make<Eigen::Quaterniond> { static Eigen::Quaterniond Any(pbt::Src& src) { Eigen::Quaterniond q; for (int i = 0; i < 4; i++) { q.coeffs()(i) = Real(src); } return q; } };

template<typename T>
size_t Elements(const T& v)
{
  if constexpr (Kind<T>::value != 0) { return static_cast<size_t>(std::distance(v.begin(), v.end())); }
  else { return 2; }
}

template<typename T>
void Printed(pbt::Src& src, pbt::Ctx& ctx)
{
  const T value = Make<T>::Any(src);
  static const std::vector<std::string> separators = {", ", ",", "", "\n", " | ", "--and then--"};
  const std::string separator = src.Bool(1, 8) ? Make<std::string>::Any(src) : src.Pick(separators);
  const bool delimiters = src.Bool();
  const std::string expected = Render<T>::Text(value, delimiters, separator);
  ctx << "separator \"" << separator << "\"" << (delimiters ? ", delimited" : "") << ", expecting\n" << expected << "\n";
  ctx.Label("nothing in it", expected.empty());
  if (Elements(value) >= 2) { ctx.Nontrivial(); }
  const std::string text = print::Print(value, delimiters, separator);
  PBT_CHECK("text", text == expected, "printed as\n", text);
  PBT_CHECK("again", print::Print(value, delimiters, separator) == text, "printing again gives another text");
  const T copy = value;
  if constexpr (!(Kind<T>::value != 0 && std::is_same<T, std::unordered_set<Own, c33::OwnHash>>::value)) { (void)copy; }
  // The defaults: no delimiters, and a comma and a space.
  PBT_CHECK("defaults", print::Print(value) == Render<T>::Text(value, false, ", "), "printed by default as\n", print::Print(value));
  PBT_CHECK("defaults", print::Print(value, delimiters) == Render<T>::Text(value, delimiters, ", "), "printed by default as\n", print::Print(value, delimiters));
}

template<typename... Ts>
void OneOf(pbt::Src& src, pbt::Ctx& ctx)
{
  static void (*const all[])(pbt::Src&, pbt::Ctx&) = {&Printed<Ts>...};
  const size_t which = static_cast<size_t>(src.Choose(sizeof...(Ts) - 1));
  ctx << "type " << which << ", ";
  all[which](src, ctx);
}
}  // namespace

PROP(Scalars, "always", 400000, 15000000)
{
  ctx.Nontrivial();
  OneOf<bool, uint8_t, char, int16_t, uint16_t, int32_t, uint32_t, int64_t, uint64_t, float, double, std::string, Own, std::pair<bool, uint8_t>, std::pair<std::string, std::pair<int32_t, double>>>(src, ctx);
  PBT_CHECK("literal", print::Print("literal") == "literal", "a literal is printed as ", print::Print("literal"));
}

PROP(Sequences, "at least two elements", 400000, 15000000)
{
  OneOf<std::vector<int32_t>, std::vector<bool>, std::vector<uint8_t>, std::vector<std::string>, std::vector<double>, std::vector<Own>, std::vector<int32_t, c33::Alloc<int32_t>>,
        std::list<int32_t>, std::list<bool>, std::list<std::string>, std::list<uint8_t, c33::Alloc<uint8_t>>,
        std::forward_list<int32_t>, std::forward_list<bool>, std::forward_list<std::string>,
        std::deque<int32_t>, std::deque<bool>, std::deque<Own>,
        std::array<int32_t, 1>, std::array<int32_t, 0>, std::array<bool, 5>, std::array<std::string, 17>>(src, ctx);
}

PROP(Sets, "at least two elements", 400000, 15000000)
{
  OneOf<std::set<int32_t>, std::set<std::string>, std::set<uint8_t>, std::set<bool>, std::set<Own, std::greater<Own>>, std::set<int64_t, std::greater<int64_t>>,
        std::multiset<int32_t>, std::multiset<std::string>, std::multiset<uint8_t, std::greater<uint8_t>>,
        std::unordered_set<int32_t>, std::unordered_set<std::string>, std::unordered_set<Own, c33::OwnHash>,
        std::unordered_multiset<int32_t>, std::unordered_multiset<bool>, std::unordered_multiset<Own, c33::OwnHash>>(src, ctx);
}

PROP(Maps, "at least two entries", 400000, 15000000)
{
  OneOf<std::map<int32_t, std::string>, std::map<uint8_t, bool>, std::map<std::string, double, std::greater<std::string>>, std::map<Own, Own>,
        std::multimap<int32_t, std::string>, std::multimap<bool, uint8_t, std::greater<bool>>,
        std::unordered_map<int32_t, std::string>, std::unordered_map<std::string, bool>, std::unordered_map<Own, int32_t, c33::OwnHash>,
        std::unordered_multimap<int32_t, int32_t>, std::unordered_multimap<Own, std::string, c33::OwnHash>>(src, ctx);
}

PROP(Nested, "at least two elements", 400000, 15000000)
{
  OneOf<std::vector<std::vector<int32_t>>, std::vector<std::vector<std::vector<bool>>>, std::vector<std::pair<int32_t, std::string>>, std::vector<std::map<int32_t, std::vector<uint8_t>>>,
        std::list<std::set<int32_t>>, std::list<std::forward_list<int32_t>>, std::forward_list<std::unordered_set<int32_t>>, std::deque<std::list<std::array<bool, 2>>>, std::deque<std::multiset<std::string>>,
        std::array<std::vector<std::string>, 3>, std::array<std::deque<uint8_t>, 2>,
        std::set<std::vector<int32_t>>, std::multiset<std::pair<int32_t, std::set<bool>>>, std::set<std::map<int32_t, int32_t>>,
        std::map<std::vector<int32_t>, std::pair<bool, std::string>>, std::map<std::string, std::map<std::string, std::vector<int32_t>>>, std::multimap<int32_t, std::multimap<int32_t, uint8_t>>,
        std::unordered_map<int32_t, std::unordered_map<int32_t, std::string>>, std::unordered_multimap<int32_t, std::unordered_multiset<int32_t>>, std::unordered_map<std::string, std::forward_list<bool>>,
        std::pair<std::vector<int32_t>, std::map<int32_t, std::list<bool>>>, std::pair<std::pair<int32_t, std::set<int32_t>>, std::unordered_multimap<bool, int32_t>>>(src, ctx);
}

PROP(Matrices, "at least two elements", 300000, 10000000)
{
  OneOf<Eigen::Vector2d, Eigen::Vector3d, Eigen::Vector4d, Eigen::VectorXd, Eigen::MatrixXd, Eigen::Quaterniond,
        std::vector<Eigen::Vector3d>, std::vector<Eigen::Vector4d, Eigen::aligned_allocator<Eigen::Vector4d>>, std::list<Eigen::VectorXd>, std::map<int32_t, Eigen::MatrixXd>, std::map<std::string, Eigen::Quaterniond, std::less<std::string>, Eigen::aligned_allocator<std::pair<const std::string, Eigen::Quaterniond>>>,
        std::pair<int32_t, Eigen::Vector2d>, std::deque<Eigen::Vector2d, Eigen::aligned_allocator<Eigen::Vector2d>>>(src, ctx);
}

PROP(Transforms, "the rotation is not a simple one", 200000, 6000000)
{
  Eigen::Quaterniond q;
  for (int i = 0; i < 4; i++) { q.coeffs()(i) = src.Bool(1, 4) ? static_cast<double>(src.Int(-2, 2)) : src.Real(-1.0, 1.0); }
  if (q.norm() < 1e-3) { throw pbt::Discard(); }
  q.normalize();
  Eigen::Isometry3d transform = Eigen::Translation3d(Real(src), Real(src), Real(src)) * q;
  for (int i = 0; i < 3; i++) { if (!std::isfinite(transform.translation()(i)) || std::abs(transform.translation()(i)) > 1e200) { transform.translation()(i) = 3.25; } }
  const std::string text = print::Print(transform, src.Bool(), src.Bool() ? ", " : "!");
  ctx << text;
  if ((q.coeffs().array().abs() > 0.01).count() >= 3) { ctx.Nontrivial(); }
  std::array<double, 7> read{};
  int end = -1;
  const int count = std::sscanf(text.c_str(), "Isometry3d: <x: %lf y: %lf z: %lf>, <x: %lf y: %lf z: %lf w: %lf>%n", &read[0], &read[1], &read[2], &read[3], &read[4], &read[5], &read[6], &end);
  PBT_CHECK("form", count == 7 && end == static_cast<int>(text.size()), "the text is ", text);
  for (size_t i = 0; i < 3; i++) { const double t = transform.translation()(static_cast<int>(i)); PBT_CHECK("translation", std::abs(read[i] - t) <= 1e-11 * std::abs(t), "translation ", i, " of ", t, " is printed as ", read[i]); }
  const Eigen::Vector4d got(read[3], read[4], read[5], read[6]);
  PBT_CHECK("rotation", std::min((got - q.coeffs()).norm(), (got + q.coeffs()).norm()) < 1e-7, "the rotation is printed as ", got.transpose(), " instead of ", q.coeffs().transpose());
  // Transforms in containers are printed like transforms.
  std::vector<Eigen::Isometry3d, Eigen::aligned_allocator<Eigen::Isometry3d>> pair = {transform, transform};
  const std::string alone = print::Print(transform);
  PBT_CHECK("container", print::Print(pair, true, ";") == "[" + alone + ";" + alone + "]", "in a container it is printed as ", print::Print(pair, true, ";"));
}

// More elements than one or two bytes can count.
namespace
{
template<typename T>
void Huge(pbt::Src& src, pbt::Ctx& ctx)
{
  const size_t n = static_cast<size_t>(src.Bool(1, 2) ? src.Int(65600, 70000) : src.Int(250, 5000));
  std::mt19937_64 random(src.AnyU64());
  const bool delimiters = src.Bool();
  T value;
  if constexpr (std::is_same<T, Eigen::VectorXd>::value)
  {
    value = Eigen::VectorXd(static_cast<Eigen::Index>(n));
    for (Eigen::Index i = 0; i < value.size(); i++) { value(i) = static_cast<double>(i) + static_cast<double>(random() % 8) / 8.0; }
  }
  else if constexpr (std::is_same<T, Eigen::MatrixXd>::value)
  {
    const Eigen::Index one = static_cast<Eigen::Index>(src.Int(1, 2)), other = static_cast<Eigen::Index>(n);
    const bool tall = src.Bool();
    value = Eigen::MatrixXd(tall ? other : one, tall ? one : other);
    for (Eigen::Index r = 0; r < value.rows(); r++) { for (Eigen::Index c = 0; c < value.cols(); c++) { value(r, c) = static_cast<double>(random() % 100000); } }
  }
  else if constexpr (Kind<T>::value == 3) { for (size_t i = 0; i < n; i++) { value.emplace(static_cast<int32_t>(i), static_cast<int32_t>(random() % 1000)); } }
  else if constexpr (Kind<T>::value == 2) { for (size_t i = 0; i < n; i++) { value.insert(static_cast<int32_t>(random() % 1000000)); } }
  else if constexpr (std::is_same<T, std::forward_list<int32_t>>::value) { for (size_t i = 0; i < n; i++) { value.push_front(static_cast<int32_t>(random() % 100000)); } }
  else { for (size_t i = 0; i < n; i++) { value.push_back(static_cast<int32_t>(random() % 100000)); } }
  ctx << n << " elements";
  ctx.Nontrivial();
  const std::string text = print::Print(value, delimiters, ";");
  const std::string expected = Render<T>::Text(value, delimiters, ";");
  size_t at = 0;
  while (at < text.size() && at < expected.size() && text[at] == expected[at]) { at++; }
  PBT_CHECK("text", text == expected, "differs from character ", at, " of ", expected.size(), " on");
}
}  // namespace

PROP(HugeContainers, "always", 400, 6000)
{
  static void (*const all[])(pbt::Src&, pbt::Ctx&) = {
      &Huge<std::vector<int32_t>>, &Huge<std::list<int32_t>>, &Huge<std::forward_list<int32_t>>, &Huge<std::deque<int32_t>>, &Huge<std::set<int32_t>>,
      &Huge<std::multiset<int32_t>>, &Huge<std::unordered_set<int32_t>>, &Huge<std::unordered_multiset<int32_t>>, &Huge<std::map<int32_t, int32_t>>,
      &Huge<std::multimap<int32_t, int32_t>>, &Huge<std::unordered_map<int32_t, int32_t>>, &Huge<std::unordered_multimap<int32_t, int32_t>>,
      &Huge<Eigen::VectorXd>, &Huge<Eigen::MatrixXd>};
  const size_t which = src.Choose(13);
  ctx << "type " << which << ", ";
  all[which](src, ctx);
}
