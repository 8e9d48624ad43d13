// C32 Colours
// PBT-VARIANTS: plain asan
#include "pbt.hpp"

#include <common_robotics_utilities/color_builder.hpp>

namespace colors = common_robotics_utilities::color_builder;

namespace
{
// Colour types of other libraries: other layouts, defaults, and precisions.
struct Message { std::string frame = "none"; float a = 0.25f; float b = 0.25f; float g = 0.25f; float r = 0.25f; };
struct Wide { double r = -3.0; double g = -3.0; double b = -3.0; double a = -3.0; };

using Channels = std::array<float, 4>;

template<typename Color>
Channels Of(const Color& c) { return {{static_cast<float>(c.r), static_cast<float>(c.g), static_cast<float>(c.b), static_cast<float>(c.a)}}; }

std::string Text(const Channels& c) { return pbt::Str("(", c[0], ", ", c[1], ", ", c[2], ", ", c[3], ")"); }

float Trimmed(const float v) { return v < 0.0f ? 0.0f : (v > 1.0f ? 1.0f : v); }

// Channels as they come: in range, on and next to the ends, and far outside.
float Channel(pbt::Src& src)
{
  switch (src.Choose(6))
  {
    case 0: return 0.0f;
    case 1: return 1.0f;
    case 2: { const float end = src.Bool() ? 1.0f : 0.0f; return std::nextafter(end, src.Bool() ? 9.0f : -9.0f); }
    case 3: return static_cast<float>(src.Real(-3.0, 4.0));
    case 4: { const float v = static_cast<float>(src.Bool() ? 1e30 : 300.0); return src.Bool() ? v : -v; }
    case 5: { const float v = std::numeric_limits<float>::infinity(); return src.Bool() ? v : -v; }
    default: return static_cast<float>(src.Unit());
  }
}

uint8_t Byte(pbt::Src& src) { return static_cast<uint8_t>(src.Bool(1, 3) ? (src.Bool() ? 0xff - src.Choose(1) : src.Choose(1)) : src.Choose(255)); }

bool Close(const float got, const double expected) { return std::abs(static_cast<double>(got) - expected) <= 1e-6; }

template<typename Color>
void CheckColor(const char* tag, const Color& color, const std::array<double, 4>& expected)
{
  const Channels c = Of(color);
  for (size_t i = 0; i < 4; i++)
  {
    PBT_CHECK("in range", c[i] >= 0.0f && c[i] <= 1.0f, tag, " gives ", Text(c));
    PBT_CHECK(tag, Close(c[i], expected[i]), "the colour is ", Text(c), ", channel ", i, " should be ", expected[i]);
  }
}
}  // namespace

PROP(Construction, "a channel had to be trimmed", 1000000, 30000000)
{
  std::array<float, 4> f;
  std::array<uint8_t, 4> h;
  std::array<double, 4> ef, eh;
  bool trimmed = false;
  for (size_t i = 0; i < 4; i++)
  {
    f[i] = Channel(src); h[i] = Byte(src);
    ef[i] = static_cast<double>(Trimmed(f[i])); eh[i] = h[i] / 255.0;
    trimmed |= Trimmed(f[i]) != f[i];
    ctx << f[i] << "/" << static_cast<int>(h[i]) << " ";
  }
  if (trimmed) { ctx.Nontrivial(); }
  using colors::RGBAColor;
  const auto with = [] (std::array<double, 4> e, const double alpha) { e[3] = alpha; return e; };
  // Construction.
  CheckColor("constructor", RGBAColor(f[0], f[1], f[2], f[3]), ef);
  CheckColor("constructor", RGBAColor(f[0], f[1], f[2]), with(ef, 1.0));
  CheckColor("constructor", RGBAColor(h[0], h[1], h[2], h[3]), eh);
  CheckColor("constructor", RGBAColor(h[0], h[1], h[2], f[3]), with(eh, ef[3]));
  CheckColor("constructor", RGBAColor(h[0], h[1], h[2]), with(eh, 1.0));
  CheckColor("constructor", RGBAColor(), {{0.0, 0.0, 0.0, 0.0}});
  CheckColor("make", colors::MakeFromFloatColors<RGBAColor>(f[0], f[1], f[2], f[3]), ef);
  CheckColor("make", colors::MakeFromFloatColors<Message>(f[0], f[1], f[2], f[3]), ef);
  CheckColor("make", colors::MakeFromFloatColors<Wide>(f[0], f[1], f[2]), with(ef, 1.0));
  CheckColor("make", colors::MakeFromHexColors<Message>(h[0], h[1], h[2], h[3]), eh);
  CheckColor("make", colors::MakeFromHexColors<RGBAColor>(h[0], h[1], h[2]), with(eh, 1.0));
  CheckColor("make", colors::MakeFromMixedColors<Message>(h[0], h[1], h[2], f[3]), with(eh, ef[3]));
  CheckColor("make", colors::MakeFromMixedColors<RGBAColor>(h[0], h[1], h[2], f[3]), with(eh, ef[3]));
  CheckColor("make", colors::MakeFromMixedColors<Wide>(h[0], h[1], h[2]), with(eh, 1.0));
  // Reading and writing single channels.
  RGBAColor color(h[3], h[2], h[1], h[0]);
  std::array<double, 4> model = {{h[3] / 255.0, h[2] / 255.0, h[1] / 255.0, h[0] / 255.0}};
  for (size_t step = src.Size(1, 8); step > 0; step--)
  {
    const size_t i = static_cast<size_t>(src.Choose(3));
    if (src.Bool())
    {
      const float v = Channel(src);
      switch (i) { case 0: color.SetR(v); break; case 1: color.SetG(v); break; case 2: color.SetB(v); break; default: color.SetA(v); break; }
      model[i] = static_cast<double>(Trimmed(v));
    }
    else
    {
      const uint8_t v = Byte(src);
      switch (i) { case 0: color.SetRHex(v); break; case 1: color.SetGHex(v); break; case 2: color.SetBHex(v); break; default: color.SetAHex(v); break; }
      model[i] = v / 255.0;
      const std::array<uint8_t, 4> read = {{color.GetRHex(), color.GetGHex(), color.GetBHex(), color.GetAHex()}};
      PBT_CHECK("round trip", read[i] == v, "hex value ", static_cast<int>(v), " is read as ", static_cast<int>(read[i]));
    }
    CheckColor("set", color, model);
    const Channels c = Of(color);
    PBT_CHECK("get", color.R() == c[0] && color.G() == c[1] && color.B() == c[2] && color.A() == c[3], "what is read differs from the channels");
    const std::array<uint8_t, 4> read = {{color.GetRHex(), color.GetGHex(), color.GetBHex(), color.GetAHex()}};
    for (size_t k = 0; k < 4; k++) { PBT_CHECK("hex", std::abs(static_cast<double>(read[k]) - model[k] * 255.0) <= 0.5 + 1e-3, "channel ", k, " of ", model[k], " is hex ", static_cast<int>(read[k])); }
  }
  for (size_t i = 0; i < 4; i++)
  {
    PBT_CHECK("trim", colors::TrimColorValue(f[i]) == Trimmed(f[i]), f[i], " is trimmed to ", colors::TrimColorValue(f[i]));
    PBT_CHECK("hex", colors::ColorChannelToHex(colors::ColorChannelFromHex(h[i])) == h[i] && Close(colors::ColorChannelFromHex(h[i]), eh[i]), "hex value ", static_cast<int>(h[i]), " does not survive");
    PBT_CHECK("hex", std::abs(static_cast<double>(colors::ColorChannelToHex(f[i])) - ef[i] * 255.0) <= 0.5 + 1e-3, f[i], " becomes hex ", static_cast<int>(colors::ColorChannelToHex(f[i])));
  }
  // Conversion between types, of channels out of range as well.
  Message message; message.r = f[0]; message.g = f[1]; message.b = f[2]; message.a = f[3];
  CheckColor("convert", colors::ConvertColor<Message, RGBAColor>(message), ef);
  CheckColor("convert", colors::ConvertColor<Message, Wide>(message), ef);
  const RGBAColor there = colors::ConvertColor<Message, RGBAColor>(message);
  const Message back = colors::ConvertColor<RGBAColor, Message>(there);
  PBT_CHECK("convert", Of(back) == Of(there), "converting changed ", Text(Of(there)), " to ", Text(Of(back)));
}

PROP(Equality, "the colours differ in one channel only", 600000, 20000000)
{
  std::array<float, 4> base;
  for (auto& v : base) { v = src.Bool() ? static_cast<float>(src.Unit()) : static_cast<float>(src.Choose(4)) / 4.0f; }
  std::array<float, 4> other = base;
  const size_t changes = static_cast<size_t>(src.Choose(2));
  for (size_t i = 0; i < changes; i++)
  {
    const size_t k = static_cast<size_t>(src.Choose(3));
    // By any amount, down to the smallest that makes a difference.
    const float by = src.Bool() ? 0.125f : (src.Bool(2, 3) ? static_cast<float>(src.Real(-0.5, 0.5)) : static_cast<float>(std::pow(10.0, src.Real(-12.0, -1.0))));
    if (src.Bool(1, 8)) { other[k] = Trimmed(std::nextafter(base[k], src.Bool() ? 1.0f : 0.0f)); continue; }
    other[k] = Trimmed(src.Bool() ? base[k] + by : base[k] - by);
  }
  const float tolerance = src.Bool(1, 3) ? 0.0f : (src.Bool() ? 0.125f : (src.Bool() ? static_cast<float>(src.Unit()) * 0.5f : static_cast<float>(std::pow(10.0, src.Real(-12.0, -1.0)))));
  colors::RGBAColor a(base[0], base[1], base[2], base[3]);
  Message b; b.r = other[0]; b.g = other[1]; b.b = other[2]; b.a = other[3];
  bool equal = true, border = false;
  size_t different = 0;
  for (size_t k = 0; k < 4; k++)
  {
    const float d = std::abs(base[k] - other[k]);
    equal &= d <= tolerance;
    different += d > 0.0f ? 1 : 0;
    border |= std::abs(static_cast<double>(base[k]) - static_cast<double>(other[k])) != static_cast<double>(d) && std::abs(static_cast<double>(d) - static_cast<double>(tolerance)) < 1e-6;
  }
  ctx << Text(base) << " against " << Text(other) << " within " << tolerance;
  if (different == 1) { ctx.Nontrivial(); }
  ctx.Label("equal", equal);
  if (!border)
  {
    PBT_CHECK("equal", colors::ColorsEqual(a, b, tolerance) == equal && colors::ColorsEqual(b, a, tolerance) == equal, "equality is said to be ", !equal);
  }
  PBT_CHECK("equal", colors::ColorsEqual(a, b) == (different == 0) && colors::ColorsEqual(a, a), "equality without a tolerance is misjudged");
}

namespace
{
// Blue, cyan, green, yellow and red at equal distances, linear in between.
std::array<double, 4> HotToCold(const long double position)
{
  const long double p = std::max(0.0L, std::min(1.0L, position)) * 4.0L;
  const auto ramp = [] (const long double v) { return static_cast<double>(std::max(0.0L, std::min(1.0L, v))); };
  return {{ramp(p - 2.0L), std::min(ramp(p), ramp(4.0L - p)), ramp(2.0L - p), 1.0}};
}
}  // namespace

PROP(HotAndCold, "the value is inside of the range", 1000000, 30000000)
{
  double low = 0.0, high = 1.0;
  switch (src.Choose(3))
  {
    case 0: break;
    case 1: low = static_cast<double>(src.Int(-20, 20)); high = low + static_cast<double>(src.Int(-1, 8)); break;
    case 2: low = src.Real(-1e3, 1e3); high = src.Bool(1, 8) ? low : src.Real(-1e3, 1e3); if (high < low && src.Bool(3, 4)) { std::swap(low, high); } break;
    default: low = std::ldexp(src.Real(-1.0, 1.0), static_cast<int>(src.Int(-30, 30))); high = std::ldexp(src.Real(-1.0, 1.0), static_cast<int>(src.Int(-30, 30))); break;
  }
  double value = low;
  switch (src.Choose(4))
  {
    case 0: value = low + (high - low) * static_cast<double>(src.Int(-2, 10)) / 8.0; break;
    case 1: value = low + (high - low) * static_cast<double>(src.Int(0, 4)) / 4.0; value = std::nextafter(value, src.Bool() ? low : high); break;
    case 2: value = src.Bool() ? std::numeric_limits<double>::infinity() : -1e300; break;
    default: value = low + (high - low) * src.Real(-0.2, 1.2); break;
  }
  ctx << value << " in [" << low << ", " << high << "]";
  if (low > high)
  {
    ctx.Label("impossible range");
    PBT_CHECK("rejected", pbt::ThrowsA<std::invalid_argument>([&] { colors::InterpolateHotToCold<colors::RGBAColor>(value, low, high); }), "an impossible range was accepted");
    return;
  }
  const auto color = colors::InterpolateHotToCold<colors::RGBAColor>(value, low, high);
  const auto message = colors::InterpolateHotToCold<Message>(value, low, high);
  PBT_CHECK("type", Of(color) == Of(message), "the type of colour makes a difference");
  for (const float c : Of(color)) { PBT_CHECK("in range", c >= 0.0f && c <= 1.0f, "the colour is ", Text(Of(color))); }
  PBT_CHECK("opaque", color.A() == 1.0f, "alpha is ", color.A());
  if (!(low < high))
  {
    ctx.Label("empty range");
    return;
  }
  const long double span = static_cast<long double>(high) - static_cast<long double>(low);
  // What double precision can tell about the place of the value in the range.
  const double blur = static_cast<double>(8.0L * std::numeric_limits<double>::epsilon() * (std::abs(static_cast<long double>(low)) + std::abs(static_cast<long double>(high))) / span);
  if (blur > 0.01) { throw pbt::Discard(); }
  const long double inside = std::max(static_cast<long double>(low), std::min(static_cast<long double>(high), static_cast<long double>(value)));
  const std::array<double, 4> expected = HotToCold((inside - static_cast<long double>(low)) / span);
  const Channels c = Of(color);
  for (size_t i = 0; i < 4; i++) { PBT_CHECK("colour", std::abs(static_cast<double>(c[i]) - expected[i]) <= 1e-6 + 4.0 * blur, "the colour is ", Text(c), ", channel ", i, " should be ", expected[i]); }
  if (low == 0.0 && high == 1.0) { PBT_CHECK("default", Of(colors::InterpolateHotToCold<colors::RGBAColor>(value)) == c, "the default range is not from 0 to 1"); }
  if (value > low && value < high) { ctx.Nontrivial(); }
}

PROP(UniqueColors, "the code is in the table", 200000, 3000000)
{
  const uint32_t code = src.Bool(1, 6) ? static_cast<uint32_t>(src.AnyU64()) : static_cast<uint32_t>(src.Choose(24));
  const float alpha = Channel(src);
  const colors::RGBAColor color = colors::LookupUniqueColor<colors::RGBAColor>(code, alpha);
  const Channels c = Of(color);
  ctx << code << " alpha " << alpha << " is " << Text(c);
  for (const float v : c) { PBT_CHECK("in range", v >= 0.0f && v <= 1.0f, "the colour is ", Text(c)); }
  PBT_CHECK("type", Of(colors::LookupUniqueColor<Message>(code, alpha)) == c, "the type of colour makes a difference");
  PBT_CHECK("default", Of(colors::LookupUniqueColor<Message>(code)) == Of(colors::LookupUniqueColor<Message>(code, 1.0f)), "colours are not opaque unless asked for");
  if (code == 0) { PBT_CHECK("none", (c == Channels{{1.0f, 1.0f, 1.0f, 0.0f}}), "code 0 is ", Text(c)); }
  else { PBT_CHECK("alpha", c[3] == Trimmed(alpha), "alpha is ", c[3]); }
  if (code > 20) { PBT_CHECK("beyond", c[0] == 0.0f && c[1] == 0.0f && c[2] == 0.0f, "code ", code, " is ", Text(c)); }
  if (code <= 20)
  {
    ctx.Nontrivial();
    // No other code of the table has the same colour, black included.
    for (uint32_t other = 0; other <= 21; other++)
    {
      if (other == code) { continue; }
      const Channels d = Of(colors::LookupUniqueColor<colors::RGBAColor>(other, alpha));
      PBT_CHECK("unique", d[0] != c[0] || d[1] != c[1] || d[2] != c[2], "codes ", code, " and ", other, " have the same colour ", Text(c));
    }
  }
}
