// C04 base64 encode/decode
// PBT-SOURCES: base64_helpers.cpp
#include "pbt.hpp"

#include <common_robotics_utilities/base64_helpers.hpp>

namespace b64 = common_robotics_utilities::base64_helpers;

namespace
{
const char kAlphabet[] =
    "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

// RFC 4648 section 4, bit by bit.
std::string ReferenceEncode(const std::vector<uint8_t>& bytes)
{
  std::string out;
  std::vector<int> bits;
  for (const uint8_t b : bytes)
  {
    for (int i = 7; i >= 0; i--) { bits.push_back((b >> i) & 1); }
  }
  while (bits.size() % 6 != 0) { bits.push_back(0); }
  for (size_t i = 0; i < bits.size(); i += 6)
  {
    int v = 0;
    for (size_t j = 0; j < 6; j++) { v = v * 2 + bits[i + j]; }
    out += kAlphabet[v];
  }
  while (out.size() % 4 != 0) { out += '='; }
  return out;
}

std::vector<uint8_t> GenBytes(pbt::Src& src, const size_t max_len)
{
  if (src.Bool(1, 50)) { return src.Blob(src.Size(0, 70000)); }
  std::vector<uint8_t> bytes(src.Size(0, max_len));
  const uint64_t style = src.Choose(3);
  for (auto& b : bytes)
  {
    b = static_cast<uint8_t>(
        style == 0 ? src.Choose(255)
                   : (style == 1 ? 0xff - src.Choose(3)
                                 : (style == 2 ? src.Choose(1) * 0x80
                                               : src.Choose(255))));
  }
  return bytes;
}

std::string Hex(const std::vector<uint8_t>& v)
{
  std::ostringstream s;
  s << std::hex;
  for (const uint8_t b : v) { s << (b < 16 ? "0" : "") << static_cast<int>(b); }
  return s.str();
}
}  // namespace

PROP(encode_is_rfc4648_and_decode_inverts, "at least 2 input bytes", 1500000,
     15000000)
{
  const auto bytes = GenBytes(src, src.Bool(1, 10) ? 400 : src.size_hint);
  ctx << "bytes=" << Hex(bytes).substr(0, 4000);
  ctx.Label(pbt::Str("len%3=", bytes.size() % 3));
  ctx.Nontrivial(bytes.size() >= 2);
  const std::vector<uint8_t> original = bytes;
  const std::string encoded = b64::Encode(bytes);
  PBT_CHECK("input-changed", bytes == original, "");
  PBT_CHECK("encode", encoded == ReferenceEncode(bytes), "got ", encoded.substr(0, 2000),
            " want ", ReferenceEncode(bytes).substr(0, 2000));
  const auto decoded = b64::Decode(encoded);
  PBT_CHECK("roundtrip", decoded == bytes, "encoded ", encoded.substr(0, 2000),
            " decoded ", Hex(decoded).substr(0, 2000));
}

// Decode also accepts the URL-safe alphabet, and input without padding.
PROP(decode_accepts_url_safe_and_unpadded,
     "padding removed or a URL-safe character substituted", 1000000, 10000000)
{
  const auto bytes = GenBytes(src, src.size_hint);
  std::string encoded = ReferenceEncode(bytes);
  bool changed = false;
  const bool url = src.Bool();
  const bool strip = src.Bool();
  if (url)
  {
    for (char& c : encoded)
    {
      if (c == '+') { c = '-'; changed = true; }
      if (c == '/') { c = '_'; changed = true; }
    }
  }
  if (strip)
  {
    while (!encoded.empty() && encoded.back() == '=')
    {
      encoded.pop_back();
      changed = true;
    }
  }
  ctx << "encoded=" << encoded.substr(0, 4000);
  ctx.Nontrivial(changed);
  if (url) { ctx.Label("url-safe"); }
  if (strip) { ctx.Label("unpadded"); }
  const auto decoded = b64::Decode(encoded);
  PBT_CHECK("decode-variant", decoded == bytes, "encoded ", encoded,
            " decoded ", Hex(decoded), " want ", Hex(bytes));
}

// Any string is handled without touching memory outside of it; the result is a
// pure function of the characters, and never longer than the input carries.
PROP(decode_any_string_is_safe, "contains a character outside the alphabet",
     1000000, 10000000)
{
  std::string text(src.Size(0, src.size_hint), ' ');
  const uint64_t style = src.Choose(2);
  bool outside = false;
  for (char& c : text)
  {
    if (style == 0) { c = static_cast<char>(src.Choose(255)); }
    else if (style == 1)
    {
      c = src.Bool(1, 8) ? static_cast<char>(src.Choose(255))
                         : kAlphabet[src.Choose(63)];
    }
    else { c = src.Bool(1, 4) ? '=' : kAlphabet[src.Choose(63)]; }
    if (std::strchr(kAlphabet, c) == nullptr || c == 0) { outside = true; }
  }
  std::vector<uint8_t> as_bytes(text.begin(), text.end());
  ctx << "text(hex)=" << Hex(as_bytes);
  ctx.Nontrivial(outside);
  bool high = false;
  for (const uint8_t b : as_bytes) { high = high || b >= 0x80; }
  if (high) { ctx.Label("byte>=0x80"); }
  std::vector<uint8_t> first;
  const bool threw = pbt::Throws([&] () { first = b64::Decode(text); });
  const std::string copy = text.c_str() == nullptr ? "" : std::string(text);
  std::vector<uint8_t> second;
  const bool threw2 = pbt::Throws([&] () { second = b64::Decode(copy); });
  PBT_CHECK("pure", threw == threw2 && first == second, "");
  PBT_CHECK("length", first.size() <= (text.size() + 3) / 4 * 3,
            "decoded ", first.size(), " bytes from ", text.size(), " chars");
}
