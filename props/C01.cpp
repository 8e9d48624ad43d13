// C01 serialization round trips
// PBT-SOURCES: serialization.cpp
#include "codecs.hpp"

using codecs::Any;
using codecs::Buffer;
namespace ser = common_robotics_utilities::serialization;

PROP(sequence_of_values_round_trips,
     "at least two values, or one container value, after a non-empty prefix",
     1000000, 15000000)
{
  const auto& zoo = codecs::Zoo(true);
  Buffer buffer;
  const size_t prefix_len = src.Bool() ? src.Size(0, 24) : 0;
  for (size_t i = 0; i < prefix_len; i++)
  {
    buffer.push_back(static_cast<uint8_t>(src.Choose(255)));
  }
  if (src.Bool(1, 4)) { buffer.reserve(src.Size(0, 4096)); }
  struct Item { const Any* codec; std::shared_ptr<void> value; uint64_t offset; uint64_t bytes; };
  std::vector<Item> items;
  for (size_t n = 0; src.More(n, 1, 12, 2.5); n++)
  {
    const Any& codec = zoo[src.Choose(zoo.size() - 1)];
    Item item{&codec, codec.gen(src), buffer.size(), 0};
    ctx << codec.name << "@" << item.offset << " ";
    const Buffer before = buffer;
    item.bytes = codec.ser(item.value.get(), buffer);
    ctx << "+" << item.bytes << " ";
    ctx.Label(codec.name);
    PBT_CHECK("bytes-written", buffer.size() == before.size() + item.bytes,
              codec.name, " reported ", item.bytes, " grew ",
              buffer.size() - before.size());
    PBT_CHECK("prefix-kept", std::equal(before.begin(), before.end(), buffer.begin()),
              codec.name, " changed bytes before its own");
    // The bytes of a value do not depend on what is already in the buffer.
    Buffer fresh;
    const uint64_t alone = codec.ser(item.value.get(), fresh);
    PBT_CHECK("position-independent",
              alone == item.bytes && std::equal(fresh.begin(), fresh.end(),
                  buffer.begin() + static_cast<ssize_t>(item.offset)),
              codec.name, " serializes differently at offset ", item.offset);
    items.push_back(item);
  }
  ctx.Nontrivial(items.size() >= 2 || (prefix_len > 0 && items.back().bytes > 8));
  const uint64_t end_of_values = buffer.size();
  const size_t suffix_len = src.Bool() ? src.Size(0, 24) : 0;
  for (size_t i = 0; i < suffix_len; i++)
  {
    buffer.push_back(static_cast<uint8_t>(src.Choose(255)));
  }
  buffer.shrink_to_fit();
  ctx << "buffer=" << codecs::HexDump(buffer, 200);
  const Buffer original = buffer;
  uint64_t offset = prefix_len;
  for (const Item& item : items)
  {
    PBT_CHECK("offset", offset == item.offset, "");
    const auto got = item.codec->des(buffer, offset);
    PBT_CHECK("value", item.codec->eq(item.value.get(), got.first.get()),
              item.codec->name, " at offset ", offset, " did not round trip");
    PBT_CHECK("bytes-read", got.second == item.bytes, item.codec->name, " read ",
              got.second, " wrote ", item.bytes);
    offset += got.second;
  }
  PBT_CHECK("end", offset == end_of_values, "");
  PBT_CHECK("buffer-kept", buffer == original, "");
}

// Long containers: lengths that need more than one byte, more than 16 bits.
PROP(large_containers_round_trip, "more than 255 elements", 10000, 150000)
{
  const size_t n = src.Bool() ? src.Size(250, 520) : src.Bool(1, 8) ? src.Size(66500, 300000) : src.Size(65500, 66500);
  const auto blob = src.Blob(n);
  ctx << "n=" << n;
  ctx.Label(n > 65535 ? ">65535" : ">255");
  ctx.Nontrivial(n > 255);
  Buffer buffer(src.Size(0, 3), 0xab);
  const uint64_t start = buffer.size();
  switch (src.Choose(5))
  {
    case 4:
    {
      std::vector<double> v(blob.size());
      for (size_t i = 0; i < v.size(); i++) { v[i] = blob[i] + static_cast<double>(i); }
      const uint64_t w = ser::SerializeMemcpyableVectorLike<double>(v, buffer);
      const auto d = ser::DeserializeMemcpyableVectorLike<double>(buffer, start);
      PBT_CHECK("value", d.Value() == v && d.BytesRead() == w
                && w + start == buffer.size(), "memcpyable vector of doubles");
      break;
    }
    case 0:
    {
      const std::string s(blob.begin(), blob.end());
      const uint64_t w = ser::SerializeString<char>(s, buffer);
      const auto d = ser::DeserializeString<char>(buffer, start);
      PBT_CHECK("value", d.Value() == s && d.BytesRead() == w
                && w + start == buffer.size(), "string");
      break;
    }
    case 1:
    {
      const uint64_t w = ser::SerializeMemcpyableVectorLike<uint8_t>(blob, buffer);
      const auto d = ser::DeserializeMemcpyableVectorLike<uint8_t>(buffer, start);
      PBT_CHECK("value", d.Value() == blob && d.BytesRead() == w
                && w + start == buffer.size(), "memcpyable vector");
      break;
    }
    case 2:
    {
      const std::vector<int32_t> v(blob.begin(), blob.end());
      const uint64_t w = ser::SerializeVectorLike<int32_t>(
          v, buffer, ser::SerializeMemcpyable<int32_t>);
      const auto d = ser::DeserializeVectorLike<int32_t>(
          buffer, start, ser::DeserializeMemcpyable<int32_t>);
      PBT_CHECK("value", d.Value() == v && d.BytesRead() == w
                && w + start == buffer.size(), "vector");
      break;
    }
    case 3:
    {
      std::map<uint32_t, uint8_t> m;
      for (size_t i = 0; i < blob.size(); i++) { m[static_cast<uint32_t>(i * 3)] = blob[i]; }
      const uint64_t w = ser::SerializeMapLike<uint32_t, uint8_t>(
          m, buffer, ser::SerializeMemcpyable<uint32_t>, ser::SerializeMemcpyable<uint8_t>);
      const auto d = ser::DeserializeMapLike<uint32_t, uint8_t>(
          buffer, start, ser::DeserializeMemcpyable<uint32_t>, ser::DeserializeMemcpyable<uint8_t>);
      PBT_CHECK("value", d.Value() == m && d.BytesRead() == w
                && w + start == buffer.size(), "map");
      break;
    }
    default:
    {
      const int64_t rows = src.Int(1, 40);
      Eigen::MatrixXd m(rows, static_cast<int64_t>(n) / rows);
      for (Eigen::Index i = 0; i < m.size(); i++) { m.data()[i] = blob[static_cast<size_t>(i)] * 0.1; }
      const uint64_t w = ser::SerializeMatrixXd(m, buffer);
      const auto d = ser::DeserializeMatrixXd(buffer, start);
      PBT_CHECK("value", d.Value().rows() == m.rows() && d.Value() == m
                && d.BytesRead() == w && w + start == buffer.size(), "matrix");
      break;
    }
  }
}

// A container of a user type handed in through the serializer callbacks: the
// callbacks see exactly the elements, in order, and each element is read where
// it was written, whatever number of bytes it takes.
PROP(user_serializers_of_varying_length, "at least 2 elements of different encoded lengths",
     500000, 8000000)
{
  using Item = std::vector<uint8_t>;
  const ser::Serializer<Item> put = [] (const Item& v, Buffer& b) -> uint64_t
  {
    b.push_back(static_cast<uint8_t>(v.size()));
    b.insert(b.end(), v.begin(), v.end());
    return v.size() + 1;
  };
  const ser::Deserializer<Item> get = [] (const Buffer& b, const uint64_t o)
  {
    if (o >= b.size() || o + 1 + b[o] > b.size()) { throw std::invalid_argument("short"); }
    const auto first = b.begin() + static_cast<ssize_t>(o + 1);
    return ser::MakeDeserialized(Item(first, first + b[o]), 1u + b[o]);
  };
  std::vector<Item> items;
  for (size_t n = 0; src.More(n, 0, 20, 5.0); n++)
  {
    Item it(src.Size(0, 9));
    for (auto& x : it) { x = static_cast<uint8_t>(src.Choose(255)); }
    items.push_back(it);
    ctx << it.size() << " ";
  }
  std::set<size_t> lengths;
  for (const auto& it : items) { lengths.insert(it.size()); }
  ctx.Nontrivial(lengths.size() >= 2);
  Buffer buffer(src.Size(0, 9), 0x5a);
  const uint64_t start = buffer.size();
  const uint64_t w1 = ser::SerializeVectorLike<Item>(items, buffer, put);
  std::map<Item, Item> m;
  for (size_t i = 0; i + 1 < items.size(); i += 2) { m[items[i]] = items[i + 1]; }
  const uint64_t w2 = ser::SerializeMapLike<Item, Item>(m, buffer, put, put);
  const std::set<Item> s(items.begin(), items.end());
  const uint64_t w3 = ser::SerializeSetLike<Item>(s, buffer, put);
  const std::pair<Item, Item> p(items.empty() ? Item() : items.front(),
                                items.empty() ? Item() : items.back());
  const uint64_t w4 = ser::SerializePair<Item, Item>(p, buffer, put, put);
  PBT_CHECK("bytes-written", buffer.size() == start + w1 + w2 + w3 + w4, "");
  const auto d1 = ser::DeserializeVectorLike<Item>(buffer, start, get);
  PBT_CHECK("vector", d1.Value() == items && d1.BytesRead() == w1, "");
  const auto d2 = ser::DeserializeMapLike<Item, Item>(buffer, start + w1, get, get);
  PBT_CHECK("map", d2.Value() == m && d2.BytesRead() == w2, "");
  const auto d3 = ser::DeserializeSetLike<Item>(buffer, start + w1 + w2, get);
  PBT_CHECK("set", d3.Value() == s && d3.BytesRead() == w3, "");
  const auto d4 = ser::DeserializePair<Item, Item>(buffer, start + w1 + w2 + w3, get, get);
  PBT_CHECK("pair", d4.Value() == p && d4.BytesRead() == w4, "");
}

PROP(deserialized_holder, "always", 2000, 20000)
{
  const int32_t value = codecs::GenScalar<int32_t>(src);
  const uint64_t bytes = src.AnyU64();
  ctx << value << " " << bytes;
  ctx.Nontrivial();
  if (bytes == 0)
  {
    PBT_CHECK("zero-bytes", pbt::Throws([&] () { ser::MakeDeserialized(value, 0); }), "");
  }
  else
  {
    auto d = ser::MakeDeserialized(value, bytes);
    PBT_CHECK("holder", d.HasValue() && d.Value() == value && d.BytesRead() == bytes, "");
    d.MutableValue() = value ^ 1;
    PBT_CHECK("holder", d.Value() == (value ^ 1), "");
  }
  ser::Deserialized<int32_t> empty;
  PBT_CHECK("empty", !empty.HasValue() && pbt::Throws([&] () { empty.Value(); })
            && pbt::Throws([&] () { empty.BytesRead(); })
            && pbt::Throws([&] () { empty.MutableValue(); }), "");
}
