// C08 dynamic spatial hashed voxel grid
// PBT-SOURCES: serialization.cpp
#include "grids.hpp"

#include <array>
#include <map>
#include <random>

#include <common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp>
#include <common_robotics_utilities/serialization.hpp>

using namespace grids;
namespace ser = common_robotics_utilities::serialization;
using Bytes = std::vector<uint8_t>;
using Found = vg::DSHVGFoundStatus;
using SetStatus = vg::DSHVGSetStatus;
using SetType = vg::DSHVGSetType;

namespace
{
template<typename T>
struct Cell;

template<>
struct Cell<int32_t>
{
  static int32_t Make(const uint64_t k) { return static_cast<int32_t>(k); }
  static uint64_t Write(const int32_t& v, Bytes& b) { return ser::SerializeMemcpyable<int32_t>(v, b); }
  static ser::Deserialized<int32_t> Read(const Bytes& b, const uint64_t at) { return ser::DeserializeMemcpyable<int32_t>(b, at); }
};

template<>
struct Cell<std::string>
{
  static std::string Make(const uint64_t k) { return "value number " + std::to_string(k) + " long text"; }
  static uint64_t Write(const std::string& v, Bytes& b) { return ser::SerializeString<char>(v, b); }
  static ser::Deserialized<std::string> Read(const Bytes& b, const uint64_t at) { return ser::DeserializeString<char>(b, at); }
};

using Index = std::array<int64_t, 3>;

std::string Text(const Index& i) { return pbt::Str("(", i[0], ",", i[1], ",", i[2], ")"); }

int64_t FloorDiv(const int64_t a, const int64_t b)
{
  return a / b - ((a % b != 0 && (a < 0)) ? 1 : 0);
}

// ---- grids with callbacks --------------------------------------------------
struct Watch
{
  std::vector<Eigen::Vector4d> seen;
  int64_t raw = 0;
  int64_t forbid_modulus = 0;
  bool forbid_raw = false;
  int64_t budget = -1;   // answers of yes left; negative: any number
  bool refused = false;  // some call was answered with no
  Eigen::Vector3d cell = Eigen::Vector3d::Ones();

  bool Allows(const Index& c) const { return forbid_modulus == 0 || (c[0] * 31 + c[1] * 17 + c[2] * 5) % forbid_modulus != 0; }
};

template<typename T>
class Watched : public vg::DynamicSpatialHashedVoxelGridBase<T>
{
public:
  using Base = vg::DynamicSpatialHashedVoxelGridBase<T>;
  Watched() : Base() {}
  Watched(const Eigen::Isometry3d& pose, const vg::GridSizes& s, const T& def, const size_t n) : Base(pose, s, def, n) {}
  Watched(const vg::GridSizes& s, const T& def, const size_t n) : Base(s, def, n) {}

  Watch watch;
  uint64_t extra = 0;

  static uint64_t Serialize(const Watched& g, Bytes& b, const ser::Serializer<T>& s) { return g.SerializeSelf(b, s); }
  static ser::Deserialized<Watched> Deserialize(const Bytes& b, const uint64_t at, const ser::Deserializer<T>& d)
  {
    Watched g;
    const uint64_t n = g.DeserializeSelf(b, at, d);
    return ser::MakeDeserialized(g, n);
  }

private:
  std::unique_ptr<Base> DoClone() const override { return std::unique_ptr<Base>(new Watched(*this)); }
  uint64_t DerivedSerializeSelf(Bytes& b, const ser::Serializer<T>&) const override
  {
    return ser::SerializeMemcpyable<uint64_t>(extra, b);
  }
  uint64_t DerivedDeserializeSelf(const Bytes& b, const uint64_t at, const ser::Deserializer<T>&) override
  {
    const auto d = ser::DeserializeMemcpyable<uint64_t>(b, at);
    extra = d.Value();
    return d.BytesRead();
  }
  bool OnMutableAccess(const Eigen::Vector4d& l) override
  {
    watch.seen.push_back(l);
    Index c;
    for (int64_t k = 0; k < 3; k++) { c[static_cast<size_t>(k)] = static_cast<int64_t>(std::floor(l(k) / watch.cell(k))); }
    const bool answer = watch.Allows(c) && watch.budget != 0;
    if (answer && watch.budget > 0) { watch.budget--; }
    if (!answer) { watch.refused = true; }
    return answer;
  }
  bool OnMutableRawAccess() override
  {
    watch.raw++;
    return !watch.forbid_raw;
  }
};

template<typename G>
struct Traits
{
  static constexpr bool kWatched = false;
  static Watch* Get(G&) { return nullptr; }
  static uint64_t* Extra(G&) { return nullptr; }
};
template<typename T>
struct Traits<Watched<T>>
{
  static constexpr bool kWatched = true;
  static Watch* Get(Watched<T>& g) { return &g.watch; }
  static uint64_t* Extra(Watched<T>& g) { return &g.extra; }
};

// ---- model -----------------------------------------------------------------
template<typename T>
struct Chunk
{
  bool whole = false;
  T value{};                 // when whole
  std::map<Index, T> cells;  // otherwise: cells written; the rest hold value
  const T& At(const Index& c) const
  {
    const auto it = cells.find(c);
    return it == cells.end() ? value : it->second;
  }
};

template<typename T>
struct Model
{
  bool live = false;
  Eigen::Vector3d cell = Eigen::Vector3d::Ones();
  Index n{{1, 1, 1}};
  Eigen::Isometry3d pose = Eigen::Isometry3d::Identity();
  T def{};
  std::map<Index, Chunk<T>> chunks;
  uint64_t extra = 0;

  Index ChunkOf(const Index& c) const { return {{FloorDiv(c[0], n[0]), FloorDiv(c[1], n[1]), FloorDiv(c[2], n[2])}}; }

  Eigen::Vector3d Centre(const Index& c) const
  {
    return Eigen::Vector3d((static_cast<double>(c[0]) + 0.5) * cell.x(), (static_cast<double>(c[1]) + 0.5) * cell.y(),
                           (static_cast<double>(c[2]) + 0.5) * cell.z());
  }
  // Cells of the grid frame a world point may belong to.
  std::vector<Index> Candidates(const Eigen::Vector3d& world) const
  {
    const LVec f = ToFrame(pose, world);
    const long double slack = 2e-14L * (static_cast<long double>(pose.translation().norm()) + world.norm());
    CellRange r[3];
    for (int64_t k = 0; k < 3; k++) { r[k] = CellOf(f(k), cell(k), slack); }
    std::vector<Index> out;
    for (int64_t x = r[0].lo; x <= r[0].hi; x++)
    {
      for (int64_t y = r[1].lo; y <= r[1].hi; y++)
      {
        for (int64_t z = r[2].lo; z <= r[2].hi; z++) { out.push_back({{x, y, z}}); }
      }
    }
    return out;
  }
  void SetCell(const Index& c, const T& v)
  {
    const Index k = ChunkOf(c);
    auto it = chunks.find(k);
    if (it == chunks.end())
    {
      Chunk<T> fresh;
      fresh.value = def;
      it = chunks.emplace(k, fresh).first;
    }
    it->second.whole = false;
    it->second.cells[c] = v;
  }
  void SetChunk(const Index& k, const T& v)
  {
    Chunk<T> fresh;
    fresh.whole = true;
    fresh.value = v;
    chunks[k] = fresh;
  }
};

template<typename T, typename G>
void CheckCell(const G& g, const Model<T>& m, const Index& c, const char* when)
{
  const Eigen::Vector3d w = FromFrame(m.pose, m.Centre(c));
  const auto q = g.GetLocationImmutable3d(w);
  const auto it = m.chunks.find(m.ChunkOf(c));
  if (it == m.chunks.end())
  {
    PBT_CHECK("never-written", !q.HasValue() && !q && q.FoundStatus() == Found::NOT_FOUND, when, " cell ", Text(c));
    return;
  }
  PBT_CHECK("found", q.HasValue() && static_cast<bool>(q), when, " cell ", Text(c));
  PBT_CHECK("cell-value", q.Value() == it->second.At(c), when, " cell ", Text(c), " holds ", q.Value(), ", expected ", it->second.At(c));
  PBT_CHECK("found-status", q.FoundStatus() == (it->second.whole ? Found::FOUND_IN_CHUNK : Found::FOUND_IN_CELL), when, " cell ", Text(c));
}

template<typename T, typename G>
void Compare(const G& g, const Model<T>& m, const char* when)
{
  PBT_CHECK("initialized", g.IsInitialized() == m.live, when);
  if (!m.live)
  {
    PBT_CHECK("uninitialised", g.GetImmutableInternalChunks().empty(), when);
    return;
  }
  const vg::GridSizes& s = g.GetChunkGridSizes();
  PBT_CHECK("sizes", s.NumXCells() == m.n[0] && s.NumYCells() == m.n[1] && s.NumZCells() == m.n[2] && s.CellSizes() == m.cell
            && g.GetCellSizes() == m.cell && g.GetChunkNumCells() == s.NumCells() && g.GetChunkSizes() == s.Sizes()
            && g.HasUniformCellSize() == s.UniformCellSize(), when);
  PBT_CHECK("default-value", g.GetDefaultValue() == m.def, when);
  PBT_CHECK("pose", g.GetOriginTransform().matrix() == m.pose.matrix()
            && (g.GetInverseOriginTransform() * m.pose).matrix().isIdentity(1e-9 * (1.0 + m.pose.translation().norm())), when);
  PBT_CHECK("chunk-count", g.GetImmutableInternalChunks().size() == m.chunks.size(), when, ": ",
            g.GetImmutableInternalChunks().size(), " chunks, expected ", m.chunks.size());
  for (const auto& entry : m.chunks)
  {
    const Index& k = entry.first;
    for (int64_t x = 0; x < m.n[0]; x++)
    {
      for (int64_t y = 0; y < m.n[1]; y++)
      {
        for (int64_t z = 0; z < m.n[2]; z++) { CheckCell(g, m, {{k[0] * m.n[0] + x, k[1] * m.n[1] + y, k[2] * m.n[2] + z}}, when); }
      }
    }
    // The cells just around a chunk belong to its neighbours.
    for (size_t a = 0; a < 3; a++)
    {
      Index low{{k[0] * m.n[0], k[1] * m.n[1], k[2] * m.n[2]}};
      Index high = low;
      low[a] -= 1;
      high[a] += m.n[a];
      CheckCell(g, m, low, when);
      CheckCell(g, m, high, when);
    }
  }
  // The chunks themselves.
  for (const auto& entry : g.GetImmutableInternalChunks())
  {
    const Eigen::Vector4d base = entry.first.Base();
    Index k;
    for (int64_t a = 0; a < 3; a++)
    {
      k[static_cast<size_t>(a)] = static_cast<int64_t>(std::llround(base(a) / s.Sizes()(a)));
      PBT_CHECK("chunk-base", std::abs(base(a) - static_cast<double>(k[static_cast<size_t>(a)]) * s.Sizes()(a)) <= 1e-9 * s.Sizes()(a), when);
    }
    const auto it = m.chunks.find(k);
    PBT_CHECK("chunk-base", it != m.chunks.end(), when, " unexpected chunk ", Text(k));
    const auto& chunk = entry.second;
    PBT_CHECK("fill-status", chunk.FillStatus() == (it->second.whole ? vg::DSHVGFillStatus::CHUNK_FILLED : vg::DSHVGFillStatus::CELL_FILLED), when);
    const Eigen::Vector4d middle = chunk.GetChunkCenterInGridFrame();
    PBT_CHECK("chunk-centre", (middle.template head<3>() - base.head<3>() - s.Sizes() * 0.5).norm() <= 1e-9 * s.Sizes().norm() && middle(3) == 1.0, when);
    for (int64_t x = 0; x < m.n[0]; x++)
    {
      const vg::GridIndex i(x, x % m.n[1], x % m.n[2]);
      const Index c{{k[0] * m.n[0] + i.X(), k[1] * m.n[1] + i.Y(), k[2] * m.n[2] + i.Z()}};
      const Eigen::Vector4d at = chunk.GetCellLocationInGridFrame(i);
      PBT_CHECK("chunk-cell-centre", (at.template head<3>() - m.Centre(c)).norm() <= 1e-9 * (m.cell.norm() + m.Centre(c).norm() * 1e-3) && at(3) == 1.0, when);
      if (!it->second.whole)
      {
        const auto q = chunk.GetIndexImmutable(i);
        PBT_CHECK("chunk-cell-value", q.HasValue() && q.Value() == it->second.At(c), when, " ", Text(c));
      }
    }
    if (it->second.whole) { PBT_CHECK("chunk-value", chunk.GetIndexImmutable(vg::GridIndex(0, 0, 0)).Value() == it->second.value, when); }
    else
    {
      PBT_CHECK("chunk-outside", pbt::Throws([&] { chunk.GetIndexImmutable(vg::GridIndex(m.n[0], 0, 0)); })
                && pbt::Throws([&] { chunk.GetIndexImmutable(vg::GridIndex(0, 0, -1)); }), when);
    }
  }
}

template<typename T>
Model<T> GenModel(pbt::Src& src, const T& def)
{
  Model<T> m;
  m.live = true;
  for (size_t k = 0; k < 3; k++) { m.n[k] = src.Int(1, 4); }
  m.cell = src.Bool() ? Eigen::Vector3d::Constant(GenCell(src)) : Eigen::Vector3d(GenCell(src), GenCell(src), GenCell(src));
  // Far cells of very uneven grids cannot be told apart in the world.
  if (m.cell.maxCoeff() > 1e5 * m.cell.minCoeff()) { m.cell = Eigen::Vector3d::Constant(m.cell.x()); }
  m.pose = GenPose(src);
  m.def = def;
  // Poses so far away that cells cannot be told apart are another property.
  if (m.pose.translation().norm() * 1e-9 > m.cell.minCoeff()) { m.pose = Eigen::Isometry3d::Identity(); }
  return m;
}

template<typename T>
vg::GridSizes SizesOf(const Model<T>& m) { return vg::GridSizes(m.cell.x(), m.cell.y(), m.cell.z(), m.n[0], m.n[1], m.n[2]); }

template<typename T, typename G>
SetStatus AnySet(pbt::Src& src, G& g, const Eigen::Vector3d& w, const SetType type, const T& v)
{
  const Eigen::Vector4d w4(w.x(), w.y(), w.z(), 1.0);
  T moved = v;
  switch (src.Choose(5))
  {
    case 0: return g.SetLocation(w.x(), w.y(), w.z(), type, v);
    case 1: return g.SetLocation3d(w, type, v);
    case 2: return g.SetLocation4d(w4, type, v);
    case 3: return g.SetLocation(w.x(), w.y(), w.z(), type, std::move(moved));
    case 4: return g.SetLocation3d(w, type, std::move(moved));
    default: return g.SetLocation4d(w4, type, std::move(moved));
  }
}

template<typename T, typename G>
vg::DynamicSpatialHashedGridQuery<T> AnyMutable(pbt::Src& src, G& g, const Eigen::Vector3d& w)
{
  switch (src.Choose(2))
  {
    case 0: return g.GetLocationMutable(w.x(), w.y(), w.z());
    case 1: return g.GetLocationMutable3d(w);
    default: return g.GetLocationMutable4d(Eigen::Vector4d(w.x(), w.y(), w.z(), 1.0));
  }
}

template<typename T, typename G>
vg::DynamicSpatialHashedGridQuery<const T> AnyConst(pbt::Src& src, const G& g, const Eigen::Vector3d& w)
{
  switch (src.Choose(2))
  {
    case 0: return g.GetLocationImmutable(w.x(), w.y(), w.z());
    case 1: return g.GetLocationImmutable3d(w);
    default: return g.GetLocationImmutable4d(Eigen::Vector4d(w.x(), w.y(), w.z(), 1.0));
  }
}

template<typename T, typename G>
void Run(pbt::Src& src, pbt::Ctx& ctx)
{
  constexpr size_t kSlots = 2;
  std::vector<G, Eigen::aligned_allocator<G>> grids(kSlots);
  std::vector<Model<T>, Eigen::aligned_allocator<Model<T>>> models(kSlots);
  uint64_t counter = 1;
  const auto fresh = [&] { return Cell<T>::Make(counter++); };
  size_t writes = 0;
  size_t boundary = 0;
  size_t others = 0;
  for (size_t k = 0; k < kSlots; k++)
  {
    if (k > 0 && src.Bool()) { continue; }
    models[k] = GenModel<T>(src, fresh());
    if (src.Bool(1, 4))
    {
      models[k].pose = Eigen::Isometry3d::Identity();
      grids[k] = G(SizesOf(models[k]), models[k].def, src.Choose(8));
    }
    else { grids[k] = G(models[k].pose, SizesOf(models[k]), models[k].def, src.Choose(8)); }
  }
  for (size_t step = 0; src.More(step, 1, 30, 10.0); step++)
  {
    const size_t s = src.Choose(kSlots - 1);
    G& g = grids[s];
    Model<T>& m = models[s];
    Watch* watch = Traits<G>::Get(g);
    if (watch != nullptr)
    {
      *watch = Watch();
      watch->forbid_modulus = src.Bool(1, 3) ? src.Int(2, 3) : 0;
      watch->forbid_raw = src.Bool(1, 4);
      // Callbacks may change their mind, here after a number of accesses. A
      // write may ask more than once, but must then respect every answer.
      watch->budget = src.Bool(1, 4) ? src.Int(0, 2) : -1;
      watch->cell = m.cell;
    }
    // A place: a cell near the origin or far away, at its centre, anywhere in
    // it or on its corner.
    Index c;
    const int64_t reach = src.Bool(1, 6) ? 1000000 : 6;
    for (size_t k = 0; k < 3; k++) { c[k] = src.Int(-reach, reach); }
    if (!m.chunks.empty() && src.Bool())
    {
      auto it = m.chunks.begin();
      std::advance(it, src.Choose(m.chunks.size() - 1));
      for (size_t k = 0; k < 3; k++) { c[k] = it->first[k] * m.n[k] + src.Int(-1, m.n[k]); }
    }
    Eigen::Vector3d f = m.Centre(c);
    if (watch == nullptr && src.Bool(2, 3))
    {
      for (int64_t k = 0; k < 3; k++)
      {
        const double i = static_cast<double>(c[static_cast<size_t>(k)]);
        switch (src.Choose(5))
        {
          case 5:  // just off the boundary, on either side
            f(k) = (i + (src.Bool() ? 1.0 : -1.0) * std::pow(10.0, -4.0 - 9.0 * src.Unit())) * m.cell(k);
            break;
          case 0: f(k) = i * m.cell(k); break;
          case 1: f(k) = std::nextafter(i * m.cell(k), -1e300); break;
          case 2: f(k) = (i + src.Unit()) * m.cell(k); break;
          case 3: f(k) = (std::floor(i / static_cast<double>(m.n[static_cast<size_t>(k)])) * static_cast<double>(m.n[static_cast<size_t>(k)])) * m.cell(k); break;
          default: break;
        }
      }
    }
    const Eigen::Vector3d w = FromFrame(m.pose, f);
    const std::vector<Index> where = m.live ? m.Candidates(w) : std::vector<Index>();
    if (where.size() > 1) { boundary++; }
    const bool sharp = where.size() == 1;
    if (watch != nullptr && m.live && !sharp) { continue; }
    const bool may = watch == nullptr || !m.live || watch->Allows(where.front());
    const auto Allowed = [&]
    {
      if (watch == nullptr) { return true; }
      if (watch->budget < 0) { PBT_CHECK("callback-asked", watch->refused == !may, "callback was not asked about this cell"); }
      return !watch->refused;
    };
    const char* what = "";
    bool callback = false;
    switch (src.Choose(13))
    {
      case 0:
      case 1:
      case 2:
      case 3:
      {
        what = "set";
        if (!m.live)
        {
          if (watch != nullptr) { watch->forbid_modulus = 0; watch->budget = -1; }
          PBT_CHECK("uninitialised", pbt::Throws([&] { g.SetLocation(0.0, 0.0, 0.0, SetType::SET_CELL, m.def); })
                    && pbt::Throws([&] { g.GetLocationImmutable(0.0, 0.0, 0.0); }), "");
          break;
        }
        const SetType type = src.Bool(1, 4) ? SetType::SET_CHUNK : SetType::SET_CELL;
        const T v = fresh();
        SetStatus st;
        if (pbt::Throws([&] { st = AnySet<T>(src, g, w, type, v); }))
        {
          pbt::Fail("write-refused", pbt::Str("writing to (", f.transpose(), ") of the grid frame threw"));
        }
        callback = true;
        if (!Allowed())
        {
          PBT_CHECK("write-prohibited", st == SetStatus::MUTABLE_ACCESS_PROHIBITED, Text(where.front()));
          break;
        }
        PBT_CHECK("write-status", st == (type == SetType::SET_CELL ? SetStatus::SET_CELL : SetStatus::SET_CHUNK), "");
        const auto r = g.GetLocationImmutable3d(w);
        PBT_CHECK("write-read", r.HasValue() && r.Value() == v, "the location just written reads back differently");
        // Which of the candidate cells received it?
        Index target = where.front();
        if (!sharp)
        {
          size_t hits = 0;
          std::vector<Index> hit_chunks;
          for (const Index& i : where)
          {
            const auto q = g.GetLocationImmutable3d(FromFrame(m.pose, m.Centre(i)));
            if (q.HasValue() && q.Value() == v)
            {
              if (type == SetType::SET_CHUNK && hits > 0 && m.ChunkOf(i) == m.ChunkOf(target)) { continue; }
              target = i;
              hits++;
            }
          }
          PBT_CHECK("write-target", hits == 1, hits, " of the adjacent cells received the value");
        }
        if (type == SetType::SET_CELL) { m.SetCell(target, v); }
        else { m.SetChunk(m.ChunkOf(target), v); }
        writes++;
        break;
      }
      case 4:
      case 5:
      {
        what = "mutable query";
        if (!m.live) { break; }
        auto q = AnyMutable<T>(src, g, w);
        if (!sharp)
        {
          bool any = false;
          bool absent = false;
          for (const Index& i : where)
          {
            const auto it = m.chunks.find(m.ChunkOf(i));
            if (it == m.chunks.end()) { absent = true; }
            else { any = any || (q.HasValue() && q.Value() == it->second.At(i)); }
          }
          PBT_CHECK("boundary-query", q.HasValue() ? any : absent, "");
          break;
        }
        const auto it = m.chunks.find(m.ChunkOf(where.front()));
        if (it == m.chunks.end()) { PBT_CHECK("never-written", !q.HasValue() && q.FoundStatus() == Found::NOT_FOUND, what); break; }
        callback = true;
        if (!Allowed()) { PBT_CHECK("write-prohibited", !q.HasValue() && q.FoundStatus() == Found::MUTABLE_ACCESS_PROHIBITED, what); break; }
        PBT_CHECK("mutable-value", q.HasValue() && q.Value() == it->second.At(where.front())
                  && q.FoundStatus() == (it->second.whole ? Found::FOUND_IN_CHUNK : Found::FOUND_IN_CELL), Text(where.front()));
        if (src.Bool())
        {
          const T v = fresh();
          q.Value() = v;
          if (it->second.whole) { it->second.value = v; }
          else { it->second.cells[where.front()] = v; }
          writes++;
        }
        break;
      }
      case 6:
      {
        what = "const query";
        if (!m.live) { break; }
        const auto q = AnyConst<T>(src, g, w);
        bool any = false;
        bool absent = false;
        for (const Index& i : where)
        {
          const auto it = m.chunks.find(m.ChunkOf(i));
          if (it == m.chunks.end()) { absent = true; }
          else { any = any || (q.HasValue() && q.Value() == it->second.At(i)); }
        }
        PBT_CHECK("const-query", q.HasValue() ? any : (absent && q.FoundStatus() == Found::NOT_FOUND), Text(where.front()));
        break;
      }
      case 7:
      {
        what = "aliased write";
        if (!m.live || !sharp) { break; }
        const auto it = m.chunks.find(m.ChunkOf(where.front()));
        if (it == m.chunks.end()) { break; }
        const T v = it->second.At(where.front());
        const T& alias = static_cast<const G&>(g).GetLocationImmutable3d(w).Value();
        const SetType type = src.Bool() ? SetType::SET_CHUNK : SetType::SET_CELL;
        const auto st = g.SetLocation3d(w, type, alias);
        callback = true;
        if (!Allowed()) { break; }
        PBT_CHECK("write-status", st == (type == SetType::SET_CELL ? SetStatus::SET_CELL : SetStatus::SET_CHUNK), "");
        if (type == SetType::SET_CELL) { m.SetCell(where.front(), v); }
        else { m.SetChunk(m.ChunkOf(where.front()), v); }
        break;
      }
      case 8:
      {
        what = "erase";
        if (!m.live) { break; }
        if (watch != nullptr && watch->forbid_raw)
        {
          PBT_CHECK("raw-prohibited", pbt::Throws([&] { g.GetMutableInternalChunks(); }), "");
          break;
        }
        auto& chunks = g.GetMutableInternalChunks();
        if (src.Bool(1, 4)) { chunks.clear(); m.chunks.clear(); break; }
        if (m.chunks.empty()) { break; }
        auto it = m.chunks.begin();
        std::advance(it, src.Choose(m.chunks.size() - 1));
        const Index k = it->first;
        for (auto j = chunks.begin(); j != chunks.end(); ++j)
        {
          const Eigen::Vector3d b = j->first.Base().template head<3>();
          const Eigen::Vector3d want(static_cast<double>(k[0] * m.n[0]) * m.cell.x(), static_cast<double>(k[1] * m.n[1]) * m.cell.y(),
                                     static_cast<double>(k[2] * m.n[2]) * m.cell.z());
          if (((b - want).array().abs() < m.cell.array() * 0.5).all()) { chunks.erase(j); break; }
        }
        m.chunks.erase(it);
        others++;
        break;
      }
      case 9:
      {
        what = "default or origin";
        if (!m.live) { break; }
        others++;
        if (src.Bool()) { m.def = fresh(); g.SetDefaultValue(m.def); }
        else
        {
          Eigen::Isometry3d p = GenPose(src);
          if (p.translation().norm() * 1e-9 > m.cell.minCoeff()) { p = Eigen::Isometry3d::Identity(); }
          m.pose = p;
          g.UpdateOriginTransform(p);
        }
        break;
      }
      case 10:
      case 11:
      {
        const size_t o = 1 - s;
        others++;
        switch (src.Choose(3))
        {
          case 0: what = "copy assign"; g = grids[o]; m = models[o]; break;
          case 1: what = "copy construct"; { G temp(grids[o]); g = std::move(temp); } m = models[o]; break;
          case 2: what = "move"; g = std::move(grids[o]); m = models[o]; grids[o] = G(); models[o] = Model<T>(); break;
          default:
          {
            what = "clone";
            const auto copy = g.Clone();
            G* same = dynamic_cast<G*>(copy.get());
            PBT_CHECK("clone-type", same != nullptr && same != &g, "");
            Compare<T>(*same, m, "clone");
            if (m.live)
            {
              if (Watch* cw = Traits<G>::Get(*same)) { cw->forbid_modulus = 0; cw->budget = -1; }
              same->SetLocation3d(w, src.Bool() ? SetType::SET_CHUNK : SetType::SET_CELL, fresh());
              same->SetDefaultValue(fresh());
            }
            Compare<T>(g, m, "original of a clone");
            break;
          }
        }
        break;
      }
      default:
      {
        what = "serialize";
        others++;
        if (uint64_t* e = Traits<G>::Extra(g)) { *e = m.extra = src.AnyU64(); }
        const size_t prefix = src.Choose(9);
        Bytes buffer(prefix, 0xAB);
        const uint64_t wrote = G::Serialize(g, buffer, Cell<T>::Write);
        PBT_CHECK("serialized-size", wrote == buffer.size() - prefix, wrote, " of ", buffer.size() - prefix);
        for (size_t k = src.Choose(4); k > 0; k--) { buffer.push_back(0xCD); }
        auto d = G::Deserialize(buffer, prefix, Cell<T>::Read);
        PBT_CHECK("deserialized-size", d.BytesRead() == wrote, d.BytesRead(), " of ", wrote);
        Compare<T>(d.Value(), m, "deserialized");
        if (uint64_t* e = Traits<G>::Extra(g)) { G copy = d.Value(); PBT_CHECK("extra", *Traits<G>::Extra(copy) == *e, ""); }
        G& onto = grids[src.Choose(kSlots - 1)];
        const uint64_t n = onto.DeserializeSelf(buffer, prefix, Cell<T>::Read);
        PBT_CHECK("deserialized-size", n == wrote, n, " of ", wrote);
        models[static_cast<size_t>(&onto - grids.data())] = m;
        break;
      }
    }
    ctx << what << "[" << s << "]";
    if (m.live) { ctx << "@(" << f.transpose() << ")"; }
    ctx << "; ";
    if (watch != nullptr && m.live && (what[0] == 's' || what[0] == 'm' || what[0] == 'a') && std::string(what) != "serialize"
        && std::string(what) != "move")
    {
      for (const auto& l : watch->seen)
      {
        PBT_CHECK("callback-location", (l.head<3>() - f).norm() <= 1e-10 * (m.pose.translation().norm() + f.norm()) + 1e-12 && l(3) == 1.0,
                  what, ": callback saw (", l.transpose(), ") instead of (", f.transpose(), ")");
      }
      PBT_CHECK("callback-called", watch->seen.empty() == !callback, what);
    }
    Compare<T>(g, m, what);
    if (src.Bool(1, 4)) { Compare<T>(grids[1 - s], models[1 - s], what); }
  }
  for (size_t k = 0; k < kSlots; k++) { Compare<T>(grids[k], models[k], "end"); }
  ctx.Nontrivial(writes >= 2);
  if (boundary > 0) { ctx.Label("writes or reads on a cell boundary"); }
  if (others > 0) { ctx.Label("copies, serialization, erasures or new poses"); }
}
}  // namespace

PROP(map_of_numbers, "at least two successful writes", 60000, 1500000)
{
  Run<int32_t, vg::DynamicSpatialHashedVoxelGrid<int32_t>>(src, ctx);
}

PROP(map_of_strings, "at least two successful writes", 60000, 1500000)
{
  Run<std::string, vg::DynamicSpatialHashedVoxelGrid<std::string>>(src, ctx);
}

PROP(watched_map_of_numbers, "at least two successful writes", 60000, 1500000)
{
  Run<int32_t, Watched<int32_t>>(src, ctx);
}

PROP(watched_map_of_strings, "at least two successful writes", 60000, 1500000)
{
  Run<std::string, Watched<std::string>>(src, ctx);
}

// Any finite place can be written, as cell or chunk, and then read.
PROP(every_finite_location_can_be_written, "a coordinate beyond 1e6 cells or on a multiple of the cell size", 150000, 5000000)
{
  Model<int32_t> m = GenModel<int32_t>(src, 0);
  vg::DynamicSpatialHashedVoxelGrid<int32_t> g(m.pose, SizesOf(m), 0, 4);
  int32_t next = 1;
  for (size_t p = 0; p < 6; p++)
  {
    Eigen::Vector3d w;
    bool special = false;
    for (int64_t k = 0; k < 3; k++)
    {
      switch (src.Choose(7))
      {
        case 7: w(k) = (src.Unit() * 2 - 1) * std::pow(10.0, static_cast<double>(src.Choose(280))); special = true; break;
        case 0: w(k) = 0.0; break;
        case 1: w(k) = static_cast<double>(src.Int(-100000, 100000)) * m.cell(k); special = true; break;
        case 2: w(k) = (src.Unit() * 2 - 1) * std::pow(10.0, static_cast<double>(src.Choose(15))); special = true; break;
        case 3: w(k) = static_cast<double>(src.Int(-100000, 100000)) * m.cell(k) * static_cast<double>(m.n[static_cast<size_t>(k)]); special = true; break;
        case 4: w(k) = -std::numeric_limits<double>::denorm_min() * static_cast<double>(src.Choose(3)); special = true; break;
        case 5: w(k) = std::nextafter(static_cast<double>(src.Int(-1000, 1000)) * m.cell(k), src.Bool() ? 1e300 : -1e300); special = true; break;
        default: w(k) = (src.Unit() * 2 - 1) * 10.0; break;
      }
    }
    ctx.Nontrivial(special);
    if (src.Bool(1, 2)) { w = FromFrame(m.pose, w); }
    ctx << "(" << w.transpose() << ") ";
    const SetType type = src.Bool() ? SetType::SET_CHUNK : SetType::SET_CELL;
    const int32_t v = next++;
    if (pbt::Throws([&] { AnySet<int32_t>(src, g, w, type, v); })) { pbt::Fail("write-refused", "writing a finite location threw"); }
    const auto q = AnyConst<int32_t>(src, g, w);
    PBT_CHECK("write-read", q.HasValue() && q.Value() == v, "");
    auto u = AnyMutable<int32_t>(src, g, w);
    PBT_CHECK("write-read", u.HasValue() && u.Value() == v && &u.Value() == &q.Value(), "");
  }
}

// Chunks are handed out by the grid and can be used by themselves.
namespace
{
template<typename T>
void RunChunk(pbt::Src& src, pbt::Ctx& ctx)
{
  using GridChunk = vg::DynamicSpatialHashedVoxelGridChunk<T>;
  uint64_t counter = 1;
  const auto fresh = [&] { return Cell<T>::Make(counter++); };
  Index n;
  for (size_t k = 0; k < 3; k++) { n[k] = src.Int(1, 3); }
  const double c = GenCell(src);
  const Eigen::Vector3d cell = src.Bool() ? Eigen::Vector3d(c, c, c) : Eigen::Vector3d(c, GenCell(src), GenCell(src));
  const vg::GridSizes sizes(cell.x(), cell.y(), cell.z(), n[0], n[1], n[2]);
  const Index at{{src.Int(-5, 5), src.Int(-5, 5), src.Int(-5, 5)}};
  const Eigen::Vector3d base(static_cast<double>(at[0]) * sizes.XSize(), static_cast<double>(at[1]) * sizes.YSize(),
                             static_cast<double>(at[2]) * sizes.ZSize());
  bool whole = src.Bool();
  std::vector<T> cells(static_cast<size_t>(n[0] * n[1] * n[2]), fresh());
  GridChunk chunk(vg::ChunkRegion(base), sizes, whole ? vg::DSHVGFillType::FILL_CHUNK : vg::DSHVGFillType::FILL_CELL, cells[0]);
  ctx << n[0] << "x" << n[1] << "x" << n[2] << " at " << Text(at);
  const auto number = [&](const Index& i) { return static_cast<size_t>((i[0] * n[1] + i[1]) * n[2] + i[2]); };
  const auto compare = [&](const GridChunk& g, const char* when)
  {
    PBT_CHECK("fill-status", g.FillStatus() == (whole ? vg::DSHVGFillStatus::CHUNK_FILLED : vg::DSHVGFillStatus::CELL_FILLED), when);
    for (int64_t x = 0; x < n[0]; x++)
    {
      for (int64_t y = 0; y < n[1]; y++)
      {
        for (int64_t z = 0; z < n[2]; z++)
        {
          const Index i{{x, y, z}};
          const vg::GridIndex gi(x, y, z);
          const Eigen::Vector4d where = g.GetCellLocationInGridFrame(gi);
          for (int64_t k = 0; k < 3; k++)
          {
            const double want = base(k) + (static_cast<double>(i[static_cast<size_t>(k)]) + 0.5) * cell(k);
            PBT_CHECK("chunk-cell-centre", std::abs(where(k) - want) <= 1e-12 * (std::abs(want) + cell(k)), when, " ", Text(i));
          }
          const auto q = g.GetLocationImmutable4d(where);
          PBT_CHECK("chunk-cell-value", q.HasValue() && q.Value() == cells[number(i)], when, " ", Text(i));
          PBT_CHECK("found-status", q.FoundStatus() == (whole ? Found::FOUND_IN_CHUNK : Found::FOUND_IN_CELL), when, " ", Text(i));
          if (!whole || number(i) == 0)
          {
            const auto r = g.GetIndexImmutable(gi);
            PBT_CHECK("chunk-cell-value", r.HasValue() && &r.Value() == &q.Value(), when, " ", Text(i));
          }
        }
      }
    }
  };
  compare(chunk, "new chunk");
  size_t writes = 0;
  for (size_t step = 0; src.More(step, 1, 16, 6.0); step++)
  {
    Index i{{src.Int(0, n[0] - 1), src.Int(0, n[1] - 1), src.Int(0, n[2] - 1)}};
    const bool outside = src.Bool(1, 5);
    if (outside)
    {
      const size_t k = src.Choose(2);
      i[k] = src.Bool() ? n[k] + static_cast<int64_t>(src.Choose(3)) : -1 - static_cast<int64_t>(src.Choose(3));
    }
    const vg::GridIndex gi(i[0], i[1], i[2]);
    Eigen::Vector4d where(0, 0, 0, 1);
    for (int64_t k = 0; k < 3; k++) { where(k) = base(k) + (static_cast<double>(i[static_cast<size_t>(k)]) + 0.1 + 0.8 * src.Unit()) * cell(k); }
    const char* what = "";
    switch (src.Choose(4))
    {
      case 0:
      {
        what = "set cell";
        if (outside && whole) { break; }
        const T v = fresh();
        T moved = v;
        SetStatus st = SetStatus::MUTABLE_ACCESS_PROHIBITED;
        const bool by_move = src.Bool();
        const bool threw = pbt::Throws([&]
        {
          st = by_move ? chunk.SetCellLocation4d(where, std::move(moved)) : chunk.SetCellLocation4d(where, v);
        });
        PBT_CHECK("chunk-outside", threw == outside, Text(i));
        if (outside) { break; }
        PBT_CHECK("write-status", st == SetStatus::SET_CELL, Text(i));
        whole = false;
        cells[number(i)] = v;
        writes++;
        break;
      }
      case 1:
      {
        what = "set chunk";
        T v = fresh();
        T moved = v;
        const size_t form = src.Choose(2);
        SetStatus st = SetStatus::MUTABLE_ACCESS_PROHIBITED;
        if (form == 0) { st = chunk.SetChunkValue(v); }
        else if (form == 1) { st = chunk.SetChunkValue(std::move(moved)); }
        else
        {
          // A value of the chunk itself.
          if (outside) { break; }
          v = cells[number(i)];
          const GridChunk& c2 = chunk;
          st = chunk.SetChunkValue(c2.GetLocationImmutable4d(where).Value());
        }
        PBT_CHECK("write-status", st == SetStatus::SET_CHUNK, "");
        whole = true;
        cells.assign(cells.size(), v);
        writes++;
        break;
      }
      case 2:
      {
        what = "index";
        const bool ok = whole ? (i == Index{{0, 0, 0}}) : !outside;
        const GridChunk& c2 = chunk;
        PBT_CHECK("chunk-outside", pbt::Throws([&] { c2.GetIndexImmutable(gi); }) == !ok
                  && pbt::Throws([&] { chunk.GetIndexMutable(gi); }) == !ok, Text(i));
        if (!ok) { break; }
        auto q = chunk.GetIndexMutable(gi);
        PBT_CHECK("mutable-value", q.HasValue() && q.Value() == cells[number(i)]
                  && q.FoundStatus() == (whole ? Found::FOUND_IN_CHUNK : Found::FOUND_IN_CELL), Text(i));
        const T v = fresh();
        q.Value() = v;
        if (whole) { cells.assign(cells.size(), v); }
        else { cells[number(i)] = v; }
        writes++;
        break;
      }
      case 3:
      {
        what = "location";
        if (outside && whole) { break; }
        const GridChunk& c2 = chunk;
        PBT_CHECK("chunk-outside", pbt::Throws([&] { c2.GetLocationImmutable4d(where); }) == outside
                  && pbt::Throws([&] { chunk.GetLocationMutable4d(where); }) == outside, Text(i));
        if (outside) { break; }
        auto q = chunk.GetLocationMutable4d(where);
        PBT_CHECK("mutable-value", q.HasValue() && q.Value() == cells[number(i)]
                  && q.FoundStatus() == (whole ? Found::FOUND_IN_CHUNK : Found::FOUND_IN_CELL), Text(i));
        const T v = fresh();
        q.Value() = v;
        if (whole) { cells.assign(cells.size(), v); }
        else { cells[number(i)] = v; }
        writes++;
        break;
      }
      default:
      {
        what = "serialize";
        const size_t prefix = src.Choose(5);
        Bytes buffer(prefix, 0xAB);
        const uint64_t wrote = GridChunk::Serialize(chunk, buffer, Cell<T>::Write);
        PBT_CHECK("serialized-size", wrote == buffer.size() - prefix, "");
        for (size_t k = src.Choose(4); k > 0; k--) { buffer.push_back(0xCD); }
        const auto d = GridChunk::Deserialize(buffer, prefix, Cell<T>::Read);
        PBT_CHECK("deserialized-size", d.BytesRead() == wrote, "");
        compare(d.Value(), "deserialized");
        GridChunk onto(vg::ChunkRegion(9, 9, 9), vg::GridSizes(1.0, int64_t(2), int64_t(2), int64_t(2)),
                       src.Bool() ? vg::DSHVGFillType::FILL_CHUNK : vg::DSHVGFillType::FILL_CELL, fresh());
        PBT_CHECK("deserialized-size", onto.DeserializeSelf(buffer, prefix, Cell<T>::Read) == wrote, "");
        compare(onto, "deserialized onto a chunk");
        if (src.Bool()) { chunk = onto; }
        break;
      }
    }
    ctx << "; " << what << " " << Text(i);
    compare(chunk, what);
  }
  ctx.Nontrivial(writes >= 2);
}
}  // namespace

PROP(chunk_of_numbers, "at least two writes", 60000, 1500000)
{
  RunChunk<int32_t>(src, ctx);
}

PROP(chunk_of_strings, "at least two writes", 40000, 1500000)
{
  RunChunk<std::string>(src, ctx);
}

PROP(chunk_regions_and_empty_chunks, "regions that differ in one coordinate", 40000, 500000)
{
  const double scale = std::pow(10.0, src.Unit() * 20.0 - 10.0);
  const Eigen::Vector3d b(src.Real(-10.0, 10.0) * scale, src.Real(-10.0, 10.0) * scale, src.Real(-10.0, 10.0) * scale);
  Eigen::Vector3d o = b;
  const int64_t k = static_cast<int64_t>(src.Choose(2));
  o(k) += scale * (src.Bool() ? 1.0 : -1.0) * std::pow(10.0, -1.0 - 12.0 * src.Unit());
  ctx << b.transpose() << " and " << o.transpose();
  ctx.Nontrivial(o(k) != b(k));
  const vg::ChunkRegion r(b), same(b.x(), b.y(), b.z()), other(Eigen::Vector4d(o.x(), o.y(), o.z(), 1.0));
  PBT_CHECK("region-equality", r == same && std::hash<vg::ChunkRegion>()(r) == std::hash<vg::ChunkRegion>()(same)
            && r.Base().head<3>() == b && r.Base()(3) == 1.0, "");
  PBT_CHECK("region-equality", (r == other) == (o(k) == b(k)), "");
  Bytes bytes;
  const uint64_t wrote = vg::ChunkRegion::Serialize(r, bytes);
  const auto back = vg::ChunkRegion::Deserialize(bytes, 0);
  PBT_CHECK("region-serialized", wrote == bytes.size() && back.BytesRead() == wrote && back.Value() == r, "");
  const double w = src.Bool() ? src.AnyReal(10.0) : 1.0 + std::pow(10.0, -1.0 - 14.0 * src.Unit());
  if (w != 1.0) { PBT_CHECK("region-not-a-point", pbt::Throws([&] { vg::ChunkRegion(Eigen::Vector4d(b.x(), b.y(), b.z(), w)); }), w); }
  // A chunk without contents has none to read or write.
  using GridChunk = vg::DynamicSpatialHashedVoxelGridChunk<int32_t>;
  GridChunk empty;
  const GridChunk& e = empty;
  const Eigen::Vector4d at(0, 0, 0, 1);
  const int32_t v = 3;
  PBT_CHECK("empty-chunk", empty.FillStatus() == vg::DSHVGFillStatus::NOT_FILLED
            && pbt::Throws([&] { e.GetIndexImmutable(vg::GridIndex(0, 0, 0)); }) && pbt::Throws([&] { empty.GetIndexMutable(vg::GridIndex(0, 0, 0)); })
            && pbt::Throws([&] { e.GetLocationImmutable4d(at); }) && pbt::Throws([&] { empty.GetLocationMutable4d(at); })
            && pbt::Throws([&] { empty.SetCellLocation4d(at, v); }) && pbt::Throws([&] { empty.SetCellLocation4d(at, 3); })
            && pbt::Throws([&] { empty.SetChunkValue(v); }) && pbt::Throws([&] { empty.SetChunkValue(3); })
            && empty.FillStatus() == vg::DSHVGFillStatus::NOT_FILLED, "");
  PBT_CHECK("empty-chunk", pbt::Throws([&] { GridChunk(r, vg::GridSizes(), src.Bool() ? vg::DSHVGFillType::FILL_CELL : vg::DSHVGFillType::FILL_CHUNK, 1); }), "");
}

PROP(non_finite_locations_change_nothing, "always", 5000, 50000)
{
  Model<int32_t> m = GenModel<int32_t>(src, 0);
  vg::DynamicSpatialHashedVoxelGrid<int32_t> g(m.pose, SizesOf(m), 0, 4);
  const Eigen::Vector3d home = FromFrame(m.pose, m.Centre({{0, 0, 0}}));
  g.SetLocation3d(home, SetType::SET_CELL, 5);
  Eigen::Vector3d w(0, 0, 0);
  const double bad[] = {std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()};
  w(static_cast<int64_t>(src.Choose(2))) = bad[src.Choose(2)];
  ctx.Nontrivial();
  const SetType type = src.Bool() ? SetType::SET_CHUNK : SetType::SET_CELL;
  PBT_CHECK("non-finite", pbt::Throws([&] { AnySet<int32_t>(src, g, w, type, 9); }), "accepted");
  PBT_CHECK("non-finite", !AnyConst<int32_t>(src, g, w).HasValue(), "found");
  PBT_CHECK("non-finite", g.GetImmutableInternalChunks().size() == 1 && g.GetLocationImmutable3d(home).Value() == 5, "contents changed");
}

// Chunks of many cells, and many chunks: beyond what one or two bytes count.
namespace
{
template<typename T>
void RunLarge(pbt::Src& src, pbt::Ctx& ctx)
{
  uint64_t counter = 1;
  const auto fresh = [&] { return Cell<T>::Make(counter++); };
  Model<T> m = GenModel<T>(src, fresh());
  const bool many_chunks = src.Bool();
  if (!many_chunks)
  {
    const size_t axis = src.Choose(2);
    m.n = {{src.Int(1, 2), src.Int(1, 2), src.Int(1, 2)}};
    switch (src.Choose(2))
    {
      case 0: m.n[axis] = src.Int(200, 1000); break;
      case 1: m.n[axis] = src.Int(10000, 40000); m.n[(axis + 1) % 3] = 1; break;
      default: m.n[axis] = src.Int(100, 300); m.n[(axis + 1) % 3] = src.Int(100, 200); break;
    }
  }
  // Far enough from the limits of doubles for all cells to be distinct.
  m.cell = Eigen::Vector3d::Constant(m.cell.x());
  vg::DynamicSpatialHashedVoxelGrid<T> g(m.pose, SizesOf(m), m.def, src.Choose(3000));
  std::mt19937_64 lcg(src.AnyU64());
  const auto within = [&](const int64_t lo, const int64_t hi) { return lo + static_cast<int64_t>(lcg() % static_cast<uint64_t>(hi - lo + 1)); };
  const size_t count = many_chunks ? 500 + src.Choose(2500) : 1 + src.Choose(2);
  std::vector<Index> places;
  const int64_t reach = many_chunks ? (src.Bool() ? 9 : 2000) : 1;
  for (size_t k = 0; k < count; k++)
  {
    Index at;
    for (size_t a = 0; a < 3; a++) { at[a] = within(-reach, reach); }
    places.push_back(at);
    if (lcg() % 3 == 0)
    {
      const Index first{{at[0] * m.n[0], at[1] * m.n[1], at[2] * m.n[2]}};
      const T v = fresh();
      PBT_CHECK("write-status", g.SetLocation3d(FromFrame(m.pose, m.Centre(first)), SetType::SET_CHUNK, v) == SetStatus::SET_CHUNK, Text(at));
      m.SetChunk(at, v);
    }
    // Some, or all, of its cells.
    const size_t cells = many_chunks ? lcg() % 4 : static_cast<size_t>(m.n[0] * m.n[1] * m.n[2]);
    for (size_t i = 0; i < cells; i++)
    {
      Index c;
      if (many_chunks) { for (size_t a = 0; a < 3; a++) { c[a] = at[a] * m.n[a] + within(0, m.n[a] - 1); } }
      else
      {
        if (lcg() % 4 == 0) { continue; }
        const int64_t d = static_cast<int64_t>(i);
        c = {{at[0] * m.n[0] + d / (m.n[1] * m.n[2]), at[1] * m.n[1] + d / m.n[2] % m.n[1], at[2] * m.n[2] + d % m.n[2]}};
      }
      const T v = fresh();
      PBT_CHECK("write-status", g.SetLocation3d(FromFrame(m.pose, m.Centre(c)), SetType::SET_CELL, v) == SetStatus::SET_CELL, Text(c));
      m.SetCell(c, v);
    }
  }
  ctx << (many_chunks ? "many chunks of " : "chunks of ") << Text(m.n) << " cells, " << m.chunks.size() << " chunks";
  ctx.Nontrivial();
  Compare<T>(g, m, "large");
  Bytes buffer;
  const uint64_t wrote = vg::DynamicSpatialHashedVoxelGrid<T>::Serialize(g, buffer, Cell<T>::Write);
  PBT_CHECK("serialized-size", wrote == buffer.size(), "");
  const auto d = vg::DynamicSpatialHashedVoxelGrid<T>::Deserialize(buffer, 0, Cell<T>::Read);
  PBT_CHECK("deserialized-size", d.BytesRead() == wrote, "");
  Compare<T>(d.Value(), m, "large, deserialized");
  const auto copy = g;
  for (size_t k = 0; k < places.size(); k += 2)
  {
    const Index at = places[k];
    const Index last{{(at[0] + 1) * m.n[0] - 1, (at[1] + 1) * m.n[1] - 1, (at[2] + 1) * m.n[2] - 1}};
    auto q = g.GetLocationMutable3d(FromFrame(m.pose, m.Centre(last)));
    const auto it = m.chunks.find(at);
    PBT_CHECK("found", q.HasValue() == (it != m.chunks.end()), Text(at));
    if (!q.HasValue()) { continue; }
    q.Value() = fresh();
  }
  Compare<T>(copy, m, "large, copy of a grid changed since");
}
}  // namespace

PROP(large_maps_of_numbers, "always", 1500, 20000)
{
  RunLarge<int32_t>(src, ctx);
}

PROP(large_maps_of_strings, "always", 500, 6000)
{
  RunLarge<std::string>(src, ctx);
}
