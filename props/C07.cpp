// C07 dense voxel grid contents under histories
// PBT-SOURCES: serialization.cpp
#include "grids.hpp"

#include <boost/container/stable_vector.hpp>

#include <common_robotics_utilities/serialization.hpp>

using namespace grids;
namespace ser = common_robotics_utilities::serialization;
using Bytes = std::vector<uint8_t>;

namespace
{
// ---- cell types ------------------------------------------------------------
template<typename T>
struct Cell;

template<>
struct Cell<int32_t>
{
  static int32_t Make(const uint64_t k) { return static_cast<int32_t>(k * 7919u + 3u); }
  static uint64_t Write(const int32_t& v, Bytes& b) { return ser::SerializeMemcpyable<int32_t>(v, b); }
  static ser::Deserialized<int32_t> Read(const Bytes& b, const uint64_t at)
  {
    return ser::DeserializeMemcpyable<int32_t>(b, at);
  }
};

template<>
struct Cell<std::string>
{
  // Long enough to live on the heap.
  static std::string Make(const uint64_t k) { return k % 5 == 0 ? std::string() : "value number " + std::to_string(k) + " long text"; }
  static uint64_t Write(const std::string& v, Bytes& b) { return ser::SerializeString<char>(v, b); }
  static ser::Deserialized<std::string> Read(const Bytes& b, const uint64_t at)
  {
    return ser::DeserializeString<char>(b, at);
  }
};

// ---- grid types ------------------------------------------------------------
struct Watch
{
  std::vector<vg::GridIndex> touched;
  int64_t raw = 0;
  int64_t forbid_modulus = 0;  // 0: allow everything
  bool forbid_raw = false;

  bool Allows(const int64_t x, const int64_t y, const int64_t z) const
  {
    return forbid_modulus == 0 || ((x * 31 + y * 17 + z * 5) % forbid_modulus) != 0;
  }
};

template<typename T, typename Store>
class WatchedGrid : public vg::VoxelGridBase<T, Store>
{
public:
  using Base = vg::VoxelGridBase<T, Store>;

  WatchedGrid() : Base() {}
  WatchedGrid(const Eigen::Isometry3d& pose, const vg::GridSizes& sizes, const T& def, const T& oob)
      : Base(pose, sizes, def, oob) {}
  WatchedGrid(const vg::GridSizes& sizes, const T& def, const T& oob) : Base(sizes, def, oob) {}

  Watch watch;
  uint64_t extra = 0;

  static uint64_t Serialize(const WatchedGrid& g, Bytes& b, const ser::Serializer<T>& s) { return g.SerializeSelf(b, s); }

  static ser::Deserialized<WatchedGrid> Deserialize(const Bytes& b, const uint64_t at, const ser::Deserializer<T>& d)
  {
    WatchedGrid g;
    const uint64_t n = g.DeserializeSelf(b, at, d);
    return ser::MakeDeserialized(g, n);
  }

private:
  std::unique_ptr<Base> DoClone() const override { return std::unique_ptr<Base>(new WatchedGrid(*this)); }

  uint64_t DerivedSerializeSelf(Bytes& b, const ser::Serializer<T>&) const override
  {
    return ser::SerializeMemcpyable<uint64_t>(extra, b);
  }

  uint64_t DerivedDeserializeSelf(const Bytes& b, const uint64_t at, const ser::Deserializer<T>&) override
  {
    const auto d = ser::DeserializeMemcpyable<uint64_t>(b, at);
    extra = d.Value();
    return d.BytesRead();
  }

  bool OnMutableAccess(const int64_t x, const int64_t y, const int64_t z) override
  {
    watch.touched.emplace_back(x, y, z);
    return watch.Allows(x, y, z);
  }

  bool OnMutableRawAccess() override
  {
    watch.raw++;
    return !watch.forbid_raw;
  }
};

template<typename G>
struct Traits
{
  static constexpr bool kWatched = false;
  static Watch* Get(G&) { return nullptr; }
  static void SetExtra(G&, uint64_t) {}
  static uint64_t Extra(const G&) { return 0; }
};

template<typename T, typename S>
struct Traits<WatchedGrid<T, S>>
{
  static constexpr bool kWatched = true;
  static Watch* Get(WatchedGrid<T, S>& g) { return &g.watch; }
  static void SetExtra(WatchedGrid<T, S>& g, const uint64_t e) { g.extra = e; }
  static uint64_t Extra(const WatchedGrid<T, S>& g) { return g.extra; }
};

// ---- model -----------------------------------------------------------------
template<typename T>
struct Model
{
  bool live = false;
  int64_t n[3] = {0, 0, 0};
  Eigen::Vector3d cell = Eigen::Vector3d::Zero();
  Eigen::Isometry3d pose = Eigen::Isometry3d::Identity();
  T def{};
  T oob{};
  std::vector<T> cells;  // x major, then y, then z
  Watch rules;           // only forbid_*
  uint64_t extra = 0;

  bool In(const vg::GridIndex& i) const
  {
    return i.X() >= 0 && i.Y() >= 0 && i.Z() >= 0 && i.X() < n[0] && i.Y() < n[1] && i.Z() < n[2];
  }
  T& At(const vg::GridIndex& i)
  {
    return cells[static_cast<size_t>((i.X() * n[1] + i.Y()) * n[2] + i.Z())];
  }
  const T& At(const vg::GridIndex& i) const { return const_cast<Model*>(this)->At(i); }
  int64_t Total() const { return n[0] * n[1] * n[2]; }
};

template<typename T, typename Store, typename G>
void Compare(const G& g, const Model<T>& m, const char* when)
{
  PBT_CHECK("sizes", g.GetNumXCells() == m.n[0] && g.GetNumYCells() == m.n[1] && g.GetNumZCells() == m.n[2]
            && (m.Total() == 0 || g.GetCellSizes() == m.cell), when);
  PBT_CHECK("initialized", g.IsInitialized() == (m.Total() > 0), when);
  PBT_CHECK("pose", g.GetOriginTransform().matrix() == m.pose.matrix(), when);
  PBT_CHECK("pose", (g.GetInverseOriginTransform() * m.pose).matrix().isIdentity(1e-9 * (1.0 + m.pose.translation().norm())), when);
  PBT_CHECK("default-value", g.GetDefaultValue() == m.def, when);
  PBT_CHECK("oob-value", g.GetOOBValue() == m.oob, when);
  PBT_CHECK("raw-size", static_cast<int64_t>(g.GetImmutableRawData().size()) == m.Total(), when);
  for (int64_t x = 0; x < m.n[0]; x++)
  {
    for (int64_t y = 0; y < m.n[1]; y++)
    {
      for (int64_t z = 0; z < m.n[2]; z++)
      {
        const vg::GridIndex i(x, y, z);
        const auto q = g.GetIndexImmutable(i);
        PBT_CHECK("cell-value", q && q.Value() == m.At(i), when, ": cell (", x, ",", y, ",", z, ") holds ",
                  q ? pbt::Str(q.Value()) : "nothing", ", expected ", m.At(i));
        const auto d = g.GridIndexToDataIndex(i);
        PBT_CHECK("data-value", g.GetDataIndexImmutable(d) == m.At(i), when);
      }
    }
  }
  PBT_CHECK("extra", Traits<G>::Extra(g) == m.extra, when);
}

template<typename T, typename Store, typename G>
void Run(pbt::Src& src, pbt::Ctx& ctx, const bool huge = false)
{
  constexpr size_t kSlots = 3;
  std::vector<G> grids(kSlots);
  std::vector<Model<T>> models(kSlots);
  uint64_t counter = 1;
  size_t writes = 0;
  size_t copies = 0;
  const auto fresh = [&] { return Cell<T>::Make(counter++); };
  const auto make_model = [&]
  {
    Model<T> m;
    m.live = true;
    const int64_t most = src.Bool(1, 12) ? 7 : 4;
    for (size_t k = 0; k < 3; k++) { m.n[k] = src.Int(1, most); }
    if (huge && src.Bool(2, 3))
    {
      // Axes and totals beyond what one or two bytes can count.
      const size_t axis = src.Choose(2);
      switch (src.Choose(2))
      {
        case 0: m.n[axis] = src.Int(200, 2000); break;
        case 1: m.n[axis] = src.Int(30000, 70000); m.n[(axis + 1) % 3] = src.Int(1, 2); m.n[(axis + 2) % 3] = 1; break;
        default: m.n[axis] = src.Int(100, 300); m.n[(axis + 1) % 3] = src.Int(100, 300); m.n[(axis + 2) % 3] = src.Int(1, 3); break;
      }
    }
    m.cell = src.Bool() ? Eigen::Vector3d::Constant(GenCell(src)) : Eigen::Vector3d(GenCell(src), GenCell(src), GenCell(src));
    m.def = fresh();
    m.oob = fresh();
    m.cells.assign(static_cast<size_t>(m.Total()), m.def);
    return m;
  };
  const auto sizes_of = [](const Model<T>& m)
  {
    return vg::GridSizes(m.cell.x(), m.cell.y(), m.cell.z(), m.n[0], m.n[1], m.n[2]);
  };
  for (size_t k = 0; k < kSlots; k++)
  {
    if (k > 0 && src.Bool(1, 3)) { continue; }  // left uninitialised
    models[k] = make_model();
    models[k].pose = GenPose(src);
    grids[k] = G(models[k].pose, sizes_of(models[k]), models[k].def, models[k].oob);
    if (huge)
    {
      // Every cell its own value, so that no two can be mistaken.
      for (auto& v : models[k].cells) { v = fresh(); }
      if (Watch* w = Traits<G>::Get(grids[k])) { w->forbid_modulus = 0; }
      for (int64_t x = 0; x < models[k].n[0]; x++)
      {
        for (int64_t y = 0; y < models[k].n[1]; y++)
        {
          for (int64_t z = 0; z < models[k].n[2]; z++) { grids[k].SetIndex(x, y, z, models[k].At(vg::GridIndex(x, y, z))); }
        }
      }
      Compare<T, Store>(grids[k], models[k], "filled");
    }
  }
  for (size_t step = 0; src.More(step, 1, huge ? 12 : 40, huge ? 6.0 : 14.0); step++)
  {
    const size_t s = src.Choose(kSlots - 1);
    G& g = grids[s];
    Model<T>& m = models[s];
    Watch* watch = Traits<G>::Get(g);
    if (watch != nullptr)
    {
      watch->touched.clear();
      watch->raw = 0;
      watch->forbid_modulus = src.Bool(1, 3) ? src.Int(2, 3) : 0;
      watch->forbid_raw = src.Bool(1, 4);
      m.rules = *watch;
    }
    // A target: usually inside, sometimes just outside or wrapping.
    vg::GridIndex i(0, 0, 0);
    if (src.Bool(1, 6)) { i = vg::GridIndex(src.Int(-2, m.n[0] + 1), src.Int(-2, m.n[1] + 1), src.Int(-2, m.n[2] + 1)); }
    else if (m.Total() > 0)
    {
      i = vg::GridIndex(src.Int(0, m.n[0] - 1), src.Int(0, m.n[1] - 1), src.Int(0, m.n[2] - 1));
    }
    const bool in = m.In(i);
    const bool allowed = watch == nullptr || m.rules.Allows(i.X(), i.Y(), i.Z());
    const bool raw_allowed = watch == nullptr || !m.rules.forbid_raw;
    const auto expect = !in ? vg::AccessStatus::OUT_OF_BOUNDS
                            : allowed ? vg::AccessStatus::SUCCESS : vg::AccessStatus::MUTABLE_ACCESS_PROHIBITED;
    // The centre of the cell in the world, for location forms.
    const double scale = m.pose.translation().norm() + 1000.0 + 10.0 * m.cell.maxCoeff();
    const bool locatable = m.Total() > 0 && m.cell.minCoeff() > 1e-9 * scale;
    Eigen::Vector3d at = Eigen::Vector3d::Zero();
    if (m.Total() > 0)
    {
      at = FromFrame(m.pose, Eigen::Vector3d((static_cast<double>(i.X()) + 0.5) * m.cell.x(),
                                             (static_cast<double>(i.Y()) + 0.5) * m.cell.y(),
                                             (static_cast<double>(i.Z()) + 0.5) * m.cell.z()));
    }
    const Eigen::Vector4d at4(at.x(), at.y(), at.z(), 1.0);
    bool callback_expected = false;
    bool raw_expected = false;
    const char* what = "";
    switch (src.Choose(19))
    {
      case 0:
      case 1:
      case 2:
      {
        what = "SetIndex";
        const T v = fresh();
        T moved = v;
        vg::AccessStatus st;
        switch (src.Choose(3))
        {
          case 0: st = g.SetIndex(i, v); break;
          case 1: st = g.SetIndex(i.X(), i.Y(), i.Z(), v); break;
          case 2: st = g.SetIndex(i, std::move(moved)); break;
          default: st = g.SetIndex(i.X(), i.Y(), i.Z(), std::move(moved)); break;
        }
        PBT_CHECK("write-status", st == expect, what, " ", i);
        callback_expected = in;
        if (in && allowed) { m.At(i) = v; writes++; }
        break;
      }
      case 3:
      case 4:
      {
        what = "SetLocation";
        if (!locatable) { break; }
        const T v = fresh();
        vg::AccessStatus st;
        T moved = v;
        switch (src.Choose(5))
        {
          case 0: st = g.SetLocation(at.x(), at.y(), at.z(), v); break;
          case 1: st = g.SetLocation3d(at, v); break;
          case 2: st = g.SetLocation4d(at4, v); break;
          case 3: st = g.SetLocation(at.x(), at.y(), at.z(), std::move(moved)); break;
          case 4: st = g.SetLocation3d(at, std::move(moved)); break;
          default: st = g.SetLocation4d(at4, std::move(moved)); break;
        }
        PBT_CHECK("write-status", st == expect, what, " ", i);
        callback_expected = in;
        if (in && allowed) { m.At(i) = v; writes++; }
        break;
      }
      case 5:
      case 6:
      {
        what = "mutable query";
        vg::GridQuery<T> q;
        const size_t form = src.Choose(4);
        if (form >= 2 && !locatable) { break; }
        switch (form)
        {
          case 0: q = g.GetIndexMutable(i); break;
          case 1: q = g.GetIndexMutable(i.X(), i.Y(), i.Z()); break;
          case 2: q = g.GetLocationMutable(at.x(), at.y(), at.z()); break;
          case 3: q = g.GetLocationMutable3d(at); break;
          default: q = g.GetLocationMutable4d(at4); break;
        }
        callback_expected = in;
        PBT_CHECK("mutable-status", q.Status() == expect && q.HasValue() == (in && allowed)
                  && static_cast<bool>(q) == (in && allowed), i);
        if (src.Bool(1, 4))
        {
          // A query can be emptied, and copied, without touching the grid.
          vg::GridQuery<T> copy = q;
          PBT_CHECK("query-copy", copy.Status() == q.Status() && copy.HasValue() == q.HasValue()
                    && (!q.HasValue() || &copy.Value() == &q.Value()), i);
          copy.Reset();
          PBT_CHECK("query-reset", !copy.HasValue() && !copy && copy.Status() == vg::AccessStatus::UNKNOWN, i);
        }
        if (in && allowed)
        {
          PBT_CHECK("mutable-value", q.Value() == m.At(i), i);
          if (src.Bool()) { m.At(i) = fresh(); q.Value() = m.At(i); writes++; }
        }
        break;
      }
      case 7:
      {
        what = "const query";
        const G& c = g;
        const auto q = c.GetIndexImmutable(i.X(), i.Y(), i.Z());
        PBT_CHECK("const-query", q.HasValue() == in && (!in || q.Value() == m.At(i)), i);
        if (locatable)
        {
          const auto r = src.Bool() ? c.GetLocationImmutable3d(at) : c.GetLocationImmutable(at.x(), at.y(), at.z());
          PBT_CHECK("const-query", r.HasValue() == in && (!in || r.Value() == m.At(i)), i);
        }
        break;
      }
      case 8:
      {
        what = "SetDataIndex";
        if (m.Total() == 0) { break; }
        const int64_t d = src.Int(-1, m.Total());
        const bool ok = d >= 0 && d < m.Total();
        const T v = fresh();
        T moved = v;
        const size_t form = src.Choose(2);
        const bool threw = pbt::Throws([&]
        {
          if (form == 0) { g.SetDataIndex(d, v); }
          else if (form == 1) { g.SetDataIndex(d, std::move(moved)); }
          else { g.GetDataIndexMutable(d) = v; }
        });
        raw_expected = ok;
        PBT_CHECK("raw-write", threw != (ok && raw_allowed), d);
        if (!threw) { m.At(g.DataIndexToGridIndex(d)) = v; writes++; }
        break;
      }
      case 9:
      {
        what = "raw data";
        if (m.Total() == 0) { break; }
        raw_expected = true;
        if (src.Bool())
        {
          const bool threw = pbt::Throws([&]
          {
            Store& data = g.GetMutableRawData();
            const size_t d = src.Choose(static_cast<size_t>(m.Total() - 1));
            const T v = fresh();
            data[d] = v;
            m.At(g.DataIndexToGridIndex(static_cast<int64_t>(d))) = v;
          });
          PBT_CHECK("raw-access", threw == !raw_allowed, "");
        }
        else
        {
          const size_t n = src.Bool(1, 3) ? src.Choose(static_cast<size_t>(m.Total() + 2)) : static_cast<size_t>(m.Total());
          Store data;
          for (size_t k = 0; k < n; k++) { data.push_back(fresh()); }
          const bool threw = pbt::Throws([&] { g.SetRawData(data); });
          const bool ok = raw_allowed && n == static_cast<size_t>(m.Total());
          PBT_CHECK("raw-access", threw == !ok, n, " values");
          if (ok)
          {
            for (size_t k = 0; k < n; k++) { m.At(g.DataIndexToGridIndex(static_cast<int64_t>(k))) = data[k]; }
          }
        }
        break;
      }
      case 10:
      {
        what = "reset";
        if (m.Total() == 0) { break; }
        const size_t form = src.Choose(3);
        T v = fresh();
        if (form == 3)
        {
          // A value taken from the grid itself.
          v = m.cells[static_cast<size_t>(src.Choose(m.cells.size() - 1))];
          const T* alias = nullptr;
          for (int64_t d = 0; d < m.Total(); d++)
          {
            if (static_cast<const G&>(g).GetDataIndexImmutable(d) == v) { alias = &static_cast<const G&>(g).GetDataIndexImmutable(d); }
          }
          PBT_CHECK("cell-value", alias != nullptr, "value not found");
          g.ResetWithNewValue(*alias);
          m.cells.assign(m.cells.size(), v);
        }
        else if (form == 0) { g.ResetWithDefault(); m.cells.assign(m.cells.size(), m.def); }
        else if (form == 1) { g.ResetWithNewValue(v); m.cells.assign(m.cells.size(), v); }
        else { g.ResetWithNewDefault(v); m.def = v; m.cells.assign(m.cells.size(), v); }
        break;
      }
      case 11:
      {
        what = "defaults";
        const T v = fresh();
        if (src.Bool()) { g.SetDefaultValue(v); m.def = v; }
        else { g.SetOOBValue(v); m.oob = v; }
        break;
      }
      case 12:
      {
        what = "origin";
        m.pose = GenPose(src);
        g.UpdateOriginTransform(m.pose);
        break;
      }
      case 13:
      {
        what = "initialize";
        const uint64_t extra = m.extra;
        if (src.Bool(1, 4))
        {
          PBT_CHECK("bad-initialize", pbt::Throws([&] { g.Initialize(vg::GridSizes(), fresh(), fresh()); }), "");
          break;
        }
        if (m.Total() > 0 && src.Bool(1, 3))
        {
          // With the parameters it already has; the contents go back to the default.
          const vg::GridSizes same = g.GetGridSizes();
          const T def = m.def;
          const T oob = m.oob;
          m.cells.assign(m.cells.size(), m.def);
          if (src.Bool()) { g.Initialize(m.pose, same, def, oob); }
          else { g.Initialize(same, def, oob); m.pose = g.GetOriginTransform(); }
          break;
        }
        m = make_model();
        m.extra = extra;
        if (src.Bool()) { m.pose = GenPose(src); g.Initialize(m.pose, sizes_of(m), m.def, m.oob); }
        else { g.Initialize(sizes_of(m), m.def, m.oob); m.pose = g.GetOriginTransform(); }
        break;
      }
      case 14:
      case 15:
      {
        const size_t o = src.Choose(kSlots - 1);
        copies++;
        switch (src.Choose(3))
        {
          case 0: what = "copy assign"; { G& other = grids[o]; g = other; } m = models[o]; break;
          case 1: what = "copy construct"; { G temp(grids[o]); g = std::move(temp); } m = models[o]; break;
          case 2:
          {
            what = "move assign";
            if (o == s) { break; }
            g = std::move(grids[o]);
            m = models[o];
            grids[o] = G();
            models[o] = Model<T>();
            break;
          }
          default:
          {
            what = "clone";
            const auto c = grids[o].Clone();
            G* as_same = dynamic_cast<G*>(c.get());
            PBT_CHECK("clone-type", as_same != nullptr && as_same != &grids[o], "");
            Compare<T, Store>(*as_same, models[o], "clone");
            // Writing to the clone leaves the original alone.
            if (models[o].Total() > 0)
            {
              const bool forbid = Traits<G>::kWatched;
              if (!forbid) { as_same->SetIndex(0, 0, 0, fresh()); as_same->ResetWithNewDefault(fresh()); }
              else { as_same->ResetWithNewDefault(fresh()); as_same->SetOOBValue(fresh()); }
            }
            Compare<T, Store>(grids[o], models[o], "original of a clone");
            break;
          }
        }
        break;
      }
      case 16:
      {
        what = "serialize";
        copies++;
        if (Traits<G>::kWatched) { m.extra = src.AnyU64(); Traits<G>::SetExtra(g, m.extra); }
        const size_t prefix = src.Choose(9);
        Bytes buffer(prefix, 0xAB);
        const uint64_t wrote = G::Serialize(g, buffer, Cell<T>::Write);
        PBT_CHECK("serialized-size", wrote == buffer.size() - prefix, wrote, " of ", buffer.size() - prefix);
        const Bytes again = [&] { Bytes b; G::Serialize(g, b, Cell<T>::Write); return b; }();
        PBT_CHECK("serialize-deterministic", std::equal(again.begin(), again.end(), buffer.begin() + static_cast<ssize_t>(prefix)), "");
        for (size_t k = 0; k < src.Choose(4); k++) { buffer.push_back(0xCD); }
        const auto d = G::Deserialize(buffer, prefix, Cell<T>::Read);
        PBT_CHECK("deserialized-size", d.BytesRead() == wrote, d.BytesRead(), " of ", wrote);
        Compare<T, Store>(d.Value(), m, "deserialized");
        // Onto an existing grid with other contents.
        const size_t o = src.Choose(kSlots - 1);
        const uint64_t n = grids[o].DeserializeSelf(buffer, prefix, Cell<T>::Read);
        PBT_CHECK("deserialized-size", n == wrote, n, " of ", wrote);
        models[o] = m;
        break;
      }
      case 17:
      {
        what = "aliased write";
        // A value read from the grid may be written back into it.
        if (m.Total() == 0 || !in) { break; }
        const vg::GridIndex j(src.Int(0, m.n[0] - 1), src.Int(0, m.n[1] - 1), src.Int(0, m.n[2] - 1));
        const T old = m.At(j);
        const auto st = g.SetIndex(i, static_cast<const G&>(g).GetIndexImmutable(j).Value());
        PBT_CHECK("write-status", st == expect, what);
        callback_expected = true;
        if (allowed) { m.At(i) = old; writes++; }
        break;
      }
      default:
      {
        what = "whole grid write";
        if (m.Total() == 0 || watch != nullptr) { break; }
        for (auto& v : m.cells) { v = fresh(); }
        for (int64_t x = 0; x < m.n[0]; x++)
        {
          for (int64_t y = 0; y < m.n[1]; y++)
          {
            for (int64_t z = 0; z < m.n[2]; z++) { g.SetIndex(x, y, z, m.At(vg::GridIndex(x, y, z))); }
          }
        }
        writes += 2;
        break;
      }
    }
    ctx << what << "[" << s << "]; ";
    // Callbacks saw the cell about to be modified and nothing else.
    Watch* after = Traits<G>::Get(grids[s]);
    if (watch != nullptr && std::string(what).find("copy") == std::string::npos && std::string(what) != "clone"
        && std::string(what) != "move assign" && std::string(what) != "serialize")
    {
      for (const auto& t : after->touched)
      {
        PBT_CHECK("callback-index", t == i, what, ": callback saw ", t, " instead of ", i);
      }
      PBT_CHECK("callback-called", after->touched.empty() == !callback_expected, what, " ", i);
      PBT_CHECK("raw-callback-called", after->raw > 0 || !raw_expected, what);
    }
    if (src.Bool(1, 3))
    {
      for (size_t k = 0; k < kSlots; k++) { Compare<T, Store>(grids[k], models[k], what); }
    }
    else { Compare<T, Store>(grids[s], models[s], what); }
  }
  for (size_t k = 0; k < kSlots; k++) { Compare<T, Store>(grids[k], models[k], "end"); }
  ctx.Nontrivial(writes >= 2);
  if (copies > 0) { ctx.Label("with copies or serialization"); }
}
}  // namespace

PROP(array_of_numbers, "at least two successful writes", 200000, 4000000)
{
  Run<int32_t, std::vector<int32_t>, vg::VoxelGrid<int32_t>>(src, ctx);
}

PROP(array_of_strings, "at least two successful writes", 200000, 4000000)
{
  Run<std::string, std::vector<std::string>, vg::VoxelGrid<std::string>>(src, ctx);
}

PROP(watched_array_of_numbers, "at least two successful writes", 200000, 4000000)
{
  Run<int32_t, std::vector<int32_t>, WatchedGrid<int32_t, std::vector<int32_t>>>(src, ctx);
}

PROP(watched_array_of_strings_in_a_stable_vector, "at least two successful writes", 200000, 4000000)
{
  Run<std::string, boost::container::stable_vector<std::string>, WatchedGrid<std::string, boost::container::stable_vector<std::string>>>(src, ctx);
}

PROP(large_arrays_of_numbers, "at least two successful writes", 3000, 30000)
{
  Run<int32_t, std::vector<int32_t>, vg::VoxelGrid<int32_t>>(src, ctx, true);
}

PROP(large_watched_arrays_of_strings, "at least two successful writes", 600, 6000)
{
  Run<std::string, std::vector<std::string>, WatchedGrid<std::string, std::vector<std::string>>>(src, ctx, true);
}
