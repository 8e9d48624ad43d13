// C02 deserializing damaged data is rejected cleanly
// PBT-SOURCES: serialization.cpp
// PBT-VARIANTS: asan
#include "codecs.hpp"

#include <algorithm>

#include <common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp>
#include <common_robotics_utilities/simple_graph.hpp>
#include <common_robotics_utilities/simple_graph_search.hpp>
#include <common_robotics_utilities/simple_rrt_planner.hpp>
#include <common_robotics_utilities/voxel_grid.hpp>

using codecs::Any;
using codecs::Buffer;
namespace ser = common_robotics_utilities::serialization;
namespace vg = common_robotics_utilities::voxel_grid;
namespace sg = common_robotics_utilities::simple_graph;
namespace sgs = common_robotics_utilities::simple_graph_search;
namespace rrt = common_robotics_utilities::simple_rrt_planner;

namespace
{
// A deserializable thing: writes a generated value to a buffer, and loads (and
// then uses) one from a buffer.
struct Thing
{
  std::string name;
  std::function<void(pbt::Src&, Buffer&)> write;
  std::function<uint64_t(const Buffer&, uint64_t)> load;
  bool may_use_any_bytes = false;
};

using Int = codecs::Mem<int32_t>;
using Text = codecs::Str<char>;

vg::GridSizes GenSizes(pbt::Src& src)
{
  const double cx = 0.25 * static_cast<double>(src.Int(1, 8));
  const double cy = src.Bool() ? cx : 0.25 * static_cast<double>(src.Int(1, 8));
  const double cz = src.Bool() ? cx : 0.25 * static_cast<double>(src.Int(1, 8));
  return vg::GridSizes(cx, cy, cz, src.Int(1, 4), src.Int(1, 4), src.Int(1, 4));
}

Eigen::Isometry3d GenPose(pbt::Src& src)
{
  Eigen::Isometry3d pose = Eigen::Isometry3d::Identity();
  pose.translation() << src.Real(-10, 10), src.Real(-10, 10), src.Real(-10, 10);
  pose.linear() = Eigen::AngleAxisd(src.Real(-3, 3), Eigen::Vector3d::UnitZ()).toRotationMatrix();
  return pose;
}

// Set between loading a value and the end of its use: an exception in there
// means that a damaged value was accepted.
bool in_use = false;

template<typename Grid>
void UseDenseGrid(Grid& grid)
{
  const int64_t nx = grid.GetNumXCells();
  const int64_t ny = grid.GetNumYCells();
  const int64_t nz = grid.GetNumZCells();
  volatile uint64_t sum = 0;
  int64_t budget = 200;
  for (int64_t x = -1; x <= nx && budget > 0; x++)
  {
    for (int64_t y = -1; y <= ny && budget > 0; y++)
    {
      for (int64_t z = -1; z <= nz && budget > 0; z++, budget--)
      {
        const auto q = grid.GetIndexImmutable(x, y, z);
        if (q) { sum = sum + pbt::HashString(pbt::Str(q.Value())); }
        grid.SetIndex(x, y, z, grid.GetDefaultValue());
      }
    }
  }
  for (const auto& cell : { std::array<int64_t, 3>{{nx - 1, ny - 1, nz - 1}},
                            std::array<int64_t, 3>{{nx - 1, 0, 0}},
                            std::array<int64_t, 3>{{0, ny - 1, 0}} })
  {
    const auto q = grid.GetIndexImmutable(cell[0], cell[1], cell[2]);
    if (q) { sum = sum + pbt::HashString(pbt::Str(q.Value())); }
  }
}

// A chunk has cells up to some index along each axis, and all of them.
template<typename Chunk>
void UseChunk(const Chunk& chunk)
{
  if (chunk.FillStatus() == vg::DSHVGFillStatus::CHUNK_FILLED)
  {
    const Eigen::Vector4d center = chunk.GetChunkCenterInGridFrame();
    bool readable = false;
    try { readable = chunk.GetLocationImmutable4d(center).HasValue(); } catch (const std::exception&) {}
    PBT_CHECK("unusable", readable || !center.allFinite(), "a chunk was accepted without its value");
  }
  if (chunk.FillStatus() != vg::DSHVGFillStatus::CELL_FILLED) { return; }
  const auto readable = [&] (const int64_t x, const int64_t y, const int64_t z)
  {
    try { return chunk.GetIndexImmutable(vg::GridIndex(x, y, z)).HasValue(); }
    catch (const std::exception&) { return false; }
  };
  int64_t n[3] = {0, 0, 0};
  while (n[0] < 8 && readable(n[0], 0, 0)) { n[0]++; }
  while (n[1] < 8 && readable(0, n[1], 0)) { n[1]++; }
  while (n[2] < 8 && readable(0, 0, n[2])) { n[2]++; }
  for (int64_t x = 0; x < n[0]; x++)
  {
    for (int64_t y = 0; y < n[1]; y++)
    {
      for (int64_t z = 0; z < n[2]; z++)
      {
        PBT_CHECK("unusable", readable(x, y, z), "a chunk of cells was accepted without some of its cells");
      }
    }
  }
}

template<typename C>
ser::Serializer<typename C::Type> S() { return C::Ser; }
template<typename C>
ser::Deserializer<typename C::Type> D() { return C::Des; }

template<typename C>
void AddTemplated(std::vector<Thing>& things, const std::string& suffix)
{
  using T = typename C::Type;
  things.push_back({"VoxelGrid<" + suffix + ">",
      [] (pbt::Src& src, Buffer& b)
      {
        vg::VoxelGrid<T> grid;
        if (src.Bool(7, 8))
        {
          grid.Initialize(GenPose(src), GenSizes(src), C::Gen(src), C::Gen(src));
          for (size_t n = 0; src.More(n, 0, 4, 1.0); n++)
          {
            grid.SetIndex(src.Int(0, 3), src.Int(0, 3), src.Int(0, 3), C::Gen(src));
          }
        }
        vg::VoxelGrid<T>::Serialize(grid, b, S<C>());
      },
      [] (const Buffer& b, const uint64_t o)
      {
        const auto d = vg::VoxelGrid<T>::Deserialize(b, o, D<C>());
        vg::VoxelGrid<T> grid = d.Value();
        in_use = true;
        PBT_CHECK("consistent", grid.IsInitialized() == grid.GetGridSizes().Valid(), "initialized ", grid.IsInitialized(), ", valid sizes ", grid.GetGridSizes().Valid());
        PBT_CHECK("consistent", static_cast<int64_t>(grid.GetImmutableRawData().size()) == grid.GetNumXCells() * grid.GetNumYCells() * grid.GetNumZCells(), grid.GetImmutableRawData().size(), " values for another number of cells");
        UseDenseGrid(grid);
        return d.BytesRead();
      }});
  using Sparse = vg::DynamicSpatialHashedVoxelGrid<T>;
  things.push_back({"DynamicSpatialHashedVoxelGrid<" + suffix + ">",
      [] (pbt::Src& src, Buffer& b)
      {
        if (src.Bool(1, 8)) { Sparse::Serialize(Sparse(), b, S<C>()); return; }
        Sparse grid(GenPose(src), GenSizes(src), C::Gen(src), 4);
        for (size_t n = 0; src.More(n, 0, 4, 1.5); n++)
        {
          grid.SetLocation(src.Real(-3, 3), src.Real(-3, 3), src.Real(-3, 3),
                           src.Bool() ? vg::DSHVGSetType::SET_CELL : vg::DSHVGSetType::SET_CHUNK,
                           C::Gen(src));
        }
        Sparse::Serialize(grid, b, S<C>());
      },
      [] (const Buffer& b, const uint64_t o)
      {
        const auto d = Sparse::Deserialize(b, o, D<C>());
        Sparse grid = d.Value();
        PBT_CHECK("consistent", grid.IsInitialized() == grid.GetChunkGridSizes().Valid(), "initialized ", grid.IsInitialized(), ", valid sizes ", grid.GetChunkGridSizes().Valid());
        PBT_CHECK("consistent", grid.IsInitialized() || grid.GetImmutableInternalChunks().empty(), "chunks in a grid that is not initialized");
        volatile uint64_t sum = 0;
        for (const auto& chunk : grid.GetImmutableInternalChunks())
        {
          UseChunk(chunk.second);
          const Eigen::Vector4d in_grid = chunk.second.GetChunkCenterInGridFrame();
          for (const Eigen::Vector4d& p : {in_grid, chunk.first.Base(),
                                           chunk.second.GetCellLocationInGridFrame(vg::GridIndex(0, 0, 0))})
          {
            try
            {
              const auto q = grid.GetLocationImmutable4d(grid.GetOriginTransform() * p);
              if (q.HasValue()) { sum = sum + pbt::HashString(pbt::Str(q.Value())); }
              const auto q2 = chunk.second.GetLocationImmutable4d(p);
              if (q2.HasValue()) { sum = sum + pbt::HashString(pbt::Str(q2.Value())); }
            }
            catch (const std::exception&) {}
          }
        }
        if (grid.IsInitialized())
        {
          try { grid.SetLocation(0.1, 0.2, 0.3, vg::DSHVGSetType::SET_CHUNK, grid.GetDefaultValue()); }
          catch (const std::exception&) {}
          const auto q = grid.GetLocationImmutable(0.1, 0.2, 0.3);
          if (q.HasValue()) { sum = sum + 1; }
        }
        return d.BytesRead();
      }});
  using Chunk = vg::DynamicSpatialHashedVoxelGridChunk<T>;
  things.push_back({"DynamicSpatialHashedVoxelGridChunk<" + suffix + ">",
      [] (pbt::Src& src, Buffer& b)
      {
        if (src.Bool(1, 8)) { Chunk::Serialize(Chunk(), b, S<C>()); return; }
        const vg::ChunkRegion region(0.0, src.Real(-3, 3), 1.0);
        Chunk chunk(region, GenSizes(src),
                    src.Bool() ? vg::DSHVGFillType::FILL_CELL : vg::DSHVGFillType::FILL_CHUNK,
                    C::Gen(src));
        Chunk::Serialize(chunk, b, S<C>());
      },
      [] (const Buffer& b, const uint64_t o)
      {
        const auto d = Chunk::Deserialize(b, o, D<C>());
        volatile uint64_t sum = 0;
        for (int64_t i = -1; i < 5; i++)
        {
          try
          {
            const auto q = d.Value().GetIndexImmutable(vg::GridIndex(i, i, i));
            if (q.HasValue()) { sum = sum + pbt::HashString(pbt::Str(q.Value())); }
          }
          catch (const std::exception&) {}
        }
        UseChunk(d.Value());
        return d.BytesRead();
      }});
  using Node = sg::GraphNode<T>;
  things.push_back({"GraphNode<" + suffix + ">",
      [] (pbt::Src& src, Buffer& b)
      {
        Node node(C::Gen(src));
        for (size_t n = 0; src.More(n, 0, 4, 1.0); n++)
        {
          node.AddEdgePair(sg::GraphEdge(src.Int(0, 5), src.Int(0, 5), 1.0),
                           sg::GraphEdge(src.Int(0, 5), src.Int(0, 5), 2.0, 7));
        }
        Node::Serialize(node, b, S<C>());
      },
      [] (const Buffer& b, const uint64_t o)
      {
        const auto d = Node::Deserialize(b, o, D<C>());
        return d.BytesRead();
      }});
  using Graph = sg::Graph<T>;
  things.push_back({"Graph<" + suffix + ">",
      [] (pbt::Src& src, Buffer& b)
      {
        Graph graph;
        const int64_t n = src.Int(0, 5);
        for (int64_t i = 0; i < n; i++) { graph.AddNode(C::Gen(src)); }
        for (size_t e = 0; n > 1 && src.More(e, 0, 8, 2.0); e++)
        {
          const int64_t from = src.Int(0, n - 1);
          const int64_t to = (from + 1 + src.Int(0, n - 2)) % n;
          graph.AddEdgeBetweenNodes(from, to, src.Real(0, 10));
        }
        Graph::Serialize(graph, b, S<C>());
      },
      [] (const Buffer& b, const uint64_t o)
      {
        const auto d = Graph::Deserialize(b, o, D<C>());
        const Graph graph = d.Value();
        in_use = true;
        PBT_CHECK("graph-linkage", graph.CheckGraphLinkage(), "loaded an inconsistent graph");
        volatile double sum = 0;
        for (int64_t i = 0; i < graph.Size(); i++)
        {
          for (const auto& edge : graph.GetNodeImmutable(i).GetOutEdgesImmutable())
          {
            PBT_CHECK("graph-linkage", edge.GetFromIndex() == i && edge.GetToIndex() != i && graph.IndexInRange(edge.GetToIndex()), "");
            bool linked = false;
            for (const auto& in : graph.GetNodeImmutable(edge.GetToIndex()).GetInEdgesImmutable()) { linked = linked || in.GetFromIndex() == i; }
            PBT_CHECK("graph-linkage", linked, "an edge that its end does not know of");
          }
          for (const auto& edge : graph.GetNodeImmutable(i).GetInEdgesImmutable())
          {
            PBT_CHECK("graph-linkage", edge.GetToIndex() == i && edge.GetFromIndex() != i && graph.IndexInRange(edge.GetFromIndex()), "");
            bool linked = false;
            for (const auto& out : graph.GetNodeImmutable(edge.GetFromIndex()).GetOutEdgesImmutable()) { linked = linked || out.GetToIndex() == i; }
            PBT_CHECK("graph-linkage", linked, "an edge that its start does not know of");
            sum = sum + edge.GetWeight();
          }
        }
        return d.BytesRead();
      }});
  using State = rrt::SimpleRRTPlannerState<T>;
  things.push_back({"SimpleRRTPlannerState<" + suffix + ">",
      [] (pbt::Src& src, Buffer& b)
      {
        State state(C::Gen(src), src.Int(-1, 6));
        for (size_t n = 0; src.More(n, 0, 5, 1.5); n++) { state.AddChildIndex(src.Int(1, 9)); }
        State::Serialize(state, b, S<C>());
      },
      [] (const Buffer& b, const uint64_t o) { return State::Deserialize(b, o, D<C>()).BytesRead(); }});
  using Tree = rrt::SimpleRRTPlannerTree<T>;
  things.push_back({"SimpleRRTPlannerTree<" + suffix + ">",
      [] (pbt::Src& src, Buffer& b)
      {
        Tree tree;
        if (src.Bool(7, 8)) { tree.AddNode(C::Gen(src)); }
        for (size_t n = 0; tree.Size() > 0 && src.More(n, 0, 8, 2.0); n++)
        {
          tree.AddNodeAndConnect(C::Gen(src), src.Int(0, tree.Size() - 1));
        }
        Tree::Serialize(tree, b, S<C>());
      },
      [] (const Buffer& b, const uint64_t o)
      {
        const auto d = Tree::Deserialize(b, o, D<C>());
        const Tree& tree = d.Value();
        in_use = true;
        PBT_CHECK("tree-linkage", Tree::CheckNodeLinkage(tree.GetNodesImmutable()),
                  "loaded an inconsistent tree");
        for (int64_t i = 0; i < tree.Size(); i++)
        {
          const int64_t parent = tree.GetNodeImmutable(i).GetParentIndex();
          PBT_CHECK("tree-linkage", parent < i, "");
          if (parent >= 0)
          {
            const auto& siblings = tree.GetNodeImmutable(parent).GetChildIndices();
            PBT_CHECK("tree-linkage", std::count(siblings.begin(), siblings.end(), i) >= 1, "a node that its parent does not know of");
          }
          for (const int64_t c : tree.GetNodeImmutable(i).GetChildIndices())
          {
            PBT_CHECK("tree-linkage", c > i && c < tree.Size() && tree.GetNodeImmutable(c).GetParentIndex() == i, "");
          }
        }
        return d.BytesRead();
      }});
}

const std::vector<Thing>& Things()
{
  static const std::vector<Thing> things = [] ()
  {
    std::vector<Thing> all;
    for (const Any& any : codecs::Zoo(false))
    {
      all.push_back({any.name,
          [&any] (pbt::Src& src, Buffer& b) { const auto v = any.gen(src); any.ser(v.get(), b); },
          [&any] (const Buffer& b, const uint64_t o) { return any.des(b, o).second; }});
    }
    for (int repeat = 0; repeat < 2; repeat++)
    {
      AddTemplated<Int>(all, "int32");
      AddTemplated<Text>(all, "string");
      all.push_back({"GridSizes",
          [] (pbt::Src& src, Buffer& b) { vg::GridSizes::Serialize(GenSizes(src), b); },
          [] (const Buffer& b, const uint64_t o)
          {
            const auto d = vg::GridSizes::Deserialize(b, o);
            const auto& s = d.Value();
            in_use = true;
            // Whatever was loaded is either invalid or consistent.
            if (s.Valid())
            {
              PBT_CHECK("sizes", s.NumXCells() > 0 && s.NumYCells() > 0 && s.NumZCells() > 0
                        && s.CellXSize() > 0 && s.CellYSize() > 0 && s.CellZSize() > 0, "");
              const __int128 total = static_cast<__int128>(s.NumXCells()) * s.NumYCells();
              PBT_CHECK("sizes", total < (static_cast<__int128>(1) << 64)
                        && total * s.NumZCells() == s.TotalCells(), "total cells overflowed");
              PBT_CHECK("sizes", s.GetDataIndex(s.NumXCells() - 1, s.NumYCells() - 1,
                                                s.NumZCells() - 1) == s.TotalCells() - 1, "");
            }
            return d.BytesRead();
          }});
      all.push_back({"ChunkRegion",
          [] (pbt::Src& src, Buffer& b)
          {
            vg::ChunkRegion::Serialize(vg::ChunkRegion(src.Real(-3, 3), 0.0, 1.0), b);
          },
          [] (const Buffer& b, const uint64_t o) { return vg::ChunkRegion::Deserialize(b, o).BytesRead(); }});
      all.push_back({"GraphEdge",
          [] (pbt::Src& src, Buffer& b)
          {
            sg::GraphEdge::Serialize(sg::GraphEdge(src.Int(0, 9), src.Int(0, 9), 1.5, 3), b);
          },
          [] (const Buffer& b, const uint64_t o) { return sg::GraphEdge::Deserialize(b, o).BytesRead(); }});
      all.push_back({"DijkstrasResult",
          [] (pbt::Src& src, Buffer& b)
          {
            const size_t n = src.Size(0, 6);
            sgs::DijkstrasResult::Serialize(
                sgs::DijkstrasResult(std::vector<int64_t>(n, 1), std::vector<double>(n, 2.0)), b);
          },
          [] (const Buffer& b, const uint64_t o)
          {
            const auto d = sgs::DijkstrasResult::Deserialize(b, o);
            in_use = true;
            volatile double sum = 0;
            for (int64_t i = 0; i < d.Value().Size(); i++)
            {
              sum = sum + d.Value().GetNodeDistance(i) + static_cast<double>(d.Value().GetPreviousIndex(i));
            }
            return d.BytesRead();
          }});
    }
    return all;
  }();
  return things;
}

// Run one load; every outcome but a value inside the buffer or a
// std::exception is a failure.
bool Load(const Thing& thing, const Buffer& buffer, const uint64_t offset)
{
  in_use = false;
  try
  {
    const uint64_t bytes = thing.load(buffer, offset);
    PBT_CHECK("consumed", offset <= buffer.size() && bytes <= buffer.size() - offset,
              thing.name, " reports ", bytes, " bytes read at offset ", offset,
              " of a buffer of ", buffer.size());
    return true;
  }
  catch (const pbt::Failure&) { throw; }
  catch (const pbt::Discard&) { throw; }
  catch (const std::bad_alloc&) { return false; }
  catch (const std::exception& e)
  {
    if (in_use) { pbt::Fail("unusable", thing.name + " was accepted, but using it throws " + e.what()); }
    return false;
  }
  catch (...) { pbt::Fail("foreign-exception", thing.name + " threw something not derived from std::exception"); }
}

Buffer Exact(const Buffer& b, const size_t n)
{
  // A fresh block of exactly n bytes, so that any overrun is detected.
  return Buffer(b.begin(), b.begin() + static_cast<ssize_t>(n));
}
}  // namespace

PROP(every_truncation_throws, "value of at least 9 bytes", 150000, 2500000)
{
  pbt::AllocationCap() = size_t(1) << 26;
  const auto& things = Things();
  const Thing& thing = things[src.Choose(things.size() - 1)];
  ctx.Label(thing.name);
  Buffer buffer(src.Size(0, 9), 0x11);
  const uint64_t start = buffer.size();
  thing.write(src, buffer);
  ctx << thing.name << " at " << start << ": " << codecs::HexDump(buffer, 300);
  PBT_CHECK("intact", Load(thing, buffer, start), thing.name, " rejects its own data");
  const uint64_t length = buffer.size() - start;
  ctx.Nontrivial(length >= 9);
  const uint64_t step = length > 400 ? 1 + length / 200 : 1;
  const uint64_t phase = step > 1 ? src.Choose(step - 1) : 0;
  for (uint64_t keep = phase; keep < length; keep += step)
  {
    const Buffer cut = Exact(buffer, start + keep);
    ctx.Label("truncations");
    PBT_CHECK("truncated", !Load(thing, cut, start),
              thing.name, " accepted only ", keep, " of ", length, " bytes");
  }
  // Offsets at and past the end.
  for (const uint64_t offset : {static_cast<uint64_t>(buffer.size()),
                                static_cast<uint64_t>(buffer.size()) + 1,
                                std::numeric_limits<uint64_t>::max(),
                                std::numeric_limits<uint64_t>::max() - 7,
                                uint64_t(1) << 63})
  {
    PBT_CHECK("past-end", !Load(thing, buffer, offset), thing.name, " at offset ", offset);
  }
}

PROP(damaged_data_is_handled, "at least one mutation or raw bytes", 6000000, 90000000)
{
  pbt::AllocationCap() = size_t(1) << 26;
  const auto& things = Things();
  const Thing& thing = things[src.Choose(things.size() - 1)];
  ctx.Label(thing.name);
  Buffer buffer(src.Bool() ? src.Size(0, 9) : 0, 0x22);
  uint64_t start = buffer.size();
  if (src.Bool(7, 8)) { thing.write(src, buffer); }
  else { for (size_t n = 0; src.More(n, 0, 200, 30.0); n++) { buffer.push_back(static_cast<uint8_t>(src.AnyU64())); } }
  const auto hostile_count = [&] () -> uint64_t
  {
    switch (src.Choose(7))
    {
      case 0: return uint64_t(1) << src.Choose(63);
      case 1: return (uint64_t(1) << src.Choose(63)) - 1;
      case 2: return ~src.Choose(64);
      case 3: return buffer.size() / 8 + src.Choose(3);
      case 4: return (uint64_t(1) << (61 + src.Choose(2))) + src.Choose(4);  // n * 8 wraps
      case 5: return src.Choose(64);
      case 6: return buffer.size() - src.Choose(std::min<uint64_t>(buffer.size(), 40));
      default: return src.AnyU64();
    }
  };
  size_t mutations = 0;
  for (size_t n = 0; !buffer.empty() && src.More(n, 1, 6, 1.0); n++)
  {
    mutations++;
    switch (src.Choose(6))
    {
      case 0:  // one byte
        buffer[src.Choose(buffer.size() - 1)] = static_cast<uint8_t>(src.AnyU64());
        break;
      case 1:  // one bit
        buffer[src.Choose(buffer.size() - 1)] ^= static_cast<uint8_t>(1u << src.Choose(7));
        break;
      case 2:  // a hostile count, preferably where a header is
      case 3:
      case 4:
      {
        const uint64_t value = hostile_count();
        uint64_t at = 0;
        if (src.Bool() && buffer.size() >= start + 8)
        {
          at = start + 8 * src.Choose((buffer.size() - start - 8) / 8);
        }
        else if (buffer.size() >= 8) { at = src.Choose(buffer.size() - 8); }
        else { break; }
        std::memcpy(buffer.data() + at, &value, 8);
        // Twice in a row: rows and columns.
        if (src.Bool(1, 4) && at + 16 <= buffer.size())
        {
          const uint64_t second = hostile_count();
          std::memcpy(buffer.data() + at + 8, &second, 8);
        }
        break;
      }
      case 5:  // cut
        buffer.resize(src.Choose(buffer.size()));
        break;
      default:  // append
        for (size_t k = 0; src.More(k, 1, 32, 8.0); k++) { buffer.push_back(static_cast<uint8_t>(src.Choose(255))); }
        break;
    }
  }
  if (src.Bool(1, 6)) { start = src.Choose(buffer.size() + 2); }
  ctx.Nontrivial(mutations > 0 || !buffer.empty());
  ctx << thing.name << " at " << start << ": " << codecs::HexDump(buffer, 600);
  const Buffer exact = Exact(buffer, buffer.size());
  ctx.Label(Load(thing, exact, start) ? "outcome: value" : "outcome: exception");
}

// The number of bytes consumed must not depend on what follows the value, and
// damage after the value must not matter.
PROP(bytes_after_the_value_do_not_matter, "non-empty tail", 600000, 10000000)
{
  pbt::AllocationCap() = size_t(1) << 26;
  const auto& things = Things();
  const Thing& thing = things[src.Choose(things.size() - 1)];
  ctx.Label(thing.name);
  Buffer buffer(src.Size(0, 4), 0x33);
  const uint64_t start = buffer.size();
  thing.write(src, buffer);
  const uint64_t length = buffer.size() - start;
  size_t tail = 0;
  for (; src.More(tail, 0, 40, 8.0); tail++) { buffer.push_back(static_cast<uint8_t>(src.AnyU64())); }
  ctx.Nontrivial(tail > 0);
  ctx << thing.name << " " << length << " bytes + " << tail;
  const uint64_t read = thing.load(Exact(buffer, buffer.size()), start);
  PBT_CHECK("length", read == length, thing.name, " wrote ", length, " read ", read);
}
