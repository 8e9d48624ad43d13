// C06 dense voxel grid addressing
// PBT-SOURCES: serialization.cpp
#include "grids.hpp"

using namespace grids;

namespace
{
using Grid = vg::VoxelGrid<int64_t>;

struct Spec
{
  Eigen::Vector3d cell;
  int64_t n[3];
  bool from_sizes = false;
  Eigen::Vector3d requested;
  vg::GridSizes sizes;
};

// True if n cells of the given size are the least number covering the extent,
// up to rounding.
bool LeastCover(const int64_t n, const double cell, const double extent)
{
  const long double c = cell, e = extent, m = static_cast<long double>(n);
  return m * c >= e * (1.0L - 1e-14L) && (m - 1.0L) * c < e * (1.0L + 1e-14L) && n >= 1;
}

// A grid of at most max_total cells.
Spec GenSpec(pbt::Src& src, const int64_t max_total)
{
  Spec s;
  const bool uniform = src.Bool();
  const double c = GenCell(src);
  s.cell = uniform ? Eigen::Vector3d(c, c, c) : Eigen::Vector3d(c, GenCell(src), GenCell(src));
  if (!uniform && src.Bool(1, 4))
  {
    // Nearly the same in all axes.
    s.cell = Eigen::Vector3d(c, c, c);
    s.cell(static_cast<int64_t>(src.Choose(2))) = c * (1.0 + std::pow(10.0, -4.0 - 11.5 * src.Unit()));
  }
  const size_t wide = src.Choose(3);
  int64_t budget = max_total;
  for (size_t k = 0; k < 3; k++)
  {
    const int64_t most = (wide == k) ? 60 : 9;
    s.n[k] = src.Int(1, std::max<int64_t>(1, std::min(most, budget)));
    budget /= s.n[k];
  }
  if (src.Bool())
  {
    if (uniform && src.Bool()) { s.sizes = vg::GridSizes(c, s.n[0], s.n[1], s.n[2]); }
    else { s.sizes = vg::GridSizes(s.cell.x(), s.cell.y(), s.cell.z(), s.n[0], s.n[1], s.n[2]); }
  }
  else
  {
    s.from_sizes = true;
    for (size_t k = 0; k < 3; k++)
    {
      double extent = 0.0;
      switch (src.Choose(4))
      {
        case 4:  // just more, or just less, than a whole number of cells
          extent = s.cell(static_cast<int64_t>(k)) * static_cast<double>(s.n[k])
                   * (1.0 + (src.Bool() ? 1.0 : -1.0) * std::pow(10.0, -4.0 - 9.0 * src.Unit()));
          break;
        case 0: extent = s.cell(static_cast<int64_t>(k)) * static_cast<double>(s.n[k]); break;
        case 1: extent = s.cell(static_cast<int64_t>(k)) * (static_cast<double>(s.n[k]) - 0.5); break;
        case 2: extent = s.cell(static_cast<int64_t>(k)) * (static_cast<double>(s.n[k]) - src.Unit()); break;
        default: extent = std::max(1, static_cast<int>(s.n[k] * 3)) * s.cell(static_cast<int64_t>(k)) / 3.0; break;
      }
      if (!(extent > 0.0)) { extent = s.cell(static_cast<int64_t>(k)) * 0.25; }
      s.requested(static_cast<int64_t>(k)) = extent;
    }
    if (uniform && src.Bool()) { s.sizes = vg::GridSizes(c, s.requested.x(), s.requested.y(), s.requested.z()); }
    else
    {
      s.sizes = vg::GridSizes(s.cell.x(), s.cell.y(), s.cell.z(), s.requested.x(), s.requested.y(), s.requested.z());
    }
  }
  return s;
}

void CheckSizes(Spec& s)
{
  const vg::GridSizes& g = s.sizes;
  PBT_CHECK("sizes-valid", g.Valid(), "");
  const int64_t got[3] = {g.NumXCells(), g.NumYCells(), g.NumZCells()};
  const double cell[3] = {g.CellXSize(), g.CellYSize(), g.CellZSize()};
  const double inv[3] = {g.InvCellXSize(), g.InvCellYSize(), g.InvCellZSize()};
  const double size[3] = {g.XSize(), g.YSize(), g.ZSize()};
  for (int64_t k = 0; k < 3; k++)
  {
    PBT_CHECK("cell-size", cell[k] == s.cell(k) && g.CellSizes()(k) == s.cell(k), "axis ", k);
    PBT_CHECK("cell-size", std::abs(inv[k] * cell[k] - 1.0) < 1e-14, "axis ", k, " inverse");
    if (s.from_sizes)
    {
      PBT_CHECK("cell-count", LeastCover(got[k], s.cell(k), s.requested(k)), "axis ", k, ": ", got[k],
                " cells of ", s.cell(k), " for ", s.requested(k));
    }
    else { PBT_CHECK("cell-count", got[k] == s.n[k], "axis ", k, ": ", got[k], " not ", s.n[k]); }
    s.n[k] = got[k];
    PBT_CHECK("grid-size", std::abs(size[k] - static_cast<double>(got[k]) * cell[k]) <= 1e-14 * size[k]
              && g.Sizes()(k) == size[k], "axis ", k);
    PBT_CHECK("cell-count", g.NumCells()(k) == got[k], "axis ", k);
  }
  PBT_CHECK("cell-count", g.TotalCells() == got[0] * got[1] * got[2], g.TotalCells());
  PBT_CHECK("uniform", g.UniformCellSize() == (cell[0] == cell[1] && cell[1] == cell[2]), "");
}

std::string Text(const vg::GridIndex& i)
{
  return pbt::Str("(", i.X(), ",", i.Y(), ",", i.Z(), ")");
}

std::string Text(const Spec& s)
{
  return pbt::Str(s.n[0], "x", s.n[1], "x", s.n[2], " cells of ", s.cell.x(), " ", s.cell.y(), " ", s.cell.z());
}

// Every way of asking for an index gives the same answer.
void CheckIndex(Grid& g, const vg::GridIndex& i, const Spec& s)
{
  const bool in = i.X() >= 0 && i.Y() >= 0 && i.Z() >= 0 && i.X() < s.n[0] && i.Y() < s.n[1] && i.Z() < s.n[2];
  const Grid& c = g;
  PBT_CHECK("index-in-bounds", c.IndexInBounds(i) == in && c.IndexInBounds(i.X(), i.Y(), i.Z()) == in
            && s.sizes.IndexInBounds(i) == in && s.sizes.IndexInBounds(i.X(), i.Y(), i.Z()) == in, Text(i));
  const auto a = c.GetIndexImmutable(i);
  const auto b = c.GetIndexImmutable(i.X(), i.Y(), i.Z());
  auto m = g.GetIndexMutable(i);
  auto n = g.GetIndexMutable(i.X(), i.Y(), i.Z());
  if (!in)
  {
    PBT_CHECK("outside-query", !a && !b && !m && !n && !a.HasValue()
              && a.Status() == vg::AccessStatus::OUT_OF_BOUNDS && b.Status() == vg::AccessStatus::OUT_OF_BOUNDS
              && m.Status() == vg::AccessStatus::OUT_OF_BOUNDS && n.Status() == vg::AccessStatus::OUT_OF_BOUNDS,
              Text(i));
    const std::vector<int64_t> before = c.GetImmutableRawData();
    int64_t temp = -77;
    const bool refused = g.SetIndex(i, temp) == vg::AccessStatus::OUT_OF_BOUNDS
                         && g.SetIndex(i.X(), i.Y(), i.Z(), temp) == vg::AccessStatus::OUT_OF_BOUNDS
                         && g.SetIndex(i, int64_t(-78)) == vg::AccessStatus::OUT_OF_BOUNDS
                         && g.SetIndex(i.X(), i.Y(), i.Z(), int64_t(-79)) == vg::AccessStatus::OUT_OF_BOUNDS;
    PBT_CHECK("outside-write", refused && c.GetImmutableRawData() == before, Text(i));
    return;
  }
  PBT_CHECK("inside-query", a && b && m && n && a.Status() == vg::AccessStatus::SUCCESS
            && m.Status() == vg::AccessStatus::SUCCESS && &a.Value() == &b.Value() && &a.Value() == &m.Value()
            && &a.Value() == &n.Value(), Text(i));
  const int64_t d = s.sizes.GetDataIndex(i);
  PBT_CHECK("data-index", d == s.sizes.GetDataIndex(i.X(), i.Y(), i.Z()) && d == c.GridIndexToDataIndex(i)
            && d == c.GridIndexToDataIndex(i.X(), i.Y(), i.Z()) && c.HashDataIndex(i) == static_cast<uint64_t>(d)
            && c.HashDataIndex(i.X(), i.Y(), i.Z()) == static_cast<uint64_t>(d), Text(i));
  PBT_CHECK("data-index", &c.GetDataIndexImmutable(d) == &a.Value(), Text(i), " data ", d);
  PBT_CHECK("data-index-inverse", s.sizes.GetGridIndexFromDataIndex(d) == i && c.DataIndexToGridIndex(d) == i,
            Text(i), " data ", d);
}

// Cell centres, and every location form.
void CheckLocation(Grid& g, const Eigen::Vector3d& frame_point, const bool in_frame, const Spec& s,
                   const Eigen::Isometry3d& pose)
{
  const Grid& c = g;
  const Eigen::Vector3d world = FromFrame(pose, frame_point);
  const LVec back = in_frame ? frame_point.cast<long double>() : ToFrame(pose, world);
  const long double scale = in_frame ? 0.0L : pose.translation().norm() + world.norm();
  CellRange r[3];
  for (int64_t k = 0; k < 3; k++) { r[k] = CellOf(back(k), s.cell(k), 4e-15L * scale * 4.0L); }
  const bool sharp = r[0].Sharp() && r[1].Sharp() && r[2].Sharp();
  const Eigen::Vector4d frame4(frame_point.x(), frame_point.y(), frame_point.z(), 1.0);
  const Eigen::Vector4d world4(world.x(), world.y(), world.z(), 1.0);
  std::vector<vg::GridIndex> got;
  if (in_frame)
  {
    got.push_back(c.LocationInGridFrameToGridIndex(frame_point.x(), frame_point.y(), frame_point.z()));
    got.push_back(c.LocationInGridFrameToGridIndex3d(frame_point));
    got.push_back(c.LocationInGridFrameToGridIndex4d(frame4));
  }
  else
  {
    got.push_back(c.LocationToGridIndex(world.x(), world.y(), world.z()));
    got.push_back(c.LocationToGridIndex3d(world));
    got.push_back(c.LocationToGridIndex4d(world4));
  }
  for (size_t j = 0; j < got.size(); j++)
  {
    PBT_CHECK(in_frame ? "frame-location" : "world-location",
              r[0].Has(got[j].X()) && r[1].Has(got[j].Y()) && r[2].Has(got[j].Z()),
              "form ", j, " maps point (", frame_point.transpose(), ") of the grid frame to ", Text(got[j]),
              " not (", r[0].lo, "..", r[0].hi, ",", r[1].lo, "..", r[1].hi, ",", r[2].lo, "..", r[2].hi, ")");
  }
  if (in_frame) { return; }
  // Queries by location equal queries by the index they map to.
  const vg::GridIndex want(r[0].lo, r[1].lo, r[2].lo);
  if (!sharp) { return; }
  const bool in = s.sizes.IndexInBounds(want);
  PBT_CHECK("location-in-bounds", c.LocationInBounds(world.x(), world.y(), world.z()) == in
            && c.LocationInBounds3d(world) == in && c.LocationInBounds4d(world4) == in, Text(want));
  const auto q1 = c.GetLocationImmutable(world.x(), world.y(), world.z());
  const auto q2 = c.GetLocationImmutable3d(world);
  const auto q3 = c.GetLocationImmutable4d(world4);
  auto m1 = g.GetLocationMutable(world.x(), world.y(), world.z());
  auto m2 = g.GetLocationMutable3d(world);
  auto m3 = g.GetLocationMutable4d(world4);
  if (in)
  {
    const int64_t* cell = &c.GetIndexImmutable(want).Value();
    PBT_CHECK("location-query", q1 && q2 && q3 && m1 && m2 && m3 && &q1.Value() == cell && &q2.Value() == cell
              && &q3.Value() == cell && &m1.Value() == cell && &m2.Value() == cell && &m3.Value() == cell,
              Text(want));
    const int64_t old = *cell;
    const int64_t v = 1000000;
    int64_t expect = v;
    const bool ok = g.SetLocation(world.x(), world.y(), world.z(), v) == vg::AccessStatus::SUCCESS && *cell == expect
        && (expect++, g.SetLocation3d(world, v + 1)) == vg::AccessStatus::SUCCESS && *cell == expect
        && (expect++, g.SetLocation4d(world4, v + 2)) == vg::AccessStatus::SUCCESS && *cell == expect;
    PBT_CHECK("location-write", ok, Text(want));
    const int64_t lv[3] = {5000, 5001, 5002};
    const bool ok2 = g.SetLocation(world.x(), world.y(), world.z(), lv[0]) == vg::AccessStatus::SUCCESS
        && *cell == lv[0] && g.SetLocation3d(world, lv[1]) == vg::AccessStatus::SUCCESS && *cell == lv[1]
        && g.SetLocation4d(world4, lv[2]) == vg::AccessStatus::SUCCESS && *cell == lv[2];
    PBT_CHECK("location-write", ok2, Text(want));
    g.SetIndex(want, old);
  }
  else
  {
    const auto oob = vg::AccessStatus::OUT_OF_BOUNDS;
    PBT_CHECK("outside-query", !q1 && !q2 && !q3 && !m1 && !m2 && !m3 && q1.Status() == oob && q2.Status() == oob
              && q3.Status() == oob && m1.Status() == oob && m2.Status() == oob && m3.Status() == oob, Text(want));
    const std::vector<int64_t> before = c.GetImmutableRawData();
    const int64_t lv = 3;
    const bool refused = g.SetLocation(world.x(), world.y(), world.z(), lv) == oob && g.SetLocation3d(world, lv) == oob
        && g.SetLocation4d(world4, lv) == oob && g.SetLocation(world.x(), world.y(), world.z(), int64_t(4)) == oob
        && g.SetLocation3d(world, int64_t(4)) == oob && g.SetLocation4d(world4, int64_t(4)) == oob;
    PBT_CHECK("outside-write", refused && before == c.GetImmutableRawData(), Text(want));
  }
}
}  // namespace

PROP(indices_and_centres_of_every_cell, "at least two different cell counts, at least 6 cells", 150000, 3000000)
{
  Spec s = GenSpec(src, 600);
  CheckSizes(s);
  ctx << Text(s);
  ctx.Label(s.from_sizes ? "from extents" : "from counts");
  ctx.Nontrivial((s.n[0] != s.n[1] || s.n[1] != s.n[2]) && s.sizes.TotalCells() >= 6);
  const bool own_pose = src.Bool(3, 4);
  Eigen::Isometry3d pose = own_pose ? GenPose(src) : Eigen::Isometry3d::Identity();
  Grid g = own_pose ? Grid(pose, s.sizes, 7, -1) : Grid(s.sizes, 7, -1);
  if (!own_pose)
  {
    pose = g.GetOriginTransform();
    PBT_CHECK("centred-origin", (pose.translation() + s.sizes.Sizes() * 0.5).norm() <= 1e-12 * s.sizes.Sizes().norm()
              && pose.rotation().isIdentity(1e-15), pose.translation().transpose());
  }
  if (src.Bool(1, 4))
  {
    if (src.Bool())
    {
      // A small step, or a small turn.
      const double step = std::pow(10.0, -1.0 - 15.0 * src.Unit());
      if (src.Bool()) { pose = pose * Eigen::Translation3d(step, -step, step * 0.5); }
      else { pose = pose * Eigen::AngleAxisd(step, Eigen::Vector3d(0.6, 0.0, 0.8)); }
    }
    else { pose = GenPose(src); }
    g.UpdateOriginTransform(pose);
    ctx.Label("origin updated");
  }
  PBT_CHECK("pose-kept", g.GetOriginTransform().matrix() == pose.matrix()
            && (g.GetInverseOriginTransform() * pose).matrix().isIdentity(1e-9 * (1.0 + pose.translation().norm())), "");
  PBT_CHECK("total", g.GetTotalCells() == s.sizes.TotalCells() && g.GetNumXCells() == s.n[0]
            && g.GetNumYCells() == s.n[1] && g.GetNumZCells() == s.n[2] && g.GetNumCells() == s.sizes.NumCells()
            && g.GetXSize() == s.sizes.XSize() && g.GetYSize() == s.sizes.YSize() && g.GetZSize() == s.sizes.ZSize()
            && g.GetSizes() == s.sizes.Sizes() && g.GetCellSizes() == s.cell && g.GetGridSizes() == s.sizes
            && g.HasUniformCellSize() == s.sizes.UniformCellSize() && g.IsInitialized(), "");
  PBT_CHECK("total", static_cast<int64_t>(g.GetImmutableRawData().size()) == s.sizes.TotalCells(), "");
  std::vector<bool> seen(static_cast<size_t>(s.sizes.TotalCells()), false);
  for (int64_t x = 0; x < s.n[0]; x++)
  {
    for (int64_t y = 0; y < s.n[1]; y++)
    {
      for (int64_t z = 0; z < s.n[2]; z++)
      {
        const vg::GridIndex i(x, y, z);
        const int64_t d = s.sizes.GetDataIndex(i);
        PBT_CHECK("bijection", d >= 0 && d < s.sizes.TotalCells() && !seen[static_cast<size_t>(d)],
                  Text(i), " has data position ", d);
        seen[static_cast<size_t>(d)] = true;
        PBT_CHECK("bijection", d == x * s.sizes.Stride1() + y * s.sizes.Stride2() + z, Text(i));
        CheckIndex(g, i, s);
        const Eigen::Vector4d centre = s.sizes.IndexToLocationInGridFrame(i);
        for (int64_t k = 0; k < 3; k++)
        {
          const double idx = static_cast<double>(k == 0 ? x : k == 1 ? y : z);
          PBT_CHECK("centre", std::abs(centre(k) - (idx + 0.5) * s.cell(k)) <= 1e-12 * (idx + 1.0) * s.cell(k),
                    Text(i), " centre ", centre.transpose());
        }
        PBT_CHECK("centre", centre(3) == 1.0 && centre == s.sizes.IndexToLocationInGridFrame(x, y, z)
                  && centre == g.GridIndexToLocationInGridFrame(i)
                  && centre == g.GridIndexToLocationInGridFrame(x, y, z), Text(i));
        const Eigen::Vector4d world = g.GridIndexToLocation(i);
        const Eigen::Vector3d mine = FromFrame(pose, centre.head<3>());
        PBT_CHECK("centre-world", (world.head<3>() - mine).norm() <= 1e-13 * (mine.norm() + pose.translation().norm() + centre.norm())
                  && world(3) == 1.0 && world == g.GridIndexToLocation(x, y, z), Text(i));
        const double smallest = s.cell.minCoeff();
        if (1e-12 * (pose.translation().norm() + world.norm()) < smallest * 0.25)
        {
          PBT_CHECK("centre-maps-back", g.LocationToGridIndex4d(world) == i
                    && g.LocationToGridIndex3d(world.head<3>()) == i
                    && g.LocationToGridIndex(world(0), world(1), world(2)) == i, Text(i));
        }
        PBT_CHECK("centre-maps-back", g.LocationInGridFrameToGridIndex4d(centre) == i, Text(i));
      }
    }
  }
}

PROP(points_anywhere, "a point within one cell of the outside of the grid or of a cell boundary", 300000, 8000000)
{
  Spec s = GenSpec(src, 2000);
  CheckSizes(s);
  const Eigen::Isometry3d pose = GenPose(src);
  Grid g(pose, s.sizes, 7, -1);
  ctx << Text(s) << " at (" << pose.translation().transpose() << ")";
  bool interesting = false;
  const size_t points = 1 + src.Choose(11);
  for (size_t p = 0; p < points; p++)
  {
    Eigen::Vector3d f;
    for (int64_t k = 0; k < 3; k++)
    {
      const double n = static_cast<double>(s.n[k]);
      const double c = s.cell(k);
      double u = 0.0;
      switch (src.Choose(6))
      {
        case 0: u = static_cast<double>(src.Int(-2, s.n[k] + 2)) * c; interesting = true; break;     // on a boundary
        case 1: u = (static_cast<double>(src.Int(-2, s.n[k] + 1)) + 0.5) * c; break;
        case 2: u = static_cast<double>(src.Int(-1, s.n[k] + 1)) * c + c * (src.Bool() ? 1e-6 : -1e-6); interesting = true; break;
        case 3: u = (src.Unit() * (n + 4.0) - 2.0) * c; break;
        case 4: u = src.Unit() * n * c; break;
        case 5: u = (src.Unit() - 0.5) * 1e6 * c; break;
        default: u = src.Bool() ? -c * 0.01 : n * c * (1.0 + 1e-9); interesting = true; break;
      }
      f(k) = u;
    }
    ctx << "\n(" << f.transpose() << ")";
    CheckLocation(g, f, true, s, pose);
    CheckLocation(g, f, false, s, pose);
  }
  ctx.Nontrivial(interesting);
  // Homogeneous vectors must be points.
  double w = src.Bool() ? src.AnyReal(10.0)
                        : 1.0 + (src.Bool() ? 1.0 : -1.0) * std::pow(10.0, -1.0 - 14.0 * src.Unit());
  if (w != 1.0)
  {
    const Eigen::Vector4d v(s.cell.x() * 0.5, s.cell.y() * 0.5, s.cell.z() * 0.5, w);
    PBT_CHECK("not-a-point", pbt::Throws([&] { g.LocationInGridFrameToGridIndex4d(v); })
              && pbt::Throws([&] { g.LocationToGridIndex4d(v); }) && pbt::Throws([&] { g.GetLocationImmutable4d(v); })
              && pbt::Throws([&] { g.SetLocation4d(v, 1); }) && pbt::Throws([&] { g.LocationInBounds4d(v); }), "w=", w);
  }
}

PROP(out_of_range_indices, "an index that wraps onto a valid data position", 200000, 4000000)
{
  Spec s = GenSpec(src, 400);
  CheckSizes(s);
  Grid g(GenPose(src), s.sizes, 7, -1);
  ctx << Text(s);
  for (size_t p = 0; p < 8; p++)
  {
    int64_t v[3];
    for (size_t k = 0; k < 3; k++)
    {
      switch (src.Choose(4))
      {
        case 0: v[k] = src.Int(-2, s.n[k] + 1); break;
        case 1: v[k] = s.n[k]; break;
        case 2: v[k] = -1; break;
        case 3: v[k] = src.Int(0, s.n[k] - 1); break;
        default: v[k] = static_cast<int64_t>(src.AnyU64()); break;
      }
    }
    const vg::GridIndex i(v[0], v[1], v[2]);
    ctx << " " << Text(i);
    const bool tame = std::abs(static_cast<double>(v[0])) < 1e6 && std::abs(static_cast<double>(v[1])) < 1e6
                      && std::abs(static_cast<double>(v[2])) < 1e6;
    if (tame)
    {
      const int64_t d = s.sizes.GetDataIndex(i);
      ctx.Nontrivial(!s.sizes.IndexInBounds(i) && d >= 0 && d < s.sizes.TotalCells());
    }
    CheckIndex(g, i, s);
    const int64_t raw = static_cast<int64_t>(src.AnyU64());
    const bool ok = raw >= 0 && raw < s.sizes.TotalCells();
    PBT_CHECK("raw-index", pbt::Throws([&] { g.GetDataIndexImmutable(raw); }) == !ok
              && pbt::Throws([&] { g.GetDataIndexMutable(raw); }) == !ok
              && pbt::Throws([&] { g.SetDataIndex(raw, 7); }) == !ok, raw);
  }
}

PROP(large_sizes_without_storage, "more than 2^31 cells", 300000, 8000000)
{
  int64_t n[3];
  // The bits of the total are divided between the axes.
  size_t bits = src.Choose(61);
  const size_t first = src.Choose(2);
  for (size_t j = 0; j < 3; j++)
  {
    const size_t k = (first + j) % 3;
    const size_t mine = (j == 2) ? bits : src.Choose(bits);
    bits -= mine;
    n[k] = 1 + static_cast<int64_t>(src.Choose((uint64_t(1) << mine) - 1));
  }
  const double c = GenCell(src);
  const vg::GridSizes s(c, n[0], n[1], n[2]);
  ctx << n[0] << "x" << n[1] << "x" << n[2];
  PBT_CHECK("cell-count", s.Valid() && s.NumXCells() == n[0] && s.NumYCells() == n[1] && s.NumZCells() == n[2]
            && s.TotalCells() == n[0] * n[1] * n[2], "");
  const double size[3] = {s.XSize(), s.YSize(), s.ZSize()};
  for (size_t k = 0; k < 3; k++)
  {
    PBT_CHECK("grid-size", std::abs(size[k] - static_cast<double>(n[k]) * c) <= 1e-14 * size[k], "axis ", k, " ", size[k]);
  }
  ctx.Nontrivial(s.TotalCells() > (int64_t(1) << 31));
  for (size_t p = 0; p < 8; p++)
  {
    const vg::GridIndex i(src.Int(0, n[0] - 1), src.Int(0, n[1] - 1), src.Int(0, n[2] - 1));
    const int64_t d = s.GetDataIndex(i);
    PBT_CHECK("bijection", d >= 0 && d < s.TotalCells() && s.GetGridIndexFromDataIndex(d) == i
              && d == s.GetDataIndex(i.X(), i.Y(), i.Z()) && s.IndexInBounds(i) && s.IndexInBounds(i.X(), i.Y(), i.Z()),
              Text(i), " ", d, " ", Text(s.GetGridIndexFromDataIndex(d)));
    const int64_t e = src.Int(0, s.TotalCells() - 1);
    const vg::GridIndex j = s.GetGridIndexFromDataIndex(e);
    PBT_CHECK("bijection", s.IndexInBounds(j) && s.GetDataIndex(j) == e, e, " ", Text(j));
    // One step outside along one axis, by any amount.
    int64_t v[3] = {i.X(), i.Y(), i.Z()};
    const size_t k = src.Choose(2);
    const int64_t by = int64_t(1) << src.Choose(40);
    v[k] = src.Bool() ? n[k] - 1 + by : -by;
    PBT_CHECK("index-in-bounds", !s.IndexInBounds(v[0], v[1], v[2]) && !s.IndexInBounds(vg::GridIndex(v[0], v[1], v[2])),
              v[0], " ", v[1], " ", v[2]);
    int64_t u[3] = {i.X(), i.Y(), i.Z()};
    u[k] += src.Bool() ? by : -by;
    const vg::GridIndex moved(u[0], u[1], u[2]);
    const vg::GridIndex copy(i.X(), i.Y(), i.Z());
    PBT_CHECK("index-equality", moved != i && !(moved == i) && copy == i && !(copy != i)
              && std::hash<vg::GridIndex>()(copy) == std::hash<vg::GridIndex>()(i), Text(i), " ", Text(moved));
  }
  const vg::GridSizes same(c, c, c, n[0], n[1], n[2]);
  PBT_CHECK("sizes-equality", same == s && !(same != s), "");
  const size_t axis = src.Choose(5);
  const double other_c = src.Bool() ? c * 2 : c * (1.0 + std::pow(10.0, -3.0 - 12.5 * src.Unit()));
  const vg::GridSizes other(axis == 3 ? other_c : c, axis == 4 ? other_c : c, axis == 5 ? other_c : c,
                            axis == 0 ? n[0] + 1 : n[0], axis == 1 ? n[1] + 1 : n[1], axis == 2 ? n[2] + 1 : n[2]);
  PBT_CHECK("sizes-equality", other != s && !(other == s), "axis ", axis);
}

PROP(uncountable_sizes_are_rejected, "the count of every single axis is fine but their product is not", 60000, 1000000)
{
  // Counts beyond the range of indices.
  double c[3], e[3];
  int64_t n[3];
  double bits = 63.5 + src.Unit() * 40.0;
  size_t axis[3] = {0, 1, 2};
  std::swap(axis[0], axis[src.Choose(2)]);
  std::swap(axis[1], axis[1 + src.Choose(1)]);
  bool each = true;
  const bool one_axis = src.Bool(1, 3);
  for (size_t j = 0; j < 3; j++)
  {
    const size_t k = axis[j];
    const double mine = one_axis ? (j == 0 ? bits : 0.0) : (j == 2 ? bits : std::min(bits, src.Unit() * 60.0));
    bits -= mine;
    c[k] = 0.5 + src.Unit();
    const double count = std::ceil(std::exp2(mine));
    e[k] = c[k] * count;
    if (count >= 9.2e18) { each = false; n[k] = std::numeric_limits<int64_t>::max(); }
    else { n[k] = static_cast<int64_t>(count); }
  }
  ctx << e[0] << " " << e[1] << " " << e[2] << " in cells of " << c[0] << " " << c[1] << " " << c[2];
  ctx.Nontrivial(each);
  PBT_CHECK("invalid-size", pbt::Throws([&] { vg::GridSizes(c[0], c[1], c[2], e[0], e[1], e[2]); }), "");
  if (each)
  {
    PBT_CHECK("invalid-size", pbt::Throws([&] { vg::GridSizes(c[0], c[1], c[2], n[0], n[1], n[2]); })
              && pbt::Throws([&] { vg::GridSizes(c[0], n[0], n[1], n[2]); }), "");
  }
}

PROP(invalid_sizes_are_rejected, "exactly one invalid parameter", 60000, 1000000)
{
  double c[3];
  double e[3];
  int64_t n[3];
  for (size_t k = 0; k < 3; k++)
  {
    c[k] = 0.5 + src.Unit();
    n[k] = 1 + static_cast<int64_t>(src.Choose(8));
    e[k] = c[k] * static_cast<double>(n[k]);
  }
  const double bads[] = {0.0, -0.0, -1.0, std::numeric_limits<double>::infinity(),
                         -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()};
  const int64_t bad_counts[] = {0, -1, std::numeric_limits<int64_t>::min(), -7};
  const size_t what = src.Choose(2);
  const size_t axis = src.Choose(2);
  ctx.Nontrivial();
  if (what == 0)
  {
    c[axis] = bads[src.Choose(5)];
    ctx << "cell " << axis << " " << c[axis];
    PBT_CHECK("invalid-size", pbt::Throws([&] { vg::GridSizes(c[0], c[1], c[2], e[0], e[1], e[2]); })
              && pbt::Throws([&] { vg::GridSizes(c[0], c[1], c[2], n[0], n[1], n[2]); })
              && pbt::Throws([&] { vg::GridSizes(c[axis], n[0], n[1], n[2]); })
              && pbt::Throws([&] { vg::GridSizes(c[axis], e[0], e[1], e[2]); }), "");
  }
  else if (what == 1)
  {
    e[axis] = bads[src.Choose(5)];
    ctx << "extent " << axis << " " << e[axis];
    PBT_CHECK("invalid-size", pbt::Throws([&] { vg::GridSizes(c[0], c[1], c[2], e[0], e[1], e[2]); })
              && pbt::Throws([&] { vg::GridSizes(c[0], e[0], e[1], e[2]); }), "");
  }
  else
  {
    n[axis] = bad_counts[src.Choose(3)];
    ctx << "count " << axis << " " << n[axis];
    PBT_CHECK("invalid-size", pbt::Throws([&] { vg::GridSizes(c[0], c[1], c[2], n[0], n[1], n[2]); })
              && pbt::Throws([&] { vg::GridSizes(c[0], n[0], n[1], n[2]); }), "");
  }
  const vg::GridSizes none;
  PBT_CHECK("default-sizes", !none.Valid() && none.TotalCells() == 0 && !none.IndexInBounds(0, 0, 0), "");
  PBT_CHECK("default-sizes", pbt::Throws([&] { Grid(none, 0); }) && pbt::Throws([&] { Grid(GenPose(src), none, 0); }), "");
  // A grid that was never initialised contains nothing.
  Grid empty;
  PBT_CHECK("uninitialised", !empty.IsInitialized() && empty.GetTotalCells() == 0 && !empty.GetIndexImmutable(0, 0, 0)
            && !empty.GetLocationImmutable(0, 0, 0) && empty.SetIndex(0, 0, 0, 1) == vg::AccessStatus::OUT_OF_BOUNDS
            && pbt::Throws([&] { empty.GetDataIndexImmutable(0); }), "");
}
