// C05 zlib compression
// PBT-SOURCES: zlib_helpers.cpp
#include "pbt.hpp"

#include <sys/resource.h>
#include <zlib.h>

#include <common_robotics_utilities/zlib_helpers.hpp>

namespace zh = common_robotics_utilities::zlib_helpers;
using Bytes = std::vector<uint8_t>;

namespace
{
constexpr size_t kMeg = 1024 * 1024;

// Reference: the stream interface of zlib itself, small output steps.
// Returns false if the data is not one complete valid stream.
bool RefInflate(const Bytes& in, Bytes& out, size_t* used = nullptr)
{
  z_stream s;
  std::memset(&s, 0, sizeof(s));
  if (inflateInit(&s) != Z_OK) { pbt::Fail("harness", "inflateInit"); }
  s.next_in = const_cast<Bytef*>(in.data());
  s.avail_in = static_cast<uInt>(in.size());
  Bytes step(60000);
  int ret = Z_OK;
  do
  {
    s.next_out = step.data();
    s.avail_out = static_cast<uInt>(step.size());
    ret = inflate(&s, Z_NO_FLUSH);
    out.insert(out.end(), step.begin(), step.begin() + static_cast<ssize_t>(step.size() - s.avail_out));
  }
  while (ret == Z_OK);
  if (used != nullptr) { *used = s.total_in; }
  inflateEnd(&s);
  return ret == Z_STREAM_END;
}

// Any standard way of producing zlib data.
Bytes RefDeflate(pbt::Src& src, const Bytes& data)
{
  z_stream s;
  std::memset(&s, 0, sizeof(s));
  const int level = static_cast<int>(src.Int(0, 9));
  const int window = static_cast<int>(src.Int(9, 15));
  const int mem = static_cast<int>(src.Int(1, 9));
  const int strategy = static_cast<int>(src.Choose(4));
  if (deflateInit2(&s, level, Z_DEFLATED, window, mem, strategy) != Z_OK) { pbt::Fail("harness", "deflateInit2"); }
  Bytes out(deflateBound(&s, data.size()) + 64 + 32 * 8);
  s.next_out = out.data();
  s.avail_out = static_cast<uInt>(out.size());
  size_t at = 0;
  for (int k = 0; k < 6 && src.Bool(); k++)
  {
    const size_t n = src.Choose(data.size() - at);
    s.next_in = const_cast<Bytef*>(data.data() + at);
    s.avail_in = static_cast<uInt>(n);
    at += n;
    deflate(&s, src.Bool() ? Z_SYNC_FLUSH : Z_FULL_FLUSH);
    at -= s.avail_in;
  }
  s.next_in = const_cast<Bytef*>(data.data() + at);
  s.avail_in = static_cast<uInt>(data.size() - at);
  const int ret = deflate(&s, Z_FINISH);
  out.resize(s.total_out);
  deflateEnd(&s);
  if (ret != Z_STREAM_END) { throw pbt::Discard(); }
  return out;
}

Bytes GenData(pbt::Src& src, pbt::Ctx& ctx, const bool allow_large = true)
{
  size_t n = 0;
  if (allow_large && src.Bool(1, 400))
  {
    ctx.Label("several MB");
    return src.Blob(src.Size(4 * kMeg, 24 * kMeg));
  }
  switch (src.Choose(allow_large ? 23 : 3))
  {
    case 0: n = src.Size(0, 3); break;
    case 1: n = src.Size(0, 300); break;
    case 2: n = src.Size(250, 70000); break;
    case 4: n = kMeg - 8 + src.Size(0, 16); break;        // output buffer of the library
    case 5: n = 2 * kMeg - 8 + src.Size(0, 16); break;
    case 6: n = kMeg - 20000 + src.Size(0, 20000); break;  // incompressible grows past it
    case 7: n = src.Size(kMeg, 3 * kMeg); break;
    default: n = src.Size(0, 3000); break;
  }
  ctx.Label(n < 4 ? "tiny" : n < 70001 ? "small" : n < kMeg ? "just below 1 MB" : "1 MB or more");
  return src.Blob(n);
}

std::string Describe(const Bytes& b)
{
  std::ostringstream s;
  s << b.size() << " bytes";
  for (size_t i = 0; i < b.size() && i < 24; i++) { s << " " << static_cast<int>(b[i]); }
  return s.str();
}

std::string ScratchFile(const pbt::Ctx& ctx, const std::string& name)
{
  return ctx.scratch_dir + "/" + name + std::to_string(getpid());
}

Bytes ReadAll(const std::string& path)
{
  std::ifstream f(path, std::ios::binary);
  return Bytes(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
}

void WriteAll(const std::string& path, const Bytes& b)
{
  std::ofstream f(path, std::ios::binary | std::ios::trunc);
  f.write(reinterpret_cast<const char*>(b.data()), static_cast<ssize_t>(b.size()));
}
}  // namespace

PROP(compress_then_decompress, "at least 4 bytes", 30000, 500000)
{
  const Bytes data = GenData(src, ctx);
  ctx << Describe(data);
  ctx.Nontrivial(data.size() >= 4);
  const Bytes before = data;
  const Bytes packed = zh::CompressBytes(data);
  PBT_CHECK("input-kept", data == before, "");
  Bytes reference;
  size_t used = 0;
  PBT_CHECK("standard-zlib", RefInflate(packed, reference, &used) && reference == data
            && used == packed.size(), "zlib cannot read the compressed form (",
            packed.size(), " bytes, ", used, " used)");
  PBT_CHECK("round-trip", zh::DecompressBytes(packed) == data, "");
}

PROP(reads_any_zlib_stream, "at least 4 bytes", 30000, 500000)
{
  const Bytes data = GenData(src, ctx);
  const Bytes packed = RefDeflate(src, data);
  ctx << Describe(data) << " packed " << packed.size();
  ctx.Nontrivial(data.size() >= 4);
  PBT_CHECK("reads-any-zlib", zh::DecompressBytes(packed) == data, "");
}

PROP(damaged_streams_are_rejected, "a damaged stream of at least 12 bytes", 40000, 800000)
{
  const Bytes data = GenData(src, ctx, src.Bool(1, 20));
  Bytes packed = src.Bool() ? zh::CompressBytes(data) : RefDeflate(src, data);
  ctx.Nontrivial(packed.size() >= 12);
  if (src.Bool())
  {
    // Any strict prefix is incomplete.
    const size_t keep = src.Bool() ? src.Choose(packed.size() - 1)
                                   : packed.size() - 1 - src.Choose(std::min<size_t>(packed.size() - 1, 8));
    packed.resize(keep);
    packed = Bytes(packed);
    ctx.Label("truncated");
    ctx << Describe(data) << " truncated to " << keep;
    PBT_CHECK("truncated", pbt::Throws([&] () { zh::DecompressBytes(packed); }),
              "accepted the first ", keep, " bytes");
    return;
  }
  for (size_t n = 0; src.More(n, 1, 5, 0.7); n++)
  {
    if (packed.empty()) { break; }
    switch (src.Choose(3))
    {
      case 0: packed[src.Choose(packed.size() - 1)] ^= static_cast<uint8_t>(1u << src.Choose(7)); break;
      case 1: packed[src.Choose(packed.size() - 1)] = static_cast<uint8_t>(src.Choose(255)); break;
      case 2:  // the checksum
        packed[packed.size() - 1 - src.Choose(std::min<size_t>(packed.size() - 1, 3))] ^=
            static_cast<uint8_t>(1u + src.Choose(254));
        break;
      default: packed.erase(packed.begin() + static_cast<ssize_t>(src.Choose(packed.size() - 1))); break;
    }
  }
  packed = Bytes(packed);
  ctx << Describe(data) << " damaged: " << Describe(packed);
  Bytes reference;
  const bool valid = RefInflate(packed, reference);
  ctx.Label(valid ? "still valid" : "invalid");
  Bytes got;
  const bool threw = pbt::Throws([&] () { got = zh::DecompressBytes(packed); });
  PBT_CHECK("corrupted", threw == !valid, valid ? "rejects what zlib accepts" : "accepts what zlib rejects");
  PBT_CHECK("corrupted", threw || got == reference, "differs from zlib");
}

PROP(arbitrary_bytes_are_handled, "at least 3 bytes", 60000, 1000000)
{
  Bytes raw;
  if (src.Bool()) { raw = {0x78, 0x01}; }
  for (size_t n = 0; src.More(n, 0, 60, 12.0); n++) { raw.push_back(static_cast<uint8_t>(src.Choose(255))); }
  raw = Bytes(raw);
  ctx << Describe(raw);
  ctx.Nontrivial(raw.size() >= 3);
  Bytes reference;
  const bool valid = RefInflate(raw, reference);
  Bytes got;
  const bool threw = pbt::Throws([&] () { got = zh::DecompressBytes(raw); });
  PBT_CHECK("arbitrary", threw == !valid && (threw || got == reference), "zlib: ", valid, " library threw: ", threw);
}

PROP(files_round_trip, "at least 4 bytes", 8000, 100000)
{
  const std::string path = ScratchFile(ctx, "rt");
  unlink(path.c_str());
  for (size_t n = 0; src.More(n, 1, 3, 0.7); n++)
  {
    // Later files replace earlier, possibly longer, ones.
    const Bytes data = GenData(src, ctx);
    ctx << Describe(data) << "; ";
    ctx.Nontrivial(data.size() >= 4);
    zh::CompressAndWriteToFile(data, path);
    Bytes reference;
    size_t used = 0;
    const Bytes on_disk = ReadAll(path);
    PBT_CHECK("file-content", RefInflate(on_disk, reference, &used) && reference == data
              && used == on_disk.size(), "file holds ", on_disk.size(), " bytes, ", used, " used");
    PBT_CHECK("file-round-trip", zh::LoadFromFileAndDecompress(path) == data, "");
  }
  // A file that somebody else wrote.
  const Bytes data = GenData(src, ctx);
  WriteAll(path, RefDeflate(src, data));
  PBT_CHECK("foreign-file", zh::LoadFromFileAndDecompress(path) == data, "");
  unlink(path.c_str());
}

PROP(file_faults_are_reported, "always", 6000, 80000)
{
  const std::string path = ScratchFile(ctx, "fault");
  unlink(path.c_str());
  ctx.Nontrivial();
  const Bytes data = GenData(src, ctx, src.Bool(1, 6));
  const uint64_t fault = src.Choose(8);
  ctx << Describe(data) << " fault " << fault;
  switch (fault)
  {
    case 0:
      ctx.Label("write: missing directory");
      PBT_CHECK("write-missing-directory", pbt::Throws([&] () {
        zh::CompressAndWriteToFile(data, ctx.scratch_dir + "/no/such/dir/file"); }), "");
      break;
    case 1:
      ctx.Label("write: target is a directory");
      PBT_CHECK("write-directory", pbt::Throws([&] () { zh::CompressAndWriteToFile(data, ctx.scratch_dir); }), "");
      break;
    case 2:
      ctx.Label("write: device full");
      PBT_CHECK("write-full", pbt::Throws([&] () { zh::CompressAndWriteToFile(data, "/dev/full"); }), "");
      break;
    case 3:
    case 4:
    {
      // The file may grow to any size short of what is needed.
      const Bytes packed = zh::CompressBytes(data);
      const uint64_t limit = src.Choose(packed.size() - 1);
      ctx.Label("write: file size limit");
      ctx << " limit " << limit << " of " << packed.size();
      rlimit old_limit;
      getrlimit(RLIMIT_FSIZE, &old_limit);
      signal(SIGXFSZ, SIG_IGN);
      rlimit lower = old_limit;
      lower.rlim_cur = limit;
      setrlimit(RLIMIT_FSIZE, &lower);
      bool threw = false;
      try { zh::CompressAndWriteToFile(data, path); }
      catch (const std::exception&) { threw = true; }
      setrlimit(RLIMIT_FSIZE, &old_limit);
      PBT_CHECK("write-limit", threw, "only ", limit, " of ", packed.size(), " bytes could be written");
      break;
    }
    case 5:
      ctx.Label("read: missing");
      PBT_CHECK("read-missing", pbt::Throws([&] () { zh::LoadFromFileAndDecompress(path); }), "");
      break;
    case 6:
      ctx.Label("read: directory");
      PBT_CHECK("read-directory", pbt::Throws([&] () { zh::LoadFromFileAndDecompress(ctx.scratch_dir); }), "");
      break;
    case 7:
    {
      ctx.Label("read: truncated file");
      Bytes packed = zh::CompressBytes(data);
      packed.resize(src.Choose(packed.size() - 1));
      WriteAll(path, packed);
      PBT_CHECK("read-truncated", pbt::Throws([&] () { zh::LoadFromFileAndDecompress(path); }), "");
      break;
    }
    default:
    {
      ctx.Label("read: corrupted file");
      Bytes packed = zh::CompressBytes(data);
      packed[src.Choose(packed.size() - 1)] ^= static_cast<uint8_t>(1u + src.Choose(254));
      WriteAll(path, packed);
      Bytes reference, got;
      const bool valid = RefInflate(packed, reference);
      const bool threw = pbt::Throws([&] () { got = zh::LoadFromFileAndDecompress(path); });
      PBT_CHECK("read-corrupted", threw == !valid && (threw || got == reference), "");
      break;
    }
  }
  unlink(path.c_str());
}
