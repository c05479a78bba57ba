// MON-variants: asan plain
// MON-libs: zlib_helpers
// MON-rule: byte sequences of varied entropy and size (around the 1 MiB working-buffer boundary included), all checked against zlib's one-shot API; faults: truncation, bit flips, full device, file-size limit, missing/ill-typed paths, slices; non-trivial when data was compressed or a fault was injected; distinct by content hash and fault
#include <sys/resource.h>
#include <sys/stat.h>
#include <zlib.h>

#include <fstream>
#include <iostream>

#include "arc_utilities/zlib_helpers.hpp"
#include "mon.hpp"
using namespace mon;
typedef std::vector<uint8_t> Bytes;

static Bytes gen(Rng& r, size_t n, int kind) {
  Bytes b(n);
  const uint8_t fill = (uint8_t)r.u64();
  for (size_t i = 0; i < n; i++) switch (kind) {
      case 0:
        b[i] = fill;
        break;
      case 1:
        b[i] = (uint8_t)r.u64();
        break;
      case 2:
        b[i] = (uint8_t)r.below(3);
        break;
      case 3:
        b[i] = (uint8_t)(i / 7);
        break;
      default:
        b[i] = (i % 300 < 150) ? (uint8_t)r.u64() : fill;
    }
  return b;
}
static uint64_t hashOf(const Bytes& b) {
  uint64_t h = b.size();
  for (size_t i = 0; i < b.size(); i += 1 + b.size() / 4096) h = mix(h ^ b[i]);
  return h;
}
static bool refUncompress(const Bytes& in, Bytes& out, size_t expect) {
  out.assign(expect + 64, 0);
  uLongf len = (uLongf)out.size();
  const int r = uncompress(out.data(), &len, in.data(), (uLong)in.size());
  if (r != Z_OK) return false;
  out.resize(len);
  return true;
}
static Bytes refCompress(const Bytes& in, int level) {
  uLongf len = compressBound((uLong)in.size());
  Bytes out(len);
  compress2(out.data(), &len, in.data(), (uLong)in.size(), level);
  out.resize(len);
  return out;
}
static std::string dir() {
  const char* d = getenv("MON_SCRATCH");
  std::string s = std::string(d ? d : "/tmp") + "/z";
  mkdir(s.c_str(), 0755);
  return s;
}
static void wipe(const std::string& p) { unlink(p.c_str()); }

int main(int argc, char** argv) {
  signal(SIGXFSZ, SIG_IGN);
  std::cerr.setstate(std::ios::failbit);  // the library narrates on stderr
  Monitor m(argc, argv);
  const bool plain = std::string(MON_VARIANT) == "plain";

  m.group("roundtrip", 600, 6000, [](Case& c) {
    const size_t n = c.rng.chance(0.1) ? 0 : c.rng.chance(0.5) ? c.rng.below(64) : c.rng.below(40000);
    const Bytes in = gen(c.rng, n, (int)c.rng.below(5));
    const Bytes z = ZlibHelpers::CompressBytes(in);
    Bytes ref;
    c.check(refUncompress(z, ref, in.size()) && ref == in, "not-a-zlib-stream-of-input");
    c.check(ZlibHelpers::DecompressBytes(z) == in, "roundtrip", str(n, " bytes"));
    const Bytes z2 = refCompress(in, (int)c.rng.below(10));
    c.check(ZlibHelpers::DecompressBytes(z2) == in, "decompress-foreign-stream");
    c.note(hashOf(in));
    c.nontrivial(n > 0);
    c.count("bytes-compressed", (int64_t)n);
    c.sample(str(n, " bytes -> ", z.size()));
  });

  // Around the working-buffer size, for input and for output.
  m.group("buffer-boundary", 60, 240, [](Case& c) {
    const int64_t M = 1024 * 1024;
    const int64_t k = c.rng.range(1, 3);
    int64_t n = k * M + c.rng.range(-40, 40);
    const int kind = (int)(c.index % 5);
    if (kind == 1 && c.rng.chance(0.8)) n = k * M - c.rng.range(0, 500);  // stored blocks grow a little: output crosses k MiB
    if (c.index % 7 == 6) n = 4 * M + c.rng.range(0, 2 * M);
    const Bytes in = gen(c.rng, (size_t)n, kind);
    const Bytes z = ZlibHelpers::CompressBytes(in);
    Bytes ref;
    c.check(refUncompress(z, ref, in.size()) && ref == in, "not-a-zlib-stream-of-input", str(n, " bytes kind ", kind));
    const Bytes back = ZlibHelpers::DecompressBytes(z);
    c.check(back == in, "roundtrip", str(n, " bytes kind ", kind, " got ", back.size()));
    c.note(hashOf(in));
    c.nontrivial();
    c.count("bytes-compressed", n);
    c.sample(str(n, " bytes -> ", z.size()));
  });

  // Compressed size lands exactly on a multiple of the working buffer.
  m.group("exact-output-size", plain ? 1 : 3, plain ? 2 : 8, [](Case& c) {
    const size_t M = 1024 * 1024;
    const size_t want = M * (1 + (size_t)c.index % 2);
    Bytes base = gen(c.rng, want + 64, 1);
    size_t lo = want - 2000, hi = want, n = 0;
    for (size_t step = 0; step < 14 && !n; step++) {
      const size_t mid = lo + (hi - lo) / 2;
      const Bytes in(base.begin(), base.begin() + (long)mid);
      const Bytes z = ZlibHelpers::CompressBytes(in);
      c.check(ZlibHelpers::DecompressBytes(z) == in, "roundtrip", str(mid, " bytes compressing to ", z.size()));
      c.note(z.size());
      if (z.size() == want) n = mid;
      if (z.size() < want) lo = mid + 1;
      else hi = mid;
      c.count("sizes-tried");
    }
    if (n) c.count("exact-hits");
    c.nontrivial();
  });

  m.group("truncated", 500, 6000, [](Case& c) {
    const size_t n = c.rng.chance(0.1) ? 1300000 : c.rng.below(3000);
    const Bytes in = gen(c.rng, n, (int)c.rng.below(5));
    const Bytes z = ZlibHelpers::CompressBytes(in);
    const size_t keep = c.rng.chance(0.3) ? z.size() - 1 - c.rng.below(std::min<size_t>(6, z.size())) : c.rng.below(z.size());
    const Bytes cut(z.begin(), z.begin() + (long)keep);
    bool threw = false;
    try {
      ZlibHelpers::DecompressBytes(cut);
    } catch (const std::exception&) {
      threw = true;
    }
    c.check(threw, "truncated-stream-accepted", str(z.size(), " cut to ", keep));
    c.note(hashOf(in));
    c.note(keep);
    c.nontrivial();
    c.count("truncations");
  });

  m.group("corrupted", 1500, 20000, [](Case& c) {
    const size_t n = c.rng.below(c.rng.chance(0.2) ? 20000 : 400);
    const Bytes in = gen(c.rng, n, (int)c.rng.below(5));
    Bytes z = ZlibHelpers::CompressBytes(in);
    const size_t pos = c.rng.chance(0.3) ? z.size() - 1 - c.rng.below(4) : c.rng.below(z.size());
    z[pos] = (uint8_t)(z[pos] ^ (1u << c.rng.below(8)));
    Bytes ref, out;
    const bool refOk = refUncompress(z, ref, in.size() + 4096);
    bool threw = false;
    try {
      out = ZlibHelpers::DecompressBytes(z);
    } catch (const std::exception&) {
      threw = true;
    }
    if (refOk)
      c.check(!threw && out == ref, "corrupt-but-valid", "differs from zlib");
    else
      c.check(threw, "corrupt-stream-accepted", str("byte ", pos, " of ", z.size(), " flipped, got ", out.size(), " bytes"));
    c.note(hashOf(in));
    c.note(pos);
    c.nontrivial();
    c.count(threw ? "corruptions-rejected" : "corruptions-harmless");
  });

  m.group("garbage", 600, 20000, [](Case& c) {
    Bytes z = gen(c.rng, c.rng.below(200), 1);
    if (z.size() > 2 && c.rng.chance(0.7)) {
      z[0] = 0x78;
      z[1] = (uint8_t)(c.rng.chance(0.5) ? 0x01 : c.rng.chance(0.5) ? 0x9c : 0xbb);  // 0xbb: preset dictionary wanted
    }
    Bytes ref;
    const bool refOk = refUncompress(z, ref, 1 << 20);
    bool threw = false;
    Bytes out;
    try {
      out = ZlibHelpers::DecompressBytes(z);
    } catch (const std::exception&) {
      threw = true;
    }
    c.check(threw == !refOk, "garbage-verdict", str("accepted=", !threw, " zlib accepts=", refOk));
    if (refOk) c.check(out == ref, "garbage-value");
    c.note(hashOf(z));
    c.nontrivial(z.size() > 2);
  });

  m.group("file", 250, 3000, [](Case& c) {
    const std::string p = dir() + "/f" + std::to_string(c.index);
    if (c.rng.chance(0.4)) {  // pre-existing longer file must be replaced
      std::ofstream f(p);
      f << std::string(30000, 'x');
    }
    const size_t n = c.rng.chance(0.08) ? 1500000 : c.rng.chance(0.15) ? 0 : c.rng.below(9000);
    const Bytes in = gen(c.rng, n, (int)c.rng.below(5));
    ZlibHelpers::CompressAndWriteToFile(in, p);
    c.check(ZlibHelpers::LoadFromFileAndDecompress(p) == in, "file-roundtrip", str(n, " bytes"));
    // On-disk truncation or corruption is reported.
    struct stat st;
    c.check(stat(p.c_str(), &st) == 0, "file-exists");
    const off_t keep = (off_t)c.rng.below((uint64_t)st.st_size);
    c.check(truncate(p.c_str(), keep) == 0, "harness-truncate");
    bool threw = false;
    try {
      ZlibHelpers::LoadFromFileAndDecompress(p);
    } catch (const std::exception&) {
      threw = true;
    }
    c.check(threw, "truncated-file-accepted", str(st.st_size, " cut to ", keep));
    // Second write over the damaged file.
    ZlibHelpers::CompressAndWriteToFile(in, p);
    c.check(ZlibHelpers::LoadFromFileAndDecompress(p) == in, "file-rewrite");
    wipe(p);
    c.note(hashOf(in));
    c.note((int64_t)keep);
    c.nontrivial();
    c.count("file-writes", 2);
  });

  // Numbered slices.
  m.group("slices", 60, 600, [](Case& c) {
    const std::string p = dir() + "/s" + std::to_string(c.index);
    const size_t k = 1 + c.rng.below(c.rng.chance(0.4) ? 25 : 4);
    Bytes all;
    for (size_t i = 0; i < k; i++) {
      const Bytes part = gen(c.rng, c.rng.chance(0.15) ? 0 : c.rng.below(500), 1);
      ZlibHelpers::CompressAndWriteToFile(part, p + "." + std::to_string(i));
      all.insert(all.end(), part.begin(), part.end());
    }
    const Bytes got = ZlibHelpers::LoadFromFileAndDecompress(p);
    c.check(got == all, "slices-concatenate", str(k, " slices"));
    if (c.rng.chance(0.3)) {  // a plain file takes precedence over slices of that name
      const Bytes own = gen(c.rng, c.rng.below(500), 1);
      ZlibHelpers::CompressAndWriteToFile(own, p);
      c.check(ZlibHelpers::LoadFromFileAndDecompress(p) == own, "file-beside-slices");
      wipe(p);
    }
    const std::string victim = p + "." + std::to_string(c.rng.below(k));
    c.check(truncate(victim.c_str(), 3) == 0, "harness-truncate");
    bool threw = false;
    try {
      ZlibHelpers::LoadFromFileAndDecompress(p);
    } catch (const std::exception&) {
      threw = true;
    }
    c.check(threw, "corrupt-slice-accepted");
    for (size_t i = 0; i < k; i++) wipe(p + "." + std::to_string(i));
    c.note(hashOf(all));
    c.note(k);
    c.nontrivial(k > 1);
    c.count("slices", (int64_t)k);
  });

  m.group("write-faults", 120, 1500, [](Case& c) {
    const std::string d = dir();
    const size_t n = c.rng.chance(0.3) ? 1 + c.rng.below(200) : 20000 + c.rng.below(60000);
    const Bytes in = gen(c.rng, n, 1);
    const size_t zs = ZlibHelpers::CompressBytes(in).size();
    const int kind = (int)(c.index % 5);
    std::string p = d + "/w" + std::to_string(c.index);
    bool mustThrow = true, threw = false;
    struct rlimit old;
    getrlimit(RLIMIT_FSIZE, &old);
    size_t limit = 0;
    if (kind == 0) p = d + "/no/such/dir/file";
    if (kind == 1) p = d;  // a directory
    if (kind == 2) p = "/dev/full";
    if (kind >= 3) {
      limit = kind == 3 ? c.rng.below(zs) : zs + c.rng.below(3);
      mustThrow = limit < zs;
      struct rlimit lim = old;
      lim.rlim_cur = limit;
      setrlimit(RLIMIT_FSIZE, &lim);
    }
    std::string what;
    try {
      ZlibHelpers::CompressAndWriteToFile(in, p);
    } catch (const std::exception& e) {
      threw = true;
      what = e.what();
    }
    setrlimit(RLIMIT_FSIZE, &old);
    const char* names[] = {"missing-directory", "is-directory", "full-device", "file-size-limit", "file-size-enough"};
    c.check(threw == mustThrow, std::string(mustThrow ? "write-failure-unreported:" : "write-refused:") + names[kind],
            str(zs, " compressed bytes, limit ", limit, " ", what));
    if (!mustThrow) c.check(ZlibHelpers::LoadFromFileAndDecompress(p) == in, "file-roundtrip");
    if (kind >= 3) wipe(p);
    c.note(hashOf(in));
    c.note(kind);
    c.note(limit);
    c.nontrivial();
    c.count(std::string("fault.") + names[kind]);
    c.sample(str(names[kind], " ", zs, " bytes limit ", limit));
  });

  m.group("read-faults", 40, 200, [](Case& c) {
    const std::string d = dir();
    std::string p = d + "/r" + std::to_string(c.index);
    const int kind = (int)(c.index % 4);
    if (kind == 1) mkdir(p.c_str(), 0755);
    if (kind == 2) std::ofstream(p).flush();                  // empty file
    if (kind == 3) std::ofstream(p) << std::string(50, 'q');  // not a stream
    bool threw = false;
    try {
      ZlibHelpers::LoadFromFileAndDecompress(p);
    } catch (const std::exception&) {
      threw = true;
    }
    if (kind == 1) rmdir(p.c_str());
    else wipe(p);
    c.check(threw, "bad-file-accepted", str("kind ", kind));
    c.note(kind);
    c.nontrivial();
  });

  // More than 4 GiB: must be written as consecutive slices that load back (uninstrumented build only: memory).
  m.group("huge", 0, plain ? 1 : 0, [](Case& c) {
    if (c.m.seed != 1) return;
    c.m.arm(600);
    const std::string p = dir() + "/huge";
    const uint64_t total = (1ull << 32) + 5000 + c.rng.below(1000);
    // An earlier, smaller write under the same name, and the tail of an earlier, larger one.
    ZlibHelpers::CompressAndWriteToFile(Bytes(10, 7), p);
    ZlibHelpers::CompressAndWriteToFile(Bytes(10, 7), p + ".2");
    {
      Bytes in(total);
      for (uint64_t i = 0; i < total; i += 4096) in[i] = (uint8_t)(i >> 12);
      ZlibHelpers::CompressAndWriteToFile(in, p);
    }
    uint64_t pos = 0;
    {
      const Bytes got = ZlibHelpers::LoadFromFileAndDecompress(p);
      for (uint64_t i = 0; i < got.size(); i++, pos++)
        if (got[i] != (pos % 4096 ? 0 : (uint8_t)(pos >> 12))) c.fail("huge-content", str("byte ", pos, " of ", got.size()));
    }
    for (int k = 0; k < 4; k++) {
      const std::string sp = p + "." + std::to_string(k);
      if (unlink(sp.c_str()) == 0) c.count("huge-slices");
    }
    unlink(p.c_str());
    c.check(pos == total, "huge-size", str(pos, " want ", total));
    c.note(total);
    c.nontrivial();
  });
  return m.finish();
}
