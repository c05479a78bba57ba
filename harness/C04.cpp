// MON-variants: asan
// MON-libs: base64_helpers
// MON-rule: exhaustive inputs of length 0-2, random longer inputs, every padding form and alphabet, and arbitrary strings; non-trivial when non-empty; distinct by content
#include "arc_utilities/base64_helpers.hpp"
#include "mon.hpp"
using namespace mon;
typedef std::vector<uint8_t> Bytes;

static const char kStd[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

static std::string refEncode(const Bytes& b) {
  std::string bits;
  for (uint8_t x : b)
    for (int i = 7; i >= 0; i--) bits += (char)('0' + ((x >> i) & 1));
  while (bits.size() % 6) bits += '0';
  std::string out;
  for (size_t i = 0; i < bits.size(); i += 6) {
    int v = 0;
    for (size_t j = 0; j < 6; j++) v = v * 2 + (bits[i + j] - '0');
    out += kStd[v];
  }
  while (out.size() % 4) out += '=';
  return out;
}
static void judge(Case& c, const Bytes& in) {
  const std::string want = refEncode(in);
  const std::string got = Base64Helpers::Encode(in);
  c.check(got == want, "encode", [&] { return "got " + got.substr(0, 80) + " want " + want.substr(0, 80); });
  c.check(Base64Helpers::Decode(got) == in, "decode", [&] { return got.substr(0, 100); });
  std::string nopad = want;
  while (!nopad.empty() && nopad.back() == '=') nopad.pop_back();
  // exact-capacity copy so that any overrun hits a red zone
  nopad.shrink_to_fit();
  c.check(Base64Helpers::Decode(nopad) == in, "decode-unpadded", [&] { return nopad.substr(0, 100); });
  for (const std::string& base : {want, nopad}) {
    std::string url = base;
    for (char& ch : url) ch = ch == '+' ? '-' : ch == '/' ? '_' : ch;
    c.check(Base64Helpers::Decode(url) == in, "decode-urlsafe", [&] { return url.substr(0, 100); });
  }
  for (uint8_t x : in) c.note((int)x);
  c.note(in.size());
  c.nontrivial(!in.empty());
  c.count("bytes", (int64_t)in.size());
}

int main(int argc, char** argv) {
  Monitor m(argc, argv);
  m.group("exhaustive-0-1-2", 257, 257, [](Case& c) {
    if (c.index == 256) {
      judge(c, {});
      return;
    }
    judge(c, {(uint8_t)c.index});
    for (int b = 0; b < 256; b++) judge(c, {(uint8_t)c.index, (uint8_t)b});
  });
  m.group("random", 20000, 400000, [](Case& c) {
    const size_t n = c.rng.chance(0.01) ? c.rng.below(70000) : c.rng.chance(0.7) ? c.rng.below(12) : c.rng.below(400);
    Bytes in(n);
    const int kind = (int)c.rng.below(4);
    for (uint8_t& b : in) b = kind == 0 ? 0xFF : kind == 1 ? (uint8_t)(0xF8 + c.rng.below(8)) : kind == 2 ? 0 : (uint8_t)c.rng.u64();
    judge(c, in);
    c.sample(str(n, " bytes -> ", Base64Helpers::Encode(in).substr(0, 40)));
  });
  // Arbitrary text: no read or write outside the buffers (ASan/UBSan/checked subscripts decide).
  m.group("arbitrary-text", 40000, 800000, [](Case& c) {
    const size_t n = c.rng.chance(0.7) ? c.rng.below(10) : c.rng.below(200);
    std::string s;
    const int kind = (int)c.rng.below(4);
    for (size_t i = 0; i < n; i++) {
      if (kind == 0) s += (char)c.rng.u64();
      else if (kind == 1) s += c.rng.chance(0.3) ? '=' : kStd[c.rng.below(64)];
      else if (kind == 2) s += (char)(0x80 + c.rng.below(128));
      else s += c.rng.chance(0.1) ? (char)c.rng.u64() : kStd[c.rng.below(64)];
    }
    std::string exact(s);
    exact.shrink_to_fit();
    const Bytes out = Base64Helpers::Decode(exact);
    c.check(out.size() <= n / 4 * 3 + 3, "decode-size", str(out.size(), " bytes from ", n));
    c.note(s);
    c.nontrivial(n > 0);
    c.count("arbitrary-decodes");
  });
  return m.finish();
}
