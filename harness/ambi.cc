// Ambisonics configurations: which mappings are accepted, and round trips.
#include "obu_common.h"
#include "iamf/obu/ambisonics_config.h"
using namespace vh;
static bool FullOrder(size_t n) {
  bool ok = false;
  for (size_t i = 1; i <= 15; i++) ok |= n == i * i;
  return ok;
}
// Every substream is named at least once, and nothing else but 255.
static bool MapOk(const Bytes& map, uint32_t substreams) {
  if (!FullOrder(map.size()) || substreams < 1 || substreams > map.size()) return false;
  bool ok = true;
  for (uint8_t m : map) ok &= (m == 255) | (m < substreams);
  for (uint32_t s = 0; s < substreams; s++) {
    bool named = false;
    for (uint8_t m : map) named |= m == s;
    ok &= named;
  }
  return ok;
}
static void Next() {
  const uint8_t n = sym_u8("n");
  uint8_t next = 0;
  const bool ok = AmbisonicsConfig::GetNextValidOutputChannelCount(n, next).ok();
  sym_assert(ok == (n <= 225), "counts up to 225 have a next full order");
  if (!ok) return;
  sym_assert(FullOrder(next) & (next >= n), "the next valid count is a full order and not smaller");
  bool between = false;
  for (int i = 1; i <= 15; i++) between |= (i * i >= n) & (i * i < next);
  sym_assert(!between, "no smaller full order would do");
  sym_reach("next");
}
static void CheckMono(const AmbisonicsMonoConfig& m, const Bytes& map, uint8_t substreams) {
  const auto v = m.GetChannelMappingView();
  sym_assert(SameBytes(Bytes(v.begin(), v.end()), map) && m.GetOutputChannelCount() == map.size() && m.GetSubstreamCount() == substreams, "the mapping is kept");
}
static Bytes WriteOf(const AmbisonicsConfig& c, bool& ok) {
  WriteBitBuffer wb(0);
  ok = c.ValidateAndWrite(wb).ok();
  return wb.bit_buffer();
}
static Bytes Map(int n, int symbolic) {
  // A map over a few substreams with some free entries.
  Bytes map(n);
  const int step = symbolic ? n / symbolic : n + 1;
  for (int i = 0; i < n; i++) map[i] = i % 3;
  for (int k = 0; k < symbolic; k++) map[(k * step + k) % n] = sym_u8("m");
  return map;
}
static void CreateMono(int n, int symbolic) {
  const Bytes map = Map(n, symbolic);
  uint8_t substreams = sym_u8("substreams");
  if (n > 4) { sym_assume(substreams <= 5); substreams = (uint8_t)sym_concretize(substreams); }
  auto m = AmbisonicsMonoConfig::Create(substreams, absl::MakeConstSpan(map));
  const bool want = MapOk(map, substreams);
  sym_assert(m.ok() == want, "a mono mapping is accepted exactly when it names every substream and nothing else");
  if (!m.ok()) { sym_reach("refused"); return; }
  CheckMono(*m, map, substreams);
  AmbisonicsConfig c{.ambisonics_config = *m};
  sym_assert(c.GetAmbisonicsMode() == 0 && c.GetOutputChannelCount() == n && c.GetNumSubstreams() == substreams && !c.GetDemixingMatrix().has_value(), "getters");
  bool ok;
  const Bytes w = WriteOf(c, ok);
  Bytes e = {0, (uint8_t)n, substreams};
  e.insert(e.end(), map.begin(), map.end());
  sym_assert(ok && SameBytes(w, e), "written bytes");
  sym_reach("mono");
}
static void WrongSize(int n) {
  Bytes map(n);
  const uint8_t fill = sym_bool("inactive") ? 255 : 0;
  for (int i = 0; i < n; i++) map[i] = i ? fill : 0;
  auto m = AmbisonicsMonoConfig::Create(1, absl::MakeConstSpan(map));
  sym_assert(m.ok() == FullOrder(n), "only full orders have a mapping");
  sym_reach("size");
}
static void CreateProjection(int elements) {
  std::vector<int16_t> matrix(elements);
  for (auto& x : matrix) x = sym_i16("x");
  const uint8_t out = sym_u8("out"), subs = sym_u8("subs"), coupled = sym_u8("coupled");
  auto p = AmbisonicsProjectionConfig::Create(out, subs, coupled, absl::MakeConstSpan(matrix));
  const uint32_t in = (uint32_t)subs + coupled;
  const bool want = FullOrder(out) & (coupled <= subs) & (in >= 1) & (in <= out) & (in * out == (uint32_t)elements);
  sym_assert(p.ok() == want, "a projection is accepted exactly when its counts are consistent");
  if (!p.ok()) { sym_reach("refused"); return; }
  sym_assert((p->GetOutputChannelCount() == out) & (p->GetSubstreamCount() == subs) & (p->GetCoupledSubstreamCount() == coupled), "counts are kept");
  AmbisonicsConfig c{.ambisonics_config = *p};
  const auto d = c.GetDemixingMatrix();
  bool same = d.has_value() && d->size() == matrix.size();
  if (same) for (int i = 0; i < elements; i++) same &= (*d)[i] == matrix[i];
  sym_assert(same && c.GetAmbisonicsMode() == 1 && c.GetOutputChannelCount() == out && c.GetNumSubstreams() == subs, "matrix is kept");
  bool ok;
  const Bytes w = WriteOf(c, ok);
  Bytes e = {1, out, subs, coupled};
  for (int16_t x : matrix) { e.push_back((uint16_t)x >> 8); e.push_back((uint8_t)x); }
  sym_assert(ok && SameBytes(w, e), "written bytes");
  sym_reach("projection");
}
static AmbisonicsConfig Blank() { return AmbisonicsConfig{.ambisonics_config = *AmbisonicsMonoConfig::Create(1, {0})}; }
static void ReadAny(const Bytes& b) {
  AmbisonicsConfig c = Blank();
  auto rb = Reader(b);
  const bool read = c.ReadAndValidate(*rb).ok();
  size_t p = 0;
  uint32_t mode = 0;
  bool ok = RefUleb(b, p, mode) && mode <= 1 && p + 2 <= b.size();
  const size_t at = p;
  uint32_t out = 0, subs = 0, coupled = 0;
  Bytes map;
  if (ok && mode == 0) {
    out = b[p], subs = b[p + 1];
    p += 2;
    ok = p + out <= b.size();
    if (ok) {
      out = (uint32_t)sym_concretize(out);
      map.assign(b.begin() + p, b.begin() + p + out);
      p += out;
      ok = MapOk(map, subs);
    }
  } else if (ok) {
    ok = p + 3 <= b.size();
    if (ok) {
      out = b[p], subs = b[p + 1], coupled = b[p + 2];
      p += 3;
      const uint32_t in = subs + coupled;
      ok = FullOrder(out) & (coupled <= subs) & (in >= 1) & (in <= out) & (p + 2 * in * out <= b.size());
      if (ok) p += 2 * (size_t)sym_concretize(in * out);
    }
  }
  sym_assert(read == ok, "a configuration is read exactly when it is complete and valid");
  if (!read || !ok) { sym_reach("rejected"); return; }
  sym_assert(rb->Tell() == 8 * (int64_t)p, "exactly the configuration is consumed");
  sym_assert(c.GetAmbisonicsMode() == mode && c.GetOutputChannelCount() == out && c.GetNumSubstreams() == subs, "counts");
  bool written;
  const Bytes w = WriteOf(c, written);
  Bytes e = {(uint8_t)mode};
  e.insert(e.end(), b.begin() + at, b.begin() + p);
  sym_assert(written && SameBytes(w, e), "written back byte-identically");
  sym_reach(mode ? "read_projection" : "read_mono");
}
static void ReadMono(int n, int symbolic) {
  Bytes b = {0, (uint8_t)n, (uint8_t)sym_choose("substreams", 6)};
  const Bytes map = Map(n, symbolic);
  b.insert(b.end(), map.begin(), map.end());
  const int extra = (int)sym_choose("extra", 3) - 1;
  if (extra < 0) b.pop_back();
  if (extra > 0) b.push_back(sym_u8("after"));
  ReadAny(b);
}
static void ReadProjection(int out, int in) {
  Bytes b = {1, (uint8_t)out, sym_u8("subs"), sym_u8("coupled")};
  Bytes m = SymBytes(2 * out * in, "matrix");
  b.insert(b.end(), m.begin(), m.end());
  if (sym_choose("short", 2)) b.pop_back();
  ReadAny(b);
}
// Every channel its own substream, or one of them somewhere else.
static void Full(int n) {
  Bytes map(n);
  for (int i = 0; i < n; i++) map[i] = i;
  const int k = (int)sym_choose("at", 3) * (n - 1) / 2;
  const int m0 = (int)sym_choose("m", 4);
  map[k] = m0 == 0 ? k : m0 == 1 ? (k + 1) % n : m0 == 2 ? 255 : n - 1;
  const int subs = n - (int)sym_choose("fewer", 3);
  bool want = subs == n ? map[k] == k : false;
  if (subs == n - 1 && k == n - 1) want = (map[k] < n - 1) | (map[k] == 255);
  auto m = AmbisonicsMonoConfig::Create((uint8_t)subs, absl::MakeConstSpan(map));
  sym_assert(m.ok() == want, "a large mapping names every substream");
  if (m.ok()) CheckMono(*m, map, subs), sym_reach("full");
}
extern "C" void harness_main() {
  int c = sym_case();
  if (c == 0) return Next();
  c--;
  static const int kFull[] = {36, 81, 144, 225};
  if (c < 4) return Full(kFull[c]);
  c -= 4;
  static const int kMono[][2] = {{1, 1}, {4, 4}, {9, 3}, {16, 2}, {225, 1}, {9, 2}};
  if (c < 6) return CreateMono(kMono[c][0], kMono[c][1]);
  c -= 6;
  static const int kWrong[] = {0, 2, 3, 5, 8, 10, 24, 36, 144, 169, 196, 224, 225, 226, 255, 256, 257, 260, 481, 512};
  if (c == 0) { WrongSize(kWrong[sym_choose("size", 20)]); return; }
  c--;
  static const int kElems[] = {0, 1, 2, 3, 4, 8, 9, 12, 16, 18, 36};
  if (c < 11) return CreateProjection(kElems[c]);
  c -= 11;
  if (c < 5) return ReadMono(kMono[c][0], kMono[c][1]);
  c -= 5;
  static const int kProj[][2] = {{1, 1}, {4, 1}, {4, 2}, {4, 4}, {4, 5}, {9, 2}, {3, 1}, {1, 0}};
  if (c < 8) return ReadProjection(kProj[c][0], kProj[c][1]);
  ReadAny(SymBytes(c - 8, "bytes"));
}
