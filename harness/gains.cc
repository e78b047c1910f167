// Precomputed downmix gains: lookup of any pair of names, and decompression of
// any blob.
#include <cmath>
#include "obu_common.h"
#include "iamf/cli/renderer/gains/get_gains.h"
#include "iamf/cli/renderer/gains/precomputed_compressed_gains_decoder.h"
#include "iamf/cli/renderer/gains/precomputed_gains.h"
using namespace iamf_tools;
static const struct { const char* name; int channels; } kLayouts[] = {
    {"0+1+0", 1},  {"0+2+0", 2}, {"0+5+0", 6},  {"2+5+0", 8},   {"4+5+0", 10}, {"0+7+0", 8},  {"4+7+0", 12}, {"9+10+3", 24}, {"7.1.5.4", 17}, {"3.1.2", 6},
    {"7.1.2", 10}, {"9.1.6", 16}, {"4+5+1", 11}, {"3+7+0", 12}, {"4+9+0", 14}, {"A0", 1},     {"A1", 4},     {"A2", 9},      {"A3", 16},      {"A4", 25}};
static int Channels(const std::string& n) {
  for (auto& l : kLayouts)
    if (n == l.name) return l.channels;
  return 0;
}
static std::string SymKey(int n, const char* name) {
  std::string s(n, 0);
  if (n) sym_make(s.data(), n, name);
  return s;
}
static bool Is(const std::string& key, const std::string& name) {
  if (key.size() != name.size()) return false;
  bool same = true;
  for (size_t i = 0; i < key.size(); i++) same &= key[i] == name[i];
  return same;
}
static void Lookup(int in_size, int out_size) {
  std::string in = SymKey(in_size, "input"), out = SymKey(out_size, "output");
  auto got = GetGainsForLayoutPair(in, out);
  const auto reference = InitPrecomputedGains();
  if (!got.ok()) {
    bool known = false;
    for (auto& [a, m] : reference)
      for (auto& [b, g] : m) known |= Is(in, a) & Is(out, b);
    sym_assert(!known, "every pair of the reference table is available");
    sym_assert(got.status().code() == absl::StatusCode::kNotFound, "an unknown pair is reported as not found");
    sym_reach("unknown");
    return;
  }
  // The path fixed the names.
  for (char& c : in) c = (char)sym_concretize((uint8_t)c);
  for (char& c : out) c = (char)sym_concretize((uint8_t)c);
  sym_assert(got->size() == (size_t)Channels(in) && Channels(in) > 0 && Channels(out) > 0, "one row per input channel");
  bool shape = true, finite = true;
  for (auto& row : *got) {
    shape &= row.size() == (size_t)Channels(out);
    for (double x : row) finite &= x >= -4 && x <= 4;
  }
  sym_assert(shape, "one column per output channel");
  sym_assert(finite, "gains are finite and moderate");
  auto a = reference.find(in);
  if (a == reference.end()) { sym_fail("input is in the reference table"); return; }
  auto b = a->second.find(out);
  if (b == a->second.end()) { sym_fail("pair is in the reference table"); return; }
  const auto& e = b->second;
  bool same = e.size() == got->size();
  for (size_t i = 0; same && i < e.size(); i++) {
    same = e[i].size() == (*got)[i].size();
    for (size_t j = 0; same && j < e[i].size(); j++) {
      const double d = e[i][j] - (*got)[i][j];
      same = d < 2e-6 && d > -2e-6;
    }
  }
  sym_assert(same, "the gains are those of the reference table");
  sym_reach("gains");
}
static void Decompress(int c) {
  // Small layouts, so that all of the matrix is covered by a few bytes.
  const char* names[] = {"0+1+0", "0+2+0", "A1", "0+3+0"};
  const std::string in = names[c % 4], out = names[c / 4 % 4];
  const bool dense = c / 16;
  const int rows = Channels(in), cols = Channels(out);
  CompressedMatrix m;
  // Up to two elements, three for the single-row layout in the thorough tier.
  const int elements_max = rows * cols <= 4 ? 2 + THOROUGH : 1 + THOROUGH;
  const int n = (int)sym_choose("size", dense ? 9 : rows + 2 * elements_max + 1);
  double codebook[10] = {0, 0.5, 1 / std::sqrt(3), 1 / std::sqrt(2), std::sqrt(2.0 / 3.0), (1 + (1 / std::sqrt(2))) / 2, 1.0, 2 / std::sqrt(3), 1 / (std::sqrt(2)) + 0.5, std::sqrt(3.0 / 2.0)};
  if (dense) {
    m.dense_data.resize(n);
    for (auto& x : m.dense_data) x = sym_float("dense");
  }
  // Sparse data is ignored when there is dense data.
  m.sparse_blob = vh::SymBytes(dense ? (n ? 3 : 0) : n, "blob");
  const auto got = DecompressMatrix(in, out, m);
  if (!rows || !cols) { sym_assert(!got.ok(), "unknown layouts are refused"); sym_reach("refused"); return; }
  std::vector<std::vector<double>> e(rows, std::vector<double>(cols, 0.0));
  bool valid = true;
  if (dense) {
    for (int k = 0; k < n && k < rows * cols; k++) e[k / cols][k % cols] = (double)m.dense_data[k];
  } else if (n) {
    const int elements = (n - rows) / 2;
    if (n < rows || (n - rows) % 2) valid = false;
    int used = 0;
    for (int i = 0; valid && i < rows; i++)
      for (int j = 0; valid && j < m.sparse_blob[i]; j++) {
        if (used == elements) { valid = false; break; }
        const int col = m.sparse_blob[rows + used], code = m.sparse_blob[rows + elements + used];
        used++;
        for (int x = 0; x < cols; x++)
          for (int y = 0; y < 10; y++) e[i][x] = (col == x) & (code == y) ? codebook[y] : e[i][x];
      }
  }
  sym_assert(got.ok() == valid, "blobs with inconsistent lengths are refused");
  if (!got.ok() || !valid) { sym_reach("refused"); return; }
  bool same = got->size() == (size_t)rows;
  for (int i = 0; same && i < rows; i++) same = (*got)[i].size() == (size_t)cols;
  sym_assert(same, "matrix shape");
  for (int i = 0; same && i < rows; i++)
    for (int j = 0; j < cols; j++)
      sym_assert(std::bit_cast<uint64_t>((*got)[i][j]) == std::bit_cast<uint64_t>(e[i][j]), "matrix element");
  sym_reach("decompressed");
}
extern "C" void harness_main() {
  int c = sym_case();
  if (c < 32) return Decompress(c);
  c -= 32;
  const int sizes[] = {5, 2, 6, 7, 0, 8};
  Lookup(sizes[c % 6], sizes[c / 6]);
}
