// RIFF chunk index, format and axml extraction of the BW64 reader, over any
// file bytes.
#include <algorithm>
#include <array>
#include "obu_common.h"
#include "absl/status/statusor.h"
#include "absl/strings/str_cat.h"
#include "iamf/cli/adm_to_user_metadata/adm/adm_elements.h"
#include "stand_istream.h"
#include "iamf/cli/adm_to_user_metadata/adm/bw64_reader.cc"
using namespace iamf_tools::adm_to_user_metadata;
using vh::Bytes;
// Stands in for the XML parser (expat): records what it was given.
static int xml_calls;
static std::string xml_text;
static int32_t xml_threshold;
static AdmFileType xml_type;
static bool xml_fails;
namespace iamf_tools { namespace adm_to_user_metadata {
absl::StatusOr<ADM> ParseXmlToAdm(absl::string_view xml, int32_t threshold, AdmFileType type) {
  xml_calls++;
  xml_text = std::string(xml);
  xml_threshold = threshold;
  xml_type = type;
  if (xml_fails) return absl::InvalidArgumentError("xml");
  return ADM{};
}
}}
struct Chunk { Bytes id; uint32_t size; size_t header; uint64_t at; };
static uint32_t Le(const Bytes& f, size_t at, int n) {
  uint32_t v = 0;
  for (int i = 0; i < n; i++) v |= (uint32_t)f[at + i] << (8 * i);
  return v;
}
static bool IsId(const Bytes& f, size_t at, const char* id) {
  return (f[at] == (uint8_t)id[0]) & (f[at + 1] == (uint8_t)id[1]) & (f[at + 2] == (uint8_t)id[2]) & (f[at + 3] == (uint8_t)id[3]);
}
// `gap_at`: the chunk that ends there has `gap` more bytes of data.
static void Check(const Bytes& file, bool past, size_t gap_at = 0, uint64_t gap = 0) {
  const int32_t threshold = sym_i32("threshold");
  xml_calls = 0;
  xml_fails = sym_case() % 5 == 1;
  TestStream stream(file, past, gap_at, gap);
  auto r = Bw64Reader::BuildFromStream(threshold, stream);
  // Independent walk over the file.
  const bool riff = file.size() >= 12 && (IsId(file, 0, "RIFF") & IsId(file, 8, "WAVE"));
  std::vector<Chunk> chunks;
  if (riff) {
    for (size_t at = 12; at + 8 <= file.size();) {
      const uint32_t size = Le(file, at + 4, 4);
      chunks.push_back({Bytes(file.begin() + at, file.begin() + at + 4), size, at, at >= gap_at ? at + gap : at});
      if (gap && at + 8 == gap_at) { at += 8; continue; }
      const uint64_t next = (uint64_t)at + 8 + size + (size & 1);
      if (next + 8 > file.size()) break;
      at = sym_concretize(next);
    }
  }
  auto find = [&](const char* id) -> const Chunk* {
    const Chunk* last = nullptr;
    for (auto& c : chunks) if (IsId(c.id, 0, id)) last = &c;
    return last;
  };
  const Chunk *fmt = find("fmt "), *axml = find("axml"), *dbmd = find("dbmd");
  bool valid = riff && fmt && axml && fmt->size >= 16 && fmt->header + 24 <= file.size();
  uint32_t tag = 0, channels = 0, rate = 0, bytes_rate = 0, align = 0, bits = 0;
  if (valid) {
    const size_t d = fmt->header + 8;
    tag = Le(file, d, 2), channels = Le(file, d + 2, 2), rate = Le(file, d + 4, 4), bytes_rate = Le(file, d + 8, 4), align = Le(file, d + 12, 2), bits = Le(file, d + 14, 2);
    valid = (channels != 0) & (rate != 0) & ((bits == 16) | (bits == 24) | (bits == 32)) & ((uint64_t)axml->header + 8 + axml->size <= file.size());
    if (dbmd) valid = valid & (bits == 24) & ((rate == 48000) | (rate == 96000));
  }
  if (!valid) {
    sym_assert(!r.ok(), "a file without the required well-formed chunks is refused");
    sym_assert(xml_calls == 0, "metadata of a refused file is not parsed");
    sym_reach("refused");
    return;
  }
  sym_assert(xml_calls == 1, "the metadata is parsed once");
  if (xml_calls != 1) return;
  const uint32_t n = (uint32_t)sym_concretize(axml->size);
  bool same = xml_text.size() == n;
  for (uint32_t i = 0; same && i < n; i++) sym_assert((uint8_t)xml_text[i] == file[axml->header + 8 + i], "the metadata is exactly the axml chunk");
  sym_assert(same, "the metadata has the size of the axml chunk");
  sym_assert(xml_threshold == threshold, "importance threshold");
  sym_assert(xml_type == (dbmd ? kAdmFileTypeDolby : kAdmFileTypeDefault), "file type");
  sym_assert(r.ok() == !xml_fails, "the outcome of the metadata parser is reported");
  if (!r.ok()) return;
  const auto& i = r->format_info_;
  sym_assert((i.format_tag == tag) & (i.num_channels == channels) & (i.samples_per_sec == rate) & (i.avg_bytes_per_sec == bytes_rate) & (i.block_align == align) & (i.bits_per_sample == bits), "format fields");
  const char* ids[] = {"fmt ", "axml", "dbmd", "data"};
  for (const char* id : ids) {
    auto info = r->GetChunkInfo(absl::string_view(id, 4));
    const Chunk* c = find(id);
    sym_assert(info.ok() == (c != nullptr), "chunks are found exactly when present");
    if (c && info.ok()) {
      sym_assert(info->size == c->size, "chunk size");
      sym_assert(info->offset == c->at, "chunk position");
    }
    if (c && *id == 'd') sym_reach(id[1] == 'b' ? "dbmd" : "data");
  }
  sym_reach("accepted");
}
static void Put(Bytes& f, const char* id) { f.insert(f.end(), id, id + 4); }
static void Sym(Bytes& f, int n, const char* name) {
  Bytes b = vh::SymBytes(n, name);
  f.insert(f.end(), b.begin(), b.end());
}
static void PutLe(Bytes& f, uint32_t v) { for (int i = 0; i < 4; i++) f.push_back(v >> (8 * i)); }
// A chunk of any size, all of its data present, before chunks that matter.
static void Long(int kind) {
  Bytes f;
  Put(f, "RIFF"); Sym(f, 4, "riff_size"); Put(f, "WAVE");
  auto fmt = [&] { Put(f, "fmt "); PutLe(f, 16); f.push_back(1); f.push_back(0); Sym(f, 14, "format"); };
  auto axml = [&] { Put(f, "axml"); PutLe(f, 3); Sym(f, 3, "xml"); f.push_back(0); };
  if (kind & 1) fmt();
  if (kind & 2) axml();
  if (kind & 4) Put(f, "data"); else Sym(f, 4, "id");
  const uint32_t size = sym_u32("size");
  PutLe(f, size);
  if (!(kind & 4)) for (const char* id : {"fmt ", "axml", "dbmd"}) sym_assume(!IsId(f, f.size() - 8, id));
  const size_t gap_at = f.size();
  if (!(kind & 1)) fmt();
  if (!(kind & 2)) axml();
  Put(f, "dbmd"); PutLe(f, 0);
  sym_assume(size > 0);
  Check(f, kind & 1, gap_at, (uint64_t)size + (size & 1));
}
extern "C" void harness_main() {
  int c = sym_case();
  if (c >= 2 * ANY + 120) return Long(c - 2 * ANY - 120);
  if (c < 2 * ANY) {  // Any short file; with a valid start from 12 bytes on.
    Bytes f;
    const int n = c / 2;
    if (n <= 16) Sym(f, n, "file");
    else { Put(f, "RIFF"); Sym(f, 4, "riff_size"); Put(f, "WAVE"); Sym(f, n - 12, "file"); }
    return Check(f, c % 2);
  }
  c -= 2 * ANY;
  // Files with the chunks in some order, ids and sizes as listed, where one
  // chunk's size is arbitrary; data symbolic.
  static const struct { const char* ids[4]; int data[4]; } layouts[] = {
      {{"fmt ", "axml", nullptr}, {16, 3}},
      {{"axml", "fmt ", nullptr}, {2, 16}},
      {{"fmt ", "dbmd", "axml", nullptr}, {16, 1, 2}},
      {{"data", "fmt ", "axml", nullptr}, {3, 18, 1}},
      {{"axml", "fmt ", "axml", nullptr}, {1, 16, 0}},
      {{"fmt ", "axml", "data", "dbmd"}, {16, 1, 2, 0}},
      {{"fmt ", "fmt ", "axml", "data"}, {16, 16, 2, 1}},
      {{"fmt ", "????", "axml", nullptr}, {16, 1, 2}},
  };
  const auto& l = layouts[c % 8];
  const int odd = c / 8 % 5, cut = c / 40;  // Which size is arbitrary; bytes missing at the end.
  Bytes f;
  Put(f, "RIFF"); Sym(f, 4, "riff_size"); Put(f, "WAVE");
  int count = 0;
  for (int i = 0; i < 4 && l.ids[i]; i++, count++) {
    if (l.ids[i][0] == '?') Sym(f, 4, "id"); else Put(f, l.ids[i]);
    if (odd == i) Sym(f, 4, "size"); else PutLe(f, l.data[i]);
const int n = l.data[i] + (l.data[i] & 1);
    if (odd >= 4) { Sym(f, n, "data"); continue; }
    // Walks may start anywhere in the data after an arbitrary size.
    for (int k = 0; k < n; k++) f.push_back(l.ids[i][0] == 'f' ? (k == 2) + (k == 14) * 24 + (k == 5) * 187 + (k == 4) * 128 : k % 3);
  }
  if (odd < 4 && odd >= count) return;
  f.resize(f.size() - cut);
  Check(f, (c + c / 8) & 1);
}
