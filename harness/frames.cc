// Audio frames, temporal delimiters, metadata and arbitrary OBUs: the writer
// side and the field-level meaning of what is read.
#include "obu_roundtrip.h"
#include "iamf/obu/arbitrary_obu.h"
#include "iamf/obu/audio_frame.h"
#include "iamf/obu/metadata_obu.h"
#include "iamf/obu/temporal_delimiter.h"
using namespace vh;
static void WriteFrame(int n) {
  ObuHeader h;
  h.type_specific_flag = sym_bool("trim");
  h.num_samples_to_trim_at_end = sym_u32("end");
  h.num_samples_to_trim_at_start = sym_u32("start");
  const uint32_t id = sym_u32("id");
  Bytes audio = SymBytes(n, "audio");
  AudioFrameObu obu(h, id, absl::MakeConstSpan(audio));
  sym_assert(obu.GetSubstreamId() == id, "substream id");
  const uint8_t type = id <= 17 ? 6 + id : 5;
  sym_assert(obu.header_.obu_type == type, "ids 0 to 17 use the implicit types, others the explicit one");
  Bytes w;
  ObuHeader back;
  const bool ok = WrittenPayload(obu, w, &back);
  sym_assert(ok, "an audio frame is written");
  if (!ok) return;
  Bytes expected;
  if (type == 5) PutUleb(expected, id);
  expected.insert(expected.end(), audio.begin(), audio.end());
  sym_assert(SameBytes(w, expected), "payload bytes");
  sym_assert(back.obu_type == type, "written type");
  auto rb = Reader(w);
  auto again = AudioFrameObu::CreateFromBuffer(back, w.size(), *rb);
  sym_assert(again.ok(), "reads back");
  if (!again.ok()) return;
  sym_assert(again->GetSubstreamId() == id && SameBytes(again->audio_frame_, audio), "id and audio are kept");
  sym_assert(again->header_.type_specific_flag == h.type_specific_flag, "trimming flag is kept");
  if (h.type_specific_flag)
    sym_assert(again->header_.num_samples_to_trim_at_start == h.num_samples_to_trim_at_start && again->header_.num_samples_to_trim_at_end == h.num_samples_to_trim_at_end, "trims are kept");
  sym_reach(type == 5 ? "explicit" : "implicit");
  sym_observe(type);
}
static void ReadFrame(int n) {
  Bytes b = SymBytes(n, "payload");
  const uint8_t type = 5 + sym_choose("type", 19);
  auto rb = Reader(b);
  auto obu = AudioFrameObu::CreateFromBuffer(Hdr((ObuType)type), n, *rb);
  size_t p = 0;
  uint32_t id = type - 6;
  const bool ok = type != 5 || RefUleb(b, p, id);
  sym_assert(obu.ok() == ok, "an audio frame is accepted exactly when its id can be read");
  if (!obu.ok() || !ok) { sym_reach("rejected"); return; }
  sym_assert(obu->GetSubstreamId() == id, "substream id");
  sym_assert(SameBytes(obu->audio_frame_, Bytes(b.begin() + p, b.end())), "the rest of the payload is the audio");
  sym_assert(obu->footer_.empty() && rb->Tell() == 8 * n, "nothing is left over");
  sym_reach("frame");
}
static std::string SymString(int n, const char* name) {
  std::string s(n, 'x');
  for (int i = 0; i < n; i++) { s[i] = (char)sym_u8(name); }
  return s;
}
static void WriteT35(int n) {
  MetadataITUTT35 m;
  m.itu_t_t35_country_code = sym_u8("country");
  if (sym_bool("has_ext")) m.itu_t_t35_country_code_extension_byte = sym_u8("ext");
  m.itu_t_t35_payload_bytes = SymBytes(n, "bytes");
  MetadataObu obu = MetadataObu::Create(ObuHeader(), m);
  sym_assert(obu.GetMetadataType() == kMetadataTypeITUT_T35, "type");
  Bytes w;
  ObuHeader back;
  const bool valid = m.itu_t_t35_country_code != 0xff || m.itu_t_t35_country_code_extension_byte.has_value();
  const bool ok = WrittenPayload(obu, w, &back);
  sym_assert(ok == valid, "T.35 needs the extension byte exactly for country code 255");
  if (!ok) { sym_reach("refused"); return; }
  Bytes expected = {1, m.itu_t_t35_country_code};
  if (m.itu_t_t35_country_code == 0xff) expected.push_back(*m.itu_t_t35_country_code_extension_byte);
  expected.insert(expected.end(), m.itu_t_t35_payload_bytes.begin(), m.itu_t_t35_payload_bytes.end());
  sym_assert(SameBytes(w, expected), "payload bytes");
  auto rb = Reader(w);
  auto again = MetadataObu::CreateFromBuffer(back, w.size(), *rb);
  sym_assert(again.ok() && std::holds_alternative<MetadataITUTT35>(again->GetMetadataVariant()), "reads back");
  if (!again.ok()) return;
  const auto& r = std::get<MetadataITUTT35>(again->GetMetadataVariant());
  sym_assert(r.itu_t_t35_country_code == m.itu_t_t35_country_code && SameBytes(r.itu_t_t35_payload_bytes, m.itu_t_t35_payload_bytes), "T.35 contents");
  if (m.itu_t_t35_country_code == 0xff) sym_assert(r.itu_t_t35_country_code_extension_byte == m.itu_t_t35_country_code_extension_byte, "extension byte");
  sym_reach("t35");
}
static void WriteTags(int count, int len) {
  MetadataIamfTags m;
  bool valid = true;
  for (int i = 0; i < count; i++) {
    MetadataIamfTags::Tag t;
    t.tag_name = SymString(len, "name");
    t.tag_value = SymString(i % 2 ? 0 : len, "value");
    for (char c : t.tag_name) valid &= c != 0;
    for (char c : t.tag_value) valid &= c != 0;
    m.tags.push_back(t);
  }
  MetadataObu obu = MetadataObu::Create(ObuHeader(), m);
  Bytes w;
  ObuHeader back;
  const bool ok = WrittenPayload(obu, w, &back);
  sym_assert(ok == valid, "tags are written exactly when no string contains a NUL");
  if (!ok) { sym_reach("refused"); return; }
  auto rb = Reader(w);
  auto again = MetadataObu::CreateFromBuffer(back, w.size(), *rb);
  sym_assert(again.ok() && std::holds_alternative<MetadataIamfTags>(again->GetMetadataVariant()), "reads back");
  if (!again.ok()) return;
  const auto& r = std::get<MetadataIamfTags>(again->GetMetadataVariant());
  sym_assert(r.tags.size() == m.tags.size(), "tag count");
  if (r.tags.size() != m.tags.size()) return;
  bool same = true;
  for (int i = 0; i < count; i++) same &= r.tags[i].tag_name == m.tags[i].tag_name && r.tags[i].tag_value == m.tags[i].tag_value;
  sym_assert(same, "tags are kept");
  sym_reach("tags");
}
static void ManyTags(int count) {
  MetadataIamfTags m;
  m.tags.resize(count);
  Bytes w;
  const bool ok = WrittenPayload(MetadataObu::Create(ObuHeader(), m), w);
  sym_assert(ok == (count <= 255), "at most 255 tags");
  if (ok) sym_assert(w.size() == 2 + 2 * (size_t)count, "empty tags");
}
// Any metadata payload: type and contents.
static void ReadMetadata(int n) {
  Bytes b = SymBytes(n, "payload");
  auto rb = Reader(b);
  auto obu = MetadataObu::CreateFromBuffer(Hdr(kObuIaMetadata), n, *rb);
  size_t p = 0;
  uint32_t type = 0;
  bool ok = RefUleb(b, p, type);
  size_t names = 0, start = 0;
  int ntags = -1;
  if (ok && type == 1) {
    ok = p < b.size();
    if (ok) { const bool ext = b[p] == 0xff; p++; if (ext) { ok = p < b.size(); p++; } start = p; p = b.size(); }
  } else if (ok && type == 2) {
    ok = p < b.size();
    if (ok) {
      ntags = b[p++];
      for (int i = 0; ok && i < 2 * ntags; i++) {
        while (p < b.size() && b[p]) p++;
        if (p >= b.size()) ok = false; else p++;
        names++;
      }
    }
  }
  sym_assert(obu.ok() == ok, "metadata is accepted exactly when its fields are complete");
  if (!obu.ok() || !ok) { sym_reach("rejected"); return; }
  sym_assert((uint32_t)obu->GetMetadataType() == type, "type");
  sym_assert(SameBytes(obu->footer_, Bytes(b.begin() + p, b.end())), "the rest is kept as footer");
  if (type == 1) {
    const auto& m = std::get<MetadataITUTT35>(obu->GetMetadataVariant());
    sym_assert(SameBytes(m.itu_t_t35_payload_bytes, Bytes(b.begin() + start, b.end())), "T.35 payload");
    sym_reach("read_t35");
  } else if (type == 2) {
    sym_assert((int)std::get<MetadataIamfTags>(obu->GetMetadataVariant()).tags.size() == ntags, "tag count");
    sym_reach("read_tags");
  } else sym_reach("read_unknown");
}
static void Arbitrary(int n) {
  const uint8_t type = sym_u8("type") & 31;
  ObuHeader h;
  h.obu_redundant_copy = sym_bool("redundant");
  h.type_specific_flag = sym_bool("specific");
  const bool bad = sym_bool("invalidates");
  Bytes payload = SymBytes(n, "payload");
  ArbitraryObu obu((ObuType)type, h, absl::MakeConstSpan(payload), ArbitraryObu::kInsertionHookAfterDescriptors, std::nullopt, bad);
  const bool audio = type >= 5 && type <= 23;
  const bool flags = !(h.obu_redundant_copy && (audio || type == 3 || type == 4)) && !(h.type_specific_flag && !(audio || type == 4 || type == 2));
  Bytes w;
  ObuHeader back;
  const bool ok = WrittenPayload(obu, w, &back);
  sym_assert(ok == (flags && !bad), "an arbitrary OBU is written unless it invalidates the stream or its flags are illegal");
  if (!ok) { sym_reach("refused"); return; }
  sym_assert(SameBytes(w, payload) && back.obu_type == type, "payload and type are kept verbatim");
  sym_reach("arbitrary");
}
extern "C" void harness_main() {
  const int c = sym_case();
  if (c < 4) WriteFrame(c);
  else if (c < 14) ReadFrame(c - 4);
  else if (c < 18) WriteT35(c - 14);
  else if (c < 24) WriteTags((c - 18) % 3 + 1, (c - 18) / 3 + 1);
  else if (c < 27) ManyTags(c == 24 ? 0 : c == 25 ? 255 : 256);
  else if (c < 31) Arbitrary(c - 27);
  else ReadMetadata(c - 31);
}
