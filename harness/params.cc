// The parameters manager against an independent state machine.
#include <map>
#include "desc_common.h"
#include "iamf/cli/parameters_manager.h"
#include "iamf/obu/demixing_info_parameter_data.h"
#include "iamf/obu/param_definitions/demixing_param_definition.h"
#include "iamf/obu/param_definitions/recon_gain_param_definition.h"
#include "iamf/obu/recon_gain_info_parameter_data.h"
using namespace vh;
using D = DemixingInfoParameterData;
static const double kW[] = {0, 0.0179, 0.0391, 0.0658, 0.1038, 0.25, 0.3962, 0.4342, 0.4609, 0.4821, 0.5};
struct Mode { double a, b, c, d; int step; };
static const Mode kModes[] = {{1, 1, .707, .707, -1}, {.707, .707, .707, .707, -1}, {1, .866, .866, .866, -1}, {}, {1, 1, .707, .707, 1}, {.707, .707, .707, .707, 1}, {1, .866, .866, .866, 1}, {}};
static bool KnownMode(int m) { return m != 3 && m != 7; }
static bool Is(const DownMixingParams& p, int mode, int w) {
  const Mode& m = kModes[mode];
  return p.alpha == m.a && p.beta == m.b && p.gamma == m.c && p.delta == m.d && p.w_idx_offset == m.step && p.w_idx_used == w && p.w == kW[w] && p.in_bitstream;
}
static DemixingParamDefinition Demix(uint32_t id, int mode, int w) {
  DemixingParamDefinition d(ParamArgs(id, 48000, 8));
  d.default_demixing_info_parameter_data_ = DefaultDemixingInfoParameterData((D::DMixPMode)mode, 0, w, 0);
  return d;
}
static ReconGainParamDefinition Recon(uint32_t id, uint32_t element) { return ReconGainParamDefinition(ParamArgs(id, 48000, 8), element); }
static ParameterBlockWithData Block(const ParamDefinition& d, int64_t start, int64_t end) {
  ParameterBlockWithData b;
  b.obu = ParameterBlockObu::CreateMode0(Hdr(kObuIaParameterBlock), d);
  b.start_timestamp = start;
  b.end_timestamp = end;
  return b;
}
static std::unique_ptr<ParametersManager> Make(const DescriptorObus::AudioElementsById& e) {
  auto m = ParametersManager::Create(e);
  sym_assert(m.ok(), "a manager is created for valid elements");
  return m.ok() ? std::move(*m) : nullptr;
}
// Expected state of an audio element.
struct Model {
  bool defined = false;
  uint32_t param = 0;
  int default_mode = 0, default_w = 0;
  int64_t next = 0;
  int w = 0, previous = 0;
  bool first = true;
  int block = -1;
};
struct Blk { ParameterBlockWithData b; uint32_t param = 0; int mode = 0; std::vector<ReconGainElement> gains; std::vector<bool> present; };
static int Sharing(int config, Model* m, DescriptorObus::AudioElementsById& e, bool recon) {
  // config 0: two ids, 1: one shared id, 2: only the second element.
  for (int i = 0; i < 2; i++) {
    const uint32_t id = 20 + i;
    e.emplace(id, ExtElement(id, {(uint32_t)i}, nullptr));
    if (config == 2 && i == 0) continue;
    m[i].defined = true;
    m[i].param = config == 1 ? 5 : 5 + i;
    m[i].default_mode = config == 1 || i ? 4 : 1;
    m[i].default_w = config == 1 || i ? 10 : 3;
    auto& params = e.at(id).obu.audio_element_params_;
    if (recon) params.push_back(AudioElementParam{Recon(m[i].param, id)});
    else params.push_back(AudioElementParam{Demix(m[i].param, m[i].default_mode, m[i].default_w)});
  }
  return 0;
}
// One query of the demixing parameters.
static bool GetDemix(ParametersManager& pm, Model& m, uint32_t id, std::vector<std::unique_ptr<Blk>>& blocks) {
  DownMixingParams p{};
  const bool ok = pm.GetDownMixingParameters(id, p).ok();
  if (!m.defined) {
    sym_assert(ok && p.alpha == .707 && p.beta == .707 && p.gamma == .707 && p.delta == .707 && p.w_idx_used == 0 && p.w == 0 && !p.in_bitstream, "an element without demixing uses fixed parameters");
    sym_reach("undefined");
    return true;
  }
  if (m.block < 0) {
    sym_assert(ok && Is(p, m.default_mode, m.default_w), "without a block the defaults of the definition are used");
    sym_reach("default");
    return true;
  }
  Blk& b = *blocks[m.block];
  const bool want = b.b.start_timestamp == m.next && KnownMode(b.mode);
  sym_assert(ok == want, "a block is used exactly when it starts where the element is");
  if (!ok || !want) { sym_reach("mismatch"); return true; }
  int w = 0;
  if (!m.first) { w = m.previous + kModes[b.mode].step; w = w < 0 ? 0 : w > 10 ? 10 : w; }
  sym_assert(Is(p, b.mode, w), "the parameters are those of the block and the weight follows its rule");
  m.w = w;
  sym_reach("block");
  return true;
}
static bool Update(ParametersManager& pm, bool recon, Model& m, uint32_t id, std::vector<std::unique_ptr<Blk>>& blocks, int64_t expected) {
  const bool ok = (recon ? pm.UpdateReconGainState(id, expected) : pm.UpdateDemixingState(id, expected)).ok();
  if (!m.defined || m.block < 0) {
    sym_assert(ok, "nothing to advance");
    return true;
  }
  const int64_t end = blocks[m.block]->b.end_timestamp;
  sym_assert(ok == (expected == end), "advancing needs the end of the block");
  if (!ok) { sym_reach("update_refused"); return false; }
  m.next = end;
  m.previous = m.w;
  m.first = false;
  m.block = -1;
  sym_reach("advanced");
  return true;
}
static void DemixHistory(int config, int first, int second) {
  DescriptorObus::AudioElementsById e;
  Model m[2];
  Sharing(config, m, e, false);
  auto pm = Make(e);
  if (!pm) return;
  for (int i = 0; i < 3; i++) sym_assert(pm->DemixingParamDefinitionAvailable(20 + i) == (i < 2 && m[i].defined), "the elements with a demixing definition are known");
  std::vector<std::unique_ptr<Blk>> blocks;
  bool alive = true;
  for (int step = 0; step < OPS && alive; step++) {
    const int op = step == 0 ? first : step == 1 ? second : sym_choose("op", 6);
    if (op < 2) {
      auto b = std::make_unique<Blk>();
      b->param = 5 + op;
      b->b = Block(Demix(b->param, 0, 0), sym_i64("start"), sym_i64("end"));
      b->mode = step == 0 ? sym_choose("mode", 8) : 4;
      sym_assume(b->b.start_timestamp >= 0 && b->b.end_timestamp > b->b.start_timestamp);
      b->b.obu->subblocks_.clear();
      b->b.obu->subblocks_.push_back(std::make_unique<DemixingInfoParameterData>((D::DMixPMode)b->mode, 0));
      pm->AddDemixingParameterBlock(&b->b);
      for (int i = 0; i < 2; i++) if (m[i].defined && m[i].param == b->param) m[i].block = (int)blocks.size();
      blocks.push_back(std::move(b));
    } else if (op < 4) {
      alive = GetDemix(*pm, m[op - 2], 20 + (op - 2), blocks);
    } else {
      alive = Update(*pm, false, m[op - 4], 20 + (op - 4), blocks, sym_i64("expected"));
    }
  }
}
// Many frames of one element: the weight index over time.
static void Walk(int ups, int frames) {
  DescriptorObus::AudioElementsById e;
  Model m[2];
  Sharing(1, m, e, false);
  auto pm = Make(e);
  if (!pm) return;
  std::vector<std::unique_ptr<Blk>> blocks;
  for (int f = 0; f < ups + frames; f++) {
    auto b = std::make_unique<Blk>();
    const int64_t end = sym_i64("end");
    sym_assume(end > m[0].next);
    b->b = Block(Demix(5, 0, 0), m[0].next, end);
    b->mode = f < ups ? 5 : sym_choose("step", 2) ? 6 : 0;
    b->b.obu->subblocks_.clear();
    b->b.obu->subblocks_.push_back(std::make_unique<DemixingInfoParameterData>((D::DMixPMode)b->mode, 0));
    pm->AddDemixingParameterBlock(&b->b);
    for (int i = 0; i < 2; i++) m[i].block = (int)blocks.size();
    blocks.push_back(std::move(b));
    for (int i = 0; i < 2; i++) GetDemix(*pm, m[i], 20 + i, blocks);
    for (int i = 0; i < 2; i++) sym_assert(Update(*pm, false, m[i], 20 + i, blocks, end), "each element advances");
  }
  sym_reach("walked");
}
static void GetRecon(ParametersManager& pm, Model& m, uint32_t id, std::vector<std::unique_ptr<Blk>>& blocks, int layers) {
  ReconGainInfoParameterData p;
  const bool ok = pm.GetReconGainInfoParameterData(id, layers, p).ok();
  if (!m.defined || m.block < 0) {
    bool unit = ok && p.recon_gain_elements.size() == (size_t)layers;
    if (unit)
      for (auto& g : p.recon_gain_elements) {
        unit &= g.has_value() && g->recon_gain_flag == 0;
        if (g) for (uint8_t v : g->recon_gain) unit &= v == 255;
      }
    sym_assert(unit, "without a block every layer has a gain of one");
    sym_reach("unit_gain");
    return;
  }
  Blk& b = *blocks[m.block];
  const bool want = b.b.start_timestamp == m.next && !b.b.obu->subblocks_.empty() && (layers == 0 || (int)b.gains.size() == layers);
  sym_assert(ok == want, "a recon gain block is used exactly when it starts where the element is and has its layers");
  if (!ok || !want) { sym_reach("recon_mismatch"); return; }
  bool same = p.recon_gain_elements.size() == b.gains.size();
  for (size_t i = 0; same && i < b.gains.size(); i++) {
    const auto& g = p.recon_gain_elements[i];
    same &= g.has_value() == b.present[i];
    if (!g || !b.present[i]) continue;
    bool eq = g->recon_gain_flag == b.gains[i].recon_gain_flag;
    for (int k = 0; k < 12; k++) eq &= g->recon_gain[k] == b.gains[i].recon_gain[k];
    sym_assert(eq, "the recon gains are those of the block");
  }
  sym_assert(same, "the layers are those of the block");
  sym_reach("recon");
}
static void ReconHistory(int config, int first, int second) {
  DescriptorObus::AudioElementsById e;
  Model m[2];
  Sharing(config, m, e, true);
  auto pm = Make(e);
  if (!pm) return;
  std::vector<std::unique_ptr<Blk>> blocks;
  bool alive = true;
  for (int step = 0; step < OPS && alive; step++) {
    const int op = step == 0 ? first : step == 1 ? second : sym_choose("op", 6);
    if (op < 2) {
      auto b = std::make_unique<Blk>();
      b->param = 5 + op;
      b->b = Block(Recon(b->param, 20), sym_i64("start"), sym_i64("end"));
      sym_assume(b->b.start_timestamp >= 0 && b->b.end_timestamp > b->b.start_timestamp);
      b->b.obu->subblocks_.clear();
      const int shape = step == 0 ? sym_choose("shape", 4) : 2;  // number of layers, or no subblock
      if (shape < 3) {
        auto data = std::make_unique<ReconGainInfoParameterData>();
        for (int i = 0; i < shape; i++) {
          ReconGainElement g;
          g.recon_gain_flag = sym_u32("flag");
          sym_make(g.recon_gain.data(), 12, "gain");
          b->present.push_back(i == 1);
          b->gains.push_back(g);
          data->recon_gain_elements.push_back(i == 1 ? std::optional<ReconGainElement>(g) : std::nullopt);
        }
        b->b.obu->subblocks_.push_back(std::move(data));
      }
      pm->AddReconGainParameterBlock(&b->b);
      for (int i = 0; i < 2; i++) if (m[i].defined && m[i].param == b->param) m[i].block = (int)blocks.size();
      blocks.push_back(std::move(b));
    } else if (op < 4) {
      GetRecon(*pm, m[op - 2], 20 + (op - 2), blocks, step + 1 == OPS ? sym_choose("layers", 3) : 2);
    } else {
      alive = Update(*pm, true, m[op - 4], 20 + (op - 4), blocks, sym_i64("expected"));
    }
  }
}
// Creation: at most one definition of each type per element; the conversion
// table; a block without data.
static void Creation() {
  DescriptorObus::AudioElementsById e;
  e.emplace(20, ExtElement(20, {0}, nullptr));
  auto& params = e.at(20).obu.audio_element_params_;
  int demix = 0, recon = 0;
  for (int i = 0; i < 3; i++) {
    const int k = sym_choose("kind", 4);
    if (k == 1) { params.push_back(AudioElementParam{Demix(5 + i, 0, 0)}); demix++; }
    if (k == 2) { params.push_back(AudioElementParam{Recon(5 + i, 20)}); recon++; }
    if (k == 3) params.push_back(AudioElementParam{ExtendedParamDefinition(ParamDefinition::kParameterDefinitionReservedStart, ParamArgs(5 + i, 48000, 8))});
  }
  auto m = ParametersManager::Create(e);
  sym_assert(m.ok() == (demix <= 1 && recon <= 1), "at most one definition of each kind");
  if (m.ok()) sym_assert((*m)->DemixingParamDefinitionAvailable(20) == (demix == 1), "availability");
}
static void Table() {
  const int mode = sym_choose("mode", 8), rule = sym_choose("rule", 3);
  const int32_t previous = sym_i32("previous");
  sym_assume(previous >= 0 && previous <= 15);
  DownMixingParams p{};
  const bool ok = D::DMixPModeToDownMixingParams((D::DMixPMode)mode, previous, (D::WIdxUpdateRule)rule, p).ok();
  if (!KnownMode(mode)) { sym_assert(!ok, "reserved modes are refused"); return; }
  const int stepped = previous + kModes[mode].step;
  const int w = rule == 1 ? 0 : rule == 2 ? previous : stepped < 0 ? 0 : stepped > 10 ? 10 : stepped;
  sym_assert(ok == (w <= 10), "a weight index outside the table is refused");
  if (!ok) return;
  bool right = false;
  for (int i = 0; i < 11; i++) right |= (w == i) & (p.w == kW[i]);
  sym_assert(right & (p.w_idx_used == w), "the weight is that of the index");
  sym_assert(Is(p, mode, (int)sym_concretize(w)), "the factors are those of the mode");
  sym_reach("table");
}
static void Empty() {
  DescriptorObus::AudioElementsById e;
  Model m[2];
  Sharing(0, m, e, false);
  auto pm = Make(e);
  if (!pm) return;
  auto b = Block(Demix(5, 0, 0), 0, 8);
  b.obu->subblocks_.clear();
  pm->AddDemixingParameterBlock(&b);
  DownMixingParams p{};
  sym_assert(!pm->GetDownMixingParameters(20, p).ok(), "a block without data is refused");
  sym_reach("empty");
}
extern "C" void harness_main() {
  int c = sym_case();
  if (c == 0) return Creation();
  if (c == 1) return Table();
  if (c == 2) return Empty();
  c -= 3;
  if (c < 4) return Walk(3 * c, c == 3 ? FRAMES - 1 : FRAMES);
  c -= 4;
  // The first operation adds a block or queries; cases pair it with a second.
  const int second = c % 6, first = c / 6 % 2, config = c / 12 % 3;
  if (c < 36) DemixHistory(config, first, second);
  else ReconHistory(config, first, second);
}
