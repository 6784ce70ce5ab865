#ifdef FORGE
#define private public
#include "c/enc/state.h"
#undef private
#include "c/common/context.h"
#endif
// What the library made of a stream, in full (BDRV_EXTRA).
static std::string Nums(const int* p, size_t n) { std::string s = "["; for (size_t i = 0; i < n; ++i) { if (i) s += ","; s += std::to_string(p[i]); } return s + "]"; }
static std::string ImageJson(const JPEGData& j) {
  std::string s = "{\"w\":" + std::to_string(j.width) + ",\"h\":" + std::to_string(j.height) + ",\"ri\":" + std::to_string(j.restart_interval);
  auto list = [&](const char* k, size_t n, const std::function<std::string(size_t)>& f) { s += std::string(",\"") + k + "\":["; for (size_t i = 0; i < n; ++i) { if (i) s += ","; s += f(i); } s += "]"; };
  list("comps", j.components.size(), [&](size_t i) { const auto& c = j.components[i]; int v[4] = {c.id, c.h_samp_factor, c.v_samp_factor, c.quant_idx}; return Nums(v, 4); });
  s += ",\"order\":" + Ints(j.marker_order.data(), j.marker_order.size());
  list("huff", j.huffman_code.size(), [&](size_t i) { const auto& h = j.huffman_code[i]; int n = 0; for (int k = 1; k <= 16; ++k) n += h.counts[k];
    return "[" + std::to_string(h.slot_id) + "," + std::to_string((int)h.is_last) + "," + Nums(&h.counts[1], 16) + "," + Nums(h.values.data(), std::min<size_t>(n < 0 ? 0 : n, h.values.size())) + "]"; });
  list("scans", j.scan_info.size(), [&](size_t i) { const auto& x = j.scan_info[i]; std::string r = "[" + std::to_string(x.Ss) + "," + std::to_string(x.Se) + "," + std::to_string(x.Ah) + "," + std::to_string(x.Al) + ",[";
    for (size_t k = 0; k < x.num_components; ++k) { int v[3] = {x.components[k].comp_idx, x.components[k].dc_tbl_idx, x.components[k].ac_tbl_idx}; if (k) r += ","; r += Nums(v, 3); }
    r += "]," + Nums(x.reset_points.data(), x.reset_points.size()) + ",[";
    for (size_t k = 0; k < x.extra_zero_runs.size(); ++k) { int v[2] = {x.extra_zero_runs[k].block_idx, x.extra_zero_runs[k].num_extra_zero_runs}; if (k) r += ","; r += Nums(v, 2); }
    return r + "]]"; });
  list("quant", j.quant.size(), [&](size_t i) { const auto& q = j.quant[i]; return "[" + std::to_string(q.index) + "," + std::to_string((int)q.is_last) + "," + std::to_string(q.precision) + "," + Nums((const int*)q.values.data(), 64) + "]"; });
  s += ",\"pads\":" + Nums(j.padding_bits.data(), j.padding_bits.size());
  list("between", j.inter_marker_data.size(), [&](size_t i) { return Ints(j.inter_marker_data[i].data(), j.inter_marker_data[i].size()); });
  s += ",\"app\":" + Segs(j.app_data) + ",\"com\":" + Segs(j.com_data) + ",\"tail\":" + Ints(j.tail_data.data(), j.tail_data.size());
  list("cf", j.components.size(), [&](size_t i) { const auto& c = j.components[i]; std::string r = "[";
    for (size_t b = 0; b + 64 <= c.coeffs.size(); b += 64) { int v[64]; for (int k = 0; k < 64; ++k) v[k] = c.coeffs[b + k]; if (b) r += ","; r += Nums(v, 64); } return r + "]"; });
  return s + "}";
}
#ifdef FORGE
// The encoder's own stages, with contexts as fine as asked (they go by the size of the file otherwise).
static bool Forge(const JPEGData& jpg, const std::vector<int>& bits, bool apart, Bytes* out) {
  using namespace ::brunsli::internal::enc;
  State state; std::vector<ComponentMeta>& meta = state.meta; size_t n = jpg.components.size(); state.use_legacy_context_model = !(jpg.version & 2);
  if (!CalculateMeta(jpg, &state)) return false;
  size_t num = n;
  for (size_t i = 0; i < n; ++i) { meta[i].approx_total_nonzeros = SampleNumNonZeros(&meta[i]); meta[i].context_bits = bits[i % bits.size()]; }
  for (size_t i = 0; i < n; ++i) { meta[i].context_offset = num; num += kNumNonzeroContextSkip[meta[i].context_bits]; }
  state.num_contexts = num;
  std::vector<std::vector<coeff_t>> err(n); std::vector<std::vector<uint8_t>> st(n);
  for (size_t i = 0; i < n; ++i) { size_t k = meta[i].width_in_blocks * meta[i].height_in_blocks; err[i].resize(k); st[i].resize(k); meta[i].dc_prediction_errors = err[i].data(); meta[i].block_state = st[i].data(); }
  if (!PredictDCCoeffs(&state)) return false;
  EncodeDC(&state); EncodeAC(&state);
  if (apart) {  // contexts that are used get unlike distributions, so that none is merged with another
    auto& hs = state.entropy_source.histograms_;
    for (size_t i = 0; i < hs.size(); ++i) if (hs[i].total_count_ > 0) {
      uint32_t x = (uint32_t)(i + 1) * 2654435761u; x ^= x >> 15; size_t a = x % 24;
      for (size_t k = 0; k < 18; ++k) for (int m = k == a % 18 ? 2500 : k == (a * 5 + 3) % 18 ? 900 : 12; m > 0; --m) state.entropy_source.AddCode(k, i); } }
  std::unique_ptr<EntropyCodes> ec = PrepareEntropyCodes(&state); state.entropy_codes = ec.get();
  std::vector<uint8_t> b(GetMaximumBrunsliEncodedSize(jpg) + (1 << 22)); size_t len = b.size();
  if (!BrunsliSerialize(&state, jpg, 0, b.data(), &len)) return false;
  out->assign((const char*)b.data(), len); return true;
}
#endif
static void ExtraOp(World& w, const std::vector<std::string>& t) {
  if (t[0] == "spread") {  // spread J AMPLITUDE SEED : any number of coefficients in any block
    JPEGData& j = w.j[t[1]]->j; int amp = atoi(t[2].c_str()); uint64_t x = strtoull(t[3].c_str(), 0, 10) * 2654435761u + 88172645463325252ull;
    auto rnd = [&]() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return (uint32_t)(x >> 16); };
    for (auto& c : j.components) for (size_t b = 0; b + 64 <= c.coeffs.size(); b += 64) {
      for (int i = 0; i < 64; ++i) c.coeffs[b + i] = 0;
      c.coeffs[b] = (int)(rnd() % 401) - 200;
      for (int n = rnd() % 64; n > 0;) { int i = 1 + rnd() % 63; if (c.coeffs[b + i]) continue; int m = 1 + rnd() % (rnd() % 8 ? 1 + amp / 20 : amp); c.coeffs[b + i] = rnd() % 2 ? m : -m; --n; } }
    return; }
#ifdef FORGE
  if (t[0] == "forge") {  // forge J STREAM APART BITS...
    std::vector<int> bits; for (size_t i = 4; i < t.size(); ++i) bits.push_back(atoi(t[i].c_str()));
    Bytes b; Ev e(w.id, "forge"); e.B("ok", Forge(w.j[t[1]]->j, bits, t[3] == "1", &b)); w.b[t[2]] = b; Emit(e); return; }
#endif
  if (t[0] != "fmt") { fprintf(stderr, "bdrv: unknown op %s\n", t[0].c_str()); _exit(99); }
  // fmt STREAM [FILE]
  const Bytes& b = w.b[t[1]]; Ev e(w.id, "fmt"); e.R("d", Ints((const uint8_t*)b.data(), b.size()));
  bool intact = true; Bytes raw; std::vector<size_t> st, bo; Bounds(b, &st, &bo);
  for (size_t i = 0; i + 1 < st.size(); ++i) if ((uint8_t)b[st[i]] == (3 << 3 | 2)) {
    Bytes body = b.substr(bo[i], st[i + 1] - bo[i]); raw.clear(); intact = true;
    if (body.size() <= 1) { raw = body; continue; }
    uint64_t v = 0; size_t p = 0; bool fin = false; for (int q = 0; q < 9 && p < body.size() && !fin; ++q) { uint8_t c = body[p++]; v |= (uint64_t)(c & 127) << (7 * q); fin = !(c & 128); }
    intact = fin && p < body.size() && v < (1u << 22);
    if (intact) { BrotliDecoderState* s = BrotliDecoderCreateInstance(0, 0, 0); std::vector<uint8_t> o(v + 1); size_t in = body.size() - p, on = v + 1; const uint8_t* ip = (const uint8_t*)body.data() + p; uint8_t* op = o.data(); size_t tot = 0;
      intact = BrotliDecoderDecompressStream(s, &in, &ip, &on, &op, &tot) == BROTLI_DECODER_RESULT_SUCCESS && in == 0 && tot == v; BrotliDecoderDestroyInstance(s); if (intact) raw.assign((char*)o.data(), v); } }
  e.R("meta", std::string("{\"intact\":") + (intact ? "true" : "false") + ",\"raw\":" + Ints((const uint8_t*)raw.data(), raw.size()) + "}");
  JPEGData j; std::string img = "{}"; bool israw = false; Bytes file; int ver = 0; std::string dig;
  { Heap h(b); int r = BrunsliDecodeJpeg(h.p, h.n, &j); e.I("st", r);
    if (r == 0) { ver = j.version; if (j.original_jpg) { israw = true; file.assign((const char*)j.original_jpg, j.original_jpg_size); } else img = ImageJson(j); } }
  e.R("img", img); e.B("raw", israw); e.R("file", Ints((const uint8_t*)file.data(), file.size())); e.I("ver", ver);
  bool same = true; std::string diff;
  if (t.size() > 2) { const Bytes& s = w.b[t[2]]; JPEGData o; Heap h(s); if (!ReadJpeg(h.p, h.n, JPEG_READ_ALL, &o)) same = israw && file == s; else if (israw) same = file == s;
    else { // padding bits that are all ones are not kept
      bool z = false; for (int x : o.padding_bits) z |= x != 1; if (!z) o.padding_bits.clear();
      std::string a = ImageJson(o); same = a == img; size_t k = 0; while (k < a.size() && k < img.size() && a[k] == img[k]) ++k; if (!same) diff = a.substr(k < 30 ? 0 : k - 30, 60) + " / " + img.substr(k < 30 ? 0 : k - 30, 60);
      if (same) { Sink k2("full"); same = WriteJpeg(j, JPEGOutput(SinkCb, &k2)) && k2.got == s; if (!same) diff = "the file written"; } } }
  e.B("orig", t.size() > 2); e.B("same", same); e.S("diff", diff); Emit(e);
}
