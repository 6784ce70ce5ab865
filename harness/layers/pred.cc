// Block prediction and stock quantisation tables.
#include "c/common/predict.h"
#include "c/common/quant_matrix.h"
#include "harness/layers/common.h"
using namespace brunsli;
void Run(int n) {
  Begin("pred", n);
  if (n < 128) {
    uint8_t t[64];
    FillQuantMatrix(n & 1, n >> 1, t);
    J j; j.S("id", "pred-" + std::to_string(n)).S("kind", "quant").I("chroma", n & 1).I("q", n >> 1).A("t", std::vector<int>(t, t + 64)).Out();
    return;
  }
  if (n % 2) {
    int src[64]; uint8_t t[64]; bool ch = Chance(.5);
    FillQuantMatrix(ch, Below(64), t);
    for (int i = 0; i < 64; ++i) src[i] = Chance(.5) ? t[i] : Chance(.5) ? 1 + Below(255) : 1 + Below(65535);
    if (Chance(.5)) for (int i = 0; i < 64; ++i) src[i] = t[i];
    uint32_t q = FindBestMatrix(src, ch, t);
    J j; j.S("id", "pred-" + std::to_string(n)).S("kind", "quant").I("chroma", ch).I("q", q).A("t", std::vector<int>(t, t + 64)).Out();
    return;
  }
  int w = 2 + Below(4), h = 2 + Below(4);
  std::vector<coeff_t> a(w * h * 64, 0);
  std::vector<int> dc, pr;
  int m = Below(3);
  for (int i = 0; i < w * h; ++i) { int v = m == 0 ? (int)Below(5) - 2 : m == 1 ? (int)Below(4095) - 2047 : Chance(.5) ? -32768 + (int)Below(3) : 32767 - (int)Below(3); a[i * 64] = v; dc.push_back(v); for (int k = 1; k < 64; ++k) a[i * 64 + k] = Rnd(); }
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) pr.push_back(PredictWithAdaptiveMedian(&a[(y * w + x) * 64], x, y, w * 64));
  J j; j.S("id", "pred-" + std::to_string(n)).S("kind", "pred").I("bw", w).I("bh", h).A("dc", dc).A("pr", pr).Out();
}
