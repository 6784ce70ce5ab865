// Symbol frequencies, normalised by the encoder.
#include "c/dec/bit_reader.h"
#include "c/dec/histogram_decode.h"
#include "c/enc/ans_encode.h"
#include "harness/layers/common.h"
using namespace brunsli;
void Run(int n) {
  Begin("hist", n);
  int h[BRUNSLI_ANS_MAX_SYMBOLS] = {0};
  const int N = BRUNSLI_ANS_MAX_SYMBOLS;
  switch (n % 9) {
    case 0: h[Below(N)] = 1 + Below(1 << Below(24)); break;
    case 1: { int k = 2; while (k--) h[Below(N)] = 1 + Below(1 << Below(24)); break; }
    case 2: { int k = 3 + Below(2); while (k--) h[Below(N)] = 1 + Below(1 << Below(24)); break; }
    case 3: for (auto& x : h) x = 1 + Below(3); break;
    case 4: for (auto& x : h) x = 1; h[Below(N)] = 1 << Below(29); break;
    case 5: for (auto& x : h) x = Chance(.6) ? Below(1 << Below(24)) : 0; break;
    case 6: for (int i = 0; i < N; ++i) h[i] = 1 << (i % 17); break;
    case 7: for (int i = 0, l = 3 + Below(N - 2); i < l; ++i) h[i] = 1 + Below(1000); break;
    default: { int b = 1 << Below(20); for (auto& x : h) x = Chance(.5) ? b + Below(3) - (b > 1) : Chance(.2); }
  }
  bool any = false; for (int x : h) any |= x > 0;
  if (!any) h[Below(N)] = 1;
  std::vector<uint8_t> buf(256, 0);
  size_t tot;
  ANSTable t;
  { Storage st(buf.data(), buf.size()); BuildAndStoreANSEncodingData(h, &t, &st); tot = st.pos; }
  size_t bytes = (tot + 7) / 8;
  std::vector<int> freq, start;
  for (int i = 0; i < N; ++i) { freq.push_back(t.info_[i].freq_); start.push_back(t.info_[i].start_); }
  BrunsliBitReader br;
  BrunsliBitReaderInit(&br);
  BrunsliBitReaderResume(&br, buf.data(), bytes);
  std::vector<uint32_t> dec(N, 0);
  bool dok = ReadHistogram(BRUNSLI_ANS_LOG_TAB_SIZE, &dec, &br) && BrunsliBitReaderIsHealthy(&br);
  size_t left = BrunsliBitReaderSuspend(&br);
  J j; j.S("id", "hist-" + std::to_string(n)).S("kind", "hist").A("h", h).A("freq", freq).A("start", start).A("dec", dec).B("dok", dok).I("left", left).I("tot", tot);
  j.A("d", std::vector<int>(buf.begin(), buf.begin() + bytes)).Out();
}
