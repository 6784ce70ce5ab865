// Bit writer (both of its paths) and bit reader, in pieces and in one go.
#include "c/dec/bit_reader.h"
#include "c/enc/write_bits.h"
#include "harness/layers/common.h"
using namespace brunsli;
void Run(int n) {
  Begin("bits", n);
  std::vector<uint32_t> w, v;   // chunks of at most 24 bits
  size_t total = 0;
  int items = 1 + Below(60);
  std::vector<std::pair<int, uint64_t>> wr;
  for (int i = 0; i < items; ++i) {
    int k = Chance(.3) ? Below(4) : Chance(.3) ? 56 - Below(3) : Below(57);
    uint64_t x = ((uint64_t)Rnd() << 32 | Rnd());
    int r = Below(4);
    if (r == 0) x = 0; else if (r == 1) x = ~0ull;
    x &= (1ull << k) - 1;
    wr.push_back({k, x});
    total += k;
    int left = k;
    while (left > 0) { int c = left > 24 ? 1 + Below(24) : left; w.push_back(c); v.push_back(x & ((1u << c) - 1)); x >>= c; left -= c; }
  }
  size_t need = (total + 7) / 8;
  size_t cap = Chance(.3) ? need : Chance(.3) ? need + Below(9) : Chance(.5) ? need + 64 : Below(need + 1);
  uint8_t* buf = new uint8_t[cap];
  for (size_t i = 0; i < cap; ++i) buf[i] = 0xA5;
  size_t used, pos; bool ok;
  {
    Storage st(buf, cap);
    for (auto& p : wr) WriteBits(p.first, p.second, &st);
    ok = st.IsHealthy(); used = st.GetBytesUsed(); pos = st.pos;
  }
  std::vector<uint32_t> dec;
  bool dok = false; size_t left = 0, stop = Chance(.3) ? Below(w.size() + 1) : w.size();
  if (ok && used <= cap) {
    BrunsliBitReader br;
    BrunsliBitReaderInit(&br);
    size_t at = 0, end = Chance(.5) ? used : Below(used + 1);
    BrunsliBitReaderResume(&br, buf, end);
    for (size_t i = 0; i < stop; ++i) {
      if (end == used && Chance(.1)) BrunsliBitReaderSetOptimistic(&br);
      if (!BrunsliBitReaderCanRead(&br, w[i])) {
        size_t un = BrunsliBitReaderSuspend(&br);
        at = end - un;
        end = at + Below(used - at + 1);
        BrunsliBitReaderResume(&br, buf + at, end - at);
        --i; continue;
      }
      if (Chance(.2)) BrunsliBitReaderGet(&br, w[i]);
      dec.push_back(BrunsliBitReaderRead(&br, w[i]));
      if (Chance(.15)) BrunsliBitReaderGet(&br, 1 + Below(24));   // a peek that is not followed up
      if (Chance(.1)) { size_t un = BrunsliBitReaderSuspend(&br); at = end - un; end = Chance(.7) ? end : used; BrunsliBitReaderResume(&br, buf + at, end - at); }
    }
    size_t un = BrunsliBitReaderSuspend(&br);
    left = used - (end - un);
    BrunsliBitReaderFinish(&br);
    dok = BrunsliBitReaderIsHealthy(&br);
  }
  J j; j.S("id", "bits-" + std::to_string(n)).S("kind", "bits").A("w", w).A("v", v).I("cap", cap).B("ok", ok).I("used", used).I("pos", pos);
  j.A("d", std::vector<int>(buf, buf + (ok && used <= cap ? used : 0))).A("dec", dec).B("dok", dok).I("left", left).I("stop", stop).Out();
  delete[] buf;
}
