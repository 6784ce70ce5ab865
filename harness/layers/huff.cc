// Prefix codes: length tables built, written, read back, and used.
#include "c/dec/bit_reader.h"
#include "c/dec/huffman_decode.h"
#include "c/enc/huffman_encode.h"
#include "harness/layers/common.h"
using namespace brunsli;
static std::vector<uint32_t> Hist(int len) {
  std::vector<uint32_t> h(len, 0);
  switch (Below(8)) {
    case 0: h[Below(len)] = 1 + Below(1000); break;
    case 1: { int k = 2 + Below(4); while (k--) h[Below(len)] = 1 + Below(1 << Below(16)); break; }
    case 2: { uint32_t a = 1, b = 1; int k = 1 + Below(len); for (int i = 0; i < k && i < len; ++i) { h[i] = a; uint32_t c = a + b; a = b; b = c; if (b > 200000000u) a = b = 1; } break; }
    case 3: for (auto& x : h) x = 1; break;
    case 4: for (auto& x : h) x = Below(3) ? 0 : 1 + Below(1 << Below(20)); break;
    case 5: { int i = 0; while (i < len) { int r = 1 + Below(40); uint32_t x = Chance(.5) ? 0 : 1u << Below(14); while (r-- && i < len) h[i++] = x; } break; }
    case 6: for (int i = 0; i < len; ++i) h[i] = 1u << (i % 28); break;
    default: for (auto& x : h) x = Below(1 << Below(12));
  }
  bool any = false; for (auto x : h) any |= x != 0;
  if (!any) h[Below(len)] = 1;
  return h;
}
void Run(int n) {
  Begin("huff", n);
  int len = Chance(.2) ? 2 + Below(4) : Chance(.3) ? 250 + Below(23) : 2 + Below(271);
  std::vector<uint32_t> h = Hist(len);
  std::vector<uint8_t> depth(272, 0);
  std::vector<uint16_t> code(272, 0);
  std::vector<uint8_t> buf(4096, 0);
  std::vector<uint32_t> used, syms, dec;
  for (int i = 0; i < len; ++i) if (h[i]) used.push_back(i);
  size_t tb, tot;
  {
    Storage st(buf.data(), buf.size());
    BuildAndStoreHuffmanTree(h.data(), len, depth.data(), code.data(), &st);
    tb = st.pos;
    int k = Below(120);
    for (int i = 0; i < k; ++i) { uint32_t s = used[Below(used.size())]; syms.push_back(s); WriteBits(depth[s], code[s], &st); }
    if (used.size() < 40) for (auto s : used) { syms.push_back(s); WriteBits(depth[s], code[s], &st); }
    tot = st.pos;
  }
  size_t bytes = (tot + 7) / 8;
  BrunsliBitReader br;
  BrunsliBitReaderInit(&br);
  BrunsliBitReaderResume(&br, buf.data(), bytes);
  HuffmanDecodingData hd;
  bool dok = hd.ReadFromBitStream(len, &br);
  for (size_t i = 0; dok && i < syms.size(); ++i) dec.push_back(hd.ReadSymbol(&br));
  dok = dok && BrunsliBitReaderIsHealthy(&br);
  size_t left = BrunsliBitReaderSuspend(&br);
  std::vector<int> pos;
  for (auto s : syms) pos.push_back(depth[s]);
  J j; j.S("id", "huff-" + std::to_string(n)).S("kind", "huff").I("n", len).A("used", used).A("syms", syms).A("dec", dec).B("dok", dok).I("left", left);
  j.I("tb", tb).I("tot", tot).A("depth", pos).A("d", std::vector<int>(buf.begin(), buf.begin() + bytes)).Out();
}
