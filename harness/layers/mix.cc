// The multiplexed stream of symbols, plain bits and arithmetic bits.
#include <memory>
#include "c/common/context.h"
#include "c/common/distributions.h"
#include "c/dec/ans_decode.h"
#include "c/dec/arith_decode.h"
#include "c/dec/bit_reader.h"
#include "c/dec/context_map_decode.h"
#include "c/dec/histogram_decode.h"
#include "c/dec/huffman_decode.h"
#include "c/dec/brunsli_input.h"
#include "c/enc/state.h"
#include "harness/layers/common.h"
using namespace brunsli;
using namespace brunsli::internal::enc;
void Run(int n) {
  Begin("mix", n);
  const int bands = 1 + Below(3), np = 6;
  std::vector<std::vector<int>> ops;   // [0, prob, bit] [1, nbits, value] [2, context, symbol]
  std::vector<Prob> pe(np), pd(np);
  std::vector<int> init;
  for (int i = 0; i < np; ++i) { int x = Chance(.5) ? 134 : Chance(.3) ? Below(3) : 1 + Below(255); init.push_back(x); pe[i].Init(x); pd[i].Init(x); }
  int len = n % 11 == 0 ? 0 : n % 11 == 1 ? Below(4) : Chance(.8) ? Below(300) : Below(1500);
  double wa = Rnd() / 4294967296.0, wb = Rnd() / 4294967296.0, wc = Chance(.2) ? 0 : Rnd() / 4294967296.0, tot = wa + wb + wc;
  double bias = Chance(.3) ? 0 : Chance(.4) ? 1 : Rnd() / 4294967296.0;
  int top = Chance(.3) ? 1 : Chance(.3) ? 2 + Below(3) : 18;
  EntropySource src;
  src.Resize(bands);
  DataStream ds;
  ds.Resize(1000);
  for (int i = 0; i < len; ++i) {
    ds.ResizeForBlock();
    double x = Rnd() / 4294967296.0 * tot;
    if (Chance(.01)) bias = Chance(.5) ? Chance(.5) : Rnd() / 4294967296.0;
    if (x < wa) { int p = Below(np), b = Chance(bias); ops.push_back({0, p, b}); ds.AddBit(&pe[p], b); }
    else if (x < wa + wb) { int k = Chance(.3) ? 15 - Below(2) : 1 + Below(15); int v = Rnd() & ((1 << k) - 1); if (Chance(.2)) v = (1 << k) - 1; ops.push_back({1, k, v}); ds.AddBits(k, v); }
    else { int b = Below(bands), c = Below(kNumAvrgContexts), s = Chance(.8) ? (Below(top) * (Chance(.5))) : Below(top); ops.push_back({2, (int)(b * kNumAvrgContexts + c), s}); ds.AddCode(s, b, c, &src); }
  }
  std::vector<size_t> off(1, 0);
  if (bands > 1 && Chance(.5)) off.push_back(1);
  std::unique_ptr<EntropyCodes> codes = src.Finish(off);
  std::vector<uint8_t> hb(20000, 0), buf(40000, 0);
  size_t htot, tb;
  { Storage st(hb.data(), hb.size()); codes->EncodeContextMap(&st); codes->BuildAndStoreEntropyCodes(&st); htot = st.pos; }
  { Storage st(buf.data(), buf.size()); ds.EncodeCodeWords(codes.get(), &st); tb = st.GetBytesUsed(); }
  size_t hbytes = (htot + 7) / 8;
  // the real decoder's pieces
  BrunsliBitReader br;
  BrunsliBitReaderInit(&br);
  BrunsliBitReaderResume(&br, hb.data(), hbytes);
  BrunsliBitReaderSetOptimistic(&br);
  uint32_t nh = 0;
  if (BrunsliBitReaderRead(&br, 1)) { uint32_t k = BrunsliBitReaderRead(&br, 3); nh = k ? BrunsliBitReaderRead(&br, k) + (1u << k) : 1; }
  ++nh;
  bool dok = true;
  std::vector<uint8_t> cm(bands * kNumAvrgContexts, 0);
  if (nh > 1) {
    uint32_t run = BrunsliBitReaderRead(&br, 1) ? BrunsliBitReaderRead(&br, 4) + 1 : 0;
    HuffmanDecodingData hd;
    dok = hd.ReadFromBitStream(nh + run, &br);
    size_t ix = 0;
    dok = dok && DecodeContextMap(hd, run, &ix, &cm, &br) == BRUNSLI_OK;
  }
  std::vector<std::unique_ptr<ANSDecodingData>> tabs;
  for (uint32_t i = 0; dok && i < nh; ++i) {
    std::vector<uint32_t> c(BRUNSLI_ANS_MAX_SYMBOLS);
    tabs.emplace_back(new ANSDecodingData);
    dok = ReadHistogram(BRUNSLI_ANS_LOG_TAB_SIZE, &c, &br) && tabs.back()->Init(c);
  }
  std::vector<int> dec;
  bool dend = false;
  if (dok) {
    WordSource in(buf.data(), tb, true);
    ANSDecoder ans; BitSource bs; BinaryArithmeticDecoder ac;
    ans.Init(&in); bs.Init(&in); ac.Init(&in);
    for (auto& o : ops) {
      if (o[0] == 0) { int b = ac.ReadBit(pd[o[1]].get_proba(), &in); pd[o[1]].Add(b); dec.push_back(b); }
      else if (o[0] == 1) dec.push_back(bs.ReadBits(o[1], &in));
      else dec.push_back(ans.ReadSymbol(*tabs[cm[o[1]]], &in));
    }
    dend = ans.CheckCRC() && bs.Finish() && !in.error_ && in.pos_ == tb;
  }
  J j; j.S("id", "mix-" + std::to_string(n)).S("kind", "mix").I("n", bands * kNumAvrgContexts).A("init", init).AA("ops", ops).A("dec", dec).B("dok", dok).B("dend", dend).I("htot", htot);
  j.A("h", std::vector<int>(hb.begin(), hb.begin() + hbytes)).A("d", std::vector<int>(buf.begin(), buf.begin() + tb)).Out();
}
