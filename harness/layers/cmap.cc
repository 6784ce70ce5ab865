// Context maps.
#include "c/dec/bit_reader.h"
#include "c/dec/context_map_decode.h"
#include "c/dec/huffman_decode.h"
#include "c/enc/context_map_encode.h"
#include "harness/layers/common.h"
using namespace brunsli;
void Run(int n) {
  Begin("cmap", n);
  size_t len = Chance(.5) ? 1 + Below(200) : Chance(.8) ? 1 + Below(800) : 1 + Below(4000);
  uint32_t cl = Chance(.2) ? 1 : Chance(.4) ? 2 + Below(6) : 1 + Below(256);
  if (cl > len) cl = len;
  std::vector<uint32_t> m;
  uint32_t seen = 0, last = 0;
  int mode = Below(7);   // 5, 6: runs of lengths at and around the limits of the run codes
  size_t hold = 0;
  for (size_t i = 0; i < len; ++i) {
    size_t left = len - i;
    uint32_t x;
    if (mode >= 5 && hold && cl - seen < left) { --hold; m.push_back(last); continue; }
    if (mode >= 5) { static const size_t R[] = {1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 65, 126, 127, 128, 129, 190, 191, 253, 254, 255, 256, 257, 381, 382, 509}; hold = R[Below(mode == 5 ? 27 : 17)]; }
    if (cl - seen >= left || (seen == 0) || (seen < cl && Chance(mode == 2 ? .01 : .2))) x = seen++;
    else if (mode == 0) x = Below(seen);
    else if (mode == 1) x = Chance(.7) ? last : Below(seen);
    else if (mode == 2) x = Chance(.97) ? last : Below(seen);
    else if (mode == 3) x = i % seen;
    else if (mode >= 5) x = seen > 1 ? (last + 1 + Below(seen - 1)) % seen : 0;
    else x = seen - 1 - i % seen;
    m.push_back(last = x);
  }
  if (Chance(.3) && mode < 2) { uint32_t a = Below(cl), b = Below(cl); for (auto& x : m) if (x == a) x = b; else if (x == b) x = a; }
  std::vector<uint8_t> buf(20000, 0);
  size_t tot;
  { Storage st(buf.data(), buf.size()); EncodeContextMap(m, cl, &st); tot = st.pos; }
  size_t bytes = (tot + 7) / 8;
  BrunsliBitReader br;
  BrunsliBitReaderInit(&br);
  BrunsliBitReaderResume(&br, buf.data(), bytes);
  BrunsliBitReaderSetOptimistic(&br);
  uint32_t nh = 0;
  if (BrunsliBitReaderRead(&br, 1)) { uint32_t k = BrunsliBitReaderRead(&br, 3); nh = k ? BrunsliBitReaderRead(&br, k) + (1u << k) : 1; }
  ++nh;
  bool dok = true;
  std::vector<uint8_t> dm(len, 0);
  if (nh > 1) {
    uint32_t run = BrunsliBitReaderRead(&br, 1) ? BrunsliBitReaderRead(&br, 4) + 1 : 0;
    HuffmanDecodingData hd;
    dok = hd.ReadFromBitStream(nh + run, &br);
    size_t ix = 0;
    dok = dok && DecodeContextMap(hd, run, &ix, &dm, &br) == BRUNSLI_OK;
  }
  dok = dok && BrunsliBitReaderIsHealthy(&br);
  size_t left = BrunsliBitReaderSuspend(&br);
  J j; j.S("id", "cmap-" + std::to_string(n)).S("kind", "cmap").I("n", len).I("cl", cl).A("map", m).A("dec", dm).I("nh", nh).B("dok", dok).I("left", left).I("tot", tot);
  j.A("d", std::vector<int>(buf.begin(), buf.begin() + bytes)).Out();
}
