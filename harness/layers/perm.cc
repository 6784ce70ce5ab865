// Permutations: Lehmer codes and the coder of Huffman value lists.
#include "c/common/lehmer_code.h"
#include "harness/layers/common.h"
using namespace brunsli;
void Run(int n) {
  Begin("perm", n);
  size_t len = n < 160 ? (n < 1 ? 1 : n < 7 ? 3 : n < 31 ? 4 : n < 151 ? 5 : 2) : Chance(.3) ? 15 + Below(3) : Chance(.5) ? 64 : 1 + Below(64);
  std::vector<uint32_t> p(len), code(len), back(len);
  for (size_t i = 0; i < len; ++i) p[i] = i;
  int m = n < 160 ? 0 : Below(4);
  if (n < 160) { int k = n < 1 ? 0 : n < 7 ? n - 1 : n < 31 ? n - 7 : n < 151 ? n - 31 : n - 151; while (k--) std::next_permutation(p.begin(), p.end()); }
  else if (m == 0) std::reverse(p.begin(), p.end());
  else if (m == 1) { int k = Below(4); while (k--) std::swap(p[Below(len)], p[Below(len)]); }
  else for (size_t i = len; i > 1; --i) std::swap(p[i - 1], p[Below(i)]);
  ComputeLehmerCode(p.data(), len, code.data());
  bool ok = DecodeLehmerCode(code.data(), len, back.data());
  // a code that may not be one
  std::vector<uint32_t> bad = code, bb(len);
  if (Chance(.5)) bad[Below(len)] += 1 + Below(3); else { size_t i = Below(len); bad[i] = len - i; }
  bool bok = DecodeLehmerCode(bad.data(), len, bb.data());
  if (!bok) bb.assign(1, 0);
  // a list of values written by their places
  std::vector<uint8_t> vals(len);
  for (size_t i = 0; i < len; ++i) vals[i] = (i * 37 + n) & 255;
  PermutationCoder e, d;
  e.Init(vals); d.Init(vals);
  std::vector<int> pc, nb, nbd, back2;
  size_t take = Below(len + 1);
  bool pok = true;
  for (size_t i = 0; i < take; ++i) {
    int c = -1, b = -1; uint8_t v = 0;
    pok = pok && e.RemoveValue(vals[p[i]], &c, &b);
    nbd.push_back(d.num_bits());
    pok = pok && d.Remove(c, &v);
    pc.push_back(c); nb.push_back(b); back2.push_back(v);
  }
  int c, b; uint8_t v = 0;
  bool miss = e.RemoveValue((255 * 37 + n) & 255, &c, &b);       // never in the list
  bool out = d.Remove(len - take, &v);
  J j; j.S("id", "perm-" + std::to_string(n)).S("kind", "perm").I("n", len).A("p", p).A("code", code).B("ok", ok).A("back", back).A("bad", bad).B("bok", bok).A("bb", bb);
  j.A("vals", vals).A("pc", pc).A("nb", nb).A("nbd", nbd).A("back2", back2).B("pok", pok).B("miss", miss).B("out", out).Out();
}
