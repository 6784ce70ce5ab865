// Adaptive probabilities.
#include "c/common/distributions.h"
#include "harness/layers/common.h"
using namespace brunsli;
void Run(int n) {
  Begin("prob", n);
  Prob p;
  int init = -1;
  if (n % 5) { init = n % 256; p.Init(init); }
  int first = p.get_proba();
  double q = (n / 3) % 3 == 0 ? 0 : (n / 3) % 3 == 1 ? 1 : Rnd() / 4294967296.0;
  int len = n % 7 == 0 ? 700 : 1 + Below(300);
  std::vector<int> bits, pr;
  for (int i = 0; i < len; ++i) { if (Chance(.01)) q = Rnd() / 4294967296.0; int b = Chance(q); bits.push_back(b); p.Add(b); pr.push_back(p.get_proba()); }
  J j; j.S("id", "prob-" + std::to_string(n)).S("kind", "prob").I("init", init).I("first", first).A("bits", bits).A("pr", pr).Out();
}
