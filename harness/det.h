// Many calls on the same data in many surroundings (BDRV_EXTRA).
#include <algorithm>
#include <atomic>
#include <mutex>
static void __attribute__((noinline)) Dirty(uint32_t v) {   // leaves different garbage on the stack
  volatile uint32_t a[40000]; for (size_t i = 0; i < 40000; ++i) a[i] = v;
  __asm__ volatile("" : : "r"(a) : "memory");
}
struct Buf {                                                // input at any alignment, exact end; or shared

  uint8_t* m; uint8_t* p; size_t n;
  Buf(const Bytes& b, size_t al) : m((uint8_t*)malloc(b.size() + al + 1 - (b.size() + al > 0))), p(m + al), n(b.size()) { if (n) memcpy(p, b.data(), n); }
  explicit Buf(const Bytes& b) : m(nullptr), p((uint8_t*)b.data()), n(b.size()) {}
  ~Buf() { free(m); }
};
struct DetItem { char kind; Bytes x; std::shared_ptr<JPEGData> j; };
struct DetDec { std::mutex mu; std::unique_ptr<BrunsliDecoder> d; size_t item; uint64_t sch, r; size_t pos; Bytes pend; Id made; long n; std::string name; bool done; };
struct DetRec { long seq; std::string s; };
static std::string Q(const std::string& s) { return "\"" + s + "\""; }

static std::string DetCall(const std::string& k, const DetItem& it, uint32_t rnd, std::string* key, bool* kept, std::string* res) {
  const Bytes& x = it.x; std::unique_ptr<Buf> hb(rnd % 5 ? new Buf(x, rnd % 16) : new Buf(x)); Buf& h = *hb; *kept = true; std::string route = k; *key = k;
  auto out = [&](bool ok, const Bytes& b) { *res = ok ? "ok:" + Hash(b) : "no"; };
  JPEGData j; Sink s("full");
  if (k == "cenc") { *key = "encode"; out(EncodeBrunsli(h.n, h.p, &s, SinkCb) == 1, s.got); }
  else if (k == "enc" || k == "enc2" || k == "enc0") {
    *key = k == "enc0" ? "encode0" : "encode"; *res = "no";
    if (ReadJpeg(h.p, h.n, JPEG_READ_ALL, &j)) {
      if (k == "enc0") j.version = 0;
      std::string d0 = DigestHash(j); int v0 = j.version; Bytes o; bool ok = true;
      for (int r = 0; ok && r < (k == "enc2" ? 2 : 1); ++r) { size_t n = GetMaximumBrunsliEncodedSize(j); uint8_t* p = (uint8_t*)malloc(n + 1); memset(p, (int)(rnd >> 8), n + 1); ok = BrunsliEncodeJpeg(j, p, &n); if (ok) o.assign((char*)p, n); free(p); Dirty(rnd); }
      *kept = DigestHash(j) == d0 && j.version == v0; out(ok, o); } }
  else if (k == "encs" || k == "writes") {   // the parsed image is shared by all threads
    *key = k == "encs" ? "encode" : "write"; *res = "no";
    if (it.j) { Bytes o; bool ok;
      if (k == "encs") { size_t n = GetMaximumBrunsliEncodedSize(*it.j); uint8_t* p = (uint8_t*)malloc(n + 1); ok = BrunsliEncodeJpeg(*it.j, p, &n); if (ok) o.assign((char*)p, n); free(p); }
      else { ok = WriteJpeg(*it.j, JPEGOutput(SinkCb, &s)); o = s.got; }
      out(ok, o); } }
  else if (k == "readH" || k == "readT" || k == "readA") { bool ok = ReadJpeg(h.p, h.n, k == "readH" ? JPEG_READ_HEADER : k == "readT" ? JPEG_READ_TABLES : JPEG_READ_ALL, &j); *res = (ok ? "ok" : "no") + std::to_string((int)j.error) + ":" + (ok ? DigestHash(j) : ""); }
  else if (k == "write") { *res = "no"; if (ReadJpeg(h.p, h.n, JPEG_READ_ALL, &j)) { std::string d0 = DigestHash(j); bool ok = WriteJpeg(j, JPEGOutput(SinkCb, &s)); Dirty(rnd); Sink s2("full"); bool ok2 = WriteJpeg(j, JPEGOutput(SinkCb, &s2)); *kept = DigestHash(j) == d0 && ok == ok2 && s.got == s2.got; out(ok, s.got); } }
  else if (k == "bypass") { size_t n = GetBrunsliBypassSize(h.n); uint8_t* p = (uint8_t*)malloc(n + 1); memset(p, (int)rnd, n + 1); bool ok = BrunsliEncodeJpegBypass(h.p, h.n, p, &n); out(ok, ok ? Bytes((char*)p, n) : Bytes()); free(p); }
  else if (k == "cdec") { *key = "decode"; bool ok = DecodeBrunsli(h.n, h.p, &s, SinkCb) == 1; out(ok, s.got); }
  else if (k == "dec") { *key = "decode"; BrunsliStatus st = BrunsliDecodeJpeg(h.p, h.n, &j); bool ok = st == BRUNSLI_OK && WriteJpeg(j, JPEGOutput(SinkCb, &s)); out(ok, s.got); }
  else if (k == "status") { BrunsliStatus st = BrunsliDecodeJpeg(h.p, h.n, &j); *res = std::to_string((int)st); if (st == BRUNSLI_OK && !j.original_jpg) *res += DigestHash(j); }
  else if (k == "stream") { *key = "decode"; Quick q = QuickStream(x, 2 * (rnd % 2), rnd); if (q.whole) *key = ""; *res = q.st == 3 ? "ok:" + q.hash : q.st == 9 ? "stuck" : "no"; }
  else if (k == "est") { *res = std::to_string(BrunsliEstimateDecoderPeakMemoryUsage(h.p, h.n)); }
  else if (k == "isbrn") { *res = IsBrunsli(h.p, h.n) ? "1" : "0"; }
  if (x.size() && memcmp(h.p, x.data(), x.size())) *kept = false;
  return route;
}

static void ExtraOp(World& w, const std::vector<std::string>& t) {
  if (t[0] != "det") { fprintf(stderr, "bdrv: unknown op %s\n", t[0].c_str()); _exit(99); }
  // det FILE SEED THREADS CALLS DECODERS : FILE holds records of a kind byte, a 4 byte length and bytes
  const Bytes all = ReadFile(t[1]); uint64_t seed = strtoull(t[2].c_str(), 0, 10); int nt = atoi(t[3].c_str()); long calls = atol(t[4].c_str()); int nd = atoi(t[5].c_str());
  std::vector<DetItem> items; for (size_t p = 0; p + 5 <= all.size();) { char k = all[p]; uint32_t n; memcpy(&n, all.data() + p + 1, 4); items.push_back({k, all.substr(p + 5, n), nullptr}); p += 5 + n; }
  std::vector<size_t> brn; for (size_t i = 0; i < items.size(); ++i) if (items[i].kind == 'b') brn.push_back(i);
  std::vector<std::string> dig; for (auto& i : items) if (i.kind == 'j') { i.j.reset(new JPEGData()); if (!ReadJpeg((const uint8_t*)i.x.data(), i.x.size(), JPEG_READ_ALL, i.j.get())) i.j.reset(); } for (auto& i : items) dig.push_back(i.j ? DigestHash(*i.j) : "");
  Fnv("x", 1); if (brn.empty()) nd = 0;
  std::vector<std::unique_ptr<DetDec>> ds; for (int i = 0; i < nd; ++i) ds.emplace_back(new DetDec());
  std::atomic<long> seq(0), names(0); std::vector<std::vector<DetRec>> rec(nt);
  auto work = [&](int th) {
    uint64_t r = (seed * 1000003 + th + 1) * 0x9e3779b97f4a7c15ull; auto rnd = [&]() { r ^= r << 13; r ^= r >> 7; r ^= r << 17; return (uint32_t)(r >> 13); };
    for (int i = 0; i < 10; ++i) rnd();
    static const char* const J[] = {"cenc", "enc", "enc2", "enc0", "readH", "readT", "readA", "write", "bypass", "cenc", "encs", "writes"};
    static const char* const B[] = {"cdec", "dec", "status", "stream", "est", "isbrn", "cdec", "stream", "est", "status"};
    for (long c = 0; c < calls; ++c) {
      if (rnd() % 3) Dirty(rnd());
      if (nd && rnd() % 10 < 7) {
        DetDec& d = *ds[rnd() % nd]; std::lock_guard<std::mutex> g(d.mu);
        if (!d.d || d.done || rnd() % 40 == 0) {
          d.d.reset(); Dirty(rnd()); d.d.reset(new BrunsliDecoder()); d.item = brn[rnd() % brn.size()]; d.sch = rnd() % 2; d.r = d.sch * 7919 + items[d.item].x.size() * 31 + 1; for (int i = 0; i < 9; ++i) { d.r ^= d.r << 13; d.r ^= d.r >> 7; d.r ^= d.r << 17; }
          d.pos = 0; d.pend.clear(); d.made = Id(); d.n = 0; d.done = false; d.name = std::to_string(names++); }
        for (int burst = 1 + rnd() % 3; burst-- && !d.done;) {
          const Bytes& x = items[d.item].x; d.r ^= d.r << 13; d.r ^= d.r >> 7; d.r ^= d.r << 17; uint32_t q = d.r >> 17;
          size_t add = d.n > 24 ? x.size() : q % 7 == 0 ? 0 : q % 7 < 3 ? q / 7 % 8 : q % 7 < 6 ? q / 7 % 200 : q / 7 % (x.size() + 1), oc = d.n > 24 ? 1u << 20 : q / 1000 % 5 == 0 ? 0 : q / 5000 % 600;
          add = std::min(add, x.size() - d.pos); d.pend += x.substr(d.pos, add); d.pos += add;
          Buf in(d.pend, rnd() % 16); Bytes before = d.pend; uint8_t* ob = (uint8_t*)malloc(oc ? oc : 1); memset(ob, (int)rnd(), oc); size_t ai = in.n, ao = oc; const uint8_t* ni = in.p; uint8_t* no = ob;
          int st = d.d->Decode(&ai, &ni, &ao, &no); size_t used = in.n - ai, made = oc - ao; if (ai > in.n || ao > oc) { used = made = 0; st = 8; }
          bool kept = !memcmp(in.p, before.data(), before.size()); d.made.Add(ob, made); free(ob); d.pend.erase(0, used);
          std::ostringstream o; o << "{\"op\":\"f\",\"i\":" << d.item << ",\"sch\":" << d.sch << ",\"d\":\"" << d.name << "\",\"n\":" << d.n << ",\"a\":[" << add << "," << oc << "],\"res\":\"" << st << " " << used << " " << made << " " << Hex(d.made.Get()) << "\",\"kept\":" << (kept ? "true" : "false");
          rec[th].push_back({seq++, o.str()}); ++d.n; if (st >= 2 || d.n > 60) d.done = true; }
      } else {
        size_t i = rnd() % items.size(); std::string k = items[i].kind == 'j' ? J[rnd() % 12] : B[rnd() % 10], key, res; bool kept; DetCall(k, items[i], rnd(), &key, &kept, &res);
        if (key.empty()) continue;
        std::ostringstream o; o << "{\"op\":\"r\",\"i\":" << i << ",\"key\":" << Q(key) << ",\"route\":" << Q(k) << ",\"res\":" << Q(res) << ",\"kept\":" << (kept ? "true" : "false"); rec[th].push_back({seq++, o.str()});
      }
    }
  };
  if (nt <= 1) work(0); else { std::vector<std::thread> v; for (int i = 0; i < nt; ++i) v.emplace_back(work, i); for (auto& x : v) x.join(); }
  for (size_t i = 0; i < items.size(); ++i) if (items[i].j) { std::ostringstream o; o << "{\"op\":\"r\",\"i\":" << i << ",\"key\":\"shared\",\"route\":\"shared\",\"res\":\"\",\"kept\":" << (DigestHash(*items[i].j) == dig[i] ? "true" : "false"); rec[0].push_back({seq++, o.str()}); }
  std::vector<DetRec> a; for (auto& v : rec) a.insert(a.end(), v.begin(), v.end());
  std::sort(a.begin(), a.end(), [](const DetRec& x, const DetRec& y) { return x.seq < y.seq; });
  for (auto& x : a) { Ev e(w.id, ""); e.o.str(""); e.o << x.s.substr(0, 1) << "\"case\":\"" << w.id << "\"," << x.s.substr(1); Emit(e); }
}
