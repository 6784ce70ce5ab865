// Conformance driver: executes scripted histories of public brunsli API calls
// against the code in /repo and records one JSON event per call.
//
// Script:   case ID / <op lines> / end
// Every case runs in a forked child, so that an abort, a sanitizer report, a
// time-out or a memory blow-up is itself a recorded event ("crash").
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include <brotli/decode.h>
#include <brotli/encode.h>
#include <brunsli/brunsli_decode.h>
#include <brunsli/brunsli_encode.h>
#include <brunsli/decode.h>
#include <brunsli/encode.h>
#include <brunsli/jpeg_data.h>
#include <brunsli/jpeg_data_reader.h>
#include <brunsli/jpeg_data_writer.h>

using namespace brunsli;
typedef std::string Bytes;

// 64-bit content identity: crc32 in the high half, adler32 in the low half.
struct Id {
  uint32_t c = 0xffffffffu, a = 1, b = 0;
  void Add(const void* p, size_t n) {
    static uint32_t tab[256]; static bool init = false;
    if (!init) { for (uint32_t i = 0; i < 256; ++i) { uint32_t x = i; for (int k = 0; k < 8; ++k) x = x & 1 ? 0xedb88320u ^ (x >> 1) : x >> 1; tab[i] = x; } init = true; }
    const uint8_t* q = static_cast<const uint8_t*>(p);
    for (size_t i = 0; i < n; ++i) { c = tab[(c ^ q[i]) & 255] ^ (c >> 8); a += q[i]; if (a >= 65521) a -= 65521; b += a; if (b >= 65521) b -= 65521; }
  }
  uint64_t Get() const { return ((uint64_t)(c ^ 0xffffffffu) << 32) | (b << 16 | a); }
};
static uint64_t Fnv(const void* p, size_t n) { Id i; i.Add(p, n); return i.Get(); }
static std::string Hex(uint64_t h) {
  char s[24]; snprintf(s, sizeof s, "%016llx", (unsigned long long)h); return s;
}
static std::string Hash(const Bytes& b) {
  return Hex(Fnv(b.data(), b.size())) + "_" + std::to_string(b.size());
}

struct Ev {
  std::ostringstream o; bool first = true;
  Ev(const std::string& id, const std::string& op) { o << "{"; S("case", id); S("op", op); }
  void K(const char* k) { if (!first) o << ","; first = false; o << "\"" << k << "\":"; }
  void S(const char* k, const std::string& v) {
    K(k); o << "\"";
    for (char c : v) { if (c == '"' || c == '\\') o << '\\'; if ((uint8_t)c < 32) c = ' '; o << c; }
    o << "\"";
  }
  void I(const char* k, long long v) {
    // TLC integers are 32 bit: clamp what is logged.
    if (v > 2000000000) v = 2000000000; if (v < -2000000000) v = -2000000000;
    K(k); o << v; }
  void B(const char* k, bool v) { K(k); o << (v ? "true" : "false"); }
  void R(const char* k, const std::string& raw) { K(k); o << raw; }
};
static int out_fd = 1;
static void Emit(Ev& e) {
  e.o << "}\n"; std::string s = e.o.str();
  size_t p = 0;
  while (p < s.size()) { ssize_t n = write(out_fd, s.data() + p, s.size() - p); if (n <= 0) { if (errno == EINTR) continue; _exit(97);} p += n; }
}

// Exact-size heap copy (so that ASan sees any overrun).
struct Heap {
  uint8_t* p; size_t n;
  explicit Heap(const Bytes& b) : p((uint8_t*)malloc(b.size() ? b.size() : 1)), n(b.size()) {
    if (n) memcpy(p, b.data(), n);
    if (!n) { free(p); p = (uint8_t*)malloc(0 + 1); }
  }
  ~Heap() { free(p); }
};

static Bytes ReadFile(const std::string& path) {
  Bytes r; FILE* f = fopen(path.c_str(), "rb"); if (!f) { fprintf(stderr, "bdrv: cannot open %s\n", path.c_str()); exit(99); }
  char buf[65536]; size_t n; while ((n = fread(buf, 1, sizeof buf, f)) > 0) r.append(buf, n); fclose(f); return r;
}
static void WriteFile(const std::string& path, const Bytes& b) {
  FILE* f = fopen(path.c_str(), "wb"); if (!f) { fprintf(stderr, "bdrv: cannot create %s\n", path.c_str()); exit(99); }
  fwrite(b.data(), 1, b.size(), f); fclose(f);
}

// ---------------------------------------------------------------- sinks
// A sink specification: "full" accepts everything; "fail:K:R" accepts all
// bytes until call number K (0 based), at which it consumes R bytes and
// returns R; "cap:N" accepts up to N bytes in total; "all0" returns 0;
// "over:K" returns size+1 at call K.
struct Sink {
  std::string kind; long k = -1, r = 0; size_t cap = 0;
  long calls = 0; long after = 0; bool refused = false; Bytes got; std::vector<size_t> sizes;
  bool bad_zero = false;
  explicit Sink(const std::string& s) {
    size_t c = s.find(':'); kind = s.substr(0, c);
    if (c != std::string::npos) {
      size_t d = s.find(':', c + 1);
      long a = atol(s.substr(c + 1, d - c - 1).c_str());
      if (kind == "cap") cap = a; else k = a;
      if (d != std::string::npos) r = atol(s.substr(d + 1).c_str());
    }
  }
  size_t Put(const uint8_t* b, size_t n) {
    long c = calls++;
    if (refused) ++after;
    sizes.push_back(n);
    if (kind == "fail" && c == k) { size_t t = (size_t)r < n ? r : n; got.append((const char*)b, t); if (t != n) refused = true; return t; }
    if (kind == "short1" && c == k) { size_t t = n ? n - 1 : 0; got.append((const char*)b, t); refused = true; return t; }
    if (kind == "over" && c == k) { got.append((const char*)b, n); refused = true; return n + 1; }
    if (kind == "cap") { size_t room = cap > got.size() ? cap - got.size() : 0; size_t t = n < room ? n : room; got.append((const char*)b, t); if (t != n) refused = true; return t; }
    if (kind == "all0") { if (n) refused = true; return 0; }
    got.append((const char*)b, n); return n;
  }
};
static size_t SinkCb(void* d, const uint8_t* b, size_t n) { return static_cast<Sink*>(d)->Put(b, n); }

// ---------------------------------------------------------------- digests
template <class V> static std::string VecHash(const V& v) {
  Id h; for (auto x : v) { int64_t y = (int64_t)x; h.Add(&y, 8); } return Hex(h.Get());
}
static std::string NestedHash(const std::vector<std::vector<uint8_t>>& v) {
  Id h; for (auto& x : v) { uint64_t n = x.size(); h.Add(&n, 8); h.Add(x.data(), x.size()); } return Hex(h.Get());
}
static std::string Arr(const std::vector<long>& v) {
  std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += std::to_string(v[i]); } return s + "]";
}
// Structural projection of a JPEGData.
static void Digest(const JPEGData& j, Ev& e) {
  e.I("w", j.width); e.I("h", j.height); e.I("ver", j.version);
  e.I("mcur", j.MCU_rows); e.I("mcuc", j.MCU_cols); e.I("ri", j.restart_interval);
  e.I("mh", j.max_h_samp_factor); e.I("mv", j.max_v_samp_factor);
  std::vector<long> mo; for (auto m : j.marker_order) mo.push_back(m);
  e.R("markers", Arr(mo));
  e.I("napp", j.app_data.size()); e.I("ncom", j.com_data.size());
  e.S("app", NestedHash(j.app_data)); e.S("com", NestedHash(j.com_data));
  e.S("inter", NestedHash(j.inter_marker_data));
  e.S("tail", Hex(Fnv(j.tail_data.data(), j.tail_data.size()))); e.I("ntail", j.tail_data.size());
  std::string s = "[";
  for (size_t i = 0; i < j.quant.size(); ++i) {
    auto& q = j.quant[i];
    if (i) s += ",";
    s += "{\"idx\":" + std::to_string(q.index) + ",\"prec\":" + std::to_string(q.precision) +
         ",\"last\":" + (q.is_last ? "true" : "false") + ",\"vals\":\"" + VecHash(q.values) + "\"}";
  }
  e.R("quant", s + "]");
  s = "[";
  for (size_t i = 0; i < j.huffman_code.size(); ++i) {
    auto& q = j.huffman_code[i]; if (i) s += ",";
    int n = 0; for (int c : q.counts) n += c;
    std::vector<int> vals(q.values.begin(), q.values.begin() + (n <= 257 ? n : 257));
    s += "{\"slot\":" + std::to_string(q.slot_id) + ",\"last\":" + (q.is_last ? "true" : "false") +
         ",\"n\":" + std::to_string(n) + ",\"h\":\"" + VecHash(q.counts) + VecHash(vals) + "\"}";
  }
  e.R("huff", s + "]");
  s = "[";
  for (size_t i = 0; i < j.components.size(); ++i) {
    auto& c = j.components[i]; if (i) s += ",";
    s += "{\"id\":" + std::to_string(c.id) + ",\"h\":" + std::to_string(c.h_samp_factor) + ",\"v\":" + std::to_string(c.v_samp_factor) +
         ",\"q\":" + std::to_string((int)c.quant_idx) + ",\"wb\":" + std::to_string(c.width_in_blocks) + ",\"hb\":" + std::to_string(c.height_in_blocks) +
         ",\"nc\":" + std::to_string(c.coeffs.size()) + ",\"coef\":\"" + VecHash(c.coeffs) + "\"}";
  }
  e.R("comps", s + "]");
  s = "[";
  for (size_t i = 0; i < j.scan_info.size(); ++i) {
    auto& c = j.scan_info[i]; if (i) s += ",";
    std::vector<long> p = {c.Ss, c.Se, c.Ah, c.Al};
    std::vector<long> q; for (size_t k = 0; k < c.num_components && k < 4; ++k) { q.push_back(c.components[k].comp_idx); q.push_back(c.components[k].dc_tbl_idx); q.push_back(c.components[k].ac_tbl_idx); }
    std::vector<long> zr; for (auto& z : c.extra_zero_runs) { zr.push_back(z.block_idx); zr.push_back(z.num_extra_zero_runs); }
    s += "{\"p\":" + Arr(p) + ",\"c\":" + Arr(q) + ",\"nrp\":" + std::to_string(c.reset_points.size()) + ",\"rp\":\"" + VecHash(c.reset_points) +
         "\",\"nzr\":" + std::to_string(c.extra_zero_runs.size()) + ",\"zr\":\"" + VecHash(zr) + "\"}";
  }
  e.R("scans", s + "]");
  e.B("zpad", j.has_zero_padding_bit);
  e.I("npad", j.has_zero_padding_bit ? j.padding_bits.size() : 0);
  e.S("pad", j.has_zero_padding_bit ? VecHash(j.padding_bits) : "");
}
// One hash of everything that determines the reconstructed file.
static std::string DigestHash(const JPEGData& j) {
  Ev e("", ""); Digest(j, e); std::string s = e.o.str();
  // version is not part of what the JPEG file contains
  size_t a = s.find("\"ver\":"); size_t b = s.find(',', a); s.erase(a, b - a);
  return Hex(Fnv(s.data(), s.size()));
}

struct Jd { JPEGData j; std::shared_ptr<Heap> keep; std::string how = "", from = ""; };
struct Dec { std::unique_ptr<BrunsliDecoder> d; std::string src; size_t pos = 0; Bytes pend; Bytes out; long calls = 0; int last = -1; };

struct World {
  std::string id;
  std::map<std::string, Bytes> b;
  std::map<std::string, std::shared_ptr<Jd>> j;
  std::map<std::string, Dec> d;
};

static const char* StName(int s) {
  switch (s) { case 0: return "NEEDIN"; case 1: return "NEEDOUT"; case 2: return "ERROR"; case 3: return "DONE"; } return "?";
}

// Top-level token boundaries of a Brunsli stream (tag position, body position).
static void Bounds(const Bytes& s, std::vector<size_t>* starts, std::vector<size_t>* bodies) {
  size_t p = 0;
  while (p < s.size()) {
    starts->push_back(p); uint8_t tag = s[p++]; uint64_t v = 0; int i = 0;
    for (; i < 9 && p < s.size(); ++i) { uint8_t b = s[p++]; v |= (uint64_t)(b & 127) << (7 * i); if (!(b & 128)) break; }
    bodies->push_back(p);
    if ((tag & 7) == 2) { if (v > s.size() - p) break; p += v; }
  }
  starts->push_back(s.size()); bodies->push_back(s.size());
}
// Runs a whole streaming decode following a schedule of in,out items; the last
// item repeats.  in: N bytes | M (varying) | a (all) | s (to next section start) | t (start
// plus one) | h (to next section body) | i (body plus one); out: N | a (1 MB).
// Unconsumed input is presented again.  Every call gets fresh exact-size
// buffers which are released right after the call (empty ones may be null).
// With REF given, every call also records whether all bytes delivered so far
// are a prefix of REF.
static void Stream(World& w, const std::string& S, const std::string& T, const std::string& sched, bool log, const std::string& R) {
  const Bytes& src = w.b[S]; const bool has_ref = R != "-" && !R.empty(); const Bytes ref = has_ref ? w.b[R] : Bytes();
  const size_t kVary = (size_t)-1; uint64_t vs = Fnv(sched.data(), sched.size()) ^ Fnv(src.data(), src.size()) | 1;
  auto vary = [&](size_t lim) { vs ^= vs << 13; vs ^= vs >> 7; vs ^= vs << 17; size_t top = (vs >> 20) % 8 ? lim : 20; return (size_t)((vs >> 24) % top); };
  std::vector<std::pair<std::string, size_t>> sc;
  { std::istringstream is(sched); std::string t; while (std::getline(is, t, ';')) { size_t c = t.find(','); std::string o = t.substr(c + 1); sc.push_back({t.substr(0, c), o == "a" ? (R != "-" && !R.empty() && w.b[R].size() ? w.b[R].size() + 100 : 1u << 18) : o == "M" ? kVary : strtoul(o.c_str(), 0, 10)}); } }
  std::vector<size_t> starts, bodies; Bounds(src, &starts, &bodies);
  auto next_of = [&](const std::vector<size_t>& v, size_t pos, size_t extra) { for (size_t x : v) if (x + extra > pos) return x + extra - pos; return src.size() - pos; };
  BrunsliDecoder dec; Bytes out; size_t pos = 0; size_t pend_from = 0; // [pend_from,pos) = given, unconsumed
  std::string calls = "["; long n = 0; int st = 0; bool proto = true; size_t i = 0; bool pref = true; size_t checked = 0;
  std::string bad; bool gaveup = false;
  int stuck = 0; int post = 0; int fin = -1; size_t fin_used = 0, fin_out = 0; int again = -1; size_t againmade = 0;
  const size_t kLog = 4000; size_t logged = 0;
  while (true) {
    std::string is; size_t oc;
    if (fin < 0) { auto& pr = sc[i < sc.size() ? i : sc.size() - 1]; ++i; is = pr.first; oc = pr.second == kVary ? vary(300) : pr.second; }
    else { is = "0"; oc = post == 2 ? 0 : 8; }
    size_t add = is == "a" ? src.size() - pos : is == "s" ? next_of(starts, pos, 0) : is == "t" ? next_of(starts, pos, 1) : is == "h" ? next_of(bodies, pos, 0) : is == "i" ? next_of(bodies, pos, 1) : is == "M" ? vary(700) : strtoul(is.c_str(), 0, 10);
    add = std::min(add, src.size() - pos); pos += add;
    Heap in(src.substr(pend_from, pos - pend_from));
    uint8_t* exact = (uint8_t*)malloc(oc ? oc : 1);
    size_t ai = in.n, ao = oc; const uint8_t* ib = (in.n == 0 && (n & 1)) ? nullptr : in.p; uint8_t* ob = (oc == 0 && (n & 1)) ? nullptr : exact;
    const uint8_t* ni = ib; uint8_t* no = ob;
    st = dec.Decode(&ai, &ni, &ao, &no);
    bool ok = true;
    if (ai > in.n || ni != ib + (in.n - ai)) { ok = false; bad = "input cursor"; }
    if (ao > oc || no != ob + (oc - ao)) { ok = false; bad = "output cursor"; }
    size_t used = ok ? in.n - ai : 0, made = ok ? oc - ao : 0;
    if (ok) out.append((const char*)exact, made); else proto = false;
    if (has_ref && pref && made) { if (out.size() > ref.size() || memcmp(out.data() + checked, ref.data() + checked, out.size() - checked)) pref = false; checked = out.size(); }
    free(exact);
    if (log && logged < kLog) {
      if (logged++) calls += ",";
      calls += "[" + std::to_string(in.n) + "," + std::to_string(oc) + "," + std::to_string(used) + "," + std::to_string(made) + "," + std::to_string(st) + "," + (pref ? "1" : "0") + "," + (ok ? "1" : "0") + "]";
    }
    ++n; pend_from += used;
    if (!ok) break;
    if (fin >= 0) { if (post == 1) { again = st; againmade = made; } if (++post > 2 || st != fin) { again = st; againmade += made; break; } continue; }
    if (st == 2 || st == 3) { fin = st; post = 1; fin_used = pend_from; fin_out = out.size(); continue; }
    if (st == 0 && pos == src.size() && pend_from == pos) break;              // nothing left to give
    if (used == 0 && made == 0 && add == 0) { if (++stuck > (oc ? 3 : 40)) { gaveup = true; break; } } else stuck = 0;
    if (n > 40000000) { gaveup = true; break; }
  }
  if (fin >= 0) { st = fin; } else { fin_used = pend_from; fin_out = out.size(); }
  Ev e(w.id, "stream"); e.S("in", Hash(src)); e.S("sched", sched); e.S("st", StName(st)); e.I("ncalls", n);
  e.B("proto", proto && pref); e.S("bad", bad); e.I("inlen", src.size()); e.I("used", fin_used); e.I("given", pos);
  e.S("out", Hash(out)); e.I("outlen", fin_out); e.B("gaveup", gaveup);
  e.S("again", again < 0 ? "" : StName(again)); e.I("againmade", againmade);
  // A decoder that is done before the end: was what it had been given complete?
  bool pfx = false;
  if (st == 3 && pos < src.size()) { Heap h(src.substr(0, pos)); Sink k("full"); pfx = DecodeBrunsli(h.n, h.p, &k, SinkCb) == 1 && k.got == out && fin_used == pos; }
  e.B("pfx", pfx);
  if (log) { e.R("calls", calls + "]"); e.B("whole", (size_t)n == logged); }
  if (T != "-") w.b[T] = out;
  Emit(e);
}

// One damaged stream through every decoding interface.
struct Quick { int st; size_t out; bool whole; std::string hash; };
static Quick QuickStream(const Bytes& x, int mode, uint64_t seed) {
  BrunsliDecoder d; Bytes out; size_t pos = 0, from = 0; int st = 0; uint64_t r = seed * 2654435761u + 12345; int idle = 0; std::vector<size_t> starts, bodies;
  if (mode == 3) Bounds(x, &starts, &bodies);
  while (true) {
    r ^= r << 13; r ^= r >> 7; r ^= r << 17;
    size_t add = mode == 0 ? x.size() - pos : mode == 1 ? 1 : mode == 2 ? (size_t)(r % 40) : 0;
    if (mode == 3) { add = x.size() - pos; for (size_t b : starts) if (b > pos) { add = b - pos; break; } }
    add = std::min(add, x.size() - pos); pos += add;
    size_t oc = mode == 0 ? 1u << 16 : mode == 1 ? 4096 : mode == 2 ? 1 + (size_t)((r >> 20) % 300) : 5000;
    Heap in(x.substr(from, pos - from)); uint8_t* ob = (uint8_t*)malloc(oc); size_t ai = in.n, ao = oc; const uint8_t* ni = in.p; uint8_t* no = ob;
    st = d.Decode(&ai, &ni, &ao, &no); out.append((const char*)ob, oc - ao); free(ob); from += in.n - ai;
    if (st == 2 || st == 3) break;
    if (st == 0 && pos == x.size() && ai == 0) break;
    if (add == 0 && ao == oc) { if (++idle > 60) { st = 9; break; } } else idle = 0;
  }
  Quick q; q.st = st; q.out = out.size(); q.hash = Hash(out); q.whole = false;
  if (st == 3 && pos < x.size()) { Heap h(x.substr(0, pos)); Sink k("full"); q.whole = DecodeBrunsli(h.n, h.p, &k, SinkCb) == 1 && k.got == out; }
  return q;
}
static void Probe(World& w, const Bytes& base, const Bytes& x, const char* how, long n, uint64_t seed, int nmodes) {
  Ev e(w.id, "probe"); e.S("how", how); e.I("n", n); e.S("base", Hash(base)); e.B("same", x == base);
  { Heap h(x); JPEGData j; e.I("st", BrunsliDecodeJpeg(h.p, h.n, &j)); }
  { Heap h(x); Sink k("full"); int rc = DecodeBrunsli(h.n, h.p, &k, SinkCb); e.I("rc", rc); e.S("out", rc == 1 ? Hash(k.got) : ""); }
  std::string ss = "[";
  for (int i = 0; i < nmodes; ++i) { Quick q = QuickStream(x, (seed + i) % 4, seed + n); if (i) ss += ","; ss += "[\"" + std::string(q.st == 9 ? "STUCK" : StName(q.st)) + "\",\"" + q.hash + "\"," + (q.whole ? "true" : "false") + "]"; }
  e.R("ss", ss + "]"); Emit(e);
}
// ---------------------------------------------------------------- metadata
static Bytes golden_e2;
static std::string Ints(const uint8_t* p, size_t n) { std::string s = "["; for (size_t i = 0; i < n; ++i) { if (i) s += ","; s += std::to_string((int)p[i]); } return s + "]"; }
static std::string Segs(const std::vector<std::vector<uint8_t>>& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); ++i) {
    if (i) s += ",";
    const std::vector<uint8_t>& x = v[i];
    if (x.size() == golden_e2.size() && x.size() > 84 && !memcmp(x.data(), golden_e2.data(), 84) && !memcmp(x.data() + 85, golden_e2.data() + 85, x.size() - 85)) s += "[-1," + std::to_string((int)x[84]) + "]";
    else s += Ints(x.data(), x.size());
  }
  return s + "]";
}
static Bytes B128(uint64_t z) { Bytes f; do { uint8_t y = z & 127; z >>= 7; f.push_back((char)(y | (z ? 128 : 0))); } while (z); return f; }
static Bytes Brotli(const Bytes& raw, int every) {
  BrotliEncoderState* st = BrotliEncoderCreateInstance(0, 0, 0); BrotliEncoderSetParameter(st, BROTLI_PARAM_QUALITY, every % 2 ? 5 : 11); BrotliEncoderSetParameter(st, BROTLI_PARAM_LGWIN, 18);
  Bytes out; size_t p = 0; bool fin = false;
  while (!fin) {
    size_t n = every > 0 ? std::min<size_t>(every, raw.size() - p) : raw.size(); size_t ai = n; const uint8_t* ni = (const uint8_t*)raw.data() + p; fin = p + n == raw.size();
    uint8_t buf[4096];
    do { size_t ao = sizeof buf; uint8_t* no = buf; BrotliEncoderCompressStream(st, fin ? BROTLI_OPERATION_FINISH : BROTLI_OPERATION_FLUSH, &ai, &ni, &ao, &no, 0); out.append((char*)buf, sizeof buf - ao); } while (ai || BrotliEncoderHasMoreOutput(st) || (fin && !BrotliEncoderIsFinished(st)));
    p += n;
  }
  BrotliEncoderDestroyInstance(st); return out;
}
// Replaces the metadata section of base by the given body.
static Bytes WithMeta(const Bytes& base, const Bytes& body) {
  std::vector<size_t> st, bo; Bounds(base, &st, &bo); Bytes r;
  for (size_t i = 0; i + 1 < st.size(); ++i) if ((uint8_t)base[st[i]] == (3 << 3 | 2)) r += Bytes(1, 3 << 3 | 2) + B128(body.size()) + body; else r += base.substr(st[i], st[i + 1] - st[i]);
  return r;
}
static bool MetaOp(World& w, const std::vector<std::string>& t) {
  if (t[0] == "parse") {  // parse S MODE : everything the reader reports
    Heap h(w.b[t[1]]); JPEGData j; JpegReadMode m = t[2] == "H" ? JPEG_READ_HEADER : t[2] == "T" ? JPEG_READ_TABLES : JPEG_READ_ALL;
    bool ok = ReadJpeg(h.p, h.n, m, &j); Ev e(w.id, "parse"); e.S("mode", t[2]); e.B("ok", ok); e.I("err", (int)j.error); e.B("crash", false);
    if (ok) {
      auto num = [](long v) { return std::to_string(v); }; auto tf = [](bool b) { return std::string(b ? "true" : "false"); };
      auto list = [&](size_t n, std::function<std::string(size_t)> f) { std::string r = "["; for (size_t i = 0; i < n; ++i) { if (i) r += ","; r += f(i); } return r + "]"; };
      e.I("w", j.width); e.I("h", j.height); e.I("ri", j.restart_interval);
      e.R("comps", list(j.components.size(), [&](size_t i) { auto& c = j.components[i]; return "[" + num(c.id) + "," + num(c.h_samp_factor) + "," + num(c.v_samp_factor) + "," + num(c.width_in_blocks) + "," + num(c.height_in_blocks) + "]"; }));
      e.R("quant", list(j.quant.size(), [&](size_t i) { auto& q = j.quant[i]; return "[" + num(q.index) + "," + num(q.precision) + "," + tf(q.is_last) + "," + list(64, [&](size_t k) { return num(q.values[k]); }) + "]"; }));
      e.R("huff", list(j.huffman_code.size(), [&](size_t i) { auto& q = j.huffman_code[i]; size_t n = 0; for (int k = 0; k <= 16; ++k) n += q.counts[k]; return "[" + num(q.slot_id) + "," + tf(q.is_last) + "," + list(16, [&](size_t k) { return num(q.counts[k + 1]); }) + "," + list(n, [&](size_t k) { return num(q.values[k]); }) + "]"; }));
      e.R("app", Segs(j.app_data)); e.R("com", Segs(j.com_data)); e.R("inter", Segs(j.inter_marker_data)); e.R("markers", Ints(j.marker_order.data(), j.marker_order.size()));
      if (t[2] == "A") {
        e.R("tail", Ints(j.tail_data.data(), j.tail_data.size()));
        e.R("tq", list(j.components.size(), [&](size_t i) { size_t q = j.components[i].quant_idx; return num(q < j.quant.size() ? j.quant[q].index : -1); }));
        e.R("scans", list(j.scan_info.size(), [&](size_t i) { auto& s = j.scan_info[i]; return "[[" + num(s.Ss) + "," + num(s.Se) + "," + num(s.Ah) + "," + num(s.Al) + "]," +
          list(s.num_components, [&](size_t k) { auto& c = s.components[k]; return "[" + num(c.comp_idx) + "," + num(c.dc_tbl_idx) + "," + num(c.ac_tbl_idx) + "]"; }) + "," + list(s.reset_points.size(), [&](size_t k) { return num(s.reset_points[k]); }) + "," +
          list(2 * s.extra_zero_runs.size(), [&](size_t k) { return num(k & 1 ? s.extra_zero_runs[k / 2].num_extra_zero_runs : s.extra_zero_runs[k / 2].block_idx); }) + "]"; }));
        e.R("pads", list(j.padding_bits.size(), [&](size_t k) { return num(j.padding_bits[k]); })); e.B("zpad", j.has_zero_padding_bit);
        e.R("coef", list(j.components.size(), [&](size_t i) { auto& c = j.components[i].coeffs; return list(c.size(), [&](size_t k) { return num(c[k]); }); }));
        Sink k("full"); bool wr = WriteJpeg(j, JPEGOutput(SinkCb, &k)); e.B("same", wr && k.got == w.b[t[1]]);
      }
    }
    Emit(e); return true; }
  if (t[0] == "golden") { golden_e2 = ReadFile(t[1]); return true; }
  if (t[0] == "metaprobe") {  // metaprobe BASE form(one|brotli|none) declared_delta extra_after cut flush_every rawhex
    Bytes raw; if (t.size() > 7) for (size_t i = 0; i + 1 < t[7].size(); i += 2) raw.push_back((char)strtol(t[7].substr(i, 2).c_str(), 0, 16));
    Bytes body; long dd = atol(t[3].c_str()), ex = atol(t[4].c_str()), cut = atol(t[5].c_str());
    if (t[2] == "one") body = raw; else if (t[2] == "brotli") { Bytes z = Brotli(raw, atoi(t[6].c_str())); if (cut) z.resize(z.size() > (size_t)cut ? z.size() - cut : 0); body = B128(raw.size() + dd) + z + Bytes(ex, 0x21); }
    Bytes x = WithMeta(w.b[t[1]], body);
    Ev e(w.id, "metaprobe"); e.R("raw", Ints((const uint8_t*)raw.data(), raw.size())); e.S("form", t[2]); e.B("intact", !dd && !ex && !cut);
    JPEGData j; { Heap h(x); int st = BrunsliDecodeJpeg(h.p, h.n, &j); e.I("st", st); if (st == 0) { e.R("app", Segs(j.app_data)); e.R("com", Segs(j.com_data)); e.R("tail", Ints(j.tail_data.data(), j.tail_data.size())); } else { e.R("app", "[]"); e.R("com", "[]"); e.R("tail", "[]"); } }
    { Heap h(x); Sink k("full"); int rc = DecodeBrunsli(h.n, h.p, &k, SinkCb); e.I("rc", rc); e.S("out", rc == 1 ? Hash(k.got) : ""); }
    std::string ss = "["; for (int i = 0; i < 3; ++i) { Quick q = QuickStream(x, i, x.size() + i); if (i) ss += ","; ss += "[\"" + std::string(q.st == 9 ? "STUCK" : StName(q.st)) + "\",\"" + q.hash + "\"]"; } e.R("ss", ss + "]"); Emit(e); return true; }
  if (t[0] == "metafile") {  // metafile S : encodes the file and unpacks the metadata section of the result
    const Bytes& s = w.b[t[1]]; Bytes b; Ev e(w.id, "metafile"); e.S("in", Hash(s));
    { Heap h(s); Sink k("full"); int rc = EncodeBrunsli(h.n, h.p, &k, SinkCb); e.B("ok", rc == 1); if (rc == 1) b = k.got; }
    Bytes raw; bool intact = true, same = true; std::vector<size_t> st, bo; Bounds(b, &st, &bo); size_t met = 0;
    for (size_t i = 0; i + 1 < st.size(); ++i) if ((uint8_t)b[st[i]] == (3 << 3 | 2)) {
      ++met; Bytes body = b.substr(bo[i], st[i + 1] - bo[i]);
      if (body.size() <= 1) { raw = body; continue; }
      uint64_t v = 0; size_t p = 0; int q = 0; while (p < body.size()) { uint8_t c = body[p++]; v |= (uint64_t)(c & 127) << (7 * q++); if (!(c & 128)) break; }
      std::vector<uint8_t> o(v + 1); size_t on = v + 1; intact = BrotliDecoderDecompress(body.size() - p, (const uint8_t*)body.data() + p, &on, o.data()) == BROTLI_DECODER_RESULT_SUCCESS && on == v; raw.assign((char*)o.data(), intact ? v : 0); }
    if (!b.empty()) { Heap h(b); Sink k("full"); int rc = DecodeBrunsli(h.n, h.p, &k, SinkCb); same = rc == 1 && k.got == s; }
    e.B("intact", intact && (b.empty() || met == 1)); e.B("same", same); e.R("raw", Ints((const uint8_t*)raw.data(), raw.size()));
    std::string ss = "["; if (!b.empty()) for (int i = 0; i < 3; ++i) { Quick q = QuickStream(b, i, b.size() + i); if (i) ss += ","; ss += "[\"" + std::string(q.st == 9 ? "STUCK" : StName(q.st)) + "\",\"\"," + (q.hash == Hash(s) ? "true" : "false") + "]"; } e.R("ss", ss + "]"); Emit(e); return true; }
  return false;
}
static void ExtraOp(World& w, const std::vector<std::string>& t);  // other harness parts
#ifndef BDRV_EXTRA
static void ExtraOp(World& w, const std::vector<std::string>& t) { fprintf(stderr, "bdrv: unknown op %s\n", t[0].c_str()); _exit(99); }
#else
#include BDRV_EXTRA
#endif

static void Op(World& w, const std::vector<std::string>& t) {
  const std::string& op = t[0];
  auto arg = [&](size_t i, const char* d) -> std::string { return i < t.size() ? t[i] : std::string(d); };
  if (op == "load") { w.b[t[1]] = ReadFile(t[2]); return; }
  if (op == "save") { WriteFile(t[2], w.b[t[1]]); return; }
  if (op == "hex") {  // hex S DIGITS
    Bytes r; const std::string& h = arg(2, ""); for (size_t i = 0; i + 1 < h.size(); i += 2) r.push_back((char)strtol(h.substr(i, 2).c_str(), 0, 16)); w.b[t[1]] = r; return; }
  if (op == "trunc" || op == "cut" || op == "append" || op == "cat" || op == "flip") {
    Bytes x = w.b[t[1]]; size_t n = 0;
    if (op == "trunc") { n = std::min<size_t>(x.size(), strtoul(t[3].c_str(), 0, 10)); x.resize(n); }
    if (op == "cut") { n = strtoul(t[3].c_str(), 0, 10); x = x.substr(0, x.size() > n ? x.size() - n : 0); }
    if (op == "append") { const std::string& h = t[3]; for (size_t i = 0; i + 1 < h.size(); i += 2) x.push_back((char)strtol(h.substr(i, 2).c_str(), 0, 16)); }
    if (op == "cat") x += w.b[t[3]];
    if (op == "flip") { n = strtoul(t[3].c_str(), 0, 10); if (x.size()) { n %= x.size(); x[n] ^= (char)strtol(t[4].c_str(), 0, 0); } }
    Ev e(w.id, "derive"); e.S("how", op); e.S("in", Hash(w.b[t[1]])); e.I("inlen", w.b[t[1]].size()); e.S("out", Hash(x)); e.I("outlen", x.size()); e.I("n", n); Emit(e);
    w.b[t[2]] = x; return; }
  if (op == "ins" || op == "drop" || op == "dup" || op == "mov") {  // token level edits: ins S T k HEX; drop S T k; dup S T k; mov S T from to
    const Bytes& x = w.b[t[1]]; std::vector<size_t> st, bo; Bounds(x, &st, &bo); size_t nt = st.size() - 1; size_t k = strtoul(t[3].c_str(), 0, 10); Bytes r;
    std::vector<Bytes> tok; for (size_t i = 0; i < nt; ++i) tok.push_back(x.substr(st[i], st[i + 1] - st[i]));
    if (op == "ins") { Bytes h; for (size_t i = 0; i + 1 < t[4].size(); i += 2) h.push_back((char)strtol(t[4].substr(i, 2).c_str(), 0, 16)); tok.insert(tok.begin() + std::min(k, tok.size()), h); }
    else if (k < tok.size()) { if (op == "drop") tok.erase(tok.begin() + k); if (op == "dup") tok.insert(tok.begin() + k, tok[k]); if (op == "mov") { Bytes h = tok[k]; tok.erase(tok.begin() + k); tok.insert(tok.begin() + std::min<size_t>(strtoul(t[4].c_str(), 0, 10), tok.size()), h); } }
    for (auto& b : tok) r += b;
    Ev e(w.id, "derive"); e.S("how", op); e.S("in", Hash(x)); e.I("inlen", x.size()); e.S("out", Hash(r)); e.I("outlen", r.size()); e.I("n", k); Emit(e);
    w.b[t[2]] = r; return; }
  if (op == "sinks") {  // sinks cenc|cdec|write SRC REF seed : every refusal point and answer
    const std::string fn = t[1]; const Bytes ref = w.b[t[3]]; uint64_t r = strtoull(t[4].c_str(), 0, 10) * 0x9E3779B97F4A7C15ull + 1;
    auto rnd = [&]() { r ^= r << 13; r ^= r >> 7; r ^= r << 17; return (r >> 11); };
    auto run = [&](long at, int ans) -> long {
      struct Rec { Bytes got; std::vector<std::pair<size_t, size_t>> c; long at; int ans; bool touched = false; } rec; rec.at = at; rec.ans = ans;
      auto cb = [](void* d, const uint8_t* b, size_t n) -> size_t { Rec& q = *(Rec*)d; long i = (long)q.c.size(); size_t ret = n; 
        if (i == q.at) { switch (q.ans) { case 0: ret = 0; break; case 1: ret = n ? n - 1 : 1; break; case 2: ret = n + 1; break; case 3: ret = n / 2; break; case 4: ret = (size_t)-1; break; case 5: ret = n > 1 ? 1 : n + 2; break; } }
        q.got.append((const char*)b, n); q.c.push_back({n, ret}); return ret; };
      int rc = 0; bool inmod = false;
      if (fn == "cenc") { Heap h(w.b[t[2]]); rc = EncodeBrunsli(h.n, h.p, &rec, cb); inmod = memcmp(h.p, w.b[t[2]].data(), h.n) != 0; }
      if (fn == "cdec") { Heap h(w.b[t[2]]); rc = DecodeBrunsli(h.n, h.p, &rec, cb); inmod = memcmp(h.p, w.b[t[2]].data(), h.n) != 0; }
      if (fn == "write") { rc = WriteJpeg(w.j[t[2]]->j, JPEGOutput(cb, &rec)) ? 1 : 0; }
      Ev e(w.id, "sink"); e.S("fn", fn); e.I("at", at); e.I("ans", ans); e.I("rc", rc); e.I("L", ref.size()); e.B("inmod", inmod);
      e.B("pref", rec.got.size() <= ref.size() && !memcmp(rec.got.data(), ref.data(), rec.got.size()));
      std::string c = "["; size_t m = rec.c.size(); for (size_t i = 0; i < m; ++i) { size_t x = rec.c[i].second; c += (i ? "," : "") + std::string("[") + std::to_string(rec.c[i].first) + "," + (x == (size_t)-1 ? std::string("-1") : std::to_string(x)) + "]"; }
      e.R("calls", c + "]"); Emit(e); return (long)m; };
    long n = run(-1, 0);
    for (long i = 0; i < n; ++i) { if (n > 12 && i > 3 && i < n - 3 && rnd() % 4) continue; for (int a = 0; a < 6; ++a) { if (i == 0 && n == 0) continue; run(i, a); } }
    return; }
  if (op == "caps") {  // caps J count seed : encode into buffers of many sizes; guard bytes around
    JPEGData& j = w.j[t[1]]->j; size_t mx = GetMaximumBrunsliEncodedSize(j); std::string d0 = DigestHash(j); uint64_t r = strtoull(t[3].c_str(), 0, 10) * 0x9E3779B97F4A7C15ull + 1; long cnt = atol(t[2].c_str());
    auto rnd = [&]() { r ^= r << 13; r ^= r >> 7; r ^= r << 17; return (r >> 11); };
    size_t L = mx; { std::vector<uint8_t> o(mx); if (!BrunsliEncodeJpeg(j, o.data(), &L)) L = mx; }
    for (long i = 0; i < cnt; ++i) {
      size_t cap = i < 12 ? (L + 8 > (size_t)i * 2 ? L + 8 - i * 2 : 0) : i < 30 ? (size_t)(i - 12) : i < 34 ? L + 9 + (i - 30) * 40 : (size_t)(rnd() % (L + 200));
      size_t mis = (i & 1) ? 3 : 0;  // also a misaligned destination
      uint8_t* p = (uint8_t*)malloc(cap + mis + 64); memset(p, 0x5C, cap + mis + 64); size_t n = cap; uint8_t* q = (uint8_t*)malloc(cap ? cap : 1);
      bool ok2, ok; size_t n2 = cap; ok2 = BrunsliEncodeJpeg(j, q, &n2);   // exact allocation: the sanitizer watches
      ok = BrunsliEncodeJpeg(j, p + mis, &n); bool guard = true; for (size_t k = 0; k < mis; ++k) if (p[k] != 0x5C) guard = false; for (size_t k = cap + mis; k < cap + mis + 64; ++k) if (p[k] != 0x5C) guard = false;
      bool same = ok == ok2 && (!ok || (n == n2 && !memcmp(p + mis, q, n <= cap ? n : 0)));
      Bytes b; if (ok && n <= cap) b.assign((char*)p + mis, n); free(p); free(q);
      std::string dd; int st = -1; if (ok) { Heap h(b); JPEGData k; st = BrunsliDecodeJpeg(h.p, h.n, &k); if (st == 0) dd = DigestHash(k); }
      Ev e(w.id, "cap"); e.S("dig", d0); e.B("same", DigestHash(j) == d0); e.I("cap", cap); e.I("max", mx); e.I("full", L); e.B("ok", ok); e.I("len", ok ? n : 0); e.B("guard", guard); e.B("again", same); e.I("st", st); e.S("ddig", dd); Emit(e); }
    return; }
  if (op == "probe") {  // probe S kind seed count modes
    const Bytes b = w.b[t[1]]; uint64_t seed = strtoull(t[3].c_str(), 0, 10); long cnt = atol(t[4].c_str()); int nm = atoi(t[5].c_str()); uint64_t r = seed * 0x9E3779B97F4A7C15ull + 1; 
    auto rnd = [&]() { r ^= r << 13; r ^= r >> 7; r ^= r << 17; return (r >> 11); };
    std::vector<size_t> st, bo; Bounds(b, &st, &bo);
    if (t[2] == "trunc") { long n = b.size(); if (cnt >= n) for (long i = 0; i < n; ++i) Probe(w, b, b.substr(0, i), "trunc", i, seed + i, nm);
      else for (long i = 0; i < cnt; ++i) { long k = i < 30 ? n - 1 - i : i < 60 ? i - 30 : i < 100 ? (long)(st[rnd() % st.size()] + (rnd() % 5)) : (long)(rnd() % n); if (k >= 0 && k < n) Probe(w, b, b.substr(0, k), "trunc", k, seed + i, nm); } }
    if (t[2] == "ext") for (long i = 0; i < cnt; ++i) { Bytes x = b; long n = 1 + rnd() % (i % 3 ? 4 : 700); for (long q = 0; q < n; ++q) x.push_back((char)(i % 4 == 0 ? 0 : i % 4 == 1 ? (q ? 0 : 0x52) : rnd())); Probe(w, b, x, "ext", n, seed + i, nm); }
    if (t[2] == "len") for (size_t k = 1; k + 1 < st.size(); ++k) {  // every section's declared length off by delta
      uint64_t v = 0; size_t wd = bo[k] - st[k] - 1; for (size_t q = 0; q < wd; ++q) v |= (uint64_t)((uint8_t)b[st[k] + 1 + q] & 127) << (7 * q);
      for (long i = 0; i < cnt; ++i) { static const long long ds[] = {1, -1, 2, -2, 4, -4, 3, -3, 128, -128, 256, 1000, 65536, 1ll << 32, 6, -6, 8, -8, 1ll << 62};
        long long dl = i < 19 ? ds[i] : (long long)(rnd() % 4000) - 2000; if (dl == 0 || (dl < 0 && (uint64_t)-dl > v)) continue; uint64_t nv = v + dl;
        Bytes f; uint64_t z = nv; do { uint8_t y = z & 127; z >>= 7; f.push_back((char)y); } while (z); while (f.size() < wd) f.push_back(0); for (size_t q = 0; q + 1 < f.size(); ++q) f[q] = (char)(f[q] | 128);
        Probe(w, b, b.substr(0, st[k] + 1) + f + b.substr(bo[k]), "len", (long)k * 100 + i, seed + i, nm); } }
    if (t[2] == "body") for (size_t k = 1; k + 1 < st.size(); ++k) for (long i = 0; i < cnt; ++i) {  // bytes added to or removed from a section, its length kept
        Bytes x = b; if (i & 1) { Bytes ins(1 + rnd() % 3, (char)rnd()); size_t p = i % 4 == 1 ? st[k + 1] : bo[k] + rnd() % (st[k + 1] - bo[k] + 1); x.insert(p, ins); }
        else { size_t len = st[k + 1] - bo[k]; if (!len) continue; size_t n = 1 + rnd() % std::min<size_t>(len, 4); size_t p = i % 4 == 0 ? st[k + 1] - n : bo[k] + rnd() % (len - n + 1); x.erase(p, n); }
        Probe(w, b, x, "body", (long)k * 100 + i, seed + i, nm); }
    if (t[2] == "flip") for (long i = 0; i < cnt; ++i) { Bytes x = b; int m = i % 5 == 4 ? 3 : 1; size_t p = 0; while (m--) { p = 6 + rnd() % (x.size() - 6); if (i % 2) x[p] ^= (char)(1 << (rnd() % 8)); else x[p] = (char)rnd(); } Probe(w, b, x, "flip", p, seed + i, nm); }
    return; }
  if (op == "say") { Ev e(w.id, "say"); e.S("hash", Hash(w.b[t[1]])); e.I("len", w.b[t[1]].size()); Emit(e); return; }
  if (op == "read") {  // read S J MODE [digest]
    auto jd = std::make_shared<Jd>(); jd->keep = std::make_shared<Heap>(w.b[t[1]]);
    JpegReadMode m = t[3] == "H" ? JPEG_READ_HEADER : t[3] == "T" ? JPEG_READ_TABLES : JPEG_READ_ALL;
    bool ok = ReadJpeg(jd->keep->p, jd->keep->n, m, &jd->j); jd->how = ok && t[3] == "A" ? "read" : ""; jd->from = Hash(w.b[t[1]]);
    Ev e(w.id, "read"); e.S("in", Hash(w.b[t[1]])); e.S("mode", t[3]); e.B("ok", ok); e.I("err", (int)jd->j.error);
    if (ok && t.size() > 4) { Digest(jd->j, e); }
    e.S("dig", ok ? DigestHash(jd->j) : "");
    w.j[t[2]] = jd; Emit(e); return; }
  if (op == "fill") {  // fill J AC_AMPLITUDE DC_AMPLITUDE SEED DENSITY% : overwrites coefficients
    JPEGData& j = w.j[t[1]]->j; int aa = atoi(t[2].c_str()), da = atoi(t[3].c_str()); uint64_t x = strtoull(t[4].c_str(), 0, 10) * 2654435761u + 88172645463325252ull; int dens = atoi(t[5].c_str());
    auto rnd = [&]() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return (uint32_t)(x >> 16); };
    for (auto& c : j.components) for (size_t i = 0; i < c.coeffs.size(); ++i) {
      int a = (i & 63) ? aa : da; int v = a ? (int)(rnd() % (2 * a + 1)) - a : 0; if ((i & 63) && (int)(rnd() % 100) >= dens) v = 0; c.coeffs[i] = v; }
    w.j[t[1]]->how = "fill";
    Ev e(w.id, "fill"); e.S("dig", DigestHash(j)); Emit(e); return; }
  if (op == "setver") { w.j[t[1]]->j.version = atoi(t[2].c_str()); return; }
  if (op == "write") {  // write J S [sink]
    Sink s(arg(3, "full")); bool ok = WriteJpeg(w.j[t[1]]->j, JPEGOutput(SinkCb, &s));
    Ev e(w.id, "write"); e.S("how", w.j[t[1]]->how); e.S("from", w.j[t[1]]->from); e.S("dig", DigestHash(w.j[t[1]]->j)); e.S("sink", arg(3, "full")); e.B("ok", ok); e.S("out", Hash(s.got)); e.I("outlen", s.got.size()); e.I("calls", s.calls); e.B("refused", s.refused); e.I("after", s.after);
    w.b[t[2]] = s.got; Emit(e); return; }
  if (op == "enc") {  // enc J S [cap] : cap = max | N | max-N
    JPEGData& j = w.j[t[1]]->j; size_t mx = GetMaximumBrunsliEncodedSize(j); size_t cap = mx; std::string c = arg(3, "max");
    if (c.compare(0, 4, "max-") == 0) cap = mx - std::min<size_t>(mx, strtoul(c.c_str() + 4, 0, 10)); else if (c != "max") cap = strtoul(c.c_str(), 0, 10);
    uint8_t* p = (uint8_t*)malloc(cap ? cap : 1); size_t n = cap; std::string d0 = DigestHash(j);
    bool ok = BrunsliEncodeJpeg(j, p, &n);
    Ev e(w.id, "enc"); e.S("dig", d0); e.B("same", DigestHash(j) == d0); e.I("ver", j.version); e.I("max", mx); e.I("cap", cap); e.B("ok", ok); e.I("len", ok ? n : 0);
    Bytes r; if (ok && n <= cap) r.assign((const char*)p, n);
    e.S("out", ok ? Hash(r) : ""); free(p); w.b[t[2]] = r; Emit(e); return; }
  if (op == "dec") {  // dec S J
    auto jd = std::make_shared<Jd>(); jd->keep = std::make_shared<Heap>(w.b[t[1]]);
    BrunsliStatus st = BrunsliDecodeJpeg(jd->keep->p, jd->keep->n, &jd->j); jd->how = st == BRUNSLI_OK ? "dec" : ""; jd->from = Hash(w.b[t[1]]);
    Ev e(w.id, "dec"); e.S("in", Hash(w.b[t[1]])); e.I("st", st); e.B("ok", st == BRUNSLI_OK);
    if (st == BRUNSLI_OK && t.size() > 3) Digest(jd->j, e);
    e.S("dig", st == BRUNSLI_OK && !jd->j.original_jpg ? DigestHash(jd->j) : "");
    w.j[t[2]] = jd; Emit(e); return; }
  if (op == "cenc") {  // cenc S T [sink]
    Sink s(arg(3, "full")); Heap h(w.b[t[1]]); int rc = EncodeBrunsli(h.n, h.p, &s, SinkCb);
    Ev e(w.id, "cenc"); e.S("in", Hash(w.b[t[1]])); e.S("sink", arg(3, "full")); e.I("rc", rc); e.S("out", Hash(s.got)); e.I("outlen", s.got.size()); e.I("calls", s.calls); e.B("refused", s.refused); e.I("after", s.after);
    w.b[t[2]] = s.got; Emit(e); return; }
  if (op == "cdec") {
    Sink s(arg(3, "full")); Heap h(w.b[t[1]]); int rc = DecodeBrunsli(h.n, h.p, &s, SinkCb);
    Ev e(w.id, "cdec"); e.S("in", Hash(w.b[t[1]])); e.S("sink", arg(3, "full")); e.I("rc", rc); e.S("out", Hash(s.got)); e.I("outlen", s.got.size()); e.I("calls", s.calls); e.B("refused", s.refused); e.I("after", s.after);
    w.b[t[2]] = s.got; Emit(e); return; }
  if (op == "stream") { Stream(w, t[1], t[2], t[3], arg(4, "") == "log", arg(5, "-")); return; }
  if (op == "new") { w.d[t[1]] = Dec(); w.d[t[1]].d.reset(new BrunsliDecoder()); w.d[t[1]].src = t[2]; return; }
  if (op == "feed") {  // feed D nin nout
    Dec& d = w.d[t[1]]; const Bytes& src = w.b[d.src]; size_t add = std::min<size_t>(strtoul(t[2].c_str(), 0, 10), src.size() - d.pos);
    d.pend += src.substr(d.pos, add); d.pos += add; size_t oc = strtoul(t[3].c_str(), 0, 10);
    Heap in(d.pend); uint8_t* ob = (uint8_t*)malloc(oc ? oc : 1); size_t ai = in.n, ao = oc; const uint8_t* ni = in.p; uint8_t* no = ob;
    int st = d.d->Decode(&ai, &ni, &ao, &no);
    bool proto = ai <= in.n && ni == in.p + (in.n - ai) && ao <= oc && no == ob + (oc - ao);
    size_t used = proto ? in.n - ai : 0, made = proto ? oc - ao : 0; d.out.append((const char*)ob, made); free(ob); d.pend.erase(0, used); d.last = st;
    Ev e(w.id, "feed"); e.S("d", t[1]); e.S("src", Hash(src)); e.I("srclen", src.size()); e.I("ain", in.n); e.I("aout", oc); e.I("used", used); e.I("made", made); e.S("st", StName(st)); e.B("proto", proto); e.I("given", d.pos); e.S("out", Hash(d.out)); e.I("outlen", d.out.size());
    e.B("prefix", true); Emit(e); return; }
  if (op == "del") { w.d.erase(t[1]); return; }
  if (op == "est") { Heap h(w.b[t[1]]); size_t m = BrunsliEstimateDecoderPeakMemoryUsage(h.p, h.n);
    Ev e(w.id, "est"); e.S("in", Hash(w.b[t[1]])); e.I("kb", (m + 1023) / 1024); e.B("zero", m == 0); Emit(e); return; }
  if (op == "estnull") { size_t m = BrunsliEstimateDecoderPeakMemoryUsage(nullptr, strtoul(t[1].c_str(), 0, 10));
    Ev e(w.id, "est"); e.S("in", "null"); e.I("kb", (m + 1023) / 1024); e.B("zero", m == 0); Emit(e); return; }
  if (op == "isbrn") { Heap h(w.b[t[1]]); bool r = IsBrunsli(h.p, h.n);
    const uint8_t sig[6] = {0x0A, 4, 'B', 0xD2, 0xD5, 'N'};
    Ev e(w.id, "isbrn"); e.S("in", Hash(w.b[t[1]])); e.I("len", h.n); e.B("sig", h.n >= 6 && !memcmp(h.p, sig, 6)); e.B("ok", r); Emit(e); return; }
  if (op == "bypass") {  // bypass S T [cap]
    const Bytes& s = w.b[t[1]]; Heap h(s); size_t mx = GetBrunsliBypassSize(h.n); size_t cap = mx; std::string c = arg(3, "max");
    if (c.compare(0, 4, "max-") == 0) cap = mx - std::min<size_t>(mx, strtoul(c.c_str() + 4, 0, 10)); else if (c != "max") cap = strtoul(c.c_str(), 0, 10);
    uint8_t* p = (uint8_t*)malloc(cap ? cap : 1); size_t n = cap; bool ok = BrunsliEncodeJpegBypass(h.p, h.n, p, &n);
    Bytes r; if (ok && n <= cap) r.assign((const char*)p, n);
    Ev e(w.id, "bypass"); e.S("in", Hash(s)); e.I("inlen", s.size()); e.I("max", mx); e.I("cap", cap); e.B("ok", ok); e.I("len", ok ? n : 0); e.S("out", ok ? Hash(r) : ""); e.B("fits", !ok || n <= cap);
    free(p); w.b[t[2]] = r; Emit(e); return; }
  if (MetaOp(w, t)) return;
  ExtraOp(w, t);
}

int main(int argc, char** argv) {
  // bdrv SCRIPT OUT [timeout_s] [jobs]
  if (argc < 3) return 99;
  signal(SIGPIPE, SIG_IGN);
  std::vector<std::pair<std::string, std::vector<std::vector<std::string>>>> cases;
  {
    Bytes s = ReadFile(argv[1]); std::istringstream is(s); std::string line;
    while (std::getline(is, line)) {
      std::istringstream ls(line); std::vector<std::string> t; std::string x; while (ls >> x) t.push_back(x);
      if (t.empty() || t[0][0] == '#') continue;
      if (t[0] == "case") { cases.push_back({t[1], {}}); continue; }
      if (t[0] == "end") continue;
      cases.back().second.push_back(t);
    }
  }
  int tmo = argc > 3 ? atoi(argv[3]) : 60; size_t jobs = argc > 4 ? atoi(argv[4]) : 8;
  // Each child writes to its own temp file; the parent concatenates in order.
  std::string base = std::string(argv[2]) + ".d";
  size_t nc = cases.size(); std::vector<int> status(nc, -1); std::map<pid_t, size_t> run; size_t next = 0; std::vector<std::string> of(nc), ef(nc);
  std::vector<char> timedout(nc, 0); std::map<pid_t, time_t> start; int ntimeouts = 0;
  // batch of cases per child would be cheaper, but isolation matters more
  while (next < nc || !run.empty()) {
    while (next < nc && run.size() < jobs) {
      if (ntimeouts >= 6) { for (; next < nc; ++next) { timedout[next] = 1; status[next] = 9; } break; }   // enough seen: the rest is not run
      size_t i = next++; of[i] = base + "." + std::to_string(i) + ".o"; ef[i] = base + "." + std::to_string(i) + ".e";
      fflush(stdout); pid_t p = fork();
      if (p == 0) {
        setpgid(0, 0); prctl(PR_SET_PDEATHSIG, SIGKILL);
        int fe = open(ef[i].c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fe, 2);
        int fo = open(of[i].c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); out_fd = fo;
        int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
        struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
        World* w = new World(); w->id = cases[i].first;
        for (auto& t : cases[i].second) Op(*w, t);
        delete w;
        Ev e(cases[i].first, "end"); Emit(e);
        _exit(0);
      }
      run[p] = i; start[p] = time(0);
    }
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p > 0) { status[run[p]] = st; run.erase(p); start.erase(p); continue; }
    time_t now = time(0);
    for (auto& s : start) if (now - s.second > tmo && !timedout[run[s.first]]) { timedout[run[s.first]] = 1; ++ntimeouts; kill(-s.first, SIGKILL); kill(s.first, SIGKILL); }
    usleep(500);
  }
  FILE* f = fopen(argv[2], "wb"); if (!f) return 99;
  int rc = 0;
  for (size_t i = 0; i < nc; ++i) {
    if (of[i].empty()) { Ev e(cases[i].first, "crash"); e.S("why", "timeout"); e.S("what", "not run after several time-outs"); e.I("after", 0); e.o << "}\n"; std::string s = e.o.str(); fwrite(s.data(), 1, s.size(), f); continue; }
    Bytes o = ReadFile(of[i]);
    if (!o.empty() && o.back() != '\n') { size_t p = o.rfind('\n'); o = p == std::string::npos ? "" : o.substr(0, p + 1); }
    fwrite(o.data(), 1, o.size(), f);
    if (WIFEXITED(status[i]) && (WEXITSTATUS(status[i]) == 99)) rc = 99;
    if (!(WIFEXITED(status[i]) && WEXITSTATUS(status[i]) == 0)) {
      Bytes err = ReadFile(ef[i]); std::string what;
      size_t p = err.find("ERROR: AddressSanitizer"); if (p == std::string::npos) p = err.find("runtime error:"); if (p == std::string::npos) p = err.find("ThreadSanitizer"); if (p == std::string::npos) p = err.find("MemorySanitizer"); if (p == std::string::npos) { size_t q = err.size(); while (q && err[q-1] == 10) --q; size_t r = q ? err.rfind(10, q - 1) : 0; p = r == std::string::npos ? 0 : r; while (p < err.size() && err[p] == 10) ++p; }
      what = err.substr(p, 260); size_t nl = what.find('\n'); if (nl != std::string::npos) what.resize(nl);
      for (char& c : what) if ((uint8_t)c < 32 || (uint8_t)c > 126) c = ' ';
      std::ostringstream done; size_t lines = 0; for (char c : o) if (c == '\n') ++lines;
      Ev e(cases[i].first, "crash"); e.S("why", timedout[i] ? "timeout" : WIFSIGNALED(status[i]) ? "signal " + std::to_string(WTERMSIG(status[i])) : "exit " + std::to_string(WEXITSTATUS(status[i]))); e.S("what", what); e.I("after", lines);
      e.o << "}\n"; std::string s = e.o.str(); fwrite(s.data(), 1, s.size(), f);
    }
    unlink(of[i].c_str()); unlink(ef[i].c_str());
  }
  fclose(f);
  return rc;
}
