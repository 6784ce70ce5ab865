// The bindings (BDRV_EXTRA).  -DGLUE_WASM: a non-PIE build, whose heap lies
// below 4 GB, so that the 32 bit fields of an instance hold its pointers.
static void EvConv(World& w, const char* route, const std::string& dir, const Bytes& in, const std::string& how, const std::string& res, const Bytes& out, bool kept) {
  Ev e(w.id, "conv"); e.S("route", route); e.S("dir", dir); e.S("in", Hash(in)); e.S("how", how); e.S("res", res); e.S("out", res == "ok" ? Hash(out) : ""); e.B("kept", kept); Emit(e);
}
static bool Api(const std::string& dir, const Bytes& in, Bytes* out) {
  Sink s("full"); Heap h(in);
  bool ok = (dir == "enc" ? EncodeBrunsli(h.n, h.p, &s, SinkCb) : DecodeBrunsli(h.n, h.p, &s, SinkCb)) == 1; *out = ok ? s.got : Bytes(); return ok;
}

#ifdef GLUE_WASM
extern "C" {
std::string* BrunsliToJpeg(const uint8_t* data, size_t length);
uint32_t* BrunsliDecoderInit();
uint32_t BrunsliDecoderProcess(uint32_t* instance);
void BrunsliDecoderCleanup(uint32_t* instance);
const char* GetJpegData(std::string* jpeg);
size_t GetJpegLength(std::string* jpeg);
void FreeJpeg(std::string* jpeg);
std::string* JpegToBrunsli(const uint8_t* data, size_t length);
const char* GetBrunsliData(std::string* brunsli);
size_t GetBrunsliLength(std::string* brunsli);
void FreeBrunsli(std::string* brunsli);
}
#include <malloc.h>
static int low_heap = [] { mallopt(M_MMAP_THRESHOLD, 1 << 30); void* p = malloc(200000); bool ok = (uintptr_t)p >> 32 == 0; free(p); if (!ok) { fprintf(stderr, "heap above 4 GB\n"); _exit(99); } return 1; }();
struct Inst { uint32_t* p = nullptr; Bytes in, ref; bool good = false; size_t pos = 0, got = 0; uint32_t keep[6]; int fin = 0, spare = 0, idle = 0; std::string name; };
static bool Same(const Inst& x) { return x.p[0] == x.keep[0] && x.p[1] == x.keep[1] && x.p[2] == x.keep[2] && x.p[4] == x.keep[4]; }
static void Proto(World& w, uint64_t r, int live, const std::vector<std::string>& names, int total) {
  r = r * 0x9e3779b97f4a7c15ull + 88172645463325252ull; auto rnd = [&]() { r ^= r << 13; r ^= r >> 7; r ^= r << 17; return (uint32_t)(r >> 13); };
  std::vector<std::unique_ptr<Inst>> is; int made = 0;
  while (made < total || !is.empty()) {
    if (made < total && ((int)is.size() < live)) {
      std::unique_ptr<Inst> x(new Inst()); x->in = w.b[names[rnd() % names.size()]]; x->good = Api("dec", x->in, &x->ref); x->name = std::to_string(made++); x->spare = rnd() % 3;
      x->p = BrunsliDecoderInit(); memcpy(x->keep, x->p, sizeof x->keep); uint32_t* f = x->p;
      bool ok = f[0] && f[2] && f[4] && f[5] == 0 && (f[2] + (uint64_t)f[1] <= f[4] || f[4] + 65536ull <= f[2]);
      for (auto& y : is) ok = ok && y->p != x->p && y->p[0] != f[0] && y->p[2] != f[2] && y->p[4] != f[4] && y->p[2] != f[4] && y->p[4] != f[2];
      Ev e(w.id, "init"); e.S("d", x->name); e.I("N", x->in.size()); e.I("L", x->ref.size()); e.B("good", x->good); e.I("room", f[1]); e.B("fields", ok); Emit(e);
      is.push_back(std::move(x)); continue; }
    size_t k = rnd() % is.size(); Inst& x = *is[k];
    bool stop = (x.fin && x.spare-- <= 0) || x.idle > 2 || (x.got == 0 && rnd() % 200 == 0);
    if (stop) { BrunsliDecoderCleanup(x.p); Ev e(w.id, "free"); e.S("d", x.name); Emit(e); is.erase(is.begin() + k); continue; }
    uint32_t q = rnd(); size_t left = x.in.size() - x.pos, n = q % 8 == 0 ? 0 : q % 8 == 1 ? 1 : q % 8 < 4 ? q / 8 % 100 : q % 8 < 6 ? q / 8 % 3000 : q % 8 == 6 ? 65536 : 65536 - q / 8 % 3;
    if (left > 3000 && n < 3000 && q / 64 % 4) n = 5000 + q / 256 % 60000;
    if (n > left) n = left; if (n > x.p[1]) n = x.p[1]; if (x.fin) n = 0;
    uint8_t* ip = (uint8_t*)(uintptr_t)x.p[2]; uint8_t* op = (uint8_t*)(uintptr_t)x.p[4];
    if (q / 512 % 2) memset(ip, q >> 20, 65536);
    memcpy(ip, x.in.data() + x.pos, n); x.p[3] = n; x.p[5] = q; x.pos += n;
    uint32_t code = BrunsliDecoderProcess(x.p); size_t m = x.p[5];
    bool next = m <= 65536 && x.got + m <= x.ref.size() && !memcmp(op, x.ref.data() + x.got, m);
    bool pfx = false; if (code == 1 && !x.good) { Bytes t; pfx = Api("dec", x.in.substr(0, x.pos), &t); }
    x.got += m <= 65536 ? m : 0; if (code) x.fin = 1; if (n == 0 && m == 0 && !code && x.pos == x.in.size()) ++x.idle;
    Ev e(w.id, "proc"); e.S("d", x.name); e.I("n", n); e.I("made", m); e.I("code", code); e.B("next", next); e.B("pfx", pfx); e.B("fields", Same(x)); Emit(e);
  }
}
#endif

#ifdef GLUE_JNI
#include <jni.h>
extern "C" {
JNIEXPORT jbyteArray JNICALL Java_dev_brunsli_wrapper_CodecJNI_nativeDecode(JNIEnv*, jobject, jobject);
JNIEXPORT jbyteArray JNICALL Java_dev_brunsli_wrapper_CodecJNI_nativeEncode(JNIEnv*, jobject, jobject);
}
// A stand-in for the virtual machine: one direct buffer, arrays which know what was written.
struct FakeArr { uint8_t* p; jsize n; std::vector<bool> set; bool wrong; };
static struct { uint8_t* p; jlong n; std::string how; std::vector<FakeArr*> arrs; bool pending, misuse; } vm;
static FakeArr* FA(jarray a) { for (auto x : vm.arrs) if ((void*)x == (void*)a) return x; fprintf(stderr, "AddressSanitizer-like: not an array of this machine\n"); abort(); }
static void* JNICALL FAddr(JNIEnv*, jobject b) { if (b != (jobject)&vm) vm.misuse = true; return vm.how == "noaddr" ? nullptr : vm.p; }
static jlong JNICALL FCap(JNIEnv*, jobject b) { if (b != (jobject)&vm) vm.misuse = true; return vm.how == "nocap" ? -1 : vm.how == "noaddr" ? -1 : vm.n; }
static jbyteArray JNICALL FNew(JNIEnv*, jsize n) { if (vm.pending || n < 0) vm.misuse = true; if (vm.how == "nomem") { vm.pending = true; return nullptr; } FakeArr* a = new FakeArr{(uint8_t*)malloc(n + 1), n, std::vector<bool>(n), false}; vm.arrs.push_back(a); return (jbyteArray)a; }
static void JNICALL FSet(JNIEnv*, jbyteArray r, jsize s, jsize n, const jbyte* b) { if (vm.pending) vm.misuse = true; FakeArr* a = FA(r); if (s < 0 || n < 0 || s + n > a->n) { a->wrong = true; return; } if (n) memcpy(a->p + s, b, n); for (jsize i = 0; i < n; ++i) a->set[s + i] = true; }
static jsize JNICALL FLen(JNIEnv*, jarray r) { return FA(r)->n; }
static jbyte* JNICALL FElems(JNIEnv*, jbyteArray r, jboolean* c) { if (c) *c = 0; FA(r)->set.assign(FA(r)->n, true); return (jbyte*)FA(r)->p; }
static void JNICALL FRel(JNIEnv*, jbyteArray, jbyte*, jint) {}
static void* JNICALL FCrit(JNIEnv* e, jarray r, jboolean* c) { return FElems(e, (jbyteArray)r, c); }
static void JNICALL FRelC(JNIEnv*, jarray, void*, jint) {}
static jboolean JNICALL FExc(JNIEnv*) { return vm.pending; }
static void JNICALL FDel(JNIEnv*, jobject) {}
static void Jni(World& w, const std::string& dir, const Bytes& in, const std::string& how, Bytes* res) {
  static JNINativeInterface_ f; f.GetDirectBufferAddress = FAddr; f.GetDirectBufferCapacity = FCap; f.NewByteArray = FNew; f.SetByteArrayRegion = FSet; f.GetArrayLength = FLen; f.GetByteArrayElements = FElems; f.ReleaseByteArrayElements = FRel;
  f.GetPrimitiveArrayCritical = FCrit; f.ReleasePrimitiveArrayCritical = FRelC; f.ExceptionCheck = FExc; f.DeleteLocalRef = FDel;
  JNIEnv env; env.functions = &f; Heap h(in); vm.p = h.p; vm.n = h.n; vm.how = how; vm.arrs.clear(); vm.pending = vm.misuse = false;
  jbyteArray r = dir == "enc" ? Java_dev_brunsli_wrapper_CodecJNI_nativeEncode(&env, nullptr, (jobject)&vm) : Java_dev_brunsli_wrapper_CodecJNI_nativeDecode(&env, nullptr, (jobject)&vm);
  Bytes o; std::string st = "fail";
  if (r) { FakeArr* a = FA(r); st = "ok"; o.assign((char*)a->p, a->n); for (bool b : a->set) if (!b) st = "partly written array"; if (a->wrong) st = "written past the array"; }
  if (vm.misuse) st = "misuse of the machine";
  *res = o; EvConv(w, "jni", dir, in, how, st, o, !in.size() || !memcmp(h.p, in.data(), in.size()));
}
#endif

static void ExtraOp(World& w, const std::vector<std::string>& t) {
  const std::string op = t[0];
  if (op == "api") {            // api DIR S [T]
    Bytes o; const Bytes& in = w.b[t[2]]; bool ok = Api(t[1], in, &o); if (t.size() > 3) w.b[t[3]] = o;
    Ev e(w.id, "api"); e.S("dir", t[1]); e.S("in", Hash(in)); e.B("ok", ok); e.S("out", ok ? Hash(o) : ""); Emit(e); return; }
#ifdef GLUE_WASM
  if (op == "wasm") {           // wasm DIR S
    const Bytes& in = w.b[t[2]]; Heap h(in); bool enc = t[1] == "enc";
    std::string* r = enc ? JpegToBrunsli(h.p, h.n) : BrunsliToJpeg(h.p, h.n); Bytes o; std::string st = "fail";
    size_t n = enc ? GetBrunsliLength(r) : GetJpegLength(r); const char* d = enc ? GetBrunsliData(r) : GetJpegData(r);
    if (r) { st = "ok"; o.assign(d, n); } else if (n || d) st = "data of nothing";
    if (enc) FreeBrunsli(r); else FreeJpeg(r);
    EvConv(w, "wasm", t[1], in, "", st, o, !in.size() || !memcmp(h.p, in.data(), in.size())); return; }
  if (op == "null") {
    BrunsliDecoderCleanup(nullptr); FreeJpeg(nullptr); FreeBrunsli(nullptr);
    Ev e(w.id, "null"); e.B("ok", !GetJpegData(nullptr) && !GetBrunsliData(nullptr) && !GetJpegLength(nullptr) && !GetBrunsliLength(nullptr)); Emit(e); return; }
  if (op == "proto") {          // proto SEED LIVE TOTAL S...
    Proto(w, strtoull(t[1].c_str(), 0, 10), atoi(t[2].c_str()), std::vector<std::string>(t.begin() + 4, t.end()), atoi(t[3].c_str())); return; }
#endif
#ifdef GLUE_JNI
  if (op == "jni") { Bytes o; Jni(w, t[1], w.b[t[2]], t.size() > 3 && t[3] != "-" ? t[3] : "", &o); return; }   // jni DIR S [HOW]
#endif
  fprintf(stderr, "bdrv: unknown op %s\n", op.c_str()); _exit(99);
}
