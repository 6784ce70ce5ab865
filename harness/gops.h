// Groups mode operations for bdrv (BDRV_EXTRA).
#include <condition_variable>
#include <mutex>
#include "c/experimental/groups.h"

// seq | rev | rndSEED | parN (own thread pool) | jitN (the same, tasks delayed at random) | thr (a thread per task)
template <class F> static bool WithExec(const std::string& x, F f) {
  std::unique_ptr<ParallelExecutor> pool; Executor ex; uint64_t seed = x.size() > 3 ? strtoull(x.c_str() + 3, 0, 10) : 1;
  std::string k = x.substr(0, 3);
  auto order = [=](size_t n) { std::vector<size_t> o(n); for (size_t i = 0; i < n; ++i) o[i] = i; uint64_t r = seed * 2654435761u + 99; for (size_t i = n; i > 1; --i) { r = r * 6364136223846793005ull + 1442695040888963407ull; std::swap(o[i - 1], o[(r >> 33) % i]); } return o; };
  if (k == "seq") ex = SequentialExecutor;
  else if (k == "rev") ex = [](const Runnable& r, size_t n) { while (n--) r(n); };
  else if (k == "rnd") ex = [=](const Runnable& r, size_t n) { for (size_t i : order(n)) r(i); };
  else if (k == "thr") ex = [=](const Runnable& r, size_t n) { std::vector<std::thread> t; for (size_t i : order(n)) t.emplace_back([&r, i]() { r(i); }); for (auto& q : t) q.join(); };
  else {
    pool.reset(new ParallelExecutor(seed));
    Executor in = pool->getExecutor();
    if (k == "par") ex = in;
    else ex = [=](const Runnable& r, size_t n) mutable { Runnable slow = [&](size_t i) { usleep((i * 7919 + n * 31 + seed) % 5 * 60); r(i); }; in(slow, n); };
  }
  return f(&ex);
}

static void ExtraOp(World& w, const std::vector<std::string>& t) {
  const std::string& op = t[0];
  if (op == "genc") {  // genc J S AC DC EXEC cap expect
    JPEGData& j = w.j[t[1]]->j; size_t ac = atol(t[3].c_str()), dc = atol(t[4].c_str());
    size_t cap = t[6] == "max" ? GetMaximumBrunsliEncodedSize(j) + 4096 * 1024 : strtoul(t[6].c_str(), 0, 10);
    if (t[6].compare(0, 4, "len-") == 0) { size_t d = atol(t[6].c_str() + 4), n = w.b[t[2]].size(); cap = n > d ? n - d : 0; }
    if (t[6].compare(0, 4, "len+") == 0) cap = w.b[t[2]].size() + atol(t[6].c_str() + 4);
    std::string d0 = DigestHash(j); uint8_t* p = (uint8_t*)malloc(cap ? cap : 1); size_t n = cap;
    bool ok = WithExec(t[5], [&](Executor* ex) { return EncodeGroups(j, p, &n, ac, dc, ex); });
    Ev e(w.id, "genc"); e.S("dig", d0); e.B("same", DigestHash(j) == d0); e.I("ac", ac); e.I("dc", dc); e.S("ex", t[5]); e.S("cap", t[6]); e.S("expect", t[7]); e.B("ok", ok); e.B("fits", n <= cap);
    Bytes r; if (ok && n <= cap) r.assign((const char*)p, n); e.S("out", ok ? Hash(r) : ""); free(p); if (ok) w.b[t[2]] = r; Emit(e); return; }
  if (op == "gdec") {  // gdec S J AC DC EXEC expect
    auto jd = std::make_shared<Jd>(); jd->keep = std::make_shared<Heap>(w.b[t[1]]); size_t ac = atol(t[3].c_str()), dc = atol(t[4].c_str());
    bool ok = WithExec(t[5], [&](Executor* ex) { return DecodeGroups(jd->keep->p, jd->keep->n, &jd->j, ac, dc, ex); });
    jd->how = ok ? "dec" : ""; jd->from = Hash(w.b[t[1]]);
    Ev e(w.id, "gdec"); e.S("in", jd->from); e.I("ac", ac); e.I("dc", dc); e.S("ex", t[5]); e.S("expect", t[6]); e.B("ok", ok); e.S("dig", ok ? DigestHash(jd->j) : "");
    if (ok) { Sink s("full"); bool wr = WriteJpeg(jd->j, JPEGOutput(SinkCb, &s)); e.S("out", wr ? Hash(s.got) : ""); } else e.S("out", "");
    w.j[t[2]] = jd; Emit(e); return; }
  if (op == "poke") {  // poke J comp block coefficient value : one coefficient overwritten
    JPEGData& j = w.j[t[1]]->j; auto& c = j.components[atoi(t[2].c_str())]; size_t i = atol(t[3].c_str()) * 64 + atoi(t[4].c_str());
    if (i < c.coeffs.size()) c.coeffs[i] = atoi(t[5].c_str());
    w.j[t[1]]->how = "fill"; return; }
  if (op == "gdmg") {  // gdmg S T kind index arg : damages one section (index from the first DC section on)
    const Bytes& b = w.b[t[1]]; std::vector<size_t> st, bo; Bounds(b, &st, &bo); Bytes r; size_t n = st.size() ? st.size() - 1 : 0, first = 0; long arg = atol(t[5].c_str());
    while (first < n && (uint8_t)b[st[first]] >> 3 != 7) ++first;
    size_t k = first + strtoul(t[4].c_str(), 0, 10) % std::max<size_t>(1, n - first); std::string kind = t[3];
    for (size_t i = 0; i < n; ++i) {
      Bytes tok = b.substr(st[i], st[i + 1] - st[i]), body = b.substr(bo[i], st[i + 1] - bo[i]);
      if (i == k) {
        if (kind == "drop") continue;
        if (kind == "dup") r += tok;
        if (kind == "short") { body.resize(body.size() > (size_t)arg ? body.size() - arg : 0); tok = Bytes(1, tok[0]) + B128(body.size()) + body; }
        if (kind == "long") { body += Bytes(arg, 'x'); tok = Bytes(1, tok[0]) + B128(body.size()) + body; }
        if (kind == "tag") tok[0] = (char)((tok[0] >> 3) == 7 ? (8 << 3 | 2) : (7 << 3 | 2));
        if (kind == "flip" && body.size()) { size_t p = bo[i] - st[i] + arg % body.size(); tok[p] ^= (char)(1 << (arg / 7 % 8)); }
        if (kind == "zero") { for (size_t p = bo[i] - st[i]; p < tok.size(); ++p) tok[p] = 0; }
        if (kind == "cut") { r += tok.substr(0, tok.size() - std::min<size_t>(tok.size(), arg)); break; }
      }
      r += tok;
    }
    if (kind == "tail") r += Bytes(arg, 0);
    w.b[t[2]] = r; return; }
  fprintf(stderr, "bdrv: unknown op %s\n", op.c_str()); _exit(99);
}
