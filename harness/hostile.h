// Hostile inputs: every byte string through every entry point (BDRV_EXTRA).
static Bytes Slurp(const std::string& p) { return ReadFile(p); }
static void ExtraOp(World& w, const std::vector<std::string>& t) {
  const std::string& op = t[0];
  if (op != "hjpg" && op != "hbrn") { fprintf(stderr, "bdrv: unknown op %s\n", op.c_str()); _exit(99); }
  // hjpg|hbrn FILE FROM COUNT SEED : FILE holds records of a 4 byte length and bytes
  const Bytes all = Slurp(t[1]); size_t from = strtoul(t[2].c_str(), 0, 10), cnt = strtoul(t[3].c_str(), 0, 10); uint64_t seed = strtoull(t[4].c_str(), 0, 10);
  size_t p = 0; std::vector<Bytes> items;
  for (size_t i = 0; p + 4 <= all.size(); ++i) { uint32_t n; memcpy(&n, all.data() + p, 4); p += 4; if (i >= from && i < from + cnt) items.push_back(all.substr(p, n)); p += n; }
  for (size_t i = 0; i < items.size(); ++i) {
    const Bytes& x = items[i]; Heap h(x);
    if (op == "hbrn") {
      { Ev e(w.id, "call"); e.S("fn", "brn"); e.I("n", from + i); Emit(e); }
      bool isb = IsBrunsli(h.p, h.n); static const char sig[7] = "\x0a\x04\x42\xd2\xd5\x4e";
      size_t est = BrunsliEstimateDecoderPeakMemoryUsage(h.p, h.n);
      std::string w0; int st; bool wr = false;
      { JPEGData j; st = BrunsliDecodeJpeg(h.p, h.n, &j); if (st == 0) { Sink k("full"); wr = WriteJpeg(j, JPEGOutput(SinkCb, &k)); if (wr) w0 = Hash(k.got); } }
      Sink k("full"); int rc = DecodeBrunsli(h.n, h.p, &k, SinkCb);
      bool kept = !memcmp(h.p, x.data(), x.size());
      std::string ss = "["; for (int m = 0; m < 3; ++m) { int mode = m == 0 ? 0 : m == 1 ? 2 : (i % 3 == 0 && x.size() < 3000 ? 1 : 3); Quick q = QuickStream(x, mode, seed + i); if (m) ss += ","; ss += "[\"" + std::string(q.st == 9 ? "STUCK" : StName(q.st)) + "\",\"" + q.hash + "\"," + (q.whole ? "true" : "false") + "]"; } ss += "]";
      Ev e(w.id, "ret"); e.S("fn", "brn"); e.I("n", from + i); e.B("isb", isb); e.B("sig", x.size() >= 6 && !memcmp(x.data(), sig, 6)); e.B("est0", est == 0); e.I("st", st); e.B("wr", wr); e.S("wout", w0); e.I("rc", rc); e.S("out", rc == 1 ? Hash(k.got) : ""); e.B("kept", kept); e.R("ss", ss); Emit(e);
    } else {
      { Ev e(w.id, "call"); e.S("fn", "jpg"); e.I("n", from + i); Emit(e); }
      bool ok[3]; int err[3]; bool back = false;
      for (int m = 0; m < 3; ++m) { JPEGData j; ok[m] = ReadJpeg(h.p, h.n, m == 0 ? JPEG_READ_HEADER : m == 1 ? JPEG_READ_TABLES : JPEG_READ_ALL, &j); err[m] = (int)j.error;
        if (m == 2 && ok[m]) { Sink k("full"); back = WriteJpeg(j, JPEGOutput(SinkCb, &k)) && k.got == x; } }
      Sink k("full"); int rc = EncodeBrunsli(h.n, h.p, &k, SinkCb); bool kept = !memcmp(h.p, x.data(), x.size()); bool same = false; int rd = 0;
      if (rc == 1) { Heap g(k.got); Sink z("full"); rd = DecodeBrunsli(g.n, g.p, &z, SinkCb); same = z.got == x; }
      Ev e(w.id, "ret"); e.S("fn", "jpg"); e.I("n", from + i);
      std::string s = "["; for (int m = 0; m < 3; ++m) s += std::string(m ? "," : "") + "[" + (ok[m] ? "true" : "false") + "," + std::to_string(err[m]) + "]"; e.R("reads", s + "]");
      e.B("back", back); e.I("rc", rc); e.I("rd", rd); e.B("same", same); e.B("kept", kept); Emit(e);
    }
  }
}
