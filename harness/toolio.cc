// Linked into the tools with --wrap: injects one fault (TOOL_FAULT=fn:n:kind)
// into the calls the tool makes, and notes it in TOOL_LOG when delivered.
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <unistd.h>
#include <grp.h>
#include <map>
#include <string>
extern "C" {
FILE* __real_fopen(const char*, const char*);
int __real_fseek(FILE*, long, int);
long __real_ftell(FILE*);
size_t __real_fread(void*, size_t, size_t, FILE*);
size_t __real_fwrite(const void*, size_t, size_t, FILE*);
int __real_fclose(FILE*);
}
static std::map<FILE*, std::string>& Outs() { static std::map<FILE*, std::string> m; return m; }
static void Note() { const char* p = getenv("TOOL_LOG"); if (!p) return; int fd = atoi(p); if (write(fd, "x", 1) != 1) _exit(98); }
static std::string Hit(const char* fn) {
  static std::map<std::string, int> n; const char* f = getenv("TOOL_FAULT"); if (!f) return "";
  std::string s(f); size_t a = s.find(':'), b = s.find(':', a + 1); if (b == std::string::npos || s.substr(0, a) != fn) return "";
  if (++n[fn] != atoi(s.c_str() + a + 1)) return "";
  return s.substr(b + 1);
}
__attribute__((constructor)) static void Start() {
  if (const char* s = getenv("TOOL_FSIZE")) { struct rlimit r; r.rlim_cur = r.rlim_max = strtoul(s, 0, 10); signal(SIGXFSZ, SIG_IGN); setrlimit(RLIMIT_FSIZE, &r); }
  if (getenv("TOOL_NOBODY")) { if (setgroups(0, 0) || setgid(65534) || setuid(65534)) _exit(97); }
}
extern "C" {
FILE* __wrap_fopen(const char* p, const char* m) {
  if (!Hit("fopen").empty()) { Note(); errno = EACCES; return 0; }
  FILE* f = __real_fopen(p, m); if (f && strchr(m, 'w')) Outs()[f] = p; return f; }
int __wrap_fseek(FILE* f, long o, int w) { if (!Hit("fseek").empty()) { Note(); errno = EIO; return -1; } return __real_fseek(f, o, w); }
long __wrap_ftell(FILE* f) { if (!Hit("ftell").empty()) { Note(); errno = EIO; return -1; } return __real_ftell(f); }
size_t __wrap_fread(void* p, size_t s, size_t n, FILE* f) {
  std::string k = Hit("fread"); if (k == "fail") { Note(); errno = EIO; return 0; }
  if (k == "one" && s == 1 && n) return __real_fread(p, 1, 1, f);   // fewer than asked for
  return __real_fread(p, s, n, f); }
size_t __wrap_fwrite(const void* p, size_t s, size_t n, FILE* f) {
  if (!Outs().count(f)) return __real_fwrite(p, s, n, f);
  std::string k = Hit("fwrite"); if (k == "fail") { Note(); errno = ENOSPC; return 0; }
  if (k == "one" && s == 1 && n) return __real_fwrite(p, 1, 1, f);
  if (k == "half" && s == 1 && n > 1) return __real_fwrite(p, 1, n / 2, f);
  return __real_fwrite(p, s, n, f); }
int __wrap_fclose(FILE* f) {
  std::string k = Hit("fclose"); auto it = Outs().find(f); std::string name = it == Outs().end() ? "" : it->second; if (it != Outs().end()) Outs().erase(it);
  if (k.empty()) return __real_fclose(f);
  Note(); long at = name.empty() ? 0 : __real_ftell(f); __real_fclose(f);
  if (!name.empty() && at > 0 && truncate(name.c_str(), at - 1)) _exit(98);   // the last byte never made it
  errno = ENOSPC; return -1; }
}
