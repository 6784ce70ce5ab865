/* apache_driver DOCROOT < requests; a line per request: URI TRANSLATE(0,1,2) HDR("-" absent, else x + hex) -> JSON */
#include "httpd.h"
standin_handler standin_registered;
extern module brunsli_module;
int main(int argc, char** argv) {
  static char line[70000], uri[4096], hex[60000]; int tr; (void)argc;
  apr_pool_t boot = {{0}, 0};
  brunsli_module.register_hooks(&boot);
  while (fgets(line, sizeof line, stdin)) {
    apr_pool_t pool; apr_table_t in, out, env; request_rec r; char* copy = NULL; int i, rc; const char* now;
    if (sscanf(line, "%4095s %d %59999s", uri, &tr, hex) != 3) return 9;
    memset(&pool, 0, sizeof pool); memset(&in, 0, sizeof in); memset(&out, 0, sizeof out); memset(&env, 0, sizeof env); memset(&r, 0, sizeof r);
    r.pool = &pool; r.headers_in = &in; r.headers_out = r.err_headers_out = &out; r.subprocess_env = &env; r.uri = strdup(uri); r.docroot = argv[1]; r.bad_translate = tr; r.method = "GET";
    apr_table_setn(&in, "Host", "h");
    if (hex[0] == 'x') { size_t n = (strlen(hex) - 1) / 2, k; char* h = (char*)malloc(n + 1); for (k = 0; k < n; ++k) { unsigned v; sscanf(hex + 1 + 2 * k, "%2x", &v); h[k] = (char)v; } h[n] = 0; copy = strdup(h); apr_table_setn(&in, "Accept", h); }
    printf("{\"begin\":1}\n"); fflush(stdout);
    rc = standin_registered(&r);
    now = apr_table_get(&in, "Accept");
    printf("{\"rc\":%d,\"file\":\"%s\",\"type\":\"%s\",\"kept\":%s}\n", rc, r.filename ? r.filename : "", r.content_type ? r.content_type : "", (copy ? now && !strcmp(now, copy) : !now) ? "true" : "false"); fflush(stdout);
    for (i = 0; i < pool.n; ++i) free(pool.mem[i]);
  }
  return 0;
}
