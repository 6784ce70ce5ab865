/* nginx_driver DOCROOT < requests -> JSON lines. A request:
   URI OUTER INNER METHOD(G,H,P) SUB(0,1) VARY(0,1) FAIL(0..8) OPENERR(-1..) NOMEM HDR("-" absent, else x + hex) */
#include "ngx_config.h"
#include "ngx_http.h"
ngx_module_t ngx_http_core_module; int standin_open_err = -1;
extern ngx_module_t ngx_http_brunsli_static_module;
static int set(ngx_conf_t* cf, ngx_module_t* m, void* conf, char* word) {
  ngx_str_t v[2] = {ngx_string("brunsli_static"), ngx_null_string}; ngx_array_t a; ngx_command_t* c;
  if (!strcmp(word, "-")) return 1;
  v[1].len = strlen(word); v[1].data = (u_char*)word; memset(&a, 0, sizeof a); a.elts = v; a.nelts = 2; cf->args = &a;
  for (c = m->commands; c->name.len; ++c) if (c->name.len == v[0].len && !memcmp(c->name.data, v[0].data, v[0].len)) return c->set(cf, c, conf) == NGX_CONF_OK;
  return 0; }
int main(int argc, char** argv) {
  static char line[70000], uri[4096], hex[60000], outer[20], inner[20]; char meth; int sub, vary, fail, oerr, nomem; (void)argc;
  ngx_http_module_t* ctx = (ngx_http_module_t*)ngx_http_brunsli_static_module.ctx;
  ngx_http_handler_pt hs[4]; static ngx_http_core_main_conf_t mc; static ngx_pool_t p0; static ngx_log_t log; ngx_conf_t cf; int ph, nh = 0; ngx_http_handler_pt handler = NULL;
  memset(&cf, 0, sizeof cf); cf.pool = &p0; cf.main_conf = &mc; cf.log = &log;
  for (ph = 0; ph < 11; ++ph) { mc.phases[ph].handlers.elts = calloc(4, sizeof *hs); mc.phases[ph].handlers.size = sizeof *hs; }
  if (ctx->postconfiguration(&cf) != NGX_OK) return 8;
  for (ph = 0; ph < 11; ++ph) if (mc.phases[ph].handlers.nelts) { nh += (int)mc.phases[ph].handlers.nelts; handler = *(ngx_http_handler_pt*)mc.phases[ph].handlers.elts; if (ph != NGX_HTTP_CONTENT_PHASE) return 8; }
  if (nh != 1) return 8;
  while (fgets(line, sizeof line, stdin)) {
    ngx_pool_t pool; ngx_http_request_t r, parent; ngx_connection_t con; ngx_http_core_loc_conf_t core; ngx_table_elt_t acc; char* copy = NULL; void *o, *n; int okc, i, kept; ngx_int_t rc; const char* enc;
    if (sscanf(line, "%4095s %19s %19s %c %d %d %d %d %d %59999s", uri, outer, inner, &meth, &sub, &vary, &fail, &oerr, &nomem, hex) != 10) return 9;
    memset(&pool, 0, sizeof pool); memset(&r, 0, sizeof r); memset(&parent, 0, sizeof parent); memset(&core, 0, sizeof core); memset(&acc, 0, sizeof acc); memset(&p0, 0, sizeof p0);
    printf("{\"begin\":1}\n"); fflush(stdout);
    okc = 1; o = ctx->create_loc_conf(&cf); n = ctx->create_loc_conf(&cf); okc = set(&cf, &ngx_http_brunsli_static_module, o, outer) && set(&cf, &ngx_http_brunsli_static_module, n, inner) && ctx->merge_loc_conf(&cf, o, n) == NGX_CONF_OK;
    if (!okc) { printf("{\"rc\":-99}\n"); fflush(stdout); continue; }
    pool.fail_at = nomem; con.log = &log; r.connection = &con; r.pool = &pool; r.my_conf = n; r.core = &core; core.gzip_vary = vary; r.docroot = argv[1]; r.fail = fail; standin_open_err = oerr;
    r.method = meth == 'G' ? NGX_HTTP_GET : meth == 'H' ? NGX_HTTP_HEAD : NGX_HTTP_POST; r.header_only = meth == 'H';
    r.uri.len = strlen(uri); r.uri.data = (u_char*)strdup(uri); r.main = sub ? &parent : &r; r.parent = sub ? &parent : NULL; r.headers_out.headers.pool = &pool; r.headers_out.content_length_n = -1;
    if (hex[0] == 'x') { size_t k, len = (strlen(hex) - 1) / 2; u_char* h = (u_char*)malloc(len + 1); for (k = 0; k < len; ++k) { unsigned v; sscanf(hex + 1 + 2 * k, "%2x", &v); h[k] = (u_char)v; } h[len] = 0; copy = strdup((char*)h); acc.hash = 1; ngx_str_set(&acc.key, "Accept"); acc.value.data = h; acc.value.len = len; r.headers_in.accept = &acc; }
    rc = handler(&r);
    kept = r.headers_in.accept == (copy ? &acc : NULL) && (!copy || (acc.value.len == strlen(copy) && !memcmp(acc.value.data, copy, acc.value.len + 1)));
    enc = r.headers_out.content_encoding ? (r.headers_out.content_encoding->value.len == 8 && !memcmp(r.headers_out.content_encoding->value.data, "identity", 8) ? "identity" : "other") : "";
    printf("{\"rc\":%ld,\"status\":%ld,\"len\":%ld,\"type\":\"%.*s\",\"enc\":\"%s\",\"vary\":%s,\"sends\":%d,\"outs\":%d,\"last\":%s,\"kept\":%s,\"body\":\"", (long)rc, (long)r.headers_out.status, (long)r.headers_out.content_length_n, (int)r.headers_out.content_type.len, r.headers_out.content_type.data ? (char*)r.headers_out.content_type.data : "", enc, r.gzip_vary ? "true" : "false", r.sends, r.outs, r.last ? "true" : "false", kept ? "true" : "false");
    for (i = 0; i < r.bodylen; ++i) printf("%02x", (unsigned char)r.body[i]);
    printf("\"}\n"); fflush(stdout);
    for (i = 0; i < pool.n; ++i) free(pool.mem[i]);
    for (i = 0; i < p0.n; ++i) free(p0.mem[i]);
  }
  return 0;
}
