/* Stand-in for the parts of Apache httpd and APR a request handler of this kind uses. */
#ifndef STANDIN_HTTPD_H
#define STANDIN_HTTPD_H
#include <ctype.h>
#include <errno.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <sys/stat.h>
typedef int apr_status_t; typedef int32_t apr_int32_t; typedef int64_t apr_off_t; typedef size_t apr_size_t;
#define APR_SUCCESS 0
#define OK 0
#define DECLINED -1
#define DONE -2
#define HTTP_NOT_FOUND 404
#define HTTP_INTERNAL_SERVER_ERROR 500
#define M_GET 0
#define M_POST 2
typedef struct apr_pool_t { void* mem[4096]; int n; } apr_pool_t;
typedef struct apr_table_t { const char* key[8]; char* val[8]; int n; } apr_table_t;
typedef enum { APR_NOFILE = 0, APR_REG, APR_DIR, APR_CHR, APR_BLK, APR_PIPE, APR_LNK, APR_SOCK, APR_UNKFILE = 127 } apr_filetype_e;
#define APR_FINFO_TYPE 0x00008000
#define APR_FINFO_SIZE 0x00000100
#define APR_FINFO_MIN 0x00008170
#define APR_FINFO_NORM 0x0073b170
typedef struct { apr_int32_t valid; apr_filetype_e filetype; apr_off_t size; const char* fname; int64_t mtime; } apr_finfo_t;
typedef struct request_rec {
  apr_pool_t* pool; apr_table_t* headers_in; apr_table_t* headers_out; apr_table_t* err_headers_out; apr_table_t* subprocess_env;
  char* uri; char* filename; char* canonical_filename; char* path_info; char* args; const char* content_type; const char* handler; const char* content_encoding;
  int method_number; const char* method; int header_only; apr_finfo_t finfo; struct request_rec* main; struct request_rec* prev; void* server; void* connection;
  const char* docroot; int bad_translate;
} request_rec;
static inline void* apr_palloc(apr_pool_t* p, size_t n) { void* r = malloc(n ? n : 1); p->mem[p->n++] = r; return r; }
static inline void* apr_pcalloc(apr_pool_t* p, size_t n) { void* r = apr_palloc(p, n); memset(r, 0, n); return r; }
static inline char* apr_pstrdup(apr_pool_t* p, const char* s) { char* r; if (!s) return NULL; r = (char*)apr_palloc(p, strlen(s) + 1); strcpy(r, s); return r; }
static inline char* apr_pstrndup(apr_pool_t* p, const char* s, size_t n) { char* r; size_t l; if (!s) return NULL; l = strnlen(s, n); r = (char*)apr_palloc(p, l + 1); memcpy(r, s, l); r[l] = 0; return r; }
static inline char* apr_pstrmemdup(apr_pool_t* p, const char* s, size_t n) { char* r; if (!s) return NULL; r = (char*)apr_palloc(p, n + 1); memcpy(r, s, n); r[n] = 0; return r; }
static inline char* apr_psprintf(apr_pool_t* p, const char* f, ...) { va_list a, b; int n; char* r; va_start(a, f); va_copy(b, a); n = vsnprintf(NULL, 0, f, a); va_end(a); r = (char*)apr_palloc(p, (size_t)n + 1); vsnprintf(r, (size_t)n + 1, f, b); va_end(b); return r; }
static inline char* apr_pstrcat(apr_pool_t* p, ...) { va_list a; size_t n = 0; const char* s; char* r; va_start(a, p); while ((s = va_arg(a, const char*))) n += strlen(s); va_end(a); r = (char*)apr_palloc(p, n + 1); *r = 0; va_start(a, p); while ((s = va_arg(a, const char*))) strcat(r, s); va_end(a); return r; }
static inline char* apr_strtok(char* str, const char* sep, char** last) {
  char* t; if (!str) str = *last; if (!str) return NULL;
  while (*str && strchr(sep, *str)) ++str;
  if (!*str) return NULL;
  t = str; *last = t + 1; while (**last && !strchr(sep, **last)) ++*last; if (**last) { **last = 0; ++*last; } return t; }
static inline char* apr_collapse_spaces(char* d, const char* s) { char* r = d; while (*s) { if (!isspace((unsigned char)*s)) *d++ = *s; ++s; } *d = 0; return r; }
#define apr_isspace(c) isspace((unsigned char)(c))
#define apr_tolower(c) tolower((unsigned char)(c))
static inline const char* apr_table_get(const apr_table_t* t, const char* k) { int i; for (i = 0; i < t->n; ++i) if (!strcasecmp(t->key[i], k)) return t->val[i]; return NULL; }
static inline void apr_table_setn(apr_table_t* t, const char* k, const char* v) { int i; for (i = 0; i < t->n; ++i) if (!strcasecmp(t->key[i], k)) { t->val[i] = (char*)v; return; } t->key[t->n] = k; t->val[t->n++] = (char*)v; }
#define apr_table_set apr_table_setn
#define apr_table_mergen apr_table_setn
#define apr_table_addn apr_table_setn
static inline apr_status_t apr_stat(apr_finfo_t* f, const char* n, apr_int32_t want, apr_pool_t* p) {
  struct stat s; (void)want; (void)p; memset(f, 0, sizeof *f); if (stat(n, &s)) { f->filetype = APR_NOFILE; return errno; }
  f->filetype = S_ISREG(s.st_mode) ? APR_REG : S_ISDIR(s.st_mode) ? APR_DIR : S_ISCHR(s.st_mode) ? APR_CHR : S_ISFIFO(s.st_mode) ? APR_PIPE : APR_UNKFILE; f->size = s.st_size; f->fname = n; f->valid = want; return APR_SUCCESS; }
static inline int ap_core_translate(request_rec* r) { if (r->bad_translate == 1) return 403; if (r->bad_translate == 3) { r->filename = apr_pstrcat(r->pool, r->docroot, r->uri, (char*)0); return 403; } if (r->bad_translate == 2) { r->filename = NULL; return OK; } r->filename = apr_pstrcat(r->pool, r->docroot, r->uri, (char*)0); return OK; }
static inline void ap_set_content_type(request_rec* r, const char* t) { r->content_type = t; }
typedef int (*standin_handler)(request_rec*);
extern standin_handler standin_registered;
#define APR_HOOK_FIRST 0
#define APR_HOOK_MIDDLE 10
#define APR_HOOK_LAST 20
static inline void ap_hook_translate_name(standin_handler h, const char* const* pre, const char* const* succ, int order) { (void)pre; (void)succ; (void)order; standin_registered = h; }
typedef struct module_struct { int v; const char* name; void* a; void* b; void* c; void* d; const void* cmds; void (*register_hooks)(apr_pool_t*); } module;
#define STANDARD20_MODULE_STUFF 0, __FILE__
#define AP_DECLARE_MODULE(n) module n##_module
#endif
