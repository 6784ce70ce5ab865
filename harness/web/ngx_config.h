/* Stand-in for the parts of nginx a static-file handler uses. */
#ifndef STANDIN_NGX_H
#define STANDIN_NGX_H
#include <ctype.h>
#include <errno.h>
#include <fcntl.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
typedef intptr_t ngx_int_t; typedef uintptr_t ngx_uint_t; typedef intptr_t ngx_flag_t; typedef int ngx_fd_t; typedef int ngx_err_t;
#define NGX_OK 0
#define NGX_ERROR -1
#define NGX_AGAIN -2
#define NGX_BUSY -3
#define NGX_DONE -4
#define NGX_DECLINED -5
#define NGX_ABORT -6
#define NGX_ENOENT ENOENT
#define NGX_ENOTDIR ENOTDIR
#define NGX_ENAMETOOLONG ENAMETOOLONG
#define NGX_EACCES EACCES
#define NGX_EMLINK EMLINK
#define NGX_ELOOP ELOOP
#define NGX_EISDIR EISDIR
#define NGX_HAVE_OPENAT 1
#define NGX_LOG_EMERG 1
#define NGX_LOG_ALERT 2
#define NGX_LOG_CRIT 3
#define NGX_LOG_ERR 4
#define NGX_LOG_WARN 5
#define NGX_LOG_NOTICE 6
#define NGX_LOG_INFO 7
#define NGX_LOG_DEBUG 8
#define NGX_LOG_DEBUG_HTTP 0x100
typedef struct { size_t len; u_char* data; } ngx_str_t;
#define ngx_string(s) { sizeof(s) - 1, (u_char*)s }
#define ngx_null_string { 0, NULL }
#define ngx_str_set(s, t) (s)->len = sizeof(t) - 1; (s)->data = (u_char*)t
#define ngx_str_null(s) (s)->len = 0; (s)->data = NULL
#define ngx_memzero(b, n) (void)memset(b, 0, n)
#define ngx_memset(b, c, n) (void)memset(b, c, n)
#define ngx_memcpy(d, s, n) (void)memcpy(d, s, n)
#define ngx_cpymem(d, s, n) (((u_char*)memcpy(d, s, n)) + (n))
#define ngx_memcmp(a, b, n) memcmp((const char*)a, (const char*)b, n)
#define ngx_strcmp(a, b) strcmp((const char*)a, (const char*)b)
#define ngx_strncmp(a, b, n) strncmp((const char*)a, (const char*)b, n)
#define ngx_strstr(a, b) strstr((const char*)a, (const char*)b)
#define ngx_strlen(a) strlen((const char*)a)
#define ngx_strchr(a, c) strchr((const char*)a, (int)c)
#define ngx_tolower(c) (u_char)((c >= 'A' && c <= 'Z') ? (c | 0x20) : c)
#define ngx_toupper(c) (u_char)((c >= 'a' && c <= 'z') ? (c & ~0x20) : c)
#define ngx_min(a, b) ((a) > (b) ? (b) : (a))
#define ngx_max(a, b) ((a) < (b) ? (b) : (a))
#define ngx_inline inline
static inline u_char* ngx_strlchr(u_char* p, u_char* last, u_char c) { for (; p < last; ++p) if (*p == c) return p; return NULL; }
static inline ngx_int_t ngx_strcasecmp(u_char* a, u_char* b) { return strcasecmp((char*)a, (char*)b); }
static inline ngx_int_t ngx_strncasecmp(u_char* a, u_char* b, size_t n) { return strncasecmp((char*)a, (char*)b, n); }
/* as in nginx: n is the length of s2 less one, s1 ends with a zero */
static inline u_char* ngx_strcasestrn(u_char* s1, char* s2, size_t n) {
  ngx_uint_t c1, c2; c2 = (ngx_uint_t)*s2++; c2 = (c2 >= 'A' && c2 <= 'Z') ? (c2 | 0x20) : c2;
  do { do { c1 = (ngx_uint_t)*s1++; if (c1 == 0) return NULL; c1 = (c1 >= 'A' && c1 <= 'Z') ? (c1 | 0x20) : c1; } while (c1 != c2); } while (strncasecmp((char*)s1, s2, n) != 0);
  return --s1; }
static inline u_char* ngx_strlcasestrn(u_char* s1, u_char* last, u_char* s2, size_t n) {
  ngx_uint_t c1, c2; c2 = (ngx_uint_t)*s2++; c2 = (c2 >= 'A' && c2 <= 'Z') ? (c2 | 0x20) : c2; last -= n;
  do { do { if (s1 >= last) return NULL; c1 = (ngx_uint_t)*s1++; c1 = (c1 >= 'A' && c1 <= 'Z') ? (c1 | 0x20) : c1; } while (c1 != c2); } while (strncasecmp((char*)s1, (char*)s2, n) != 0);
  return --s1; }
static inline u_char* ngx_strnstr(u_char* s1, char* s2, size_t len) {
  u_char c1, c2; size_t n; c2 = *(u_char*)s2++; n = strlen(s2);
  do { do { if (len-- == 0) return NULL; c1 = *s1++; if (c1 == 0) return NULL; } while (c1 != c2); if (n > len) return NULL; } while (strncmp((char*)s1, s2, n) != 0);
  return --s1; }
static inline u_char* ngx_strstrn(u_char* s1, char* s2, size_t n) {
  u_char c1, c2; c2 = *(u_char*)s2++;
  do { do { c1 = *s1++; if (c1 == 0) return NULL; } while (c1 != c2); } while (strncmp((char*)s1, s2, n) != 0);
  return --s1; }
/* memory: allocation number fail_at fails */
typedef struct ngx_log_s { char* action; int n; } ngx_log_t;
typedef struct ngx_pool_s { void* mem[64]; int n; int fail_at; int count; ngx_log_t* log; } ngx_pool_t;
static inline void* ngx_palloc(ngx_pool_t* p, size_t n) { void* r; if (++p->count == p->fail_at) return NULL; r = malloc(n ? n : 1); memset(r, 0xA5, n); p->mem[p->n++] = r; return r; }
static inline void* ngx_pcalloc(ngx_pool_t* p, size_t n) { void* r = ngx_palloc(p, n); if (r) memset(r, 0, n); return r; }
#define ngx_pnalloc ngx_palloc
#define ngx_log_error(level, l, ...) ((void)(level), (l)->n++)
#define ngx_log_debug0(a, l, e, f) ((void)(l))
#define ngx_log_debug1(a, l, e, f, x) ((void)(l), (void)(x))
#define ngx_log_debug2(a, l, e, f, x, y) ((void)(l), (void)(x), (void)(y))
#define ngx_log_debug3(a, l, e, f, x, y, z) ((void)(l), (void)(x), (void)(y), (void)(z))
/* configuration */
typedef struct { void* elts; ngx_uint_t nelts; size_t size; ngx_uint_t nalloc; ngx_pool_t* pool; } ngx_array_t;
static inline void* ngx_array_push(ngx_array_t* a) { if (a->pool && ++a->pool->count == a->pool->fail_at) return NULL; return (char*)a->elts + a->size * a->nelts++; }
typedef struct { ngx_str_t name; ngx_uint_t value; } ngx_conf_enum_t;
typedef struct ngx_conf_s { ngx_pool_t* pool; ngx_array_t* args; void* main_conf; ngx_log_t* log; } ngx_conf_t;
typedef struct ngx_command_s ngx_command_t;
struct ngx_command_s { ngx_str_t name; ngx_uint_t type; char* (*set)(ngx_conf_t*, ngx_command_t*, void*); ngx_uint_t conf; ngx_uint_t offset; void* post; };
#define ngx_null_command { ngx_null_string, 0, NULL, 0, 0, NULL }
#define NGX_CONF_OK NULL
#define NGX_CONF_ERROR (void*)-1
#define NGX_CONF_UNSET -1
#define NGX_CONF_UNSET_UINT (ngx_uint_t)-1
#define NGX_CONF_TAKE1 2
#define NGX_CONF_FLAG 0x200
#define NGX_HTTP_MAIN_CONF 0x02000000
#define NGX_HTTP_SRV_CONF 0x04000000
#define NGX_HTTP_LOC_CONF 0x08000000
#define NGX_HTTP_LIF_CONF 0x20000000
#define NGX_HTTP_LOC_CONF_OFFSET 16
#define ngx_conf_merge_uint_value(c, p, d) if (c == NGX_CONF_UNSET_UINT) { c = (p == NGX_CONF_UNSET_UINT) ? d : p; }
#define ngx_conf_merge_value(c, p, d) if (c == NGX_CONF_UNSET) { c = (p == NGX_CONF_UNSET) ? d : p; }
static inline char* ngx_conf_set_enum_slot(ngx_conf_t* cf, ngx_command_t* cmd, void* conf) {
  ngx_uint_t* np = (ngx_uint_t*)((char*)conf + cmd->offset); ngx_str_t* v = (ngx_str_t*)cf->args->elts; ngx_conf_enum_t* e = (ngx_conf_enum_t*)cmd->post; int i;
  if (*np != NGX_CONF_UNSET_UINT) return (char*)"is duplicate";
  for (i = 0; e[i].name.len; ++i) if (e[i].name.len == v[1].len && !strcasecmp((char*)e[i].name.data, (char*)v[1].data)) { *np = e[i].value; return NGX_CONF_OK; }
  return (char*)NGX_CONF_ERROR; }
typedef struct ngx_module_s { int dummy; void* ctx; ngx_command_t* commands; ngx_uint_t type; void* f[7]; int pad; } ngx_module_t;
#define NGX_MODULE_V1 0
#define NGX_MODULE_V1_PADDING 0
#define NGX_HTTP_MODULE 0x50545448
/* files */
typedef struct { int dummy; } ngx_open_file_cache_t;
typedef struct { ngx_fd_t fd; uint64_t uniq; time_t mtime; off_t size; off_t fs_size; off_t directio; size_t read_ahead; ngx_err_t err; char* failed; time_t valid; ngx_uint_t min_uses;
  unsigned disable_symlinks : 2, test_dir : 1, test_only : 1, log : 1, errors : 1, events : 1, is_dir : 1, is_file : 1, is_link : 1, is_exec : 1, is_directio : 1; } ngx_open_file_info_t;
typedef struct { ngx_fd_t fd; ngx_str_t name; off_t offset; off_t sys_offset; ngx_log_t* log; unsigned valid_info : 1, directio : 1; } ngx_file_t;
typedef struct ngx_buf_s { u_char *pos, *last; off_t file_pos, file_last; u_char *start, *end; ngx_file_t* file; unsigned temporary : 1, memory : 1, mmap : 1, in_file : 1, flush : 1, sync : 1, last_buf : 1, last_in_chain : 1; } ngx_buf_t;
typedef struct ngx_chain_s { ngx_buf_t* buf; struct ngx_chain_s* next; } ngx_chain_t;
typedef struct { ngx_uint_t hash; ngx_str_t key, value; u_char* lowcase_key; void* next; } ngx_table_elt_t;
typedef struct { ngx_table_elt_t elt[16]; ngx_uint_t n; ngx_pool_t* pool; } ngx_list_t;
static inline void* ngx_list_push(ngx_list_t* l) { if (++l->pool->count == l->pool->fail_at) return NULL; memset(&l->elt[l->n], 0, sizeof l->elt[0]); return &l->elt[l->n++]; }
/* http */
#define NGX_HTTP_GET 0x0002
#define NGX_HTTP_HEAD 0x0004
#define NGX_HTTP_POST 0x0008
#define NGX_HTTP_OK 200
#define NGX_HTTP_FORBIDDEN 403
#define NGX_HTTP_NOT_FOUND 404
#define NGX_HTTP_NOT_ALLOWED 405
#define NGX_HTTP_INTERNAL_SERVER_ERROR 500
typedef struct { ngx_flag_t gzip_vary; size_t read_ahead; off_t directio; ngx_open_file_cache_t* open_file_cache; time_t open_file_cache_valid; ngx_uint_t open_file_cache_min_uses; ngx_flag_t open_file_cache_errors, open_file_cache_events; } ngx_http_core_loc_conf_t;
enum { NGX_HTTP_POST_READ_PHASE = 0, NGX_HTTP_REWRITE_PHASE = 3, NGX_HTTP_PREACCESS_PHASE = 5, NGX_HTTP_ACCESS_PHASE = 6, NGX_HTTP_PRECONTENT_PHASE = 8, NGX_HTTP_CONTENT_PHASE = 9, NGX_HTTP_LOG_PHASE = 10 };
typedef struct { ngx_array_t handlers; } ngx_http_phase_t;
typedef struct { ngx_http_phase_t phases[11]; } ngx_http_core_main_conf_t;
typedef struct { ngx_log_t* log; } ngx_connection_t;
typedef struct ngx_http_request_s ngx_http_request_t;
struct ngx_http_request_s {
  ngx_connection_t* connection; ngx_pool_t* pool; ngx_uint_t method; ngx_str_t uri, args, exten, method_name; ngx_http_request_t *main, *parent;
  struct { ngx_table_elt_t *accept, *accept_encoding, *user_agent, *via; ngx_list_t headers; } headers_in;
  struct { ngx_list_t headers; ngx_uint_t status; off_t content_length_n; time_t last_modified_time; ngx_str_t content_type; size_t content_type_len; ngx_table_elt_t *content_encoding, *etag, *vary; u_char* content_type_lowcase; } headers_out;
  unsigned gzip_tested : 1, gzip_ok : 1, gzip_vary : 1, header_only : 1, root_tested : 1, error_page : 1, allow_ranges : 1, filter_need_in_memory : 1, header_sent : 1;
  /* the stand-in's own */
  void* my_conf; ngx_http_core_loc_conf_t* core; const char* docroot; int fail; int discarded, etags, sends, outs; char body[4096]; long bodylen; int last;
};
typedef ngx_int_t (*ngx_http_handler_pt)(ngx_http_request_t*);
typedef struct { ngx_int_t (*preconfiguration)(ngx_conf_t*); ngx_int_t (*postconfiguration)(ngx_conf_t*); void* (*create_main_conf)(ngx_conf_t*); char* (*init_main_conf)(ngx_conf_t*, void*); void* (*create_srv_conf)(ngx_conf_t*); char* (*merge_srv_conf)(ngx_conf_t*, void*, void*); void* (*create_loc_conf)(ngx_conf_t*); char* (*merge_loc_conf)(ngx_conf_t*, void*, void*); } ngx_http_module_t;
extern ngx_module_t ngx_http_core_module;
#define ngx_http_get_module_loc_conf(r, m) ((void*)(&(m) == &ngx_http_core_module ? (void*)(r)->core : (r)->my_conf))
#define ngx_http_conf_get_module_main_conf(cf, m) ((void*)(cf)->main_conf)
enum { FAIL_NONE = 0, FAIL_MAP, FAIL_LINKS, FAIL_OPEN, FAIL_BODY, FAIL_ETAG, FAIL_SEND, FAIL_NOTMOD, FAIL_OUT };
static inline u_char* ngx_http_map_uri_to_path(ngx_http_request_t* r, ngx_str_t* path, size_t* root, size_t reserved) {
  size_t n; if (r->fail == FAIL_MAP) return NULL;
  *root = strlen(r->docroot); n = *root + r->uri.len; path->len = n + reserved + 1; path->data = (u_char*)ngx_palloc(r->pool, path->len); if (!path->data) return NULL;
  memcpy(path->data, r->docroot, *root); memcpy(path->data + *root, r->uri.data, r->uri.len); path->data[n] = 0; return path->data + n; }
static inline ngx_int_t ngx_http_set_disable_symlinks(ngx_http_request_t* r, ngx_http_core_loc_conf_t* c, ngx_str_t* p, ngx_open_file_info_t* of) { (void)c; (void)p; (void)of; return r->fail == FAIL_LINKS ? NGX_ERROR : NGX_OK; }
extern int standin_open_err;
static inline ngx_int_t ngx_open_cached_file(ngx_open_file_cache_t* c, ngx_str_t* name, ngx_open_file_info_t* of, ngx_pool_t* p) {
  struct stat s; (void)c; (void)p; of->fd = -1; of->failed = (char*)"open()"; 
  if (standin_open_err >= 0) { of->err = standin_open_err; return NGX_ERROR; }
  if (strlen((char*)name->data) != name->len) abort();
  if (stat((char*)name->data, &s)) { of->err = errno; return NGX_ERROR; }
  of->is_dir = S_ISDIR(s.st_mode); of->is_file = S_ISREG(s.st_mode); of->size = s.st_size; of->mtime = s.st_mtime;
  if (of->is_file) { of->fd = open((char*)name->data, O_RDONLY); if (of->fd < 0) { of->err = errno; return NGX_ERROR; } }
  of->err = 0; return NGX_OK; }
static inline ngx_int_t ngx_http_discard_request_body(ngx_http_request_t* r) { r->discarded++; return r->fail == FAIL_BODY ? NGX_HTTP_INTERNAL_SERVER_ERROR : NGX_OK; }
static inline ngx_int_t ngx_http_set_etag(ngx_http_request_t* r) { r->etags++; return r->fail == FAIL_ETAG ? NGX_ERROR : NGX_OK; }
static inline ngx_int_t ngx_http_set_content_type(ngx_http_request_t* r) { ngx_str_set(&r->headers_out.content_type, "image/jpeg"); r->headers_out.content_type_len = 10; return NGX_OK; }
static inline ngx_int_t ngx_http_send_header(ngx_http_request_t* r) { r->sends++; if (r->fail == FAIL_NOTMOD) r->header_only = 1; return r->fail == FAIL_SEND ? NGX_ERROR : NGX_OK; }
static inline ngx_int_t ngx_http_output_filter(ngx_http_request_t* r, ngx_chain_t* in) {
  r->outs++; for (; in; in = in->next) { ngx_buf_t* b = in->buf; long n = b->file_last - b->file_pos; 
    if (b->in_file && n > 0) { if (r->bodylen + n > (long)sizeof r->body) abort(); n = pread(b->file->fd, r->body + r->bodylen, (size_t)n, b->file_pos); if (n > 0) r->bodylen += n; }
    else if ((b->temporary || b->memory) && b->last > b->pos) { memcpy(r->body + r->bodylen, b->pos, (size_t)(b->last - b->pos)); r->bodylen += b->last - b->pos; }
    if (b->last_buf) r->last = 1; }
  return r->fail == FAIL_OUT ? NGX_ERROR : NGX_OK; }
#endif
