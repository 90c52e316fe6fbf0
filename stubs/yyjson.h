// Declarations of the yyjson entry points that alephzero uses. The yyjson submodule is empty in this
// tree, so without these src/middleware.c could not be parsed. Declarations only: the analyses treat
// every yyjson function as an unknown external call.
#ifndef YYJSON_H
#define YYJSON_H

#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>

#ifdef __cplusplus
extern "C" {
#endif

typedef uint32_t yyjson_read_flag;
typedef uint32_t yyjson_write_flag;
typedef uint32_t yyjson_read_code;
typedef uint32_t yyjson_write_code;

static const yyjson_read_flag YYJSON_READ_NOFLAG = 0;
#define YYJSON_READ_INSITU (1u << 0)
#define YYJSON_READ_STOP_WHEN_DONE (1u << 1)
#define YYJSON_READ_ALLOW_TRAILING_COMMAS (1u << 2)
#define YYJSON_READ_ALLOW_COMMENTS (1u << 3)
#define YYJSON_READ_ALLOW_INF_AND_NAN (1u << 4)
#define YYJSON_WRITE_NOFLAG 0u
#define YYJSON_WRITE_PRETTY (1u << 0)
#define YYJSON_WRITE_ESCAPE_UNICODE (1u << 1)
#define YYJSON_WRITE_ESCAPE_SLASHES (1u << 2)
#define YYJSON_READ_SUCCESS 0u
#define YYJSON_WRITE_SUCCESS 0u

typedef struct yyjson_alc {
  void* (*malloc)(void* ctx, size_t size);
  void* (*realloc)(void* ctx, void* ptr, size_t size);
  void (*free)(void* ctx, void* ptr);
  void* ctx;
} yyjson_alc;

typedef struct yyjson_read_err {
  yyjson_read_code code;
  const char* msg;
  size_t pos;
} yyjson_read_err;

typedef struct yyjson_write_err {
  yyjson_write_code code;
  const char* msg;
} yyjson_write_err;

typedef struct yyjson_val yyjson_val;
typedef struct yyjson_mut_val yyjson_mut_val;

typedef struct yyjson_doc {
  yyjson_val* root;
  yyjson_alc alc;
  size_t dat_read;
  size_t val_read;
  char* str_pool;
} yyjson_doc;

typedef struct yyjson_mut_doc {
  yyjson_mut_val* root;
  yyjson_alc alc;
} yyjson_mut_doc;

size_t yyjson_read_max_memory_usage(size_t len, yyjson_read_flag flg);
bool yyjson_alc_pool_init(yyjson_alc* alc, void* buf, size_t size);
yyjson_doc* yyjson_read_opts(char* dat, size_t len, yyjson_read_flag flg, const yyjson_alc* alc, yyjson_read_err* err);
yyjson_doc* yyjson_read(const char* dat, size_t len, yyjson_read_flag flg);
void yyjson_doc_free(yyjson_doc* doc);
yyjson_mut_doc* yyjson_mut_doc_new(const yyjson_alc* alc);
void yyjson_mut_doc_free(yyjson_mut_doc* doc);
yyjson_mut_val* yyjson_merge_patch(yyjson_mut_doc* doc, yyjson_val* orig, yyjson_val* patch);
char* yyjson_mut_write_opts(const yyjson_mut_doc* doc, yyjson_write_flag flg, const yyjson_alc* alc, size_t* len, yyjson_write_err* err);
char* yyjson_mut_write(const yyjson_mut_doc* doc, yyjson_write_flag flg, size_t* len);

#ifdef __cplusplus
}
#endif
#endif
