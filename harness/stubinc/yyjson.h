// Stand-in for the parts of yyjson used by the library: parsing and writing
// succeed or fail as the harness decides.
#ifndef YYJSON_H
#define YYJSON_H

#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>

#define YYJSON_READ_ALLOW_TRAILING_COMMAS 4
#define YYJSON_READ_ALLOW_COMMENTS 8
#define YYJSON_READ_ALLOW_INF_AND_NAN 16
#define YYJSON_WRITE_ESCAPE_UNICODE 2
#define YYJSON_WRITE_ESCAPE_SLASHES 4

typedef struct { int unused; } yyjson_val;
typedef struct { int unused; } yyjson_mut_val;
typedef struct { yyjson_val* root; } yyjson_doc;
typedef struct { yyjson_mut_val* root; } yyjson_mut_doc;
typedef struct { void* buf; size_t size; } yyjson_alc;
typedef struct { uint32_t code; const char* msg; } yyjson_read_err;
typedef struct { uint32_t code; const char* msg; } yyjson_write_err;

size_t yyjson_read_max_memory_usage(size_t len, size_t flags);
bool yyjson_alc_pool_init(yyjson_alc* alc, void* buf, size_t size);
yyjson_doc* yyjson_read_opts(char* data, size_t len, size_t flags, const yyjson_alc* alc, yyjson_read_err* err);
yyjson_mut_doc* yyjson_mut_doc_new(const yyjson_alc* alc);
void yyjson_mut_doc_free(yyjson_mut_doc* doc);
yyjson_mut_val* yyjson_merge_patch(yyjson_mut_doc* doc, yyjson_val* orig, yyjson_val* patch);
char* yyjson_mut_write_opts(const yyjson_mut_doc* doc, size_t flags, const yyjson_alc* alc, size_t* len, yyjson_write_err* err);

#endif
