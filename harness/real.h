/* Harness code uses the real allocator and copies without being scheduled. */
#include <stdlib.h>
#include <string.h>
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
#define malloc __real_malloc
#define calloc __real_calloc
#define realloc __real_realloc
#define free __real_free
#define memcpy __real_memcpy
#define memmove __real_memmove
#define memset __real_memset
