#pragma once
#include <stddef.h>
void *malloc(size_t n); void *calloc(size_t n, size_t m); void *realloc(void *p, size_t n); void free(void *p); _Noreturn void abort(void); _Noreturn void exit(int); int abs(int); char *getenv(const char *);
