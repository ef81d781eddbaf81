#pragma once
#include <stddef.h>
typedef struct FILE FILE; extern FILE *stdin, *stdout, *stderr; int printf(const char *f, ...); int fprintf(FILE *o, const char *f, ...); int puts(const char *s); int fputs(const char *s, FILE *o); FILE *fopen(const char *p, const char *m); size_t fread(void *b, size_t s, size_t n, FILE *f); int fclose(FILE *f);
