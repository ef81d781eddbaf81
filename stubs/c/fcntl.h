#pragma once
int open(const char *p, int f, ...);
#define O_RDONLY 0
#define O_CLOEXEC 02000000
