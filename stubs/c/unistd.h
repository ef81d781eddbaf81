#pragma once
#include <stddef.h>
typedef long ssize_t; ssize_t read(int fd, void *b, size_t n); int close(int fd); unsigned sleep(unsigned s); int usleep(unsigned us);
