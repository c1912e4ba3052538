// A stream that takes a limited number of bytes and then fails (a full device), for good or just once, without buffering, so that each failing call can tell.
#pragma once
#include "core.hpp"
#include <unistd.h>
#include <cerrno>
namespace pbt {
struct Limited {
        size_t room, taken = 0; bool once; FILE *f = nullptr;
        static ssize_t put(void *c, const char *, size_t n) { Limited *l = (Limited *)c; if (l->taken + n <= l->room || l->room == SIZE_MAX) { l->taken += n; return (ssize_t)n; } size_t k = l->room - l->taken; l->taken = l->room; if (k) return (ssize_t)k; if (l->once) l->room = SIZE_MAX; errno = ENOSPC; return 0; }
        explicit Limited(size_t room, bool once = false) : room(room), once(once) { cookie_io_functions_t io = {nullptr, put, nullptr, nullptr}; f = fopencookie(this, "w", io); if (!f) { fprintf(stderr, "HARNESS: fopencookie failed\n"); _exit(3); } setvbuf(f, nullptr, _IONBF, 0); }
        ~Limited() { if (f) (fclose)(f); }
        Limited(const Limited &) = delete;
};
// bytes that w writes to a stream that takes everything
inline size_t full_size(const std::function<void(FILE *)> &w) { Limited l(SIZE_MAX / 4); w(l.f); return l.taken; }
}
