// The installed liburing, plus the one preparation helper newer releases have.
#pragma once
#include_next <liburing.h>
#if IO_URING_VERSION_MAJOR == 2 && IO_URING_VERSION_MINOR < 7
static inline void io_uring_prep_ftruncate(struct io_uring_sqe* sqe, int fd, off_t len) { io_uring_prep_rw(55, sqe, fd, 0, 0, (__u64)len); }
#endif
