// the installed liburing plus the one helper it is too old to have
#pragma once
#include_next <liburing.h>
#ifndef FAKE_FTRUNCATE
#define FAKE_FTRUNCATE
static inline void io_uring_prep_ftruncate(struct io_uring_sqe* sqe, int fd, loff_t len) { io_uring_prep_rw(55, sqe, fd, 0, 0, (__u64)len); }
#endif
