// A descriptor table standing in for the kernel's: numbers are reused lowest-first, like the real one.
#pragma once
#include "kse.h"
#include <cerrno>
#include <unistd.h>
#ifdef KSE_FDS_IMPL
enum { KFD_BASE = 40, KFD_MAX = 64 };
static struct { bool open; int tag; unsigned opens, closes; } kfdTab[KFD_MAX];
static int kfd_open(int tag) { for (int i = 0; i < KFD_MAX; i++) if (!kfdTab[i].open) { kfdTab[i].open = true; kfdTab[i].tag = tag; kfdTab[i].opens++; return KFD_BASE + i; } kse_bound("more than 64 descriptors"); }
static bool kfd_isOpen(int fd) { return fd >= KFD_BASE && fd < KFD_BASE + KFD_MAX && kfdTab[fd - KFD_BASE].open; }
static int kfd_tag(int fd) { return kfd_isOpen(fd) ? kfdTab[fd - KFD_BASE].tag : -1; }
static int kfd_live() { int n = 0; for (auto& f : kfdTab) n += f.open; return n; }
static void kfd_use(int fd, const char*) { kse_assert(kfd_isOpen(fd), "a system call is given an open descriptor"); }
static void kfd_close(int fd) { kse_assert(kfd_isOpen(fd), "close() of a descriptor the library does not own (closed twice or never opened)"); kfdTab[fd - KFD_BASE].open = false; kfdTab[fd - KFD_BASE].closes++; }
static void kfd_end() { for (auto& f : kfdTab) kse_assert(!f.open && f.opens == f.closes, "every descriptor is closed exactly once"); }
#ifndef KSE_NO_CLOSE
extern "C" int close(int fd) { kfd_close(fd); return 0; }
#endif
#endif
