// A file system behind the modelled kernel: directories, files with durable and not yet durable content, open descriptors.
// Names and sizes given by fallocate/ftruncate are durable at once and in order; written bytes only once they are synced.
#pragma once
#include "kuring.h"
#include <cerrno>
#include <cstring>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
enum { FS_CAP = 448, FS_LOG = 448, FS_INODES = 16, FS_NAMES = 16, FS_DIRS = 8, FS_W = 12, FS_PATH = 64 };
struct FsInode { int size, dsize; int nw, logUsed; struct { int off, len, at; } w[FS_W]; unsigned char cur[FS_CAP], dur[FS_CAP], log[FS_LOG]; };
struct FsDisk { int inodes, names, dirs; FsInode in[FS_INODES]; struct { char path[FS_PATH]; int ino; } name[FS_NAMES]; char dir[FS_DIRS][FS_PATH]; };
static FsDisk disk, image; static bool crashed; static int fsPos[64], fsFlags[64];
static int fsOps, fsFaults, fsShorts, fsFailed, fsCrash;   // operations done; budgets of failures and short transfers; errno of a failure; crash points on
static bool fsQuiet; // no faults, no crash points
static bool (*fsMayFail)(const io_uring_sqe*);
enum { FS_TAG = 100 };
static int fsFind(const char* p) { for (int i = 0; i < disk.names; i++) if (!strcmp(disk.name[i].path, p)) return i; return -1; }
static int fsDir(const char* p) { for (int i = 0; i < disk.dirs; i++) if (!strcmp(disk.dir[i], p)) return i; return -1; }
static int fsParent(const char* p) { char d[FS_PATH]; if (strlen(p) >= FS_PATH) kse_bound("long path"); strcpy(d, p); char* s = nullptr; for (char* q = d; *q; q++) if (*q == 47) s = q; if (!s) return -1; *s = 0; return *d ? fsDir(d) : 0; }
static void fsMkdir(const char* p) { if (fsDir(p) >= 0) return; if (disk.dirs == FS_DIRS || strlen(p) >= FS_PATH) kse_bound("too many directories"); strcpy(disk.dir[disk.dirs++], p); }
static int fsCreate(const char* p) { if (disk.inodes == FS_INODES || disk.names == FS_NAMES) kse_bound("too many files"); int k = disk.inodes++; memset(&disk.in[k], 0, sizeof(FsInode)); strcpy(disk.name[disk.names].path, p); disk.name[disk.names].ino = k; disk.names++; return k; }
static void fsUnname(int i) { disk.names--; for (; i < disk.names; i++) disk.name[i] = disk.name[i + 1]; }
static void fsPut(FsInode& n, int off, const void* p, int len) { if (off + len > FS_CAP) kse_bound("file too large"); if (n.nw == FS_W || n.logUsed + len > FS_LOG) kse_bound("too much unsynced data"); n.w[n.nw++] = {off, len, n.logUsed}; memcpy(n.log + n.logUsed, p, len); n.logUsed += len; memcpy(n.cur + off, p, len); if (off + len > n.size) n.size = off + len; }
static void fsApply(FsInode& n, int k, int len) { auto& w = n.w[k]; memcpy(n.dur + w.off, n.log + w.at, len); if (len && w.off + len > n.dsize) n.dsize = w.off + len; }
static void fsSync(FsInode& n) { for (int k = 0; k < n.nw; k++) fsApply(n, k, n.w[k].len); n.nw = 0; n.logUsed = 0; if (n.size > n.dsize) n.dsize = n.size; }
// the machine stops here: of the unsynced writes of each file some first ones survive, the last of them in part
static void fsSnapshot() { crashed = true; image = disk; for (int i = 0; i < image.inodes; i++) { FsInode& n = image.in[i]; bool named = false; for (int k = 0; k < image.names; k++) named |= image.name[k].ino == i; if (!named) continue;
    if (n.nw) { int k = (int)kse_choose(0, n.nw, "writes that survive"); for (int j = 0; j < k; j++) fsApply(n, j, n.w[j].len); if (k < n.nw && n.w[k].len > 1) { int t = (int)kse_choose(0, n.w[k].len - 1, "bytes of the torn write"); fsApply(n, k, t); } } 
    memcpy(n.cur, n.dur, FS_CAP); n.size = n.dsize; n.nw = 0; n.logUsed = 0; } kse_reach("crash"); }
static void fsRestart() { for (int i = 0; i < 64; i++) fsPos[i] = 0; disk = image; crashed = false; }
static void fsPoint() { if (fsCrash && !crashed && !fsQuiet && kse_choose(0, 1, "crash")) fsSnapshot(); }
// the kernel looks the descriptor up while taking the request
static struct { bool used; uint64_t id; int tag, fd, flags; } fsTaken[16];
static void fsTake(const io_uring_sqe* s) { if (s->opcode == IORING_OP_OPENAT || s->opcode == IORING_OP_UNLINKAT || s->opcode == IORING_OP_TIMEOUT) return; for (auto& t : fsTaken) if (!t.used) { int k = kfd_tag_of(s->fd); kse_assert(k >= FS_TAG - 1, "file operations use an open file"); t = {true, s->user_data, k, s->fd, fsFlags[s->fd - 40]}; return; } kse_bound("too many file operations in flight"); }
static FsInode* fsIn(int fd) { int t = kfd_tag_of(fd); return t >= FS_TAG ? &disk.in[t - FS_TAG] : nullptr; }
static bool fsFault(const io_uring_sqe* s) { if (fsQuiet || crashed || !fsFaults || (fsMayFail && !fsMayFail(s))) return false; if (!kse_choose(0, 1, "failure")) return false; fsFaults--; if (!fsFailed) fsFailed = (int)kse_range(2200, 4095, "errno"); kse_reach("failure"); return true; }
static int fsMoved(int n) { if (fsQuiet || crashed || !fsShorts || n < 2 || !kse_choose(0, 1, "short")) return n; fsShorts--; kse_reach("short"); return (int)kse_choose(1, n - 1, "moved"); }
static int fsOpen(const char* p, int flags) { if (fsDir(p) >= 0) return (flags & O_ACCMODE) == O_RDONLY ? kfd_make(FS_TAG - 1) : -EISDIR; int i = fsFind(p), k; if (i >= 0) { if ((flags & O_CREAT) && (flags & O_EXCL)) return -EEXIST; k = disk.name[i].ino; if (flags & O_TRUNC) { FsInode& n = disk.in[k]; n.size = n.dsize = n.nw = n.logUsed = 0; memset(n.cur, 0, FS_CAP); memset(n.dur, 0, FS_CAP); } } else { if (!(flags & O_CREAT) || fsParent(p) < 0) return -ENOENT; k = fsCreate(p); } int fd = kfd_make(FS_TAG + k); fsPos[fd - 40] = 0; fsFlags[fd - 40] = flags; return fd; }
static int fsRemove(const char* p) { int i = fsFind(p); if (i < 0) return -ENOENT; fsUnname(i); return 0; }
static int fsDo(const io_uring_sqe* s) {
  fsOps++; FsInode* n = nullptr; int op = s->opcode, flags = 0; if (op == IORING_OP_TIMEOUT) return -ETIME;
  if (op != IORING_OP_OPENAT && op != IORING_OP_UNLINKAT) for (auto& t : fsTaken) if (t.used && t.id == s->user_data) { t.used = false; flags = t.flags; if (t.tag >= FS_TAG) n = &disk.in[t.tag - FS_TAG]; else if (op == IORING_OP_FSYNC) return 0; }
  fsPoint(); if (fsFault(s)) { if (op == IORING_OP_CLOSE) close(s->fd); return -fsFailed; }
  switch (op) {
    case IORING_OP_OPENAT: return fsOpen((const char*)s->addr, (int)s->open_flags);
    case IORING_OP_UNLINKAT: return fsRemove((const char*)s->addr);
    case IORING_OP_CLOSE: return close(s->fd);
    case IORING_OP_FSYNC: fsSync(*n); return 0;
    case IORING_OP_FALLOCATE: { int end = (int)(s->off + s->addr); if ((flags & O_ACCMODE) == O_RDONLY) return -EBADF; if (end > FS_CAP) kse_bound("file too large"); if (!(s->len & 1)) { if (end > n->size) n->size = end; if (end > n->dsize) n->dsize = end; } return 0; }
    case 55 /* FTRUNCATE */: { int len = (int)s->off; if (len > FS_CAP) kse_bound("file too large"); if (len < n->size) { memset(n->cur + len, 0, FS_CAP - len); memset(n->dur + len, 0, FS_CAP - len); for (int k = 0; k < n->nw; k++) { auto& w = n->w[k]; if (w.off + w.len > len) w.len = w.off < len ? len - w.off : 0; } } n->size = n->dsize = len; return 0; }
    case IORING_OP_READ: { if ((flags & O_ACCMODE) == O_WRONLY) return -EBADF; bool at = s->off != ~0ull; int off = at ? (int)(s->off < FS_CAP ? s->off : FS_CAP) : fsPos[s->fd - 40]; int len = off < n->size ? n->size - off : 0; if ((uint64_t)len > s->len) len = (int)s->len; len = fsMoved(len); memcpy((void*)s->addr, n->cur + off, (size_t)len); if (!at) fsPos[s->fd - 40] += len; return len; }
    case IORING_OP_WRITE: { if ((flags & O_ACCMODE) == O_RDONLY) return -EBADF; bool at = s->off != ~0ull; if (at && s->off > FS_CAP) kse_bound("file too large"); int off = at ? (int)s->off : (flags & O_APPEND) ? n->size : fsPos[s->fd - 40]; int len = fsMoved((int)s->len); fsPut(*n, off, (const void*)s->addr, len); if (!at) fsPos[s->fd - 40] = off + len; return len; }
  }
  kse_unsupported("file operation"); }
extern "C" {
void kur_submitted(const io_uring_sqe* s) { fsTake(s); }
bool ksfs_exists(const char* p) { return fsFind(p) >= 0 || fsDir(p) >= 0; } bool ksfs_is_dir(const char* p) { return fsDir(p) >= 0; }
int ksfs_mkdirs(const char* p) { if (fsDir(p) >= 0) return 0; char d[FS_PATH]; int n = 0; for (; p[n]; n++) { if (p[n] == '/' && n) { d[n] = 0; fsMkdir(d); } d[n] = p[n]; } d[n] = 0; fsMkdir(d); return 1; }
int ksfs_remove(const char* p) { return fsRemove(p); } int64_t ksfs_size(const char* p) { int i = fsFind(p); return i < 0 ? -ENOENT : disk.in[disk.name[i].ino].size; }
int ksfs_list(const char* dir, int index, char* out, size_t cap) { size_t n = strlen(dir); for (int i = disk.names; i-- > 0;) if (!strncmp(disk.name[i].path, dir, n) && disk.name[i].path[n] == '/' && !strchr(disk.name[i].path + n + 1, '/') && index-- == 0) { if (strlen(disk.name[i].path + n + 1) >= cap) kse_bound("long name"); strcpy(out, disk.name[i].path + n + 1); return 0; } return -1; }
int64_t ksfs_read(const char* p, char* out, size_t cap) { int i = fsFind(p); if (i < 0) return -ENOENT; FsInode& n = disk.in[disk.name[i].ino]; if ((size_t)n.size > cap) kse_bound("file too large"); memcpy(out, n.cur, (size_t)n.size); return n.size; }
int ksfs_truncate(const char* p) { int i = fsFind(p), k; if (i >= 0) { FsInode& n = disk.in[disk.name[i].ino]; n.size = n.dsize = n.nw = n.logUsed = 0; memset(n.cur, 0, FS_CAP); memset(n.dur, 0, FS_CAP); return 0; } if (fsParent(p) < 0) return -ENOENT; k = fsCreate(p); (void)k; return 0; }
int ksfs_append(const char* p, const char* b, size_t len) { int i = fsFind(p); if (i < 0) return -ENOENT; FsInode& n = disk.in[disk.name[i].ino]; fsPut(n, n.size, b, (int)len); return 0; }
int fstat(int fd, struct stat* st) noexcept { FsInode* n = fsIn(fd); if (!n) { errno = EBADF; return -1; } memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0644; st->st_size = n->size; return 0; }
}
