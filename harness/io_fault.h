// Interposes the file system calls libuv makes: per-offset delay, errno or short count, decided by an immutable plan.
#pragma once
#include <errno.h>
#include <map>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <atomic>
#include <stdint.h>
#include <string>
#include <string.h>
#include <stdarg.h>

struct IoFault { unsigned delay_us = 0; int err = 0; int64_t shorten = -1; };
struct IoPlan {
  std::map<uint64_t, IoFault> rd, wr;   // by file offset
  bool all_write_err_after = false; uint64_t limit = UINT64_MAX;   // "disk full": nothing can be written at or past limit
  int open_err = 0; unsigned open_delay = 0;
  dev_t dev = 0; ino_t ino = 0;
};
extern std::atomic<IoPlan*> g_plan;
extern std::atomic<uint64_t> g_io_reads, g_io_writes, g_io_faults;
extern thread_local bool g_io_raw;   // calls made by the harness itself

#ifdef IO_FAULT_IMPL
std::atomic<IoPlan*> g_plan(nullptr);
std::atomic<uint64_t> g_io_reads(0), g_io_writes(0), g_io_faults(0);
thread_local bool g_io_raw = false;
static ssize_t do_read(int fd, const struct iovec* v, int n, off64_t off) {
  IoPlan* p = g_plan.load();
  if (p && !g_io_raw) {
    g_io_reads.fetch_add(1, std::memory_order_relaxed);
    auto it = p->rd.find((uint64_t)off);
    if (it != p->rd.end()) {
      if (it->second.delay_us) usleep(it->second.delay_us);
      if (it->second.err) { g_io_faults.fetch_add(1, std::memory_order_relaxed); errno = it->second.err; return -1; }
    }
  }
  return syscall(SYS_preadv, fd, v, n, (unsigned long)off, (unsigned long)((uint64_t)off >> 32));
}
static ssize_t do_write(int fd, const struct iovec* v, int n, off64_t off) {
  IoPlan* p = g_plan.load();
  struct iovec one;
  if (p && !g_io_raw) {
    g_io_writes.fetch_add(1, std::memory_order_relaxed);
    auto it = p->wr.find((uint64_t)off);
    if (it != p->wr.end()) {
      if (it->second.delay_us) usleep(it->second.delay_us);
      if (it->second.err) { g_io_faults.fetch_add(1, std::memory_order_relaxed); errno = it->second.err; return -1; }
      if (it->second.shorten >= 0 && n == 1 && (size_t)it->second.shorten < v[0].iov_len) { g_io_faults.fetch_add(1, std::memory_order_relaxed); one = v[0]; one.iov_len = (size_t)it->second.shorten; v = &one; }
    }
    if ((uint64_t)off >= p->limit) { g_io_faults.fetch_add(1, std::memory_order_relaxed); errno = ENOSPC; return -1; }
    if (n == 1 && (uint64_t)off + v[0].iov_len > p->limit) { g_io_faults.fetch_add(1, std::memory_order_relaxed); one = v[0]; one.iov_len = p->limit - off; v = &one; }
  }
  return syscall(SYS_pwritev, fd, v, n, (unsigned long)off, (unsigned long)((uint64_t)off >> 32));
}
extern "C" {
ssize_t pread64(int fd, void* b, size_t n, off64_t off) { struct iovec v = {b, n}; return do_read(fd, &v, 1, off); }
ssize_t preadv64(int fd, const struct iovec* v, int n, off64_t off) { return do_read(fd, v, n, off); }
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t off) { struct iovec v = {(void*)b, n}; return do_write(fd, &v, 1, off); }
ssize_t pwritev64(int fd, const struct iovec* v, int n, off64_t off) { return do_write(fd, v, n, off); }
int open64(const char* path, int flags, ...) {
  va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);
  IoPlan* p = g_plan.load();
  if (p && !g_io_raw && strstr(path, "/vhf.")) {
    if (p->open_delay) usleep(p->open_delay);
    if (p->open_err) { g_io_faults++; errno = p->open_err; return -1; }
  }
  return (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode);
}
}
#endif
