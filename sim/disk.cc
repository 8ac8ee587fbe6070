#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#include <memory>

#include "os.h"

namespace sim {
namespace {
constexpr int kFdBase = 1 << 20;
struct File { std::string data; };
struct Open { std::shared_ptr<File> f; int64_t pos = 0; bool rd = false, wr = false, app = false; bool open = false; std::string name; };
struct State {
  std::map<std::string, std::shared_ptr<File>> files;
  std::vector<Open> fds;
  std::map<FILE*, int> streams;
  Disk disk;
  int64_t write_fail_left = -1;  // >=0: currently inside a failing episode
};
State* g = nullptr;
State& S() {
  if (!g) { Quiet q; g = new State; }
  return *g;
}
bool is_sim(const char* p) { return p && !strncmp(p, "/simfs/", 7); }
bool is_simfd(int fd) { return fd >= kFdBase; }
Open* get(int fd) {
  int i = fd - kFdBase;
  if (i < 0 || i >= static_cast<int>(S().fds.size()) || !S().fds[i].open) { errno = EBADF; return nullptr; }
  return &S().fds[i];
}

int do_open(const char* path, int flags) {
  Quiet q;
  State& s = S();
  Disk& d = s.disk;
  int num = static_cast<int>(d.n.opens++);
  if (num == d.open_fail) {
    d.n.open_fail++;
    d.write_error_injected = d.read_error_injected = true;
    fault_hit("open-fails");
    eventf("disk open %s -> errno %d", path, d.open_errno);
    errno = d.open_errno;
    return -1;
  }
  auto it = s.files.find(path);
  if (it == s.files.end()) {
    if (!(flags & O_CREAT)) { eventf("disk open %s -> ENOENT", path); errno = ENOENT; return -1; }
    it = s.files.emplace(path, std::make_shared<File>()).first;
  } else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
  if (flags & O_TRUNC) it->second->data.clear();
  Open o;
  o.f = it->second;
  int acc = flags & O_ACCMODE;
  o.rd = acc == O_RDONLY || acc == O_RDWR;
  o.wr = acc != O_RDONLY;
  o.app = flags & O_APPEND;
  o.open = true;
  o.name = path;
  s.fds.push_back(o);
  eventf("disk open %s flags %x -> %d", path, flags & ~O_CLOEXEC, static_cast<int>(s.fds.size()) - 1);
  return kFdBase + static_cast<int>(s.fds.size()) - 1;
}

ssize_t do_read(int fd, void* buf, size_t n, int64_t at = -1) {
  Quiet q;
  Open* o = get(fd);
  if (!o) return -1;
  Disk& d = S().disk;
  if (!o->rd) { errno = EBADF; return -1; }
  d.n.reads++;
  if (chance(kFault, d.eintr_permille)) { d.n.eintr++; fault_hit("EINTR"); event("read EINTR"); errno = EINTR; return -1; }
  int64_t pos = at >= 0 ? at : o->pos;
  int64_t size = static_cast<int64_t>(o->f->data.size());
  int64_t avail = size > pos ? size - pos : 0;
  if (d.eio_read_at >= 0 && pos >= d.eio_read_at) {
    d.n.eio_r++; d.read_error_injected = true;
    fault_hit("EIO-on-read");
    eventf("read at %lld -> EIO", static_cast<long long>(pos));
    errno = EIO;
    return -1;
  }
  size_t k = n < static_cast<size_t>(avail) ? n : static_cast<size_t>(avail);
  if (d.eio_read_at >= 0 && pos + static_cast<int64_t>(k) > d.eio_read_at) k = static_cast<size_t>(d.eio_read_at - pos);
  if (k > 1 && chance(kFault, d.short_permille)) { k = 1 + choose(kFault, static_cast<uint32_t>(k - 1)); d.n.short_r++; fault_hit("short-read"); }
  memcpy(buf, o->f->data.data() + pos, k);
  if (at < 0) o->pos += static_cast<int64_t>(k);
  eventf("read %zu -> %zu", n, k);
  return static_cast<ssize_t>(k);
}

ssize_t do_write(int fd, const void* buf, size_t n) {
  Quiet q;
  Open* o = get(fd);
  if (!o) return -1;
  State& s = S();
  Disk& d = s.disk;
  if (!o->wr) { errno = EBADF; return -1; }
  uint64_t num = d.n.writes++;
  if (n == 0) return 0;
  if (chance(kFault, d.eintr_permille)) { d.n.eintr++; fault_hit("EINTR"); event("write EINTR"); errno = EINTR; return -1; }
  bool fail = d.eio_write_at >= 0 && static_cast<int64_t>(num) >= d.eio_write_at &&
              (d.write_fail_len == 0 || static_cast<int64_t>(num) < d.eio_write_at + d.write_fail_len);
  if (fail) { d.n.eio_w++; d.write_error_injected = true; fault_hit("EIO-on-write"); eventf("write #%llu -> EIO", static_cast<unsigned long long>(num)); errno = EIO; return -1; }
  size_t k = n;
  if (d.space >= 0 && static_cast<int64_t>(k) > d.space) k = static_cast<size_t>(d.space);
  if (k == 0) {
    d.n.enospc++; d.write_error_injected = true; fault_hit("ENOSPC");
    event("write -> ENOSPC");
    // space may be freed again by somebody else
    if (d.write_fail_len && d.n.enospc >= d.write_fail_len) { d.space = -1; fault_hit("space-freed-again"); }
    errno = ENOSPC;
    return -1;
  }
  if (k > 1 && chance(kFault, d.short_permille)) { k = 1 + choose(kFault, static_cast<uint32_t>(k - 1)); d.n.short_w++; fault_hit("short-write"); }
  if (d.space >= 0) d.space -= static_cast<int64_t>(k);
  std::string& data = o->f->data;
  if (o->app) o->pos = static_cast<int64_t>(data.size());
  if (static_cast<int64_t>(data.size()) < o->pos + static_cast<int64_t>(k)) data.resize(o->pos + k);
  memcpy(data.data() + o->pos, buf, k);
  o->pos += static_cast<int64_t>(k);
  d.n.bytes_w += k;
  eventf("write %zu -> %zu", n, k);
  mix(hash_bytes(buf, k));
  return static_cast<ssize_t>(k);
}

int do_close(int fd) {
  Quiet q;
  Open* o = get(fd);
  if (!o) return -1;
  Disk& d = S().disk;
  bool wr = o->wr;
  o->open = false;
  int num = static_cast<int>(d.n.closes++);
  if (wr && num == d.close_fail) {
    // delayed allocation: the tail never reaches the disk
    size_t n = o->f->data.size();
    size_t lose = n ? 1 + choose(kFault, static_cast<uint32_t>(n)) : 0;
    if (lose > n) lose = n;
    o->f->data.resize(n - lose);
    d.n.close_fail++;
    d.write_error_injected = true;
    fault_hit("close-fails");
    eventf("close -> EIO, lost %zu bytes", lose);
    o->f.reset();
    errno = EIO;
    return -1;
  }
  o->f.reset();
  event("close");
  return 0;
}

int64_t do_seek(int fd, int64_t off, int whence) {
  Quiet q;
  Open* o = get(fd);
  if (!o) return -1;
  int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? o->pos : static_cast<int64_t>(o->f->data.size());
  if (base + off < 0) { errno = EINVAL; return -1; }
  o->pos = base + off;
  return o->pos;
}

template <class T> T real(const char* name) { return reinterpret_cast<T>(dlsym(RTLD_NEXT, name)); }

ssize_t ck_read(void* c, char* b, size_t n) { return do_read(static_cast<int>(reinterpret_cast<intptr_t>(c)), b, n); }
ssize_t ck_write(void* c, const char* b, size_t n) {
  ssize_t k = do_write(static_cast<int>(reinterpret_cast<intptr_t>(c)), b, n);
  return k < 0 ? 0 : k;  // cookie convention: 0 = error
}
int ck_seek(void* c, off64_t* o, int w) {
  int64_t r = do_seek(static_cast<int>(reinterpret_cast<intptr_t>(c)), *o, w);
  if (r < 0) return -1;
  *o = r;
  return 0;
}
int ck_close(void* c) { return do_close(static_cast<int>(reinterpret_cast<intptr_t>(c))); }

FILE* do_fopen(const char* path, const char* mode) {
  Quiet q;
  int fl = 0;
  bool plus = strchr(mode, '+') != nullptr;
  switch (mode[0]) {
    case 'r': fl = plus ? O_RDWR : O_RDONLY; break;
    case 'w': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
    case 'a': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
    default: errno = EINVAL; return nullptr;
  }
  if (strchr(mode, 'x')) fl |= O_EXCL;
  int fd = do_open(path, fl);
  if (fd < 0) return nullptr;
  cookie_io_functions_t io{ck_read, ck_write, ck_seek, ck_close};
  using Fn = FILE* (*)(void*, const char*, cookie_io_functions_t);
  static Fn fn = real<Fn>("fopencookie");
  FILE* f = fn(reinterpret_cast<void*>(static_cast<intptr_t>(fd)), mode, io);
  S().streams[f] = fd;
  return f;
}

template <class ST> int fill_stat(int64_t size, ST* st) {
  memset(st, 0, sizeof *st);
  st->st_mode = S_IFREG | 0644;
  st->st_size = size;
  st->st_blksize = 4096;
  st->st_nlink = 1;
  return 0;
}
template <class ST> int path_stat(const char* p, ST* st) {
  Quiet q;
  if (!strcmp(p, "/simfs/") || !strcmp(p, "/simfs")) { memset(st, 0, sizeof *st); st->st_mode = S_IFDIR | 0755; return 0; }
  auto it = S().files.find(p);
  if (it == S().files.end()) { errno = ENOENT; return -1; }
  return fill_stat(static_cast<int64_t>(it->second->data.size()), st);
}
}  // namespace

Disk& disk() { return S().disk; }
void disk_reset() { Quiet q; State& s = S(); s.files.clear(); s.fds.clear(); s.disk = Disk{}; }
void disk_put(const std::string& p, const std::string& b) { Quiet q; auto f = std::make_shared<File>(); f->data = b; S().files[p] = f; }
bool disk_get(const std::string& p, std::string* b) {
  Quiet q;
  auto it = S().files.find(p);
  if (it == S().files.end()) return false;
  *b = it->second->data;
  return true;
}
bool disk_exists(const std::string& p) { return S().files.count(p); }
void disk_remove(const std::string& p) { Quiet q; S().files.erase(p); }
std::vector<std::string> disk_list() { std::vector<std::string> r; for (auto& x : S().files) r.push_back(x.first); return r; }

void plan_benign_io() {
  static const uint32_t rate[] = {0, 0, 100, 500, 900};
  disk().short_permille = rate[choose(kFault, 5)];
  disk().eintr_permille = rate[choose(kFault, 4)] / 2;
}
void plan_read_error(int64_t size) {
  Disk& d = disk();
  if (choose(kFault, 8) == 7) { d.open_fail = static_cast<int>(d.n.opens); static const int e[] = {ENOENT, EACCES, EMFILE, EIO}; d.open_errno = e[choose(kFault, 4)]; }
  else d.eio_read_at = choose(kFault, static_cast<uint32_t>(size + 1));
}
void plan_write_error(int64_t hint) {
  Disk& d = disk();
  d.write_fail_len = choose(kFault, 3) ? 0 : 1 + choose(kFault, 3);
  switch (choose(kFault, 5)) {
    case 0: case 1: d.space = choose(kFault, static_cast<uint32_t>(hint + 1)); break;
    case 2: d.eio_write_at = static_cast<int64_t>(d.n.writes) + choose(kFault, static_cast<uint32_t>(1 + hint / 4000)); break;
    case 3: { d.open_fail = static_cast<int>(d.n.opens); static const int e[] = {ENOSPC, EACCES, EMFILE, EROFS, EIO}; d.open_errno = e[choose(kFault, 5)]; break; }
    default: d.close_fail = static_cast<int>(d.n.closes); break;
  }
}
}  // namespace sim

using namespace sim;
extern "C" {
FILE* fopen(const char* p, const char* m) { if (is_sim(p)) return do_fopen(p, m); static auto f = real<FILE* (*)(const char*, const char*)>("fopen"); return f(p, m); }
FILE* fopen64(const char* p, const char* m) { if (is_sim(p)) return do_fopen(p, m); static auto f = real<FILE* (*)(const char*, const char*)>("fopen64"); return f(p, m); }
int fileno(FILE* f) noexcept {
  { Quiet q; auto it = S().streams.find(f); if (it != S().streams.end()) return it->second; }
  static auto r = real<int (*)(FILE*)>("fileno");
  return r(f);
}
int fclose(FILE* f) {
  { Quiet q; S().streams.erase(f); }
  static auto r = real<int (*)(FILE*)>("fclose");
  return r(f);
}
int open(const char* p, int fl, ...) {
  if (is_sim(p)) return do_open(p, fl);
  va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
  return static_cast<int>(syscall(SYS_openat, AT_FDCWD, p, fl, m));
}
int open64(const char* p, int fl, ...) {
  if (is_sim(p)) return do_open(p, fl);
  va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
  return static_cast<int>(syscall(SYS_openat, AT_FDCWD, p, fl, m));
}
int openat(int d, const char* p, int fl, ...) {
  if (is_sim(p)) return do_open(p, fl);
  va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
  return static_cast<int>(syscall(SYS_openat, d, p, fl, m));
}
int creat(const char* p, mode_t m) { return open(p, O_CREAT | O_TRUNC | O_WRONLY, m); }
ssize_t read(int fd, void* b, size_t n) { return is_simfd(fd) ? do_read(fd, b, n) : static_cast<ssize_t>(syscall(SYS_read, fd, b, n)); }
ssize_t pread(int fd, void* b, size_t n, off_t o) { return is_simfd(fd) ? do_read(fd, b, n, o) : static_cast<ssize_t>(syscall(SYS_pread64, fd, b, n, o)); }
ssize_t pread64(int fd, void* b, size_t n, off64_t o) { return is_simfd(fd) ? do_read(fd, b, n, o) : static_cast<ssize_t>(syscall(SYS_pread64, fd, b, n, o)); }
ssize_t write(int fd, const void* b, size_t n) { return is_simfd(fd) ? do_write(fd, b, n) : static_cast<ssize_t>(syscall(SYS_write, fd, b, n)); }
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (!is_simfd(fd)) return static_cast<ssize_t>(syscall(SYS_writev, fd, v, c));
  std::string all;
  { Quiet q; for (int i = 0; i < c; ++i) all.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len); }
  ssize_t r = do_write(fd, all.data(), all.size());
  Quiet q;
  std::string().swap(all);
  return r;
}
ssize_t readv(int fd, const struct iovec* v, int c) {
  if (!is_simfd(fd)) return static_cast<ssize_t>(syscall(SYS_readv, fd, v, c));
  return c > 0 ? do_read(fd, v[0].iov_base, v[0].iov_len) : 0;
}
int close(int fd) { return is_simfd(fd) ? do_close(fd) : static_cast<int>(syscall(SYS_close, fd)); }
off_t lseek(int fd, off_t o, int w) noexcept { return is_simfd(fd) ? do_seek(fd, o, w) : static_cast<off_t>(syscall(SYS_lseek, fd, o, w)); }
off64_t lseek64(int fd, off64_t o, int w) noexcept { return is_simfd(fd) ? do_seek(fd, o, w) : static_cast<off64_t>(syscall(SYS_lseek, fd, o, w)); }
int fsync(int fd) { return is_simfd(fd) ? 0 : static_cast<int>(syscall(SYS_fsync, fd)); }
int fdatasync(int fd) { return is_simfd(fd) ? 0 : static_cast<int>(syscall(SYS_fdatasync, fd)); }
int ftruncate(int fd, off_t n) noexcept {
  if (!is_simfd(fd)) return static_cast<int>(syscall(SYS_ftruncate, fd, n));
  Quiet q; Open* o = get(fd); if (!o) return -1; o->f->data.resize(n); return 0;
}
int ftruncate64(int fd, off64_t n) noexcept { return ftruncate(fd, n); }
int fstat(int fd, struct stat* st) noexcept {
  if (!is_simfd(fd)) return static_cast<int>(syscall(SYS_fstat, fd, st));
  Open* o = get(fd); return o ? fill_stat(static_cast<int64_t>(o->f->data.size()), st) : -1;
}
int fstat64(int fd, struct stat64* st) noexcept {
  if (!is_simfd(fd)) return static_cast<int>(syscall(SYS_fstat, fd, st));
  Open* o = get(fd); return o ? fill_stat(static_cast<int64_t>(o->f->data.size()), st) : -1;
}
int stat(const char* p, struct stat* st) noexcept { return is_sim(p) ? path_stat(p, st) : static_cast<int>(syscall(SYS_stat, p, st)); }
int stat64(const char* p, struct stat64* st) noexcept { return is_sim(p) ? path_stat(p, st) : static_cast<int>(syscall(SYS_stat, p, st)); }
int lstat(const char* p, struct stat* st) noexcept { return is_sim(p) ? path_stat(p, st) : static_cast<int>(syscall(SYS_lstat, p, st)); }
int lstat64(const char* p, struct stat64* st) noexcept { return is_sim(p) ? path_stat(p, st) : static_cast<int>(syscall(SYS_lstat, p, st)); }
int access(const char* p, int m) noexcept {
  if (!is_sim(p)) return static_cast<int>(syscall(SYS_access, p, m));
  if (disk_exists(p)) return 0;
  errno = ENOENT; return -1;
}
int rename(const char* a, const char* b) noexcept {
  if (!is_sim(a) || !is_sim(b)) return static_cast<int>(syscall(SYS_rename, a, b));
  Quiet q; State& s = S(); auto it = s.files.find(a);
  if (it == s.files.end()) { errno = ENOENT; return -1; }
  s.files[b] = it->second; s.files.erase(it);
  eventf("rename %s %s", a, b);
  return 0;
}
int unlink(const char* p) noexcept {
  if (!is_sim(p)) return static_cast<int>(syscall(SYS_unlink, p));
  Quiet q; eventf("unlink %s", p);
  if (!S().files.erase(p)) { errno = ENOENT; return -1; }
  return 0;
}
int remove(const char* p) noexcept {
  if (is_sim(p)) return unlink(p);
  static auto r = real<int (*)(const char*)>("remove");
  return r(p);
}
}
