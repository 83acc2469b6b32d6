// Simulated disk. Every file the library opens lives here; nothing reaches the real filesystem.
#include "rt.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/file.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#include <map>
#include <memory>

using namespace rt;

namespace vfs {
const char* ROOT = "/sim/";

struct Change { bool trunc; uint64_t off; std::string data; };   // not yet durable
static uint64_t g_serial = 0, g_changes = 0;
struct Inode {
  std::string data;        // what the running system sees
  std::string durable;     // what survives a power loss for certain
  bool durableExists = false;
  std::vector<Change> pending;
  bool dir = false;
  uint64_t id = ++g_serial, changed = ++g_changes;
  void touch() { changed = ++g_changes; }
};
typedef std::shared_ptr<Inode> Ino;
struct Dir { Ino now; Ino durable; };     // name binding
static std::map<std::string, Dir>* g_dir;
struct OpenFile { Ino ino; uint64_t pos; int flags; std::string path; bool used; FILE* fp; };
static std::vector<OpenFile>* g_open;
static const int FD0 = 1000000;
static int64_t g_written = 0;     // bytes written by the current operation
static uint64_t g_writtenOp = 0;

static void init() { if (!g_dir) { g_dir = new std::map<std::string, Dir>(); g_open = new std::vector<OpenFile>(); } }
void reset() { Internal in; init(); g_dir->clear(); g_open->clear(); }
void put(const std::string& path, const std::string& data) {
  Internal in; init();
  Ino i = std::make_shared<Inode>();
  i->data = i->durable = data; i->durableExists = true;
  (*g_dir)[path] = Dir{i, i};
}
bool get(const std::string& path, std::string& data) {
  Internal in; init();
  auto it = g_dir->find(path);
  if (it == g_dir->end() || !it->second.now) return false;
  data = it->second.now->data;
  return true;
}
bool exists(const std::string& path) { Internal in; init(); auto it = g_dir->find(path); return it != g_dir->end() && it->second.now; }
void erase(const std::string& path) { Internal in; init(); g_dir->erase(path); }
std::vector<std::string> list() {
  Internal in; init();
  std::vector<std::string> r;
  for (auto& kv : *g_dir) if (kv.second.now) r.push_back(kv.first);
  return r;
}
int openCount() { Internal in; init(); int n = 0; for (auto& o : *g_open) n += o.used; return n; }
std::string openList() { Internal in; init(); std::string s; for (auto& o : *g_open) if (o.used) s += " " + o.path; return s; }

// ---------------------------------------------------------------- crash images
static void add(std::string& out, const std::string& name, const std::string& data) {
  uint32_t a = (uint32_t)name.size(), b = (uint32_t)data.size();
  out.append((char*)&a, 4); out.append((char*)&b, 4); out += name; out += data;
}
static std::string afterPowerLoss(const Inode& i, Rng& r) {
  std::string d = i.durable;
  int mode = (int)r.below(4);            // 0: nothing, 1: prefix, 2: any sectors, 3: everything
  size_t keep = i.pending.empty() ? 0 : r.below(i.pending.size() + 1);
  size_t n = 0;
  for (auto& c : i.pending) {
    bool on = mode == 3 || (mode == 1 && n < keep) || (mode == 2);
    n++;
    if (!on) continue;
    if (c.trunc) { if (mode != 2 || r.chance(0.8)) d.resize(c.off); continue; }
    size_t o = 0;
    while (o < c.data.size()) {
      size_t len = 512 - ((c.off + o) & 511);
      if (len > c.data.size() - o) len = c.data.size() - o;
      if (mode != 2 || r.chance(0.7)) {
        if (d.size() < c.off + o + len) d.resize(c.off + o + len, 0);
        d.replace(c.off + o, len, c.data, o, len);
      } else if (r.chance(0.5) && d.size() < c.off + o + len) d.resize(c.off + o + len, 0);   // size grew, data lost
      o += len;
    }
  }
  return d;
}
void saveImage(int mode, uint64_t seed) {
  Internal in; init();
  std::string out;
  Rng r(seed);
  for (auto& kv : *g_dir) {
    if (mode == 0) { if (kv.second.now) add(out, kv.first, kv.second.now->data); continue; }
    Ino i = kv.second.now;
    if (kv.second.now != kv.second.durable && r.chance(0.4)) i = kv.second.durable;
    if (i) add(out, kv.first, afterPowerLoss(*i, r));
  }
  if (out.size() > IMAGE) internalError("disk image too large");
  memcpy(sh->image, out.data(), out.size());
  sh->imageLen = (uint32_t)out.size();
}
void loadImage(const char* p, uint32_t n) {
  Internal in;
  reset();
  const char* e = p + n;
  while (p + 8 <= e) {
    uint32_t a, b;
    memcpy(&a, p, 4); memcpy(&b, p + 4, 4); p += 8;
    std::string name(p, a), data(p + a, b);
    p += a + b;
    put(name, data);
  }
}

// ---------------------------------------------------------------- operations
// first call on a file being written that failed for good since clearFailure()
static const char* g_failure = nullptr;
static void failed(const char* what) { if (errno != EINTR && errno != EAGAIN && !g_failure) g_failure = what; }
const char* failure() { return g_failure; }
void clearFailure() { g_failure = nullptr; }
static void crashPoint() {
  if (rt::active()) ioStep();
  Fault f;
  if (fault(K_CRASH, f)) {
    if (crashHook) crashHook(f.err);
    saveImage(f.err, (uint64_t)f.arg);
    finish(S_CRASH);
  }
}
static OpenFile* file(int fd) {
  init();
  int k = fd - FD0;
  if (k < 0 || k >= (int)g_open->size() || !(*g_open)[k].used) return nullptr;
  return &(*g_open)[k];
}
static bool isSim(int fd) { return fd >= FD0; }

static bool isDir(const std::string& p) { return p == "/sim" || p == "/sim/" || p == "/"; }
static int slot(const Ino& i, int flags, const std::string& p) {
  size_t k = 0;
  while (k < g_open->size() && (*g_open)[k].used) k++;
  if (k == g_open->size()) g_open->push_back(OpenFile());
  (*g_open)[k] = OpenFile{i, 0, flags, p, true, nullptr};
  return FD0 + (int)k;
}
static int vopen(const char* path, int flags) {
  crashPoint();
  Fault f;
  bool fail = fault(K_OPEN, f);
  Internal in; init();
  note("open", flags, (int64_t)hashStr(path));
  if (fail) { errno = f.err ? f.err : EACCES; if ((flags & O_ACCMODE) != O_RDONLY) failed("open"); return -1; }
  std::string p = path;
  if (isDir(p)) {
    if ((flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; }
    Ino i = std::make_shared<Inode>();
    i->dir = true;
    return slot(i, flags, p);
  }
  if (p.empty() || (p.size() && p.back() == '/')) { errno = p.empty() ? ENOENT : EISDIR; return -1; }
  if (p.compare(0, strlen(ROOT), ROOT) != 0) { errno = (flags & O_CREAT) ? EACCES : ENOENT; return -1; }
  if (p.compare(0, 9, "/sim/nod/") == 0) { errno = ENOENT; return -1; }      // directory that does not exist
  auto it = g_dir->find(p);
  bool have = it != g_dir->end() && it->second.now;
  if (!have && !(flags & O_CREAT)) { errno = ENOENT; return -1; }
  if (have && (flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
  if (!have) { Ino i = std::make_shared<Inode>(); (*g_dir)[p].now = i; it = g_dir->find(p); }
  Ino i = it->second.now;
  if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) { i->data.clear(); i->touch(); i->pending.push_back(Change{true, 0, ""}); }
  if (flags & O_DIRECTORY) { errno = ENOTDIR; return -1; }
  return slot(i, flags, p);
}
static ssize_t vread(int fd, void* buf, size_t n) {
  crashPoint();
  Fault f;
  bool hit = fault(K_READ, f);
  Internal in;
  OpenFile* o = file(fd);
  if (!o) { errno = EBADF; return -1; }
  if ((o->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
  if (o->ino->dir) { errno = EISDIR; return -1; }
  if (hit && f.err) { note("rderr", f.err); errno = f.err; return -1; }
  if (hit && f.arg > 0 && n > (size_t)f.arg) n = (size_t)f.arg;      // short read
  const std::string& d = o->ino->data;
  size_t m = o->pos >= d.size() ? 0 : d.size() - o->pos;
  if (m > n) m = n;
  memcpy(buf, d.data() + o->pos, m);
  o->pos += m;
  note("read", (int64_t)n, (int64_t)m);
  return (ssize_t)m;
}
static ssize_t vwrite(int fd, const void* buf, size_t n) {
  crashPoint();
  Fault f;
  bool hit = fault(K_WRITE, f);
  Internal in;
  OpenFile* o = file(fd);
  if (!o || (o->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
  if (hit && f.err) { note("wrerr", f.err); errno = f.err; failed("write"); return -1; }
  if (hit && f.arg > 0 && n > (size_t)f.arg) n = (size_t)f.arg;
  if (g_writtenOp != opGen()) { g_writtenOp = opGen(); g_written = 0; }
  if (const Fault* df = armed(K_DISKFULL)) {
    int64_t room = df->arg - g_written;
    if (room <= 0 && n > 0) { fired(K_DISKFULL); errno = ENOSPC; failed("write"); return -1; }
    if ((int64_t)n > room) { fired(K_DISKFULL); n = (size_t)room; }
  }
  std::string& d = o->ino->data;
  if (o->flags & O_APPEND) o->pos = d.size();
  if (d.size() < o->pos + n) d.resize(o->pos + n, 0);
  d.replace(o->pos, n, (const char*)buf, n);
  o->ino->touch();
  o->ino->pending.push_back(Change{false, o->pos, std::string((const char*)buf, n)});
  o->pos += n;
  g_written += (int64_t)n;
  note("write", (int64_t)n, (int64_t)hashStr(std::string((const char*)buf, n)));
  return (ssize_t)n;
}
static int64_t vseek(int fd, int64_t off, int whence) {
  Fault f;
  bool hit = fault(K_SEEK, f);
  Internal in;
  OpenFile* o = file(fd);
  if (!o) { errno = EBADF; return -1; }
  if (hit) { note("skerr", f.err); errno = f.err ? f.err : EIO; return -1; }
  int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t)o->pos : (int64_t)o->ino->data.size();
  if (base + off < 0) { errno = EINVAL; return -1; }
  o->pos = (uint64_t)(base + off);
  note("seek", off, whence);
  return (int64_t)o->pos;
}
static int vclose(int fd) {
  crashPoint();
  Fault f;
  bool hit = fault(K_CLOSE, f);
  Internal in;
  OpenFile* o = file(fd);
  if (!o) { errno = EBADF; return -1; }
  bool writable = (o->flags & O_ACCMODE) != O_RDONLY;
  o->used = false;
  o->ino.reset();
  note("close", fd - FD0);
  if (hit) { errno = f.err ? f.err : EIO; if (writable) failed("close"); return -1; }
  return 0;
}
static int vsync(int fd) {
  crashPoint();
  Fault f;
  bool hit = fault(K_SYNC, f);
  Internal in;
  OpenFile* o = file(fd);
  if (!o) { errno = EBADF; return -1; }
  if (hit) { errno = f.err ? f.err : EIO; return -1; }
  if (o->ino->dir) { for (auto& kv : *g_dir) kv.second.durable = kv.second.now; return 0; }   // the names are durable now
  o->ino->durable = o->ino->data;
  o->ino->pending.clear();
  o->ino->durableExists = true;
  auto it = g_dir->find(o->path);
  if (it != g_dir->end() && it->second.now == o->ino) it->second.durable = o->ino;
  return 0;
}
static int fill(const Inode& i, struct stat* st) {
  memset(st, 0, sizeof *st);
  st->st_mode = i.dir ? S_IFDIR | 0755 : S_IFREG | 0644;
  st->st_dev = 1;
  st->st_ino = i.id;
  st->st_nlink = 1;
  st->st_size = (off_t)i.data.size();
  st->st_blocks = (st->st_size + 511) / 512;
  st->st_blksize = 4096;
  // several changes happen within a second
  st->st_mtim.tv_sec = 1500000000 + (time_t)(i.changed / 64);
  st->st_mtim.tv_nsec = (long)(i.changed % 64) * 1000000;
  st->st_ctim = st->st_atim = st->st_mtim;
  return 0;
}
static int vfstat(int fd, struct stat* st) {
  Internal in;
  OpenFile* o = file(fd);
  if (!o) { errno = EBADF; return -1; }
  return fill(*o->ino, st);
}
static int vstat(const char* path, struct stat* st) {
  Internal in; init();
  if (isDir(path)) { Inode i; i.dir = true; i.id = 1; return fill(i, st); }
  auto it = g_dir->find(path);
  if (it == g_dir->end() || !it->second.now) { errno = ENOENT; return -1; }
  return fill(*it->second.now, st);
}
static int vunlink(const char* path) {
  crashPoint();
  Fault f;
  bool hit = fault(K_RENAME, f);
  Internal in; init();
  auto it = g_dir->find(path);
  if (it == g_dir->end() || !it->second.now) { errno = ENOENT; return -1; }
  if (hit) { errno = f.err ? f.err : EIO; return -1; }
  note("unlink", (int64_t)hashStr(path));
  it->second.now.reset();
  return 0;
}
static int vrename(const char* a, const char* b) {
  crashPoint();
  Fault f;
  bool hit = fault(K_RENAME, f);
  Internal in; init();
  auto it = g_dir->find(a);
  if (it == g_dir->end() || !it->second.now) { errno = ENOENT; return -1; }
  if (hit) { errno = f.err ? f.err : EIO; return -1; }
  std::string to = b;
  if (to.empty() || to.back() == '/') { errno = to.empty() ? ENOENT : EISDIR; return -1; }
  if (to.compare(0, strlen(ROOT), ROOT) != 0 || to.compare(0, 9, "/sim/nod/") == 0) { errno = ENOENT; return -1; }
  note("rename", (int64_t)hashStr(a), (int64_t)hashStr(b));
  Ino i = it->second.now;
  it->second.now.reset();
  (*g_dir)[b].now = i;
  return 0;
}

// FILE* support: cookie streams over the same operations
struct Cookie { int fd; };
static ssize_t ckRead(void* c, char* b, size_t n) { return vread(((Cookie*)c)->fd, b, n); }
static ssize_t ckWrite(void* c, const char* b, size_t n) {      // like real streams: goes on after a short write
  size_t done = 0;
  while (done < n) { ssize_t r = vwrite(((Cookie*)c)->fd, b + done, n - done); if (r <= 0) break; done += (size_t)r; }
  return (ssize_t)done;
}
static int ckSeek(void* c, off64_t* off, int wh) { int64_t r = vseek(((Cookie*)c)->fd, *off, wh); if (r < 0) return -1; *off = r; return 0; }
static int ckClose(void* c) { int r = vclose(((Cookie*)c)->fd); free(c); return r; }
static std::map<FILE*, int>* g_fp;

static FILE* vfdopen(int fd, const char* mode) {
  Internal in;
  Cookie* c = (Cookie*)malloc(sizeof(Cookie));
  c->fd = fd;
  cookie_io_functions_t io = {ckRead, ckWrite, ckSeek, ckClose};
  FILE* fp = fopencookie(c, mode, io);
  if (!g_fp) g_fp = new std::map<FILE*, int>();
  (*g_fp)[fp] = fd;
  (*g_open)[fd - FD0].fp = fp;
  return fp;
}
static FILE* vfopen(const char* path, const char* mode) {
  int fl = 0;
  bool plus = strchr(mode, '+') != nullptr;
  if (mode[0] == 'r') fl = plus ? O_RDWR : O_RDONLY;
  else if (mode[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
  else fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  if (strchr(mode, 'x')) fl |= O_EXCL;
  int fd = vopen(path, fl);
  if (fd < 0) return nullptr;
  return vfdopen(fd, mode);
}
static int vmkstemp(char* t, int suffix, int flags) {
  size_t n = strlen(t);
  if (n < 6 + (size_t)suffix || memcmp(t + n - 6 - suffix, "XXXXXX", 6) != 0) { errno = EINVAL; return -1; }
  static unsigned serial = 0;
  for (int i = 0; i < 1000; i++) {
    char b[8];
    snprintf(b, sizeof b, "%06u", serial++ % 1000000);
    for (int k = 0; k < 6; k++) t[n - 6 - (size_t)suffix + (size_t)k] = b[k];
    int fd = vopen(t, flags | O_RDWR | O_CREAT | O_EXCL);
    if (fd >= 0 || errno != EEXIST) return fd;
  }
  return -1;
}
static int fdOf(FILE* fp) { Internal in; if (!g_fp) return -1; auto it = g_fp->find(fp); return it == g_fp->end() ? -1 : it->second; }
}  // namespace vfs

using namespace vfs;

#define REALF(name) ([]() { static decltype(&::name) f = (decltype(&::name))dlsym(RTLD_NEXT, #name); return f; }())
static long fix(long r) { if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }

extern "C" {
FILE* fopen(const char* p, const char* m) { if (inSut()) return vfopen(p, m); return REALF(fopen)(p, m); }
FILE* fopen64(const char* p, const char* m) { if (inSut()) return vfopen(p, m); return REALF(fopen64)(p, m); }
int fileno(FILE* f) { int fd = fdOf(f); if (fd >= 0) return fd; return REALF(fileno)(f); }
FILE* fdopen(int fd, const char* m) { if (isSim(fd)) return vfdopen(fd, m); return REALF(fdopen)(fd, m); }
int fclose(FILE* f) {
  int fd = fdOf(f);
  if (fd >= 0) { Internal in; g_fp->erase(f); }
  return REALF(fclose)(f);
}
static int vopenat(const char* p, int fl, mode_t m, int dir) {
  if (inSut()) return vopen(p, fl);
  return (int)fix(raw(SYS_openat, dir, (long)p, fl, m));
}
int open(const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, int); va_end(a); return vopenat(p, fl, m, AT_FDCWD); }
int open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, int); va_end(a); return vopenat(p, fl, m, AT_FDCWD); }
int openat(int d, const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, int); va_end(a); return vopenat(p, fl, m, d); }
int openat64(int d, const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, int); va_end(a); return vopenat(p, fl, m, d); }
int creat(const char* p, mode_t m) { return vopenat(p, O_CREAT | O_WRONLY | O_TRUNC, m, AT_FDCWD); }
ssize_t read(int fd, void* b, size_t n) { if (isSim(fd)) return vread(fd, b, n); return fix(raw(SYS_read, fd, (long)b, (long)n)); }
ssize_t write(int fd, const void* b, size_t n) { if (isSim(fd)) return vwrite(fd, b, n); return fix(raw(SYS_write, fd, (long)b, (long)n)); }
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (!isSim(fd)) return fix(raw(SYS_writev, fd, (long)v, c));
  std::string all;
  { Internal in; for (int i = 0; i < c; i++) all.append((const char*)v[i].iov_base, v[i].iov_len); }
  ssize_t r = vwrite(fd, all.data(), all.size());
  { Internal in; std::string().swap(all); }
  return r;
}
ssize_t readv(int fd, const struct iovec* v, int c) {
  if (!isSim(fd)) return fix(raw(SYS_readv, fd, (long)v, c));
  ssize_t t = 0;
  for (int i = 0; i < c; i++) {
    ssize_t r = vread(fd, v[i].iov_base, v[i].iov_len);
    if (r < 0) return t ? t : r;
    t += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return t;
}
extern "C++" {
template <class F> static ssize_t at(int fd, int64_t o, const F& f) {
  int64_t old;
  { Internal in; OpenFile* x = file(fd); if (!x) { errno = EBADF; return -1; } old = (int64_t)x->pos; x->pos = (size_t)o; }
  ssize_t r = f();
  int e = errno;
  { Internal in; OpenFile* x = file(fd); if (x) x->pos = (size_t)old; }
  errno = e;
  return r;
}
}
ssize_t pread(int fd, void* b, size_t n, off_t o) { if (isSim(fd)) return at(fd, o, [&] { return vread(fd, b, n); }); return fix(raw(SYS_pread64, fd, (long)b, (long)n, o)); }
ssize_t pread64(int fd, void* b, size_t n, off64_t o) { return pread(fd, b, n, o); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { if (isSim(fd)) return at(fd, o, [&] { return vwrite(fd, b, n); }); return fix(raw(SYS_pwrite64, fd, (long)b, (long)n, o)); }
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
int mkstemp(char* t) { if (inSut()) return vmkstemp(t, 0, 0); return REALF(mkstemp)(t); }
int mkstemp64(char* t) { return mkstemp(t); }
int mkostemp(char* t, int fl) { if (inSut()) return vmkstemp(t, 0, fl); return REALF(mkostemp)(t, fl); }
int mkstemps(char* t, int sf) { if (inSut()) return vmkstemp(t, sf, 0); return REALF(mkstemps)(t, sf); }
int truncate(const char* p, off_t n) {
  if (!inSut()) return (int)fix(raw(SYS_truncate, (long)p, n));
  int fd = vopen(p, O_WRONLY);
  if (fd < 0) return -1;
  int r = ftruncate(fd, n);
  vclose(fd);
  return r;
}
off_t lseek(int fd, off_t o, int w) { if (isSim(fd)) return vseek(fd, o, w); return fix(raw(SYS_lseek, fd, o, w)); }
off64_t lseek64(int fd, off64_t o, int w) { if (isSim(fd)) return vseek(fd, o, w); return fix(raw(SYS_lseek, fd, o, w)); }
int close(int fd) { if (isSim(fd)) return vclose(fd); return (int)fix(raw(SYS_close, fd)); }
int fsync(int fd) { if (isSim(fd)) return vsync(fd); return (int)fix(raw(SYS_fsync, fd)); }
int fdatasync(int fd) { if (isSim(fd)) return vsync(fd); return (int)fix(raw(SYS_fdatasync, fd)); }
int fstat(int fd, struct stat* s) { if (isSim(fd)) return vfstat(fd, s); return (int)fix(raw(SYS_fstat, fd, (long)s)); }
int fstat64(int fd, struct stat64* s) { if (isSim(fd)) return vfstat(fd, (struct stat*)s); return (int)fix(raw(SYS_fstat, fd, (long)s)); }
int stat(const char* p, struct stat* s) { if (inSut()) return vstat(p, s); return (int)fix(raw(SYS_stat, (long)p, (long)s)); }
int stat64(const char* p, struct stat64* s) { if (inSut()) return vstat(p, (struct stat*)s); return (int)fix(raw(SYS_stat, (long)p, (long)s)); }
int access(const char* p, int m) { if (inSut()) { struct stat st; return vstat(p, &st); } return (int)fix(raw(SYS_access, (long)p, m)); }
int unlink(const char* p) { if (inSut()) return vunlink(p); return (int)fix(raw(SYS_unlink, (long)p)); }
int remove(const char* p) { if (inSut()) return vunlink(p); return REALF(remove)(p); }
int rename(const char* a, const char* b) { if (inSut()) return vrename(a, b); return (int)fix(raw(SYS_rename, (long)a, (long)b)); }
int ftruncate(int fd, off_t n) {
  if (!isSim(fd)) return (int)fix(raw(SYS_ftruncate, fd, n));
  Internal in;
  OpenFile* o = file(fd);
  if (!o) { errno = EBADF; return -1; }
  o->ino->data.resize((size_t)n);
  o->ino->touch();
  o->ino->pending.push_back(Change{true, (uint64_t)n, ""});
  return 0;
}
int ioctl(int fd, unsigned long req, ...) {
  va_list a; va_start(a, req); long arg = va_arg(a, long); va_end(a);
  if (isSim(fd)) { errno = ENOTTY; return -1; }
  return (int)fix(raw(SYS_ioctl, fd, (long)req, arg));
}
int lstat(const char* p, struct stat* s) { if (inSut()) return vstat(p, s); return (int)fix(raw(SYS_lstat, (long)p, (long)s)); }
int lstat64(const char* p, struct stat64* s) { return lstat(p, (struct stat*)s); }
int fstatat(int d, const char* p, struct stat* s, int fl) {
  if (isSim(d)) return vfstat(d, s);
  if (inSut() && p[0] == '/') return vstat(p, s);
  return (int)fix(raw(SYS_newfstatat, d, (long)p, (long)s, fl));
}
int fstatat64(int d, const char* p, struct stat64* s, int fl) { return fstatat(d, p, (struct stat*)s, fl); }
int faccessat(int d, const char* p, int m, int fl) { if (inSut()) return access(p, m); return (int)fix(raw(SYS_faccessat2, d, (long)p, m, fl)); }
int euidaccess(const char* p, int m) { return access(p, m); }
int eaccess(const char* p, int m) { return access(p, m); }
int unlinkat(int d, const char* p, int fl) { if (inSut()) return vunlink(p); return (int)fix(raw(SYS_unlinkat, d, (long)p, fl)); }
int renameat(int d, const char* a, int e, const char* b) { if (inSut()) return vrename(a, b); return (int)fix(raw(SYS_renameat, d, (long)a, e, (long)b)); }
int flock(int fd, int op) { if (isSim(fd)) return 0; return (int)fix(raw(SYS_flock, fd, op)); }
int posix_fadvise(int fd, off_t o, off_t n, int a) { if (isSim(fd)) return 0; return (int)-raw(SYS_fadvise64, fd, o, n, a); }
int posix_fadvise64(int fd, off64_t o, off64_t n, int a) { return posix_fadvise(fd, o, n, a); }
int fchmod(int fd, mode_t m) { if (isSim(fd)) return 0; return (int)fix(raw(SYS_fchmod, fd, m)); }
int posix_fallocate(int fd, off_t o, off_t n) {
  if (!isSim(fd)) return REALF(posix_fallocate)(fd, o, n);
  struct stat st;
  if (vfstat(fd, &st) != 0) return errno;
  if (o + n > st.st_size && ftruncate(fd, o + n) != 0) return errno;
  return 0;
}
int fcntl(int fd, int cmd, ...) {
  va_list a; va_start(a, cmd); long arg = va_arg(a, long); va_end(a);
  if (isSim(fd)) {
    OpenFile* o = file(fd);
    if (!o) { errno = EBADF; return -1; }
    return cmd == F_GETFL ? o->flags : 0;      // locks are granted: there is no other process
  }
  return (int)fix(raw(SYS_fcntl, fd, cmd, arg));
}
int fcntl64(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long arg = va_arg(a, long); va_end(a); return fcntl(fd, cmd, arg); }
// a mapped file is read once, completely; writing through a shared mapping is not supported
void* mmap(void* at, size_t n, int prot, int fl, int fd, off_t o) {
  if ((fl & MAP_ANONYMOUS) || !isSim(fd)) return (void*)fix(raw(SYS_mmap, (long)at, (long)n, prot, fl, fd, o));
  struct stat st;
  if (vfstat(fd, &st) != 0) return MAP_FAILED;
  if ((fl & MAP_SHARED) && (prot & PROT_WRITE)) { errno = ENODEV; return MAP_FAILED; }
  void* p = (void*)fix(raw(SYS_mmap, (long)at, (long)n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  if (p == MAP_FAILED) return p;
  for (size_t got = 0; got < n;) {
    ssize_t r = pread(fd, (char*)p + got, n - got, o + (off_t)got);
    if (r < 0 && errno == EINTR) continue;
    if (r < 0) { int e = errno; raw(SYS_munmap, (long)p, (long)n); errno = e; return MAP_FAILED; }
    if (r == 0) break;
    got += (size_t)r;
  }
  raw(SYS_mprotect, (long)p, (long)n, prot);
  return p;
}
void* mmap64(void* at, size_t n, int prot, int fl, int fd, off64_t o) { return mmap(at, n, prot, fl, fd, o); }
int poll(struct pollfd* p, nfds_t n, int t) {
  if (n == 1 && isSim(p->fd)) { p->revents = p->events; return 1; }
  return (int)fix(raw(SYS_poll, (long)p, (long)n, t));
}
}
