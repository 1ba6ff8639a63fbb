#include "fs.hpp"
#include "mem.hpp"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim::fs {

constexpr int kBase = 1 << 20;

struct OpenFile
{
  std::shared_ptr<Inode> ino;
  int64_t pos = 0;
  int flags = 0;
};

struct State
{
  Run* run = nullptr;
  std::map<std::string, std::shared_ptr<Inode>> files;
  std::map<std::string, bool> dirs;
  std::map<int, OpenFile> fds;
  std::map<FILE*, int> streams;
  std::map<int64_t, std::string> names;
  int next = kBase;
  std::vector<Fault> faults;
  uint64_t n[kOps] = {};
  Fired fired;
  int64_t cap = -1;
  bool frozen = false;
  bool watching = false;
  bool confined = false;
  std::string outside;
};

static State*
S()
{
  static State* s = new State;
  return s;
}

static const char* opname[] = { "open", "read", "write", "seek", "stat", "sync", "other" };

static int64_t
used()
{
  int64_t n = 0;
  for (auto& f : S()->files)
    n += (int64_t)f.second->data.size();
  return n;
}

static void
resized(Inode& i)
{
  if (S()->watching)
    i.sizes.push_back(i.data.size());
}

void
reset(Run* r)
{
  auto* s = S();
  s->run = r;
  s->files.clear();
  s->dirs.clear();
  s->dirs["/simfs"] = true;
  s->fds.clear();
  s->streams.clear();
  s->names.clear();
  s->next = kBase;
  s->faults.clear();
  for (auto& x : s->n)
    x = 0;
  s->fired = {};
  s->cap = -1;
  s->frozen = s->watching = false;
}
void
arm(const std::vector<Fault>& f)
{
  auto* s = S();
  s->faults = f;
  for (auto& x : s->n)
    x = 0;
  s->fired = {};
}
void
disarm()
{
  S()->faults.clear();
  S()->frozen = false;
}
void
capacity(int64_t b)
{
  S()->cap = b;
}
bool
exists(const std::string& p)
{
  mem::Pause pause;
  return S()->files.count(p);
}
std::string
get(const std::string& p)
{
  mem::Pause pause;
  auto it = S()->files.find(p);
  return it == S()->files.end() ? std::string() : it->second->data;
}
void
put(const std::string& p, const std::string& d)
{
  mem::Pause pause;
  auto& i = S()->files[p];
  if (!i)
    i = std::make_shared<Inode>();
  i->data = d;
  i->tail = 0;
}
void
tail(const std::string& p, int64_t zeros)
{
  mem::Pause pause;
  auto it = S()->files.find(p);
  if (it != S()->files.end())
    it->second->tail = zeros;
}
void
erase(const std::string& p)
{
  mem::Pause pause;
  S()->files.erase(p);
}
void
mkdir(const std::string& p)
{
  mem::Pause pause;
  S()->dirs[p] = true;
}
std::vector<std::string>
list()
{
  mem::Pause pause;
  std::vector<std::string> v;
  for (auto& f : S()->files)
    v.push_back(f.first);
  return v;
}
size_t
open_files()
{
  return S()->fds.size();
}
void
confine(bool on)
{
  mem::Pause pause;
  S()->confined = on;
  S()->outside.clear();
}
std::string
outside()
{
  mem::Pause pause;
  return S()->outside;
}
/// Whether opening that real file has to be refused
static bool
refused(const char* p, bool writing)
{
  if (!S()->confined || !writing)
    return false;
  mem::Pause pause;
  S()->outside = p;
  errno = EACCES;
  return true;
}
void
name(int64_t idx, const std::string& p)
{
  mem::Pause pause;
  S()->names[idx] = p;
}
void
watch()
{
  auto* s = S();
  s->watching = true;
  for (auto& f : s->files) {
    f.second->delivered.clear();
    f.second->sizes = { f.second->data.size() };
  }
}
std::shared_ptr<Inode>
inode(const std::string& p)
{
  mem::Pause pause;
  auto it = S()->files.find(p);
  return it == S()->files.end() ? nullptr : it->second;
}
Fired
fired()
{
  return S()->fired;
}
uint64_t
calls(Op op)
{
  return S()->n[op];
}

/// Decide what happens to the next call of a kind.
struct Verdict
{
  int err = 0;         // errno to fail with
  int64_t limit = -1;  // transfer at most this many bytes
};

static Verdict
decide(Op op)
{
  auto* s = S();
  Verdict v;
  const int64_t k = (int64_t)++s->n[op];
  if (s->frozen) {
    v.err = EIO;
    return v;
  }
  for (auto& f : s->faults) {
    if (f.op != op || k < f.nth || k >= f.nth + f.count)
      continue;
    char kind[64];
    const char* what = "";
    switch (f.what) {
      case kEINTR:
        if (op != kRead && op != kWrite && op != kSync)
          continue;
        v.err = EINTR;
        what = "EINTR";
        s->fired.benign++;
        break;
      case kShort:
        if (op != kRead && op != kWrite)
          continue;
        v.limit = f.arg < 1 ? 1 : f.arg;
        what = "short";
        s->fired.benign++;
        break;
      case kEIO:
        v.err = EIO;
        what = "EIO";
        s->fired.errors++;
        break;
      case kENOSPC:
        if (op == kRead || op == kSeek || op == kStat)
          continue;
        v.err = ENOSPC;
        what = "ENOSPC";
        s->fired.errors++;
        break;
      case kOpenErr: {
        if (op != kOpen)
          continue;
        static const int errs[] = { EMFILE, EACCES, ENFILE, EIO, ENOENT, EINTR, ENOSPC, EROFS };
        v.err = errs[(uint64_t)f.arg % 8];
        what = "error";
        s->fired.errors++;
        break;
      }
      case kTruncate:
      case kExtend:
      case kOverwrite: {
        auto it = s->files.find(s->names[f.arg2]);
        if (it == s->files.end() || k != f.nth)
          continue;
        auto& d = it->second->data;
        if (f.what == kTruncate) {
          uint64_t to = f.arg < 0 ? 0 : (uint64_t)f.arg;
          if (to >= d.size())
            continue;
          d.resize(to);
          what = "concurrent-truncate";
        } else if (f.what == kExtend) {
          d.append((size_t)(f.arg < 1 ? 1 : f.arg > 100000 ? 100000 : f.arg), 'Z');
          what = "concurrent-extend";
        } else {
          if (d.empty())
            continue;
          d[(uint64_t)f.arg % d.size()] ^= 1;
          what = "concurrent-overwrite";
        }
        resized(*it->second);
        s->fired.changes++;
        break;
      }
      case kCrash:
        s->frozen = true;
        v.err = EIO;
        what = "crash";
        s->fired.crash++;
        break;
    }
    snprintf(kind, sizeof kind, "%s-%s", opname[op], what);
    if (s->run) {
      s->run->fault(kind);
      s->run->mixs(kind);
      s->run->mix((uint64_t)k);
    }
  }
  return v;
}

static std::string
norm(const char* p)
{
  std::string s = p;
  std::string o;
  for (char c : s)
    if (!(c == '/' && !o.empty() && o.back() == '/'))
      o += c;
  if (o.size() > 1 && o.back() == '/')
    o.pop_back();
  return o;
}

static bool
ours(const char* p)
{
  return p && !strncmp(p, "/simfs", 6) && (p[6] == 0 || p[6] == '/');
}

static std::string
parent(const std::string& p)
{
  return p.substr(0, p.rfind('/'));
}

static int
do_open(const char* path, int flags)
{
  mem::Pause pause;
  auto* s = S();
  auto v = decide(kOpen);
  if (v.err) {
    errno = v.err;
    return -1;
  }
  auto p = norm(path);
  if (s->dirs.count(p)) {
    if ((flags & O_ACCMODE) != O_RDONLY) {
      errno = EISDIR;
      return -1;
    }
    // can be opened, not read
    int fd = s->next++;
    s->fds[fd] = OpenFile{ std::make_shared<Inode>(), 0, flags | O_DIRECTORY };
    return fd;
  }
  if (!s->dirs.count(parent(p))) {
    errno = ENOENT;
    return -1;
  }
  auto it = s->files.find(p);
  if (it == s->files.end()) {
    if (!(flags & O_CREAT)) {
      errno = ENOENT;
      return -1;
    }
    it = s->files.emplace(p, std::make_shared<Inode>()).first;
  } else if ((flags & O_CREAT) && (flags & O_EXCL)) {
    errno = EEXIST;
    return -1;
  }
  if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) {
    it->second->data.clear();
    resized(*it->second);
  }
  int fd = s->next++;
  s->fds[fd] = OpenFile{ it->second, 0, flags };
  return fd;
}

static ssize_t
do_read(int fd, void* buf, size_t n, int64_t at = -1)
{
  mem::Pause pause;
  auto* s = S();
  auto it = s->fds.find(fd);
  if (it == s->fds.end() || (it->second.flags & O_ACCMODE) == O_WRONLY) {
    errno = EBADF;
    return -1;
  }
  auto v = decide(kRead);
  if (v.err) {
    errno = v.err;
    return -1;
  }
  auto& f = it->second;
  if (f.flags & O_DIRECTORY) {
    errno = EISDIR;
    return -1;
  }
  int64_t pos = at >= 0 ? at : f.pos;
  auto& d = f.ino->data;
  size_t avail = pos < (int64_t)d.size() ? d.size() - (size_t)pos : 0;
  if (f.ino->tail > 0 && pos >= (int64_t)d.size()) {
    // the zeros behind the contents
    int64_t left = f.ino->size() - pos;
    size_t k = left <= 0 ? 0 : (int64_t)n < left ? n : (size_t)left;
    if (v.limit >= 0 && (int64_t)k > v.limit)
      k = (size_t)v.limit;
    memset(buf, 0, k);
    if (at < 0)
      f.pos += (int64_t)k;
    return (ssize_t)k;
  }
  size_t k = n < avail ? n : avail;
  if (v.limit >= 0 && (int64_t)k > v.limit)
    k = (size_t)v.limit;
  if (k)
    memcpy(buf, d.data() + pos, k);
  if (s->watching)
    for (size_t i = 0; i < k; i++)
      f.ino->delivered.set((uint64_t)pos + i, (unsigned char)d[(size_t)pos + i]);
  if (at < 0)
    f.pos += (int64_t)k;
  return (ssize_t)k;
}

static ssize_t
do_write(int fd, const void* buf, size_t n, int64_t at = -1)
{
  mem::Pause pause;
  auto* s = S();
  auto it = s->fds.find(fd);
  if (it == s->fds.end() || (it->second.flags & O_ACCMODE) == O_RDONLY) {
    errno = EBADF;
    return -1;
  }
  auto v = decide(kWrite);
  if (v.err) {
    errno = v.err;
    return -1;
  }
  auto& f = it->second;
  size_t k = n;
  if (v.limit >= 0 && (int64_t)k > v.limit)
    k = (size_t)v.limit;
  if (f.flags & O_APPEND)
    f.pos = (int64_t)f.ino->data.size();
  int64_t pos = at >= 0 ? at : f.pos;
  if (s->cap >= 0) {
    int64_t room = s->cap - used();
    int64_t over = pos < (int64_t)f.ino->data.size() ? (int64_t)f.ino->data.size() - pos : 0;
    room = (room < 0 ? 0 : room) + over;
    if ((int64_t)k > room) {
      s->fired.nospace++;
      if (s->run)
        s->run->fault("disk-full");
      k = (size_t)room;
      if (k == 0 && n > 0) {
        errno = ENOSPC;
        return -1;
      }
    }
  }
  auto& d = f.ino->data;
  if ((int64_t)d.size() < pos)
    d.resize((size_t)pos, '\0');
  d.replace((size_t)pos, std::min(k, d.size() - (size_t)pos), (const char*)buf, k);
  if (at < 0)
    f.pos = pos + (int64_t)k;
  resized(*f.ino);
  return (ssize_t)k;
}

static int64_t
do_seek(int fd, int64_t off, int whence)
{
  mem::Pause pause;
  auto* s = S();
  auto it = s->fds.find(fd);
  if (it == s->fds.end()) {
    errno = EBADF;
    return -1;
  }
  auto v = decide(kSeek);
  if (v.err) {
    errno = v.err;
    return -1;
  }
  auto& f = it->second;
  if (f.flags & O_DIRECTORY) {
    f.pos = whence == SEEK_END ? INT64_MAX : whence == SEEK_SET ? off : f.pos + off;
    return f.pos;
  }
  int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? f.pos : f.ino->size();
  if (base + off < 0) {
    errno = EINVAL;
    return -1;
  }
  f.pos = base + off;
  return f.pos;
}

static int
do_close(int fd)
{
  mem::Pause pause;
  S()->fds.erase(fd);
  return 0;
}

static void
fill(struct stat* st, const Inode* i, bool dir)
{
  memset(st, 0, sizeof *st);
  st->st_mode = dir ? S_IFDIR | 0755 : S_IFREG | 0644;
  st->st_nlink = 1;
  st->st_size = i ? (off_t)i->size() : 0;
  st->st_blksize = 4096;
  st->st_ino = (ino_t)1;
  if (i) {
    ino_t k = 2;
    for (auto& f : S()->files) {
      if (f.second.get() == i)
        st->st_ino = k;
      k++;
    }
  }
}

static int
do_stat_path(const char* path, struct stat* st)
{
  mem::Pause pause;
  auto* s = S();
  auto v = decide(kStat);
  if (v.err) {
    errno = v.err;
    return -1;
  }
  auto p = norm(path);
  if (s->dirs.count(p)) {
    fill(st, nullptr, true);
    return 0;
  }
  auto it = s->files.find(p);
  if (it == s->files.end()) {
    errno = ENOENT;
    return -1;
  }
  fill(st, it->second.get(), false);
  return 0;
}

static int
do_stat_fd(int fd, struct stat* st)
{
  mem::Pause pause;
  auto* s = S();
  auto it = s->fds.find(fd);
  if (it == s->fds.end()) {
    errno = EBADF;
    return -1;
  }
  auto v = decide(kStat);
  if (v.err) {
    errno = v.err;
    return -1;
  }
  fill(st, it->second.ino.get(), false);
  return 0;
}

static int
do_truncate(Inode& i, int64_t len)
{
  mem::Pause pause;
  auto v = decide(kOther);
  if (v.err) {
    errno = v.err;
    return -1;
  }
  i.data.resize((size_t)len, '\0');
  resized(i);
  return 0;
}

// ------------------------------------------------------------ FILE* streams
static ssize_t
ck_read(void* c, char* b, size_t n)
{
  return do_read((int)(intptr_t)c, b, n);
}
static ssize_t
ck_write(void* c, const char* b, size_t n)
{
  // the C library's stdio reports a failed or interrupted write to its user
  size_t done = 0;
  while (done < n) {
    ssize_t k = do_write((int)(intptr_t)c, b + done, n - done);
    if (k < 0)
      return done ? (ssize_t)done : 0;
    done += (size_t)k;
  }
  return (ssize_t)done;
}
static int
ck_seek(void* c, off64_t* off, int wh)
{
  auto r = do_seek((int)(intptr_t)c, *off, wh);
  if (r < 0)
    return -1;
  *off = r;
  return 0;
}
static int
ck_close(void* c)
{
  mem::Pause pause;
  int fd = (int)(intptr_t)c;
  auto* s = S();
  for (auto it = s->streams.begin(); it != s->streams.end(); ++it)
    if (it->second == fd) {
      s->streams.erase(it);
      break;
    }
  return do_close(fd);
}

static int
mode_flags(const char* m)
{
  int f = 0;
  bool plus = strchr(m, '+');
  switch (m[0]) {
    case 'r':
      f = plus ? O_RDWR : O_RDONLY;
      break;
    case 'w':
      f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
      break;
    default:
      f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  }
  if (strchr(m, 'x'))
    f |= O_EXCL;
  return f;
}

static FILE*
stream_for(int fd, const char* mode)
{
  mem::Pause pause;
  cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
  char m[4] = { mode[0], strchr(mode, '+') ? '+' : '\0', 0, 0 };
  FILE* f = fopencookie((void*)(intptr_t)fd, m, io);
  if (!f) {
    do_close(fd);
    return nullptr;
  }
  S()->streams[f] = fd;
  return f;
}

static FILE*
do_fopen(const char* path, const char* mode)
{
  mem::Pause pause;
  int fd = do_open(path, mode_flags(mode));
  return fd < 0 ? nullptr : stream_for(fd, mode);
}

// one real descriptor can be served by the simulation
static int g_alias = -1, g_alias_to = -1;
static int
tr(int fd)
{
  return fd >= 0 && fd == g_alias ? g_alias_to : fd;
}
FILE*
alias(int fd, const std::string& path)
{
  mem::Pause pause;
  g_alias_to = do_open(path.c_str(), O_CREAT | O_WRONLY | O_TRUNC);
  g_alias = fd;
  return g_alias_to < 0 ? nullptr : stream_for(g_alias_to, "w");
}

template<class F>
static F
next(const char* name, F)
{
  return (F)dlsym(RTLD_NEXT, name);
}

} // namespace sim::fs

using namespace sim::fs;
namespace mem = sim::mem;
#define REAL(f) ([] { static auto p = next(#f, (decltype(&f))nullptr); return p; }())

extern "C" {

FILE*
fopen(const char* p, const char* m)
{
  if (!ours(p) && refused(p, strpbrk(m, "wa+")))
    return nullptr;
  return ours(p) ? do_fopen(p, m) : REAL(fopen)(p, m);
}
FILE*
fopen64(const char* p, const char* m)
{
  if (!ours(p) && refused(p, strpbrk(m, "wa+")))
    return nullptr;
  return ours(p) ? do_fopen(p, m) : REAL(fopen64)(p, m);
}
FILE*
fdopen(int fd, const char* m) noexcept
{
  return fd >= kBase ? stream_for(fd, m) : REAL(fdopen)(fd, m);
}
int
fileno(FILE* f) noexcept
{
  mem::Pause pause;
  auto* s = S();
  auto it = s->streams.find(f);
  return it != s->streams.end() ? it->second : REAL(fileno)(f);
}
int
open(const char* p, int flags, ...)
{
  va_list ap;
  va_start(ap, flags);
  mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  if (!ours(p) && refused(p, flags & (O_WRONLY | O_RDWR | O_CREAT)))
    return -1;
  return ours(p) ? do_open(p, flags) : REAL(open)(p, flags, m);
}
int
open64(const char* p, int flags, ...)
{
  va_list ap;
  va_start(ap, flags);
  mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  if (!ours(p) && refused(p, flags & (O_WRONLY | O_RDWR | O_CREAT)))
    return -1;
  return ours(p) ? do_open(p, flags) : REAL(open64)(p, flags, m);
}
int
openat(int d, const char* p, int flags, ...)
{
  va_list ap;
  va_start(ap, flags);
  mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  if (!ours(p) && refused(p, flags & (O_WRONLY | O_RDWR | O_CREAT)))
    return -1;
  return ours(p) ? do_open(p, flags) : REAL(openat)(d, p, flags, m);
}
int
creat(const char* p, mode_t m)
{
  if (!ours(p) && refused(p, true))
    return -1;
  return ours(p) ? do_open(p, O_CREAT | O_WRONLY | O_TRUNC) : REAL(creat)(p, m);
}
int
close(int fd)
{
  fd = tr(fd);
  return fd >= kBase ? do_close(fd) : REAL(close)(fd);
}
ssize_t
read(int fd, void* b, size_t n)
{
  fd = tr(fd);
  return fd >= kBase ? do_read(fd, b, n) : REAL(read)(fd, b, n);
}
ssize_t
write(int fd, const void* b, size_t n)
{
  fd = tr(fd);
  return fd >= kBase ? do_write(fd, b, n) : REAL(write)(fd, b, n);
}
ssize_t
pread(int fd, void* b, size_t n, off_t at)
{
  fd = tr(fd);
  return fd >= kBase ? do_read(fd, b, n, at) : REAL(pread)(fd, b, n, at);
}
ssize_t
pwrite(int fd, const void* b, size_t n, off_t at)
{
  fd = tr(fd);
  return fd >= kBase ? do_write(fd, b, n, at) : REAL(pwrite)(fd, b, n, at);
}
ssize_t
readv(int fd, const struct iovec* v, int c)
{
  fd = tr(fd);
  if (fd < kBase)
    return REAL(readv)(fd, v, c);
  mem::Pause pause;
  std::string tmp;
  for (int i = 0; i < c; i++)
    tmp.resize(tmp.size() + v[i].iov_len);
  ssize_t k = do_read(fd, &tmp[0], tmp.size());
  size_t off = 0;
  for (int i = 0; i < c && k > 0 && off < (size_t)k; i++) {
    size_t m = std::min(v[i].iov_len, (size_t)k - off);
    memcpy(v[i].iov_base, tmp.data() + off, m);
    off += m;
  }
  return k;
}
ssize_t
writev(int fd, const struct iovec* v, int c)
{
  fd = tr(fd);
  if (fd < kBase)
    return REAL(writev)(fd, v, c);
  mem::Pause pause;
  std::string tmp;
  for (int i = 0; i < c; i++)
    tmp.append((const char*)v[i].iov_base, v[i].iov_len);
  return do_write(fd, tmp.data(), tmp.size());
}
off_t
lseek(int fd, off_t o, int w) noexcept
{
  fd = tr(fd);
  return fd >= kBase ? do_seek(fd, o, w) : REAL(lseek)(fd, o, w);
}
off64_t
lseek64(int fd, off64_t o, int w) noexcept
{
  fd = tr(fd);
  return fd >= kBase ? do_seek(fd, o, w) : REAL(lseek64)(fd, o, w);
}
int
fstat(int fd, struct stat* st) noexcept
{
  fd = tr(fd);
  return fd >= kBase ? do_stat_fd(fd, st) : REAL(fstat)(fd, st);
}
int
fstat64(int fd, struct stat64* st) noexcept
{
  fd = tr(fd);
  return fd >= kBase ? do_stat_fd(fd, (struct stat*)st) : REAL(fstat64)(fd, st);
}
int
stat(const char* p, struct stat* st) noexcept
{
  return ours(p) ? do_stat_path(p, st) : REAL(stat)(p, st);
}
int
stat64(const char* p, struct stat64* st) noexcept
{
  return ours(p) ? do_stat_path(p, (struct stat*)st) : REAL(stat64)(p, st);
}
int
lstat(const char* p, struct stat* st) noexcept
{
  return ours(p) ? do_stat_path(p, st) : REAL(lstat)(p, st);
}
int
lstat64(const char* p, struct stat64* st) noexcept
{
  return ours(p) ? do_stat_path(p, (struct stat*)st) : REAL(lstat64)(p, st);
}
int
fstatat(int d, const char* p, struct stat* st, int fl) noexcept
{
  return ours(p) ? do_stat_path(p, st) : REAL(fstatat)(d, p, st, fl);
}
int
fstatat64(int d, const char* p, struct stat64* st, int fl) noexcept
{
  return ours(p) ? do_stat_path(p, (struct stat*)st) : REAL(fstatat64)(d, p, st, fl);
}
int
access(const char* p, int m) noexcept
{
  mem::Pause pause;
  struct stat st;
  return ours(p) ? do_stat_path(p, &st) : REAL(access)(p, m);
}
int
fsync(int fd)
{
  if (fd < kBase)
    return REAL(fsync)(fd);
  auto v = decide(kSync);
  errno = v.err;
  return v.err ? -1 : 0;
}
int
fdatasync(int fd)
{
  if (fd < kBase)
    return REAL(fdatasync)(fd);
  auto v = decide(kSync);
  errno = v.err;
  return v.err ? -1 : 0;
}
int
ftruncate(int fd, off_t n) noexcept
{
  mem::Pause pause;
  if (fd < kBase)
    return REAL(ftruncate)(fd, n);
  auto it = S()->fds.find(fd);
  if (it == S()->fds.end()) {
    errno = EBADF;
    return -1;
  }
  return do_truncate(*it->second.ino, n);
}
int
ftruncate64(int fd, off64_t n) noexcept
{
  return fd >= kBase ? ftruncate(fd, n) : REAL(ftruncate64)(fd, n);
}
int
truncate(const char* p, off_t n) noexcept
{
  mem::Pause pause;
  if (!ours(p))
    return REAL(truncate)(p, n);
  auto it = S()->files.find(norm(p));
  if (it == S()->files.end()) {
    errno = ENOENT;
    return -1;
  }
  return do_truncate(*it->second, n);
}
int
truncate64(const char* p, off64_t n) noexcept
{
  return ours(p) ? truncate(p, n) : REAL(truncate64)(p, n);
}
int
rename(const char* a, const char* b) noexcept
{
  mem::Pause pause;
  if (!ours(a) || !ours(b)) {
    if (refused(b, true))
      return -1;
    if (ours(a) || ours(b)) {
      errno = EXDEV;
      return -1;
    }
    return REAL(rename)(a, b);
  }
  auto v = decide(kOther);
  if (v.err) {
    errno = v.err;
    return -1;
  }
  auto* s = S();
  auto it = s->files.find(norm(a));
  if (it == s->files.end() || !s->dirs.count(parent(norm(b)))) {
    errno = ENOENT;
    return -1;
  }
  auto ino = it->second;
  s->files.erase(it);
  s->files[norm(b)] = ino;
  return 0;
}
static int
do_unlink(const char* p)
{
  mem::Pause pause;
  auto v = decide(kOther);
  if (v.err) {
    errno = v.err;
    return -1;
  }
  if (!S()->files.erase(norm(p))) {
    errno = ENOENT;
    return -1;
  }
  return 0;
}
int
unlink(const char* p) noexcept
{
  if (!ours(p) && refused(p, true))
    return -1;
  return ours(p) ? do_unlink(p) : REAL(unlink)(p);
}
int
remove(const char* p) noexcept
{
  if (!ours(p) && refused(p, true))
    return -1;
  return ours(p) ? do_unlink(p) : REAL(remove)(p);
}
int
unlinkat(int d, const char* p, int f) noexcept
{
  return ours(p) ? do_unlink(p) : REAL(unlinkat)(d, p, f);
}
int
ioctl(int fd, unsigned long req, ...) noexcept
{
  mem::Pause pause;
  va_list ap;
  va_start(ap, req);
  void* arg = va_arg(ap, void*);
  va_end(ap);
  if (fd < kBase)
    return REAL(ioctl)(fd, req, arg);
  auto it = S()->fds.find(fd);
  if (req == FIONREAD && it != S()->fds.end()) {
    int64_t left = it->second.ino->size() - it->second.pos;
    *(int*)arg = left > 0 ? (int)left : 0;
    return 0;
  }
  errno = ENOTTY;
  return -1;
}
int
poll(struct pollfd* p, nfds_t n, int t)
{
  bool any = false;
  for (nfds_t i = 0; i < n; i++)
    any = any || p[i].fd >= kBase;
  if (!any)
    return REAL(poll)(p, n, t);
  for (nfds_t i = 0; i < n; i++)
    p[i].revents = p[i].events;
  return (int)n;
}
int
fcntl(int fd, int cmd, ...)
{
  mem::Pause pause;
  va_list ap;
  va_start(ap, cmd);
  void* arg = va_arg(ap, void*);
  va_end(ap);
  if (fd < kBase)
    return REAL(fcntl)(fd, cmd, arg);
  auto it = S()->fds.find(fd);
  if (it == S()->fds.end()) {
    errno = EBADF;
    return -1;
  }
  return cmd == F_GETFL ? it->second.flags : 0;
}
int
isatty(int fd) noexcept
{
  fd = tr(fd);
  if (fd < kBase)
    return REAL(isatty)(fd);
  errno = ENOTTY;
  return 0;
}
int
posix_fadvise(int fd, off_t a, off_t b, int c) noexcept
{
  return fd >= kBase ? 0 : REAL(posix_fadvise)(fd, a, b, c);
}
}
