// An in-memory file system under /simfs/, reached through interposed C library
// calls: everything the code under test does to a path below /simfs/ (through
// iostreams, stdio or POSIX calls) happens here, where faults are decided by
// the plan. Other paths go to the real system.
#pragma once
#include "core.hpp"
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace sim::fs {

enum Op
{
  kOpen,
  kRead,
  kWrite,
  kSeek,
  kStat,
  kSync,
  kOther,
  kOps
};

enum What
{
  kEINTR,      // the call is interrupted
  kShort,      // the call transfers only arg bytes (at least one)
  kEIO,        // input/output error
  kENOSPC,     // disk full
  kOpenErr,    // open fails: arg selects EMFILE, EACCES, ENFILE, EIO, ENOENT, EINTR
  kTruncate,   // before the call, another process truncates file arg2 to arg bytes
  kExtend,     // before the call, another process appends arg bytes to file arg2
  kOverwrite,  // before the call, another process changes byte arg of file arg2
  kCrash,      // the machine stops: this call and all later ones have no effect
  kWhats
};

struct Fault
{
  int op = kWrite;
  int64_t nth = 1;    // first affected call of that kind since arm()
  int64_t count = 1;  // number of consecutive affected calls
  int what = kEINTR;
  int64_t arg = 0;
  int64_t arg2 = 0;
};

/// The bytes handed to readers, by offset
class Delivered
{
public:
  void clear()
  {
    v_.clear();
    n_ = 0;
  }
  void set(uint64_t at, unsigned char c)
  {
    if (at >= v_.size())
      v_.resize(at + 1, -1);
    n_ += v_[at] < 0;
    v_[at] = c;
  }
  /// number of offsets delivered
  uint64_t size() const { return n_; }
  /// one past the last of them
  uint64_t end() const { return v_.size(); }
  bool operator!=(const Delivered& o) const { return v_ != o.v_; }

private:
  std::vector<short> v_;
  uint64_t n_ = 0;
};

struct Inode
{
  std::string data;
  int64_t tail = 0; // so many zeros follow (for reading only, not recorded)
  int64_t size() const { return (int64_t)data.size() + tail; }
  std::vector<uint64_t> sizes; // sizes it had while watched
  Delivered delivered;
};

/// Forget all files, faults and counters.
void
reset(Run* r);
/// Install faults; call counters restart.
void
arm(const std::vector<Fault>& f);
void
disarm();
/// Bytes the disk can hold in total (-1: unlimited)
void
capacity(int64_t bytes);
/// Files (as seen by another process: what has reached the system)
bool
exists(const std::string& path);
std::string
get(const std::string& path);
void
put(const std::string& path, const std::string& data);
/// Let that many zeros follow the contents of a file (never stored)
void
tail(const std::string& path, int64_t zeros);
void
erase(const std::string& path);
void
mkdir(const std::string& path);
std::vector<std::string>
list();
/// Let descriptor fd of this process lead to a simulated file, from now on;
/// returns a stream on it.
FILE*
alias(int fd, const std::string& path);
/// Number of descriptors still open
size_t
open_files();
/// While on, opening a file of the real system for writing fails; tells which
/// was asked for last ("": none).
void
confine(bool on);
std::string
outside();
/// Numbers used by the concurrent-modification faults
void
name(int64_t idx, const std::string& path);
/// Start recording what is delivered to readers, per file
void
watch();
std::shared_ptr<Inode>
inode(const std::string& path);
/// Faults fired since arm(), by harm: benign (EINTR, short), errors, others
struct Fired
{
  uint64_t benign = 0, errors = 0, changes = 0, crash = 0, nospace = 0;
};
Fired
fired();
uint64_t
calls(Op op);

/// Decode a fault from plan arguments (6 numbers) and encode it
inline Fault
decode(const std::vector<int64_t>& a, size_t i)
{
  auto g = [&](size_t k) { return i + k < a.size() ? a[i + k] : 0; };
  Fault f;
  f.op = (int)((uint64_t)g(0) % kOps);
  f.nth = g(1);
  f.count = g(2);
  f.what = (int)((uint64_t)g(3) % kWhats);
  f.arg = g(4);
  f.arg2 = g(5);
  return f;
}
inline std::vector<int64_t>
encode(const Fault& f)
{
  return { f.op, f.nth, f.count, f.what, f.arg, f.arg2 };
}

} // namespace sim::fs
