// Shared by the checks: archives in memory, streams that deliver in pieces and
// fail, value generators and exact reference arithmetic.
#pragma once
#include "../sim/core.hpp"
#include "../sim/fs.hpp"
#include "../sim/mem.hpp"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <cmath>
#include <limits>
#include <sstream>
#include <streambuf>
#include <string>
#include <vector>

namespace chk {
using sim::bitsd;
using sim::dbits;
using sim::Plan;
using sim::Rng;
using sim::Run;
using sim::Step;
using quad = __float128;

constexpr double kU = 0x1p-53;

inline quad
qabs(quad x)
{
  return x < 0 ? -x : x;
}

/// A source of bytes that hands them out in pieces and stops, with an end of
/// file or with an error, at a chosen byte.
class PieceBuf : public std::streambuf
{
public:
  PieceBuf(std::string s, uint64_t seed, int maxpiece, int64_t stop = -1, bool error = false)
    : s_(std::move(s))
    , rng_(seed)
    , max_(maxpiece)
    , stop_(stop)
    , error_(error)
  {
    if (stop_ >= 0 && (size_t)stop_ < s_.size()) {
      s_.resize((size_t)stop_);
      cut_ = true;
    }
    setg(nullptr, nullptr, nullptr);
  }
  /// bytes consumed by the reader
  size_t consumed() const { return at_ - (size_t)(egptr() - gptr()); }
  bool ended() const { return ended_; }

protected:
  int_type underflow() override
  {
    if (gptr() < egptr())
      return traits_type::to_int_type(*gptr());
    if (at_ >= s_.size()) {
      ended_ = true;
      if (cut_ && error_)
        throw std::ios_base::failure("injected read error");
      return traits_type::eof();
    }
    size_t n = 1 + rng_.below((uint64_t)(max_ < 1 ? 1 : max_));
    n = std::min(n, s_.size() - at_);
    buf_.assign(s_, at_, n);
    at_ += n;
    setg(&buf_[0], &buf_[0], &buf_[0] + n);
    return traits_type::to_int_type(*gptr());
  }

private:
  std::string s_, buf_;
  Rng rng_;
  int max_;
  int64_t stop_;
  bool error_, cut_ = false, ended_ = false;
  size_t at_ = 0;
};

/// A sink that accepts only so many bytes.
class LimitBuf : public std::streambuf
{
public:
  explicit LimitBuf(int64_t room, bool throws = false)
    : room_(room)
    , throws_(throws)
  {
  }
  std::string data;
  bool failed = false;

protected:
  int_type overflow(int_type c) override
  {
    if (traits_type::eq_int_type(c, traits_type::eof()))
      return traits_type::not_eof(c);
    char ch = traits_type::to_char_type(c);
    return xsputn(&ch, 1) == 1 ? c : traits_type::eof();
  }
  std::streamsize xsputn(const char* p, std::streamsize n) override
  {
    std::streamsize k = n;
    if (room_ >= 0 && (int64_t)data.size() + n > room_)
      k = room_ - (int64_t)data.size();
    data.append(p, (size_t)k);
    if (k < n) {
      failed = true;
      if (throws_)
        throw std::ios_base::failure("injected write error");
    }
    return k;
  }
  int sync() override { return failed ? -1 : 0; }

private:
  int64_t room_;
  bool throws_;
};

/// Serialise into memory. fmt: 0 text, 1 binary
template<class T>
std::string
save(const T& x, int fmt)
{
  std::ostringstream os;
  os.imbue(std::locale::classic());
  if (fmt & 1) {
    boost::archive::binary_oarchive ar(os);
    ar << x;
  } else {
    boost::archive::text_oarchive ar(os);
    ar << x;
  }
  return os.str();
}
/// Throws whatever the restore throws.
template<class T>
void
load(T& x, const std::string& data, int fmt)
{
  std::istringstream is(data);
  is.imbue(std::locale::classic());
  if (fmt & 1) {
    boost::archive::binary_iarchive ar(is);
    ar >> x;
  } else {
    boost::archive::text_iarchive ar(is);
    ar >> x;
  }
}

/// Values of many kinds; all finite, none whose sums overflow.
inline double
value(Rng& g, int kind)
{
  switch (kind % 8) {
    case 0:
      return (double)g.range(-20, 20);
    case 1:
      return g.unit() * 2 - 1;
    case 2:
      return 1e9 + g.unit();
    case 3:
      return std::ldexp(g.unit() - 0.5, (int)g.range(-60, 60));
    case 4:
      return g.chance(0.5) ? 0.1 : 1.0 / 3.0;
    case 5:
      return g.chance(0.1) ? (g.chance(0.5) ? 1e16 : -1e16) : 1.0;
    case 6:
      return g.unit();
    default:
      return g.chance(0.3) ? 0.0 : (g.chance(0.5) ? -1.0 : 1.0) * std::ldexp(1.0, (int)g.range(-30, 30));
  }
}

inline bool
same(double a, double b)
{
  return (std::isnan(a) && std::isnan(b)) || dbits(a) == dbits(b);
}

/// |a-b| within tol, NaN never
inline bool
within(double a, quad b, quad tol)
{
  return !std::isnan(a) && qabs((quad)a - b) <= tol;
}

inline void
warm_up()
{
  // first use of locales and of the formatted streams allocates once
  std::ostringstream os;
  os << 1.5 << 7 << "x" << std::endl;
  std::istringstream is("1 2.5 x");
  int i;
  double d;
  is >> i >> d;
}

/// Words of a text archive
inline std::vector<std::string>
words(const std::string& t)
{
  std::vector<std::string> v;
  for (size_t i = 0; i < t.size();) {
    if (isspace((unsigned char)t[i])) {
      i++;
      continue;
    }
    size_t e = i;
    while (e < t.size() && !isspace((unsigned char)t[e]))
      e++;
    v.push_back(t.substr(i, e - i));
    i = e;
  }
  return v;
}

/// A text archive with some of its words replaced; n: how many were
inline std::string
reworded(const std::string& t, const std::vector<std::pair<std::string, std::string>>& swap, size_t& n)
{
  std::string out;
  n = 0;
  for (size_t i = 0; i < t.size();) {
    if (isspace((unsigned char)t[i])) {
      out += t[i++];
      continue;
    }
    size_t e = i;
    while (e < t.size() && !isspace((unsigned char)t[e]))
      e++;
    auto w = t.substr(i, e - i);
    for (auto& q : swap)
      if (w == q.first) {
        w = q.second;
        n++;
        break;
      }
    out += w;
    i = e;
  }
  return out;
}
} // namespace chk
