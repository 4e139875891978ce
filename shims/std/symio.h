// In-memory replacement for the standard stream and filesystem classes.  Used
// by the solver run (which has no bitcode for libstdc++'s stream sources) and,
// unchanged, by the native replay.  Writes are buffered until flush / close /
// destruction / 8 KiB like a real ofstream; what is still buffered at a crash
// is lost.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>
extern "C" bool sym_is_symbolic(uint64_t v);
namespace symio {
using streamsize = std::ptrdiff_t;
using streamoff = long;
class pos_type {
 public:
  pos_type(streamoff o = 0) : o_(o) {}
  operator streamoff() const { return o_; }
 private:
  streamoff o_;
};
struct File { std::string data; bool dir = false; long mtime = 0; };
// process-wide in-memory file system
struct Fs {
  std::map<std::string, std::shared_ptr<File>> files;
  std::function<bool(const char*, const std::string&)> hook;  // before every durable change; false: it does not reach the disk
  bool dead = false;                                          // after a simulated crash: nothing reaches the disk
  long tmp = 0;
  long clock = 0;                                             // modification times: one tick per change
  static Fs& I() { static Fs* f = new Fs(); return *f; }
  static std::string norm(const std::string& p) {
    std::vector<std::string> parts;
    bool abs = !p.empty() && p[0] == '/';
    size_t i = 0;
    while (i < p.size()) {
      size_t j = p.find('/', i);
      if (j == std::string::npos) j = p.size();
      std::string c = p.substr(i, j - i);
      if (c == "..") { if (!parts.empty()) parts.pop_back(); }
      else if (!c.empty() && c != ".") parts.push_back(c);
      i = j + 1;
    }
    std::string r = abs ? "/" : "/cwd/";
    for (size_t k = 0; k < parts.size(); k++) { if (k) r += '/'; r += parts[k]; }
    while (r.size() > 1 && r.back() == '/') r.pop_back();
    return r;
  }
  bool change(const char* op, const std::string& p) {
    if (dead) return false;
    if (hook && !hook(op, p)) return false;
    if (dead) return false;
    auto it = files.find(p);
    if (it != files.end()) it->second->mtime = ++clock;
    return true;
  }
  std::shared_ptr<File> find(const std::string& p) {
    auto it = files.find(norm(p));
    return it == files.end() ? nullptr : it->second;
  }
  bool isDir(const std::string& n) {
    if (n == "/" || n == "/tmp" || n == "/cwd") return true;
    auto it = files.find(n);
    return it != files.end() && it->second->dir;
  }
  static std::string parent(const std::string& n) {
    size_t k = n.rfind('/');
    return k == 0 || k == std::string::npos ? std::string("/") : n.substr(0, k);
  }
  std::shared_ptr<File> create(const std::string& p) {
    std::string n = norm(p);
    if (n == "/dev/null") return std::make_shared<File>();
    if (isDir(n)) return nullptr;
    auto it = files.find(n);
    if (it != files.end()) return it->second;
    if (!isDir(parent(n))) return nullptr;
    if (!change("create", n)) return std::make_shared<File>();
    auto f = std::make_shared<File>();
    f->mtime = ++clock;
    return files[n] = f;
  }
};
class ios_base {
 public:
  enum _Om { app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32 };
  typedef int openmode;
  enum _Is { goodbit = 0, badbit = 1, eofbit = 2, failbit = 4 };
  typedef int iostate;
  enum seekdir { beg = 0, cur = 1, end = 2 };
  typedef int fmtflags;
  enum { dec = 1, hex = 2, oct = 4, boolalpha = 8, fixed = 16, scientific = 32, left = 64, right = 128, internal = 256, showbase = 512, uppercase = 1024, showpoint = 2048, skipws = 4096, basefield = 7, floatfield = 48, adjustfield = 448 };
  struct failure : std::runtime_error { using std::runtime_error::runtime_error; };
  fmtflags flags() const { return fl_; }
  fmtflags flags(fmtflags f) { int o = fl_; fl_ = f; return o; }
  fmtflags setf(fmtflags f) { int o = fl_; fl_ |= f; return o; }
  fmtflags setf(fmtflags f, fmtflags m) { int o = fl_; fl_ = (fl_ & ~m) | f; return o; }
  void unsetf(fmtflags m) { fl_ &= ~m; }
  streamsize width() const { return w_; }
  streamsize width(streamsize w) { auto o = w_; w_ = w; return o; }
  streamsize precision() const { return 6; }
  streamsize precision(streamsize) { return 6; }
  template <class L> int imbue(const L&) { return 0; }
  static bool sync_with_stdio(bool = true) { return true; }
  virtual ~ios_base() {}
 protected:
  int fl_ = dec | skipws;
  streamsize w_ = 0;
};
class streambuf;
class ios : public ios_base {
 public:
  bool good() const { return st_ == 0; }
  bool eof() const { return (st_ & eofbit) != 0; }
  bool fail() const { return (st_ & (failbit | badbit)) != 0; }
  bool bad() const { return (st_ & badbit) != 0; }
  explicit operator bool() const { return !fail(); }
  bool operator!() const { return fail(); }
  int rdstate() const { return st_; }
  void clear(int s = 0) { st_ = s; if (st_ & ex_) throw failure("stream failure"); }
  void setstate(int s) { clear(st_ | s); }
  void exceptions(int e) { ex_ = e; }
  int exceptions() const { return ex_; }
  char fill() const { return fillc_; }
  char fill(char c) { char o = fillc_; fillc_ = c; return o; }
  // shared storage of the stream
  struct Buf {
    std::shared_ptr<File> f;
    std::string pend;
    std::string path;
    bool app = false, isFile = false;
    size_t r = 0, w = 0;
    bool sync() {
      if (pend.empty()) return true;
      if (isFile && !Fs::I().change("write", path)) { pend.clear(); return true; }
      if (app) { f->data += pend; }
      else {
        if (w == f->data.size()) f->data += pend;
        else {
          if (f->data.size() < w + pend.size()) f->data.resize(w + pend.size());
          for (size_t i = 0; i < pend.size(); i++) f->data[w + i] = pend[i];
        }
        w += pend.size();
      }
      pend.clear();
      return true;
    }
    ~Buf() { try { sync(); } catch (...) { } }
  };
  Buf* buf() const { return b_.get(); }
  Buf* rdbuf() const { return b_.get(); }
  Buf* rdbuf(Buf*) { return b_.get(); }
 protected:
  int st_ = 0, ex_ = 0;
  char fillc_ = ' ';
  std::shared_ptr<Buf> b_;
};
class ostream : virtual public ios {
 public:
  ostream() {}
  ostream(std::nullptr_t) {}
  ostream& write(const char* p, streamsize n) {
    if (fail()) return *this;
    if (!b_ || !b_->f) { setstate(badbit); return *this; }
    if (n <= 0) return *this;
    if (b_->isFile) {
      b_->pend.append(p, (size_t)n);
      if (b_->pend.size() >= 8192) b_->sync();
    } else {
      std::string& d = b_->f->data;
      if (b_->w == d.size()) d.append(p, (size_t)n);
      else { if (d.size() < b_->w + n) d.resize(b_->w + n); std::memcpy(&d[b_->w], p, (size_t)n); }
      b_->w += (size_t)n;
    }
    return *this;
  }
  ostream& put(char c) { return write(&c, 1); }
  ostream& flush() { if (b_ && b_->f) b_->sync(); return *this; }
  pos_type tellp() { if (fail() || !b_ || !b_->f) return -1; b_->sync(); return b_->app ? (streamoff)b_->f->data.size() : (streamoff)b_->w; }
  ostream& seekp(pos_type p) { if (b_ && b_->f) { b_->sync(); b_->w = (size_t)(streamoff)p; } return *this; }
  ostream& seekp(streamoff o, seekdir d) {
    if (b_ && b_->f) { b_->sync(); b_->w = (size_t)(o + (d == beg ? 0 : d == cur ? (streamoff)b_->w : (streamoff)b_->f->data.size())); }
    return *this;
  }
  void text(std::string_view s) {
    streamsize w = width(0);
    std::string p;
    if (w > (streamsize)s.size()) p.assign((size_t)w - s.size(), fillc_);
    bool l = (fl_ & adjustfield) == left;
    if (!l && !p.empty()) write(p.data(), (streamsize)p.size());
    write(s.data(), (streamsize)s.size());
    if (l && !p.empty()) write(p.data(), (streamsize)p.size());
  }
  void num(unsigned long long v, bool neg) {
    if (sym_is_symbolic(v)) { text("<sym>"); return; }
    unsigned b = fl_ & hex ? 16 : fl_ & oct ? 8 : 10;
    char t[70];
    int p = 70;
    do { int d = (int)(v % b); t[--p] = (char)(d < 10 ? '0' + d : (fl_ & uppercase ? 'A' : 'a') + d - 10); v /= b; } while (v);
    if (neg) t[--p] = '-';
    text(std::string_view(t + p, (size_t)(70 - p)));
  }
  template <class T> void snum(T v) { if ((fl_ & basefield) == dec && v < 0) num(0ull - (unsigned long long)v, true); else num((unsigned long long)v, false); }
  ostream& operator<<(ostream& (*f)(ostream&)) { return f(*this); }
  ostream& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
  ostream& operator<<(bool v) { if (fl_ & boolalpha) text(v ? "true" : "false"); else num(v, false); return *this; }
  ostream& operator<<(short v) { snum(v); return *this; }
  ostream& operator<<(unsigned short v) { num(v, false); return *this; }
  ostream& operator<<(int v) { snum(v); return *this; }
  ostream& operator<<(unsigned v) { num(v, false); return *this; }
  ostream& operator<<(long v) { snum(v); return *this; }
  ostream& operator<<(unsigned long v) { num(v, false); return *this; }
  ostream& operator<<(long long v) { snum(v); return *this; }
  ostream& operator<<(unsigned long long v) { num(v, false); return *this; }
  ostream& operator<<(double) { text("<float>"); return *this; }
  ostream& operator<<(float) { text("<float>"); return *this; }
  ostream& operator<<(const void*) { text("<ptr>"); return *this; }
  ostream& operator<<(ios::Buf* b) { if (b && b->f) text(std::string_view(b->f->data).substr(b->r)); return *this; }
};
inline ostream& operator<<(ostream& o, char c) { o.text(std::string_view(&c, 1)); return o; }
inline ostream& operator<<(ostream& o, signed char c) { char d = (char)c; o.text(std::string_view(&d, 1)); return o; }
inline ostream& operator<<(ostream& o, unsigned char c) { char d = (char)c; o.text(std::string_view(&d, 1)); return o; }
inline ostream& operator<<(ostream& o, const char* s) { o.text(std::string_view(s)); return o; }
inline ostream& operator<<(ostream& o, const std::string& s) { o.text(s); return o; }
inline ostream& operator<<(ostream& o, std::string_view s) { o.text(s); return o; }
template <class T> inline ostream& operator<<(ostream& o, const std::shared_ptr<T>&) { o.text("<ptr>"); return o; }

class istream : virtual public ios {
 public:
  istream() {}
  istream& read(char* p, streamsize n) {
    gc_ = 0;
    if (!good()) { setstate(failbit); return *this; }
    if (!src()) { setstate(badbit); return *this; }
    const std::string& d = b_->f->data;
    size_t av = b_->r < d.size() ? d.size() - b_->r : 0;
    size_t k = (size_t)n < av ? (size_t)n : av;
    if (k) std::memcpy(p, d.data() + b_->r, k);
    b_->r += k;
    gc_ = (streamsize)k;
    if (k < (size_t)n) setstate(eofbit | failbit);
    return *this;
  }
  streamsize gcount() const { return gc_; }
  int peek() { if (!good()) return -1; if (!src() || b_->r >= b_->f->data.size()) { setstate(eofbit); return -1; } return (unsigned char)b_->f->data[b_->r]; }
  int get() { gc_ = 0; if (!good()) { setstate(failbit); return -1; } if (!src() || b_->r >= b_->f->data.size()) { setstate(eofbit | failbit); return -1; } gc_ = 1; return (unsigned char)b_->f->data[b_->r++]; }
  istream& get(char& c) { int k = get(); if (k >= 0 || gc_) c = (char)k; return *this; }
  istream& unget() { st_ &= ~eofbit; if (b_ && b_->r) b_->r--; return *this; }
  istream& ignore(streamsize n = 1, int delim = -1) {
    for (streamsize i = 0; i < n; i++) { if (!src() || b_->r >= b_->f->data.size()) { setstate(eofbit); break; } if ((unsigned char)b_->f->data[b_->r++] == (unsigned)delim && delim >= 0) break; }
    return *this;
  }
  istream& seekg(pos_type p) { clear(rdstate() & ~eofbit); if (!fail() && src()) { streamoff o = p; if (o < 0) setstate(failbit); else b_->r = (size_t)o; } return *this; }
  istream& seekg(streamoff o, seekdir d) {
    clear(rdstate() & ~eofbit);
    if (!fail() && src()) { streamoff b = d == beg ? 0 : d == cur ? (streamoff)b_->r : (streamoff)b_->f->data.size(); if (b + o < 0) setstate(failbit); else b_->r = (size_t)(b + o); }
    return *this;
  }
  pos_type tellg() { if (fail() || !src()) return -1; return (streamoff)b_->r; }
  istream& line(std::string& s, char delim) {
    s.clear();
    if (!good()) { setstate(failbit); return *this; }
    if (!src()) { setstate(badbit); return *this; }
    const std::string& d = b_->f->data;
    size_t n = 0;
    while (true) {
      if (b_->r >= d.size()) { setstate(n ? eofbit : (eofbit | failbit)); return *this; }
      char c = d[b_->r++];
      n++;
      if (c == delim) return *this;
      s += c;
    }
  }
  bool src() { if (b_ && b_->f) { if (!b_->pend.empty()) b_->sync(); return true; } return false; }
  void skip() { while (src() && b_->r < b_->f->data.size()) { char c = b_->f->data[b_->r]; if (c == ' ' || (c >= 9 && c <= 13)) b_->r++; else break; } }
  template <class T> istream& integer(T& v) {
    if (!good()) { setstate(failbit); return *this; }
    skip();
    unsigned long long x = 0;
    bool neg = false, any = false;
    if (src() && b_->r < b_->f->data.size() && (b_->f->data[b_->r] == '-' || b_->f->data[b_->r] == '+')) { neg = b_->f->data[b_->r] == '-'; b_->r++; }
    unsigned base = fl_ & hex ? 16 : 10;
    while (src() && b_->r < b_->f->data.size()) {
      char c = b_->f->data[b_->r];
      unsigned dg = c >= '0' && c <= '9' ? (unsigned)(c - '0') : base == 16 && c >= 'a' && c <= 'f' ? (unsigned)(c - 'a' + 10) : base == 16 && c >= 'A' && c <= 'F' ? (unsigned)(c - 'A' + 10) : 99;
      if (dg >= base) break;
      x = x * base + dg;
      any = true;
      b_->r++;
    }
    if (!src() || b_->r >= b_->f->data.size()) st_ |= eofbit;
    if (!any) { v = 0; setstate(failbit); return *this; }
    v = (T)(neg ? 0 - x : x);
    return *this;
  }
  istream& operator>>(short& v) { return integer(v); }
  istream& operator>>(unsigned short& v) { return integer(v); }
  istream& operator>>(int& v) { return integer(v); }
  istream& operator>>(unsigned& v) { return integer(v); }
  istream& operator>>(long& v) { return integer(v); }
  istream& operator>>(unsigned long& v) { return integer(v); }
  istream& operator>>(long long& v) { return integer(v); }
  istream& operator>>(unsigned long long& v) { return integer(v); }
  istream& operator>>(double& v) { long x = 0; integer(x); v = (double)x; return *this; }
  istream& operator>>(bool& v) { int x = 0; integer(x); v = x != 0; return *this; }
  istream& operator>>(char& c) { skip(); return get(c); }
  istream& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
  istream& operator>>(istream& (*f)(istream&)) { return f(*this); }
 protected:
  streamsize gc_ = 0;
};
inline istream& operator>>(istream& i, std::string& s) {
  s.clear();
  if (!i.good()) { i.setstate(ios_base::failbit); return i; }
  i.skip();
  while (i.src() && i.buf()->r < i.buf()->f->data.size()) { char c = i.buf()->f->data[i.buf()->r]; if (c == ' ' || (c >= 9 && c <= 13)) break; s += c; i.buf()->r++; }
  if (!i.src() || i.buf()->r >= i.buf()->f->data.size()) i.setstate(s.empty() ? ios_base::eofbit | ios_base::failbit : ios_base::eofbit);
  return i;
}
class iostream : public istream, public ostream {};

// file streams
struct PathArg {
  std::string s;
  PathArg(const char* p) : s(p) {}
  PathArg(const std::string& p) : s(p) {}
  template <class P, class = decltype(std::declval<const P&>().native())> PathArg(const P& p) : s(p.native()) {}
};
template <class Base, int Dflt> class filestream : public Base {
 public:
  filestream() {}
  template <class P, class = decltype(PathArg(std::declval<const P&>()))> explicit filestream(const P& p, int m = Dflt) { open(p, m); }
  filestream(filestream&& o) { *this = std::move(o); }
  filestream& operator=(filestream&& o) {
    close();
    this->b_ = std::move(o.b_);
    o.b_ = nullptr;
    this->st_ = o.st_;
    this->ex_ = o.ex_;
    this->fl_ = o.fl_;
    return *this;
  }
  ~filestream() { if (this->b_) { this->b_->sync(); this->b_ = nullptr; } }
  void open(const PathArg& p, int m = Dflt) {
    if (this->b_) { this->setstate(ios_base::failbit); return; }
    if (Dflt == ios_base::in) m |= ios_base::in;
    if (Dflt == ios_base::out) m |= ios_base::out;
    if (m & ios_base::app) m |= ios_base::out;
    auto b = std::make_shared<ios::Buf>();
    Fs& fs = Fs::I();
    std::string n = Fs::norm(p.s);
    auto f = fs.find(n);
    if (f && f->dir) f = nullptr;
    if (m & ios_base::out) {
      bool tr = (m & ios_base::trunc) || !(m & (ios_base::in | ios_base::app));
      if (!f && (m & (ios_base::trunc | ios_base::app) || !(m & ios_base::in))) f = fs.create(n);
      else if (f && tr && !f->data.empty() && fs.change("truncate", n)) f->data.clear();
    }
    if (!f) { this->setstate(ios_base::failbit); return; }
    b->f = f;
    b->path = n;
    b->isFile = true;
    b->app = (m & ios_base::app) != 0;
    if (m & ios_base::ate) { b->w = f->data.size(); if (m & ios_base::in) b->r = f->data.size(); }
    this->b_ = b;
    this->clear();
  }
  bool is_open() const { return (bool)this->b_; }
  void close() {
    if (!this->b_) { return; }
    this->b_->sync();
    this->b_ = nullptr;
  }
};
typedef filestream<ostream, ios_base::out> ofstream;
typedef filestream<istream, ios_base::in> ifstream;
typedef filestream<iostream, ios_base::in | ios_base::out> fstream;
// string streams
template <class Base> class strstream : public Base {
 public:
  strstream() { init(""); }
  explicit strstream(const std::string& s, int m = 0) { init(s); if (m & (ios_base::ate | ios_base::app)) this->b_->w = s.size(); }
  explicit strstream(int) { init(""); }
  strstream(strstream&& o) { this->b_ = std::move(o.b_); this->st_ = o.st_; o.init(""); }
  strstream& operator=(strstream&& o) { this->b_ = std::move(o.b_); this->st_ = o.st_; o.init(""); return *this; }
  std::string str() const { return this->b_->f->data; }
  std::string_view view() const { return this->b_->f->data; }
  void str(const std::string& s) { init(s); }
 private:
  void init(const std::string& s) { this->b_ = std::make_shared<ios::Buf>(); this->b_->f = std::make_shared<File>(); this->b_->f->data = s; }
};
typedef strstream<ostream> ostringstream;
typedef strstream<istream> istringstream;
typedef strstream<iostream> stringstream;
// what `std::ostringstream() << x` yields has .str(): keep the dynamic type
template <class B, class T> inline strstream<B>&& operator<<(strstream<B>&& s, const T& v) { static_cast<ostream&>(s) << v; return std::move(s); }
class null_ostream : public ostream { public: null_ostream() { this->b_ = std::make_shared<ios::Buf>(); this->b_->f = std::make_shared<File>(); } };
inline ostream& nullout() { static ostream* o = new null_ostream(); return *o; }
}  // namespace symio
