// protobuf stand-in: fixed-width wire format (8 bytes per number, length
// prefixed strings), a leading 'P' and trailing 'E'; the empty string decodes
// to the default message as in proto3.
#pragma once
#include <cstdint>
#include <cstring>
#include <map>
#include <ostream>
#include <istream>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>
extern "C" bool sym_is_symbolic(uint64_t v);
namespace google { namespace protobuf {
template <class K, class V> class Map : public std::map<K, V> {
 public:
  using std::map<K, V>::map;
  bool contains(const K& k) const { return this->count(k) > 0; }
};
template <class T> class RepeatedBase {
 public:
  using value_type = T; using iterator = typename std::vector<T>::iterator; using const_iterator = typename std::vector<T>::const_iterator;
  using size_type = int; using reference = T&; using const_reference = const T&;
  RepeatedBase() {}
  template <class I> RepeatedBase(I b, I e) : v_(b, e) {}
  int size() const { return (int)v_.size(); }
  bool empty() const { return v_.empty(); }
  void Clear() { v_.clear(); }
  void Reserve(int n) { v_.reserve((size_t)n); }
  void Resize(int n, const T& x) { v_.resize((size_t)n, x); }
  const T& Get(int i) const { return v_.at((size_t)i); }
  T* Mutable(int i) { return &v_.at((size_t)i); }
  void RemoveLast() { v_.pop_back(); }
  const T& operator[](int i) const { return v_.at((size_t)i); }
  T& operator[](int i) { return v_.at((size_t)i); }
  const T& at(int i) const { return v_.at((size_t)i); }
  T& at(int i) { return v_.at((size_t)i); }
  auto begin() { return v_.begin(); }
  auto end() { return v_.end(); }
  auto begin() const { return v_.begin(); }
  auto end() const { return v_.end(); }
  template <class I> void Assign(I b, I e) { v_.assign(b, e); }
  template <class I> void Add(I b, I e) { v_.insert(v_.end(), b, e); }
  void MergeFrom(const RepeatedBase& o) { v_.insert(v_.end(), o.v_.begin(), o.v_.end()); }
  void CopyFrom(const RepeatedBase& o) { v_ = o.v_; }
  void Swap(RepeatedBase* o) { v_.swap(o->v_); }
  std::vector<T> v_;
};
template <class T> class RepeatedField : public RepeatedBase<T> {
 public:
  using RepeatedBase<T>::RepeatedBase; using RepeatedBase<T>::Add;
  void Add(T x) { this->v_.push_back(x); }
  void Set(int i, T x) { this->v_.at((size_t)i) = x; }
  const T* data() const { return this->v_.data(); }
  T* mutable_data() { return this->v_.data(); }
};
template <> class RepeatedField<bool> : public RepeatedBase<char> {
 public:
  void Add(bool x) { v_.push_back(x); }
  void Set(int i, bool x) { v_.at((size_t)i) = x; }
};
template <class T> class RepeatedPtrField : public RepeatedBase<T> {
 public:
  using RepeatedBase<T>::RepeatedBase; using RepeatedBase<T>::Add;
  T* Add() { this->v_.emplace_back(); return &this->v_.back(); }
  void Add(T&& x) { this->v_.push_back(std::move(x)); }
};
class Message;
}}
namespace pbl {
struct In { const char* p; size_t n, i = 0; };
inline void W64(std::string& o, uint64_t v) { char b[8]; memcpy(b, &v, 8); o.append(b, 8); }
inline bool R64(In& i, uint64_t& v) { if (i.n - i.i < 8) return false; memcpy(&v, i.p + i.i, 8); i.i += 8; return true; }
template <class T, std::enable_if_t<std::is_integral_v<T> || std::is_enum_v<T>, int> = 0> inline void W(std::string& o, T v) { if constexpr (std::is_same_v<T, bool>) o.push_back((char)v); else W64(o, (uint64_t)v); }
template <class T, std::enable_if_t<std::is_integral_v<T> || std::is_enum_v<T>, int> = 0> inline bool R(In& i, T& v) {
  if constexpr (std::is_same_v<T, bool>) { if (i.i >= i.n) return false; v = (i.p[i.i++] & 1) != 0; return true; }
  else { uint64_t x; if (!R64(i, x)) return false; v = (T)x; return true; }
}
template <class T, std::enable_if_t<std::is_integral_v<T> || std::is_enum_v<T>, int> = 0> inline bool D(T v) { return !sym_is_symbolic((uint64_t)v) && v == T(); }
inline void W(std::string& o, double v) { uint64_t x; memcpy(&x, &v, 8); W64(o, x); }
inline bool R(In& i, double& v) { uint64_t x; if (!R64(i, x)) return false; memcpy(&v, &x, 8); return true; }
inline bool D(double v) { return v == 0; }
inline void W(std::string& o, const std::string& s) { W64(o, s.size()); o += s; }
inline bool R(In& i, std::string& s) { uint64_t n; if (!R64(i, n) || n > i.n - i.i) return false; s.assign(i.p + i.i, n); i.i += n; return true; }
inline bool D(const std::string& s) { return s.empty(); }
template <class T> inline void W(std::string& o, const ::google::protobuf::RepeatedBase<T>& r);
template <class T> inline bool R(In& i, ::google::protobuf::RepeatedBase<T>& r);
template <class K, class V> inline void W(std::string& o, const ::google::protobuf::Map<K, V>& r);
template <class K, class V> inline bool R(In& i, ::google::protobuf::Map<K, V>& r);
template <class T> inline auto W(std::string& o, const T& m) -> decltype(m.PblWrite(o)) { m.PblWrite(o); }
template <class T> inline auto R(In& i, T& m) -> decltype(m.PblRead(i)) { return m.PblRead(i); }
template <class T> inline auto D(const T& m) -> decltype(m.PblDefault()) { return m.PblDefault(); }
template <class T> inline void W(std::string& o, const ::google::protobuf::RepeatedBase<T>& r) { W64(o, r.v_.size()); for (const auto& x : r.v_) W(o, x); }
template <class T> inline bool R(In& i, ::google::protobuf::RepeatedBase<T>& r) {
  uint64_t n;
  if (!R64(i, n) || n > i.n - i.i) return false;
  r.v_.clear();
  for (uint64_t k = 0; k < n; k++) { r.v_.emplace_back(); if (!R(i, r.v_.back())) return false; }
  return true;
}
template <class T> inline bool D(const ::google::protobuf::RepeatedBase<T>& r) { return r.v_.empty(); }
template <class K, class V> inline void W(std::string& o, const ::google::protobuf::Map<K, V>& r) { W64(o, r.size()); for (const auto& x : r) { W(o, x.first); W(o, x.second); } }
template <class K, class V> inline bool R(In& i, ::google::protobuf::Map<K, V>& r) {
  uint64_t n;
  if (!R64(i, n) || n > i.n - i.i) return false;
  r.clear();
  for (uint64_t k = 0; k < n; k++) { K a{}; V b{}; if (!R(i, a) || !R(i, b)) return false; r[a] = b; }
  return true;
}
template <class K, class V> inline bool D(const ::google::protobuf::Map<K, V>& r) { return r.empty(); }
template <class T> inline bool E(const T& a, const T& b) { return a == b; }
template <class T> inline bool E(const ::google::protobuf::RepeatedField<T>& a, const ::google::protobuf::RepeatedField<T>& b) { return a.v_ == b.v_; }
template <class T> inline bool E(const ::google::protobuf::RepeatedPtrField<T>& a, const ::google::protobuf::RepeatedPtrField<T>& b) { return a.v_ == b.v_; }
}
namespace google { namespace protobuf {
class Message {
 public:
  virtual ~Message() {}
  virtual void Clear() = 0;
  virtual void PblWrite(std::string& o) const = 0;
  virtual bool PblRead(::pbl::In& i) = 0;
  virtual bool PblDefault() const = 0;
  virtual bool PblEquals(const Message&) const = 0;
  virtual std::string GetTypeName() const = 0;
  std::string SerializeAsString() const {
    std::string o;
    if (PblDefault()) return o;
    o += 'P';
    PblWrite(o);
    o += 'E';
    return o;
  }
  bool SerializeToString(std::string* o) const { *o = SerializeAsString(); return true; }
  bool AppendToString(std::string* o) const { *o += SerializeAsString(); return true; }
  size_t ByteSizeLong() const { return SerializeAsString().size(); }
  bool SerializeToArray(void* p, long n) const { std::string s = SerializeAsString(); if ((long)s.size() > n) return false; if (!s.empty()) memcpy(p, s.data(), s.size()); return true; }
  bool SerializePartialToArray(void* p, long n) const { return SerializeToArray(p, n); }
  std::string SerializePartialAsString() const { return SerializeAsString(); }
  bool SerializeToOstream(std::ostream* os) const { std::string s = SerializeAsString(); os->write(s.data(), (long)s.size()); return os->good(); }
  bool ParseFromArray(const void* p, long n) {
    Clear();
    if (n == 0) return true;
    ::pbl::In i{(const char*)p, (size_t)n};
    if (i.p[0] != 'P') return false;
    i.i = 1;
    if (!PblRead(i)) return false;
    return i.i + 1 == i.n && i.p[i.i] == 'E';
  }
  bool ParseFromString(std::string_view s) { return ParseFromArray(s.data(), (long)s.size()); }
  bool MergeFromString(std::string_view s) { return ParseFromString(s); }
  std::string ShortDebugString() const { return GetTypeName(); }
  std::string DebugString() const { return GetTypeName(); }
  bool IsInitialized() const { return true; }
};
}}
