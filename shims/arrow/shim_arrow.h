// Small stand-in for the parts of Apache Arrow the repository uses: CSV reading
// (streaming, typed or inferred columns), CSV writing, arrays and builders.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <memory>
#include <string>
#include <string_view>
#include <unordered_map>
#include <utility>
#include <vector>
#include "sym.h"
namespace arrow {
class Status {
 public:
  Status() = default;
  explicit Status(std::string m) : ok_(false), msg_(std::move(m)) {}
  static Status OK() { return Status(); }
  static Status Invalid(std::string m) { return Status(std::move(m)); }
  bool ok() const { return ok_; }
  const std::string& message() const { return msg_; }
  std::string ToString() const { return ok_ ? "OK" : msg_; }
 private:
  bool ok_ = true;
  std::string msg_;
};
template <class T> class Result {
 public:
  Result(T v) : v_(std::move(v)) {}
  template <class U, class = std::enable_if_t<std::is_convertible_v<U, T> && !std::is_same_v<std::decay_t<U>, T> && !std::is_same_v<std::decay_t<U>, Status>>> Result(U&& u) : v_(std::forward<U>(u)) {}
  Result(Status s) : s_(std::move(s)) {}
  bool ok() const { return s_.ok(); }
  const Status& status() const { return s_; }
  T ValueOrDie() { if (!ok()) abort(); return std::move(v_); }
  T& operator*() { return v_; }
  T ValueUnsafe() { return std::move(v_); }
 private:
  Status s_;
  T v_{};
};
class MemoryPool {};
inline MemoryPool* default_memory_pool() { static MemoryPool p; return &p; }
struct Type { enum type { NA, BOOL, UINT8, INT8, UINT16, INT16, UINT32, INT32, UINT64, INT64, FLOAT, DOUBLE, STRING }; };
class DataType {
 public:
  explicit DataType(Type::type t, const char* n) : t_(t), n_(n) {}
  Type::type id() const { return t_; }
  std::string ToString() const { return n_; }
  std::string name() const { return n_; }
  bool Equals(const std::shared_ptr<DataType>& o) const { return t_ == o->t_; }
 private:
  Type::type t_;
  const char* n_;
};
#define SYM_AT(f, T, n) inline std::shared_ptr<DataType> f() { return std::make_shared<DataType>(Type::T, n); }
SYM_AT(utf8, STRING, "string") SYM_AT(uint8, UINT8, "uint8") SYM_AT(int8, INT8, "int8") SYM_AT(uint16, UINT16, "uint16") SYM_AT(int16, INT16, "int16")
SYM_AT(uint32, UINT32, "uint32") SYM_AT(int32, INT32, "int32") SYM_AT(uint64, UINT64, "uint64") SYM_AT(int64, INT64, "int64")
SYM_AT(float32, FLOAT, "float") SYM_AT(float64, DOUBLE, "double") SYM_AT(boolean, BOOL, "bool") SYM_AT(null, NA, "null")
#undef SYM_AT
class Field {
 public:
  Field(std::string n, std::shared_ptr<DataType> t) : n_(std::move(n)), t_(std::move(t)) {}
  const std::string& name() const { return n_; }
  const std::shared_ptr<DataType>& type() const { return t_; }
 private:
  std::string n_;
  std::shared_ptr<DataType> t_;
};
typedef std::vector<std::shared_ptr<Field>> FieldVector;
inline std::shared_ptr<Field> field(std::string n, std::shared_ptr<DataType> t) { return std::make_shared<Field>(std::move(n), std::move(t)); }
class Schema {
 public:
  explicit Schema(FieldVector f) : f_(std::move(f)) {}
  const FieldVector& fields() const { return f_; }
  const std::shared_ptr<Field>& field(int i) const { return f_[i]; }
  int num_fields() const { return (int)f_.size(); }
  int GetFieldIndex(const std::string& n) const {
    int r = -1;
    for (size_t i = 0; i < f_.size(); i++) if (f_[i]->name() == n) { if (r >= 0) return -1; r = (int)i; }
    return r;
  }
  std::vector<std::string> field_names() const { std::vector<std::string> r; for (auto& x : f_) r.push_back(x->name()); return r; }
 private:
  FieldVector f_;
};
inline std::shared_ptr<Schema> schema(FieldVector f) { return std::make_shared<Schema>(std::move(f)); }
class Array {
 public:
  virtual ~Array() = default;
  virtual int64_t length() const = 0;
  std::shared_ptr<DataType> type() const { return t_; }
  bool IsNull(int64_t) const { return false; }
 protected:
  std::shared_ptr<DataType> t_;
};
class StringArray : public Array {
 public:
  StringArray() { t_ = utf8(); }
  int64_t length() const override { return (int64_t)v.size(); }
  std::string_view Value(int64_t i) const { return v.at((size_t)i); }
  std::string_view GetView(int64_t i) const { return v.at((size_t)i); }
  std::string GetString(int64_t i) const { return v.at((size_t)i); }
  std::vector<std::string> v;
};
template <class T> class NumArray : public Array {
 public:
  explicit NumArray(std::shared_ptr<DataType> t) { t_ = std::move(t); }
  int64_t length() const override { return (int64_t)v.size(); }
  T Value(int64_t i) const { return v.at((size_t)i); }
  std::vector<T> v;
};
typedef NumArray<uint8_t> UInt8Array; typedef NumArray<int8_t> Int8Array; typedef NumArray<uint16_t> UInt16Array; typedef NumArray<int16_t> Int16Array;
typedef NumArray<uint32_t> UInt32Array; typedef NumArray<int32_t> Int32Array; typedef NumArray<uint64_t> UInt64Array; typedef NumArray<int64_t> Int64Array;
typedef NumArray<float> FloatArray; typedef NumArray<double> DoubleArray;
class RecordBatch {
 public:
  static std::shared_ptr<RecordBatch> Make(std::shared_ptr<Schema> s, int64_t n, std::vector<std::shared_ptr<Array>> c) {
    auto r = std::make_shared<RecordBatch>();
    r->s_ = std::move(s); r->n_ = n; r->c_ = std::move(c);
    return r;
  }
  int64_t num_rows() const { return n_; }
  int num_columns() const { return (int)c_.size(); }
  std::shared_ptr<Array> column(int i) const { return c_.at((size_t)i); }
  const std::vector<std::shared_ptr<Array>>& columns() const { return c_; }
  const std::shared_ptr<Schema>& schema() const { return s_; }
  const std::string& column_name(int i) const { return s_->field(i)->name(); }
  std::shared_ptr<Array> GetColumnByName(const std::string& n) const { int i = s_->GetFieldIndex(n); return i < 0 ? nullptr : c_[(size_t)i]; }
 private:
  std::shared_ptr<Schema> s_;
  int64_t n_ = 0;
  std::vector<std::shared_ptr<Array>> c_;
};
struct Scalar { uint64_t u = 0; };
struct UInt64Scalar : Scalar { explicit UInt64Scalar(uint64_t x) { u = x; } };
struct UInt32Scalar : Scalar { explicit UInt32Scalar(uint32_t x) { u = x; } };
struct Int64Scalar : Scalar { explicit Int64Scalar(int64_t x) { u = (uint64_t)x; } };
class ArrayBuilder {
 public:
  explicit ArrayBuilder(std::shared_ptr<DataType> t) : t_(std::move(t)) {}
  Status AppendScalar(const Scalar& s) { v_.push_back(s.u); return Status::OK(); }
  Status Append(uint64_t x) { v_.push_back(x); return Status::OK(); }
  Status Resize(int64_t) { return Status::OK(); }
  Status Reserve(int64_t) { return Status::OK(); }
  void Reset() { v_.clear(); }
  int64_t length() const { return (int64_t)v_.size(); }
  Result<std::shared_ptr<Array>> Finish() { auto a = std::make_shared<UInt64Array>(t_); a->v = std::move(v_); v_.clear(); return Result<std::shared_ptr<Array>>(std::shared_ptr<Array>(a)); }
 private:
  std::shared_ptr<DataType> t_;
  std::vector<uint64_t> v_;
};
inline Result<std::unique_ptr<ArrayBuilder>> MakeBuilder(std::shared_ptr<DataType> t) { return Result<std::unique_ptr<ArrayBuilder>>(std::make_unique<ArrayBuilder>(t)); }
namespace io {
struct IOContext {};
inline IOContext default_io_context() { return {}; }
class InputStream { public: virtual ~InputStream() = default; };
class ReadableFile : public InputStream {
 public:
  static Result<std::shared_ptr<ReadableFile>> Open(const std::string& p, MemoryPool* = nullptr) {
    if (!std::filesystem::exists(p)) return Status("Failed to open local file");
    auto f = std::make_shared<ReadableFile>();
    f->path = p;
    return Result<std::shared_ptr<ReadableFile>>(f);
  }
  Status Close() { return Status::OK(); }
  std::string path;
};
class OutputStream {
 public:
  virtual ~OutputStream() = default;
  virtual Status Write(std::string_view) = 0;
  virtual Status Flush() = 0;
  virtual Status Close() = 0;
  virtual bool closed() const = 0;
};
class FileOutputStream : public OutputStream {
 public:
  static Result<std::shared_ptr<FileOutputStream>> Open(const std::string& p, bool append = false) {
    auto f = std::make_shared<FileOutputStream>();
    f->o.open(p, append ? std::ios::app : std::ios::out);
    if (!f->o.is_open()) return Status("Failed to open local file");
    return Result<std::shared_ptr<FileOutputStream>>(f);
  }
  // unbuffered, as arrow's FileOutputStream is
  Status Write(std::string_view s) override { if (closed_) return Status("closed"); o.write(s.data(), (std::streamsize)s.size()); o.flush(); return Status::OK(); }
  Status Flush() override { return Status::OK(); }
  Status Close() override { closed_ = true; o.close(); return Status::OK(); }
  bool closed() const override { return closed_; }
  std::ofstream o;
 private:
  bool closed_ = false;
};
}
namespace csv {
struct ReadOptions { int32_t block_size = 1 << 20; bool use_threads = true; int32_t skip_rows = 0; bool autogenerate_column_names = false; std::vector<std::string> column_names; static ReadOptions Defaults() { return {}; } };
struct ParseOptions { char delimiter = ','; bool quoting = true; bool newlines_in_values = false; bool ignore_empty_lines = true; static ParseOptions Defaults() { return {}; } };
struct ConvertOptions { std::unordered_map<std::string, std::shared_ptr<DataType>> column_types; std::vector<std::string> include_columns; std::vector<std::string> null_values; bool strings_can_be_null = false; bool include_missing_columns = false; static ConvertOptions Defaults() { return {}; } };
struct WriteOptions { bool include_header = true; int32_t batch_size = 1024; static WriteOptions Defaults() { return {}; } };
namespace shim {
// rows handed out per record batch; 0 = the whole file (a real reader decides by block size)
inline size_t& rowsPerBatch() { static size_t n = 0; return n; }
inline std::vector<std::vector<std::string>> parse(const std::string& d, char delim) {
  std::vector<std::vector<std::string>> rows;
  size_t p = 0;
  while (p < d.size()) {
    if (d[p] == '\n') { p++; continue; }
    if (d[p] == '\r' && p + 1 < d.size() && d[p + 1] == '\n') { p += 2; continue; }
    std::vector<std::string> row;
    while (true) {
      std::string f;
      if (p < d.size() && d[p] == '"') {
        p++;
        while (p < d.size()) {
          if (d[p] == '"') { if (p + 1 < d.size() && d[p + 1] == '"') { f += '"'; p += 2; continue; } p++; break; }
          f += d[p++];
        }
      }
      while (p < d.size() && d[p] != delim && d[p] != '\n' && d[p] != '\r') f += d[p++];
      row.push_back(std::move(f));
      if (p < d.size() && d[p] == delim) { p++; continue; }
      if (p < d.size() && d[p] == '\r') p++;
      if (p < d.size() && d[p] == '\n') p++;
      break;
    }
    rows.push_back(std::move(row));
  }
  return rows;
}
inline bool allInt(const std::string& s) {
  if (s.empty()) return false;
  size_t i = s[0] == '-' ? 1 : 0;
  if (i >= s.size()) return false;
  for (; i < s.size(); i++) if (s[i] < '0' || s[i] > '9') return false;
  return s.size() < 19;
}
inline int64_t toInt(const std::string& s) { int64_t v = 0; size_t i = 0; bool n = false; if (s[0] == '-') { n = true; i = 1; } for (; i < s.size(); i++) v = v * 10 + (s[i] - '0'); return n ? -v : v; }
template <class T> std::shared_ptr<Array> num(const std::shared_ptr<DataType>& t, const std::vector<const std::string*>& c, bool& ok) {
  auto a = std::make_shared<NumArray<T>>(t);
  for (auto* s : c) { if (!allInt(*s)) { ok = false; return nullptr; } a->v.push_back((T)toInt(*s)); }
  return a;
}
inline std::shared_ptr<Array> make(const std::shared_ptr<DataType>& t, const std::vector<const std::string*>& c, bool& ok) {
  ok = true;
  switch (t->id()) {
    case Type::UINT8: return num<uint8_t>(t, c, ok);
    case Type::INT8: return num<int8_t>(t, c, ok);
    case Type::UINT16: return num<uint16_t>(t, c, ok);
    case Type::INT16: return num<int16_t>(t, c, ok);
    case Type::UINT32: return num<uint32_t>(t, c, ok);
    case Type::INT32: return num<int32_t>(t, c, ok);
    case Type::UINT64: return num<uint64_t>(t, c, ok);
    case Type::INT64: return num<int64_t>(t, c, ok);
    case Type::STRING: { auto a = std::make_shared<StringArray>(); for (auto* s : c) a->v.push_back(*s); return a; }
    default: ok = false; return nullptr;
  }
}
}
}
namespace ipc {
class RecordBatchReader {
 public:
  virtual ~RecordBatchReader() = default;
  virtual Status ReadNext(std::shared_ptr<RecordBatch>* b) = 0;
  virtual std::shared_ptr<Schema> schema() const = 0;
  virtual Status Close() { return Status::OK(); }
};
class RecordBatchWriter {
 public:
  virtual ~RecordBatchWriter() = default;
  virtual Status WriteRecordBatch(const RecordBatch& b) = 0;
  virtual Status Close() = 0;
};
}
using RecordBatchReader = ipc::RecordBatchReader;
namespace csv {
class StreamingReader : public ipc::RecordBatchReader {
 public:
  static Result<std::shared_ptr<StreamingReader>> Make(io::IOContext, std::shared_ptr<io::InputStream> in, const ReadOptions&, const ParseOptions& po, const ConvertOptions& co) {
    auto f = std::dynamic_pointer_cast<io::ReadableFile>(in);
    auto r = std::make_shared<StreamingReader>();
    std::ifstream is(f->path, std::ios::in | std::ios::binary);
    std::string all(std::filesystem::file_size(f->path), 0);
    if (!all.empty()) is.read(&all[0], (std::streamsize)all.size());
    r->rows_ = shim::parse(all, po.delimiter);
    if (r->rows_.empty()) return Status("Empty CSV file");
    auto& h = r->rows_[0];
    for (auto& row : r->rows_) if (row.size() != h.size()) return Status("CSV parse error: wrong number of columns");
    std::vector<std::string> cols = co.include_columns.empty() ? h : co.include_columns;
    FieldVector fs;
    for (auto& c : cols) {
      size_t k = 0;
      while (k < h.size() && h[k] != c) k++;
      if (k == h.size()) return Status("Column '" + c + "' in include_columns does not exist in CSV file");
      r->col_.push_back(k);
      std::shared_ptr<DataType> t;
      auto it = co.column_types.find(c);
      if (it != co.column_types.end()) t = it->second;
      else {
        bool isInt = r->rows_.size() > 1;
        for (size_t i = 1; i < r->rows_.size() && isInt; i++) isInt = shim::allInt(r->rows_[i][k]);
        t = isInt ? int64() : utf8();
      }
      fs.push_back(arrow::field(c, t));
    }
    r->schema_ = arrow::schema(fs);
    return Result<std::shared_ptr<StreamingReader>>(r);
  }
  Status ReadNext(std::shared_ptr<RecordBatch>* b) override {
    *b = nullptr;
    size_t left = rows_.size() - pos_;
    if (left == 0) return Status::OK();
    size_t n = shim::rowsPerBatch() ? std::min(left, shim::rowsPerBatch()) : left;
    std::vector<std::shared_ptr<Array>> cs;
    for (size_t k = 0; k < col_.size(); k++) {
      std::vector<const std::string*> v;
      for (size_t i = 0; i < n; i++) v.push_back(&rows_[pos_ + i][col_[k]]);
      bool ok;
      auto a = shim::make(schema_->field((int)k)->type(), v, ok);
      if (!ok) return Status("CSV conversion error");
      cs.push_back(a);
    }
    pos_ += n;
    *b = RecordBatch::Make(schema_, (int64_t)n, cs);
    return Status::OK();
  }
  std::shared_ptr<Schema> schema() const override { return schema_; }
 private:
  std::vector<std::vector<std::string>> rows_;
  std::vector<size_t> col_;
  size_t pos_ = 1;
  std::shared_ptr<Schema> schema_;
};
class ShimCsvWriter : public ipc::RecordBatchWriter {
 public:
  ShimCsvWriter(std::shared_ptr<io::OutputStream> o, std::shared_ptr<Schema> s, WriteOptions w) : o_(std::move(o)) {
    if (w.include_header) { std::string l; for (auto& f : s->fields()) { if (!l.empty()) l += ','; l += '"' + f->name() + '"'; } (void)o_->Write(l + "\n"); }
  }
  Status WriteRecordBatch(const RecordBatch& b) override {
    for (int64_t i = 0; i < b.num_rows(); i++) {
      std::string l;
      for (int k = 0; k < b.num_columns(); k++) {
        if (k) l += ',';
        auto c = b.column(k);
        if (auto s = std::dynamic_pointer_cast<StringArray>(c)) l += '"' + s->GetString(i) + '"';
        else l += std::to_string(sym_concretize(std::static_pointer_cast<UInt64Array>(c)->Value(i)));
      }
      auto st = o_->Write(l + "\n");
      if (!st.ok()) return st;
    }
    return Status::OK();
  }
  Status Close() override { return Status::OK(); }
 private:
  std::shared_ptr<io::OutputStream> o_;
};
inline Result<std::shared_ptr<ipc::RecordBatchWriter>> MakeCSVWriter(std::shared_ptr<io::OutputStream> o, const std::shared_ptr<Schema>& s, const WriteOptions& w) {
  return Result<std::shared_ptr<ipc::RecordBatchWriter>>(std::shared_ptr<ipc::RecordBatchWriter>(std::make_shared<ShimCsvWriter>(o, s, w)));
}
}
}
