// yacl::io streams and CSV reader / writer over the standard streams.
#pragma once
#include <filesystem>
#include <fstream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <variant>
#include <vector>
#include "arrow/shim_arrow.h"
#include "yacl/base/exception.h"
namespace yacl::io {
class InputStream {
 public:
  virtual ~InputStream() = default;
  virtual InputStream& GetLine(std::string* r) { return GetLine(r, '\n'); }
  virtual InputStream& GetLine(std::string* r, char delim) = 0;
  virtual InputStream& Read(void* b, size_t n) = 0;
  virtual bool Eof() const = 0;
  virtual explicit operator bool() const = 0;
  virtual bool operator!() const = 0;
  virtual InputStream& Seekg(size_t p) = 0;
  virtual size_t Tellg() = 0;
  virtual size_t GetLength() const = 0;
  virtual const std::string& GetName() const = 0;
  virtual void Close() = 0;
  virtual std::unique_ptr<InputStream> Spawn() = 0;
};
class OutputStream {
 public:
  virtual ~OutputStream() = default;
  virtual void Write(const void* b, size_t n) = 0;
  virtual void Write(std::string_view s) = 0;
  virtual void Close() = 0;
  virtual void Flush() = 0;
  virtual size_t Tellp() = 0;
  virtual const std::string& GetName() const = 0;
};
class FileInputStream : public InputStream {
 public:
  explicit FileInputStream(std::string p) : p_(std::move(p)) {
    if (!std::filesystem::exists(p_)) throw yacl::IoError("file does not exist: " + p_);
    s_.open(p_, std::ios::in | std::ios::binary);
  }
  using InputStream::GetLine;
  InputStream& GetLine(std::string* r, char d) override { std::getline(s_, *r, d); return *this; }
  InputStream& Read(void* b, size_t n) override { s_.read((char*)b, (std::streamsize)n); return *this; }
  bool Eof() const override { return s_.eof(); }
  explicit operator bool() const override { return !s_.fail(); }
  bool operator!() const override { return s_.fail(); }
  InputStream& Seekg(size_t p) override { s_.clear(); s_.seekg((std::streamoff)p); return *this; }
  size_t Tellg() override { return (size_t)s_.tellg(); }
  size_t GetLength() const override { return std::filesystem::file_size(p_); }
  const std::string& GetName() const override { return p_; }
  void Close() override { s_.close(); }
  std::unique_ptr<InputStream> Spawn() override { return std::make_unique<FileInputStream>(p_); }
 private:
  std::string p_;
  mutable std::ifstream s_;
};
class MemInputStream : public InputStream {
 public:
  explicit MemInputStream(std::string d) : d_(std::move(d)) {}
  using InputStream::GetLine;
  InputStream& GetLine(std::string* r, char dl) override {
    r->clear();
    if (at_ >= d_.size()) { fail_ = true; return *this; }
    while (at_ < d_.size() && d_[at_] != dl) *r += d_[at_++];
    if (at_ < d_.size()) at_++;
    return *this;
  }
  InputStream& Read(void* b, size_t n) override { if (at_ + n > d_.size()) { fail_ = true; n = d_.size() - at_; } memcpy(b, d_.data() + at_, n); at_ += n; return *this; }
  bool Eof() const override { return at_ >= d_.size(); }
  explicit operator bool() const override { return !fail_; }
  bool operator!() const override { return fail_; }
  InputStream& Seekg(size_t p) override { at_ = p; fail_ = false; return *this; }
  size_t Tellg() override { return at_; }
  size_t GetLength() const override { return d_.size(); }
  const std::string& GetName() const override { return n_; }
  void Close() override {}
  std::unique_ptr<InputStream> Spawn() override { return std::make_unique<MemInputStream>(d_); }
 private:
  std::string d_, n_ = "mem";
  size_t at_ = 0;
  bool fail_ = false;
};
class FileOutputStream : public OutputStream {
 public:
  explicit FileOutputStream(std::string p, bool trunc = true, bool = true) : p_(std::move(p)) {
    auto dir = std::filesystem::path(p_).parent_path();
    if (!dir.empty()) std::filesystem::create_directories(dir);
    s_.open(p_, trunc ? std::ios::out | std::ios::binary | std::ios::trunc : std::ios::out | std::ios::binary | std::ios::app);
    if (!s_.is_open()) throw yacl::IoError("open failed: " + p_);
  }
  void Write(const void* b, size_t n) override { s_.write((const char*)b, (std::streamsize)n); }
  void Write(std::string_view v) override { s_.write(v.data(), (std::streamsize)v.size()); }
  void Close() override { s_.close(); }
  void Flush() override { s_.flush(); }
  size_t Tellp() override { return (size_t)s_.tellp(); }
  const std::string& GetName() const override { return p_; }
 private:
  std::string p_;
  std::ofstream s_;
};
class MemOutputStream : public OutputStream {
 public:
  explicit MemOutputStream(std::string* d) : d_(d) { d_->clear(); }
  void Write(const void* b, size_t n) override { d_->append((const char*)b, n); }
  void Write(std::string_view v) override { d_->append(v); }
  void Close() override {}
  void Flush() override {}
  size_t Tellp() override { return d_->size(); }
  const std::string& GetName() const override { return n_; }
 private:
  std::string* d_;
  std::string n_ = "mem";
};
struct Schema {
  enum Type { STRING, FLOAT, DOUBLE };
  std::vector<Type> feature_types;
  std::vector<std::string> feature_names;
};
template <class S> using ColumnVector = std::vector<S>;
typedef ColumnVector<std::string> StringColumnVector;
typedef ColumnVector<float> FloatColumnVector;
typedef ColumnVector<double> DoubleColumnVector;
class ColumnVectorBatch {
 public:
  struct Dim { size_t rows, cols; };
  Dim Shape() const { return {c_.empty() ? 0 : c_[0].size(), c_.size()}; }
  template <class S> const S& At(size_t row, size_t col) const { return c_.at(col).at(row); }
  template <class S> const ColumnVector<S>& Col(size_t col) const { return c_.at(col); }
  void Clear() { c_.clear(); }
  bool Empty() const { return c_.empty(); }
  template <class S> void AppendCol(ColumnVector<S> v) { c_.push_back(std::move(v)); }
 private:
  std::vector<StringColumnVector> c_;
};
struct ReaderOptions { size_t batch_size = 50; bool column_reader = false; bool use_header_order = false; Schema file_schema; };
struct WriterOptions { Schema file_schema; int float_precision = 6; };
class Reader {
 public:
  virtual ~Reader() = default;
  virtual void Init() = 0;
  virtual bool Next(ColumnVectorBatch* b) = 0;
};
class CsvReader : public Reader {
 public:
  CsvReader(ReaderOptions o, std::unique_ptr<InputStream> in, char fd = ',', char = '\n') : o_(std::move(o)), in_(std::move(in)), fd_(fd) {}
  void Init() override {
    std::string all, l;
    while (in_->GetLine(&l)) { all += l; all += '\n'; }
    rows_ = arrow::csv::shim::parse(all, fd_);
    YACL_ENFORCE(!rows_.empty(), "empty csv");
    for (auto& n : o_.file_schema.feature_names) {
      size_t k = 0;
      while (k < rows_[0].size() && rows_[0][k] != n) k++;
      YACL_ENFORCE(k < rows_[0].size(), "can not find feature {}", n);
      col_.push_back(k);
    }
  }
  bool Next(ColumnVectorBatch* b) override {
    b->Clear();
    if (at_ >= rows_.size()) return false;
    size_t n = std::min(o_.batch_size, rows_.size() - at_);
    for (size_t k : col_) {
      StringColumnVector v;
      for (size_t i = 0; i < n; i++) { YACL_ENFORCE(k < rows_[at_ + i].size(), "bad row"); v.push_back(rows_[at_ + i][k]); }
      b->AppendCol<std::string>(std::move(v));
    }
    at_ += n;
    return true;
  }
 private:
  ReaderOptions o_;
  std::unique_ptr<InputStream> in_;
  char fd_;
  std::vector<std::vector<std::string>> rows_;
  std::vector<size_t> col_;
  size_t at_ = 1;
};
class Writer {
 public:
  virtual ~Writer() = default;
  virtual void Init() = 0;
  virtual bool Add(const ColumnVectorBatch& b) = 0;
  virtual void Flush() = 0;
  virtual void Close() = 0;
};
class CsvWriter : public Writer {
 public:
  CsvWriter(WriterOptions o, std::unique_ptr<OutputStream> out, char fd = ',', char ld = '\n') : o_(std::move(o)), out_(std::move(out)), fd_(fd), ld_(ld) {}
  void Init() override {
    std::string l;
    for (auto& n : o_.file_schema.feature_names) { if (!l.empty()) l += fd_; l += n; }
    out_->Write(l + ld_);
  }
  bool Add(const ColumnVectorBatch& b) override {
    for (size_t r = 0; r < b.Shape().rows; r++) {
      std::string l;
      for (size_t c = 0; c < b.Shape().cols; c++) { if (c) l += fd_; l += b.At<std::string>(r, c); }
      out_->Write(l + ld_);
    }
    return true;
  }
  void Flush() override { out_->Flush(); }
  void Close() override { out_->Close(); }
 private:
  WriterOptions o_;
  std::unique_ptr<OutputStream> out_;
  char fd_, ld_;
};
}
