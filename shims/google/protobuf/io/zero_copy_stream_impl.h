#pragma once
#include "google/protobuf/message.h"
namespace google { namespace protobuf { namespace io {
class ZeroCopyInputStream { public: virtual ~ZeroCopyInputStream() {} virtual bool take(char* p, size_t n) = 0; };
class ArrayInputStream : public ZeroCopyInputStream { public: ArrayInputStream(const void* p, int n) : p_((const char*)p), n_((size_t)n) {} bool take(char* q, size_t k) override { if (k > n_) return false; memcpy(q, p_, k); p_ += k; n_ -= k; return true; } private: const char* p_; size_t n_; };
class IstreamInputStream : public ZeroCopyInputStream { public: explicit IstreamInputStream(std::istream* i) : i_(i) {} bool take(char* q, size_t k) override { i_->read(q, (long)k); return (size_t)i_->gcount() == k; } private: std::istream* i_; };
// harness hands the bytes in through a descriptor number registered here
struct FdTable { static std::vector<std::string>& I() { static auto* v = new std::vector<std::string>(); return *v; } };
class FileInputStream : public ZeroCopyInputStream { public: explicit FileInputStream(int fd) : d_(&FdTable::I().at((size_t)fd)) {} bool take(char* q, size_t k) override { if (k > d_->size() - p_) return false; memcpy(q, d_->data() + p_, k); p_ += k; return true; } private: std::string* d_; size_t p_ = 0; };
}}}
