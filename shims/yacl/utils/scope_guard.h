#pragma once
#include <utility>
namespace yacl {
template <class F> class ScopeGuard { public: explicit ScopeGuard(F f) : f_(std::move(f)) {} ~ScopeGuard() { f_(); } ScopeGuard(const ScopeGuard&) = delete; private: F f_; };
}
#define YACL_SG_CAT2(a, b) a##b
#define YACL_SG_CAT(a, b) YACL_SG_CAT2(a, b)
#define ON_SCOPE_EXIT(f) ::yacl::ScopeGuard YACL_SG_CAT(sg_, __LINE__)(f)
