#pragma once
#include <unordered_set>
namespace absl { template <class K> class flat_hash_set : public std::unordered_set<K> { public: using std::unordered_set<K>::unordered_set; bool contains(const K& k) const { return this->count(k) > 0; } }; }
