#pragma once
#include <unordered_map>
namespace absl { template <class K, class V> class flat_hash_map : public std::unordered_map<K, V> { public: using std::unordered_map<K, V>::unordered_map; bool contains(const K& k) const { return this->count(k) > 0; } }; }
