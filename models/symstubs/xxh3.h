// Symbolic stand-in for xxHash: the hash of a byte string depends only on its length, so equal
// strings always hash alike and unequal ones of one length always collide (the strongest test of
// the table's equality predicate).  Native replay uses the real xxh3.h.
#pragma once
#include <cstddef>
#include <cstdint>
typedef uint64_t XXH64_hash_t;
static inline XXH64_hash_t XXH3_64bits(const void* data, size_t len) {
  (void)data;
  return (XXH64_hash_t)len * 5;
}
