/* C headers of the code under test (public interfaces only) */
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
#include "utils/log.h"
#include "utils/os.h"
#include "voucher/array.h"
#include "voucher/crypto.h"
#include "voucher/keyvalue.h"
#include "voucher/serialize.h"
#include "voucher/voucher.h"
}
#include <string>
inline void quiet_logs() { log_set_quiet(true); log_set_level(5); }
struct Heap { /* exact-size heap copy so that the address sanitizer sees any overrun */
  uint8_t *p; size_t n;
  Heap(const std::string &s) : p((uint8_t *)malloc(s.size() ? s.size() : 1)), n(s.size()) { if (s.size()) memcpy(p, s.data(), s.size()); }
  ~Heap() { free(p); }
  Heap(const Heap &) = delete;
};
#include <vector>
struct Arr { struct BinaryArray a; Arr(const std::string &s) { a.array = (uint8_t *)malloc(s.size() ? s.size() : 1); memcpy(a.array, s.data(), s.size()); a.length = s.size(); } ~Arr() { free(a.array); } Arr(const Arr &) = delete; operator struct BinaryArray *() { return &a; } struct BinaryArray *operator->() { return &a; } };
struct List { struct BinaryArrayList *l = nullptr; List() {} List(const std::vector<std::string> &v, int flags = 0) { l = init_array_list(); for (auto &s : v) add(s, flags); } void add(const std::string &s, int flags) { if (!l) l = init_array_list(); push_array_list(l, (uint8_t *)s.data(), s.size(), flags); } ~List() { if (l) free_array_list(l); } List(const List &) = delete; operator struct BinaryArrayList *() { return l; } };
inline std::string str(const struct BinaryArray *b) { return b && b->array ? std::string((const char *)b->array, b->length) : std::string(); }
inline std::string take(struct BinaryArray *b) { std::string s = str(b); if (b) free_binary_array(b); return s; }
inline std::vector<std::string> items(struct BinaryArrayList *l) { std::vector<std::string> r; if (!l) return r; struct BinaryArrayList *e; dl_list_for_each(e, &l->list, struct BinaryArrayList, list) r.push_back(std::string((char *)e->arr, e->length)); return r; }
