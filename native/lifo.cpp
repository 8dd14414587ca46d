// Replacement operator new/delete that reuses freed blocks last-in first-out per glibc size class, so that a new object
// lands on the address of the last freed one of its class; everything outside live objects stays poisoned for ASan.
// Mirrors the executor's --lifo mode.
#include <cstdlib>
#include <cstddef>
#include <cstring>
#include <map>
#include <vector>
#include <new>
#include <sanitizer/asan_interface.h>
template <class T> struct Raw { typedef T value_type; Raw() {} template <class U> Raw(const Raw<U>&) {} T* allocate(size_t n) { return (T*)malloc(n * sizeof(T)); } void deallocate(T* p, size_t) { free(p); } template <class U> bool operator==(const Raw<U>&) const { return true; } template <class U> bool operator!=(const Raw<U>&) const { return false; } };
typedef std::vector<void*, Raw<void*>> Stack;
typedef std::map<size_t, Stack, std::less<size_t>, Raw<std::pair<const size_t, Stack>>> Lists;
typedef std::map<void*, size_t, std::less<void*>, Raw<std::pair<void* const, size_t>>> Sizes;
static Lists& lists() { static Lists* p = new (malloc(sizeof(Lists))) Lists; return *p; }
static Sizes& sizes() { static Sizes* p = new (malloc(sizeof(Sizes))) Sizes; return *p; }
static size_t cls(size_t n) { size_t c = (n + 8 + 15) & ~(size_t)15; return c < 32 ? 32 : c; }
static void* get(size_t n) {
  size_t c = cls(n); Stack& l = lists()[c]; char* p;
  if (!l.empty()) { p = (char*)l.back(); l.pop_back(); } else { char* b = (char*)malloc(c + 64); p = b + 32; __asan_poison_memory_region(b, 32); }
  __asan_unpoison_memory_region(p, c); memset(p, 190, c); __asan_poison_memory_region(p, c + 32); __asan_unpoison_memory_region(p, n); sizes()[p] = n; return p; }
static void put(void* p) { if (!p) return; Sizes::iterator it = sizes().find(p); if (it == sizes().end()) { free(p); return; } size_t c = cls(it->second); sizes().erase(it); __asan_poison_memory_region(p, c); lists()[c].push_back(p); }
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
