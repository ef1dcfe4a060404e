// Counts and limits the memory taken with new. Include once in a harness.
#pragma once
#include <malloc.h>
#include <atomic>
#include <new>
#include <cstdlib>
// memory of the case: a limit for one allocation and for all, so that a count of 2^32 in a file is an error and not the end of the machine
static std::atomic<long> live(0); static std::atomic<long> blocks(0); static std::atomic<bool> limited(false); static std::atomic<long> peak(0);
static void* take(size_t n) { if (limited && (n > (64u << 20) || live > (512l << 20))) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); long l = (live += (long)malloc_usable_size(p)); blocks++; if (l > peak) peak = l; return p; }
static void give(void* p) { if (!p) return; live -= (long)malloc_usable_size(p); blocks--; free(p); }
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return take(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return take(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { give(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { give(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }

