// Analysis entry points: thin calls into the public API of the library.  Nothing here is
// executed; the bodies give the analysis a named place to start from.
#pragma once
#pragma clang diagnostic ignored "-Wreturn-type-c-linkage"
#include <cstddef>
#include <cstdint>
#include <new>
#include <utility>
#define FW_ENTRY extern "C" __attribute__((noinline, used))
// layout constants of the analysed types, read by the checks
#define FW_CONST(name, expr) extern "C" __attribute__((used)) unsigned long fw_e_k_##name() { return (unsigned long)(expr); }
#define FW_OFF(name, type, member) FW_CONST(off_##name, __builtin_offsetof(type, member))
// obligations and assumptions of a harness entry
extern "C" void fw_prove(const char* rule, bool cond);
extern "C" void fw_assume(bool cond);
// the object at p has n bytes
extern "C" void fw_extent(const void* p, size_t n);
extern "C" void fw_mark(const char* what, ...);
// all n bytes at p are read
extern "C" void fw_reads(const void* p, size_t n);
