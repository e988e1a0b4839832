// libc++ compiles std::sort of built-in types into its library; the same template, instantiated here so that it can be analysed.  Include after ring.h.
#pragma once
#include <algorithm>
namespace std { inline namespace __1 {
template<class C, class It> void __sort(It f, It l, C) { __less<> c; __introsort<_ClassicAlgPolicy, __less<>&, It, false>(f, l, c, 64); }
template void __sort<__less<int>&, int*>(int*, int*, __less<int>&);
template void __sort<__less<long>&, long*>(long*, long*, __less<long>&);
template void __sort<__less<long long>&, long long*>(long long*, long long*, __less<long long>&);
} }
extern "C" inline __attribute__((used)) int memcmp(const void* p, const void* q, size_t n) { for (size_t i = 0; i < n; i++) { int a = ((const unsigned char*)p)[i], b = ((const unsigned char*)q)[i]; if (a != b) return a < b ? -1 : 1; } return 0; } // compile with -fno-builtin
// function-local statics live for the whole program
extern "C" inline __attribute__((used)) int __cxa_atexit(void (*)(void*), void*, void*) { return 0; }
