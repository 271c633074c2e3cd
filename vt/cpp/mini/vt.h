// The harness interface (symbolic: vt/ll/runtime.py; native: vt/cpp/native.cpp).
#pragma once
#include <cstdint>
extern "C" {
int64_t vt_i64(const char *);
bool vt_bool(const char *);
double vt_f64(const char *);
float vt_f32(const char *);
void vt_assume(bool);
void vt_prove(bool, const char *);
__attribute__((noreturn)) void vt_fail(const char *);
__attribute__((noreturn)) void vt_skip();
int64_t vt_choice(int64_t n);
bool vt_same_f64(double, double);
int64_t vt_split(int64_t);
__attribute__((noreturn)) void vt_assert_fail(const char *);
}
static inline int64_t vt_range(const char *n, int64_t lo, int64_t hi) {
  int64_t v = vt_i64(n);
  vt_assume(v >= lo && v <= hi);
  return v;
}
#undef assert
#define assert(x) ((x) ? (void)0 : vt_assert_fail(#x))
