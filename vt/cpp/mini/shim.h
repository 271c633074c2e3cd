// Out-of-line members of LLVM's support classes (the LLVM library is not part
// of the symbolically executed program).
#pragma once
#include "llvm/ADT/APInt.h"
#include "llvm/ADT/SmallVector.h"
namespace llvm {
#define VT_W(what) if (!isSingleWord()) vt_fail("APInt wider than 64 bits: " what)
inline uint64_t vt_mask(unsigned w) { return w == 64 ? ~0ull : (1ull << w) - 1; }
APInt &APInt::operator+=(const APInt &r) { assert(getBitWidth() == r.getBitWidth() && "Bit widths must be the same"); VT_W("+"); U.VAL += r.U.VAL; return clearUnusedBits(); }
APInt &APInt::operator+=(uint64_t r) { VT_W("+"); U.VAL += r; return clearUnusedBits(); }
APInt &APInt::operator-=(const APInt &r) { assert(getBitWidth() == r.getBitWidth() && "Bit widths must be the same"); VT_W("-"); U.VAL -= r.U.VAL; return clearUnusedBits(); }
APInt &APInt::operator-=(uint64_t r) { VT_W("-"); U.VAL -= r; return clearUnusedBits(); }
APInt &APInt::operator++() { VT_W("++"); ++U.VAL; return clearUnusedBits(); }
APInt &APInt::operator--() { VT_W("--"); --U.VAL; return clearUnusedBits(); }
APInt &APInt::operator*=(const APInt &r) { *this = *this * r; return *this; }
APInt &APInt::operator*=(uint64_t r) { VT_W("*"); U.VAL *= r; return clearUnusedBits(); }
APInt APInt::operator*(const APInt &r) const { assert(getBitWidth() == r.getBitWidth() && "Bit widths must be the same"); VT_W("*"); return APInt(getBitWidth(), (U.VAL * r.U.VAL) & vt_mask(getBitWidth())); }
APInt APInt::sdiv(const APInt &r) const { assert(getBitWidth() == r.getBitWidth()); VT_W("sdiv"); assert(r.U.VAL != 0 && "Divide by zero?"); int64_t a = getSExtValue(), b = r.getSExtValue(); return APInt(getBitWidth(), (uint64_t)(b == -1 ? (int64_t)(0 - (uint64_t)a) : a / b) & vt_mask(getBitWidth())); }
APInt APInt::srem(const APInt &r) const { assert(getBitWidth() == r.getBitWidth()); VT_W("srem"); assert(r.U.VAL != 0 && "Divide by zero?"); int64_t a = getSExtValue(), b = r.getSExtValue(); return APInt(getBitWidth(), (uint64_t)(b == -1 ? 0 : a % b) & vt_mask(getBitWidth())); }
APInt APInt::udiv(const APInt &r) const { assert(getBitWidth() == r.getBitWidth()); VT_W("udiv"); assert(r.U.VAL != 0 && "Divide by zero?"); return APInt(getBitWidth(), U.VAL / r.U.VAL); }
APInt APInt::urem(const APInt &r) const { assert(getBitWidth() == r.getBitWidth()); VT_W("urem"); assert(r.U.VAL != 0 && "Remainder by zero?"); return APInt(getBitWidth(), U.VAL % r.U.VAL); }
void APInt::sdivrem(const APInt &a, const APInt &b, APInt &q, APInt &r) { q = a.sdiv(b); r = a.srem(b); }
void APInt::udivrem(const APInt &a, const APInt &b, APInt &q, APInt &r) { q = a.udiv(b); r = a.urem(b); }
APInt APIntOps::RoundingSDiv(const APInt &a, const APInt &b, APInt::Rounding m) {
  if (m == APInt::Rounding::TOWARD_ZERO) return a.sdiv(b);
  APInt q, r; APInt::sdivrem(a, b, q, r);
  if (r.isZero()) return q;
  if (m == APInt::Rounding::DOWN) return r.isNegative() != b.isNegative() ? q - 1 : q;
  return r.isNegative() != b.isNegative() ? q : q + 1; }
APInt APIntOps::RoundingUDiv(const APInt &a, const APInt &b, APInt::Rounding m) {
  APInt q = a.udiv(b), r = a.urem(b); return m == APInt::Rounding::UP && !r.isZero() ? q + 1 : q; }
APInt APInt::trunc(unsigned w) const { assert(w <= getBitWidth() && "Invalid APInt Truncate request"); VT_W("trunc"); return APInt(w, U.VAL & vt_mask(w)); }
APInt APInt::zext(unsigned w) const { assert(w >= getBitWidth() && "Invalid APInt ZeroExtend request"); VT_W("zext"); if (w > 64) vt_fail("APInt wider than 64 bits: zext"); return APInt(w, U.VAL); }
APInt APInt::sext(unsigned w) const { assert(w >= getBitWidth() && "Invalid APInt SignExtend request"); VT_W("sext"); if (w > 64) vt_fail("APInt wider than 64 bits: sext"); return APInt(w, (uint64_t)getSExtValue() & vt_mask(w)); }
APInt APInt::zextOrTrunc(unsigned w) const { return w > getBitWidth() ? zext(w) : w < getBitWidth() ? trunc(w) : *this; }
APInt APInt::sextOrTrunc(unsigned w) const { return w > getBitWidth() ? sext(w) : w < getBitWidth() ? trunc(w) : *this; }
int APInt::compare(const APInt &r) const { assert(getBitWidth() == r.getBitWidth() && "Bit widths must be same for comparison"); VT_W("compare"); return U.VAL < r.U.VAL ? -1 : U.VAL > r.U.VAL; }
int APInt::compareSigned(const APInt &r) const { assert(getBitWidth() == r.getBitWidth() && "Bit widths must be same for comparison"); VT_W("compare"); int64_t a = getSExtValue(), b = r.getSExtValue(); return a < b ? -1 : a > b; }
bool APInt::equalSlowCase(const APInt &) const { vt_fail("APInt wider than 64 bits"); }
void APInt::initSlowCase(uint64_t, bool) { vt_fail("APInt wider than 64 bits"); }
void APInt::initSlowCase(const APInt &) { vt_fail("APInt wider than 64 bits"); }
void APInt::assignSlowCase(const APInt &) { vt_fail("APInt wider than 64 bits"); }
unsigned APInt::countLeadingZerosSlowCase() const { vt_fail("APInt wider than 64 bits"); }
unsigned APInt::countTrailingZerosSlowCase() const { vt_fail("APInt wider than 64 bits"); }
unsigned APInt::countPopulationSlowCase() const { vt_fail("APInt wider than 64 bits"); }
unsigned APInt::countLeadingOnesSlowCase() const { vt_fail("APInt wider than 64 bits"); }
unsigned APInt::countTrailingOnesSlowCase() const { vt_fail("APInt wider than 64 bits"); }
void APInt::flipAllBitsSlowCase() { vt_fail("APInt wider than 64 bits"); }
void APInt::shlSlowCase(unsigned) { vt_fail("APInt wider than 64 bits"); }
void APInt::lshrSlowCase(unsigned) { vt_fail("APInt wider than 64 bits"); }
void APInt::ashrSlowCase(unsigned) { vt_fail("APInt wider than 64 bits"); }
#undef VT_W
[[noreturn]] void report_fatal_error(const char *, bool) { vt_fail("fatal error"); }
[[noreturn]] void report_fatal_error(StringRef, bool) { vt_fail("fatal error"); }
[[noreturn]] void report_fatal_error(const Twine &, bool) { vt_fail("fatal error"); }
#ifndef NDEBUG
int EnableABIBreakingChecks, DisableABIBreakingChecks;
#endif
template <class S> static void *vt_newmem(size_t min, size_t ts, size_t &cap, size_t old) {
  size_t c = 2 * old + 1; if (c < min) c = min; cap = c; return malloc(c * ts); }
template <class S> void *SmallVectorBase<S>::mallocForGrow(void *, size_t min, size_t ts, size_t &cap) { return vt_newmem<S>(min, ts, cap, capacity()); }
template <class S> void SmallVectorBase<S>::grow_pod(void *first, size_t min, size_t ts) {
  size_t cap; void *n = vt_newmem<S>(min, ts, cap, capacity()); memcpy(n, BeginX, size() * ts); this->BeginX = n; this->Capacity = cap; }
template class SmallVectorBase<uint32_t>;
template class SmallVectorBase<uint64_t>;
void *allocate_buffer(size_t n, size_t) { return malloc(n); }
void deallocate_buffer(void *, size_t, size_t) {}
[[noreturn]] void report_bad_alloc_error(const char *, bool) { vt_fail("out of memory"); }
}
