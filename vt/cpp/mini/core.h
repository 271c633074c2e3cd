// A small stand-in for the parts of MLIR that code cut from lib/ uses.
// Attributes and types compare by structure; operations are plain nodes.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstring>
#include <functional>
#include <limits>
#include <numeric>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <tuple>
#include <utility>
#include <vector>
#include "llvm/ADT/APInt.h"
#include "llvm/ADT/APSInt.h"
#include "llvm/ADT/ArrayRef.h"
#include "llvm/ADT/STLExtras.h"
#include "llvm/ADT/STLFunctionalExtras.h"
#include "llvm/ADT/SmallSet.h"
#include "llvm/ADT/SmallVector.h"
#include "llvm/ADT/StringRef.h"
#include "llvm/ADT/StringSwitch.h"
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/DenseSet.h"
#include "llvm/Support/MathExtras.h"
#include "vt.h"
#undef llvm_unreachable
#define llvm_unreachable(x) vt_fail("unreachable code: " x)
#undef LLVM_DEBUG
#define LLVM_DEBUG(x)

// ---------------------------------------------------------------- APFloat
namespace llvm {
struct raw_string_ostream { raw_string_ostream(std::string &) {} template <class T> raw_string_ostream &operator<<(T &&) { return *this; } }; // messages are not looked at
struct fltSemantics { int bits; };
namespace fltsem { inline const fltSemantics half{16}, bf16{17}, single{32}, dbl{64}; }
inline double vt_round(double v, const fltSemantics *s) {
  if (s->bits == 32) return (double)(float)v;
  if (s->bits == 16) return (double)(_Float16)v;
  return v;
}
struct APFloat {
  double v; const fltSemantics *s;
  enum roundingMode { rmNearestTiesToEven, rmTowardPositive, rmTowardNegative, rmTowardZero, rmNearestTiesToAway };
  enum opStatus { opOK = 0, opInvalidOp = 1, opInexact = 16 };
  enum cmpResult { cmpLessThan, cmpEqual, cmpGreaterThan, cmpUnordered };
  static const fltSemantics &IEEEhalf() { return fltsem::half; }
  static const fltSemantics &BFloat() { return fltsem::bf16; }
  static const fltSemantics &IEEEsingle() { return fltsem::single; }
  static const fltSemantics &IEEEdouble() { return fltsem::dbl; }
  explicit APFloat(double d) : v(d), s(&fltsem::dbl) {}
  explicit APFloat(float d) : v(d), s(&fltsem::single) {}
  explicit APFloat(const fltSemantics &q) : v(0), s(&q) {}
  APFloat(const fltSemantics &q, double d) : v(vt_round(d, &q)), s(&q) {}
  const fltSemantics &getSemantics() const { return *s; }
  double convertToDouble() const { return v; }
  float convertToFloat() const { return (float)v; }
  opStatus convert(const fltSemantics &q, roundingMode, bool *lost) { double o = v; v = vt_round(v, &q); s = &q; bool same = vt_same_f64(o, v); if (lost) *lost = !same; return same ? opOK : isInfinity() ? (opStatus)20 : opInexact; }
  opStatus convertToInteger(APSInt &r, roundingMode, bool *exact) const {
    unsigned w = r.getBitWidth(); double t = std::trunc(v), top = r.isUnsigned() ? std::ldexp(1.0, w) : std::ldexp(1.0, w - 1), low = r.isUnsigned() ? 0.0 : -top;
    if (exact) *exact = t == v;
    if (!(t >= low && t < top)) return opInvalidOp;
    uint64_t bits = r.isUnsigned() && t >= 9223372036854775808.0 ? (uint64_t)(int64_t)(t - 9223372036854775808.0) + (1ull << 63) : (uint64_t)(int64_t)t;
    r = APSInt(APInt(w, w < 64 ? bits & ((1ull << w) - 1) : bits), r.isUnsigned());
    return t == v ? opOK : opInexact; }
  opStatus convertFromAPInt(const APInt &i, bool sgn, roundingMode) {
    double d = sgn ? (double)i.getSExtValue() : (double)i.getZExtValue();
    if (s == &fltsem::single) d = sgn ? (double)(float)i.getSExtValue() : (double)(float)i.getZExtValue();
    v = vt_round(d, s); return isInfinity() ? (opStatus)20 : opOK; }
  bool isNaN() const { return v != v; }
  bool isInfinity() const { return v == HUGE_VAL || v == -HUGE_VAL; }
  bool isZero() const { return v == 0; }
  bool isNegative() const { return std::signbit(v); }
  bool isExactlyValue(double d) const { return vt_same_f64(v, d); }
  APFloat operator+(const APFloat &o) const { return APFloat(*s, v + o.v); }
  APFloat operator-(const APFloat &o) const { return APFloat(*s, v - o.v); }
  APFloat operator*(const APFloat &o) const { return APFloat(*s, v * o.v); }
  APFloat operator/(const APFloat &o) const { return APFloat(*s, v / o.v); }
  APFloat operator-() const { APFloat r(*this); r.v = -v; return r; }
  bool operator==(const APFloat &o) const { return v == o.v; }
  bool operator!=(const APFloat &o) const { return v != o.v; }
  bool operator<(const APFloat &o) const { return v < o.v; }
  bool operator>(const APFloat &o) const { return v > o.v; }
  bool operator<=(const APFloat &o) const { return v <= o.v; }
  bool operator>=(const APFloat &o) const { return v >= o.v; }
  cmpResult compare(const APFloat &o) const { return v != v || o.v != o.v ? cmpUnordered : v < o.v ? cmpLessThan : v > o.v ? cmpGreaterThan : cmpEqual; }
  opStatus roundToIntegral(roundingMode m) {
    v = m == rmNearestTiesToEven ? std::nearbyint(v) : m == rmTowardPositive ? std::ceil(v) : m == rmTowardNegative ? std::floor(v)
        : m == rmTowardZero ? std::trunc(v) : std::round(v);
    return opOK;
  }
  static APFloat getZero(const fltSemantics &q, bool neg = false) { return APFloat(q, neg ? -0.0 : 0.0); }
  static APFloat getOne(const fltSemantics &q, bool neg = false) { return APFloat(q, neg ? -1.0 : 1.0); }
  static APFloat getInf(const fltSemantics &q, bool neg = false) { return APFloat(q, neg ? -HUGE_VAL : HUGE_VAL); }
  static APFloat getNaN(const fltSemantics &q) { return APFloat(q, NAN); }
  static APFloat getQNaN(const fltSemantics &q) { return APFloat(q, NAN); }
  static APFloat getLargest(const fltSemantics &q, bool neg = false) {
    double d = q.bits == 64 ? 1.7976931348623157e308 : q.bits == 32 ? 3.4028234663852886e38 : q.bits == 16 ? 65504.0 : 3.3895313892515355e38;
    return APFloat(q, neg ? -d : d);
  }
};
} // namespace llvm

// ------------------------------------------------------------------ casts
namespace mlir {
using llvm::APFloat; using llvm::APInt; using llvm::APSInt; using llvm::ArrayRef; using llvm::MutableArrayRef; using llvm::SmallVector;
using llvm::SmallVectorImpl; using llvm::StringRef; using llvm::function_ref; using llvm::DenseMap; using llvm::DenseSet; using llvm::SmallSet;
struct MLIRContext { int x; };
inline MLIRContext vt_ctx;
struct Twine { Twine(const char *) {} Twine(const std::string &) {} Twine(StringRef) {} Twine() {} template <class T> Twine(T) {}
  friend Twine operator+(const Twine &, const Twine &) { return Twine(); } };
struct LogicalResult { bool ok; explicit LogicalResult(bool b = true) : ok(b) {}
  bool succeeded() const { return ok; } bool failed() const { return !ok; }
  static LogicalResult success(bool b = true) { return LogicalResult(b); } static LogicalResult failure(bool b = true) { return LogicalResult(!b); } };
inline LogicalResult success(bool b = true) { return LogicalResult(b); }
inline LogicalResult failure(bool b = true) { return LogicalResult(!b); }
inline bool succeeded(LogicalResult r) { return r.ok; }
inline bool failed(LogicalResult r) { return !r.ok; }
template <class T> struct FailureOr : std::optional<T> {
  using std::optional<T>::optional;
  FailureOr(LogicalResult r) {}
  FailureOr() {}
  FailureOr(const T &t) : std::optional<T>(t) {}
  operator LogicalResult() const { return LogicalResult(this->has_value()); }
};
template <class T> bool succeeded(const FailureOr<T> &r) { return r.has_value(); }
template <class T> bool failed(const FailureOr<T> &r) { return !r.has_value(); }
struct InFlightDiagnostic { template <class T> InFlightDiagnostic &operator<<(T &&) { return *this; } operator LogicalResult() const { return failure(); } };

template <class To, class... More, class From> bool isa(const From &v) {
  if (To::classof(v)) return true;
  if constexpr (sizeof...(More) > 0) return isa<More...>(v);
  return false;
}
template <class To, class From> To cast(const From &v) { assert(isa<To>(v) && "cast to a wrong class"); return To::vt_from(v); }
template <class To, class From> To dyn_cast(const From &v) { return isa<To>(v) ? To::vt_from(v) : To(); }
template <class To, class From> To dyn_cast_or_null(const From &v) { return v && isa<To>(v) ? To::vt_from(v) : To(); }
template <class To, class From> To dyn_cast_if_present(const From &v) { return dyn_cast_or_null<To>(v); }
template <class To, class From> To cast_or_null(const From &v) { return v ? cast<To>(v) : To(); }
template <class To, class From> To cast_if_present(const From &v) { return v ? cast<To>(v) : To(); }
template <class... To, class From> bool isa_and_nonnull(const From &v) { return v && isa<To...>(v); }
template <class... To, class From> bool isa_and_present(const From &v) { return v && isa<To...>(v); }

// ------------------------------------------------------------------ types
enum TK { TK_Int, TK_Float, TK_Index, TK_Complex, TK_Tensor, TK_UTensor, TK_TInt, TK_TFloat, TK_TBool, TK_TNumber, TK_TStr, TK_TNone, TK_TDevice, TK_TAny,
          TK_TGen, TK_TList, TK_TOpt, TK_TTuple, TK_TUnion, TK_TDict, TK_VT, TK_NVT, TK_QInt8, TK_QUInt8, TK_QInt16, TK_QInt32, TK_Opaque, TK_None };
struct TypeStorage;
class Type;
class Attribute;
class Type {
public:
  TypeStorage *p = nullptr;
  Type() {} Type(TypeStorage *q) : p(q) {} Type(std::nullptr_t) {}
  explicit operator bool() const { return p; }
  bool operator!() const { return !p; }
  inline bool operator==(const Type &o) const;
  bool operator!=(const Type &o) const { return !(*this == o); }
  static bool classof(Type) { return true; }
  static Type vt_from(Type t) { return t; }
  inline TK kind() const;
  MLIRContext *getContext() const { return &vt_ctx; }
  inline bool isInteger() const; inline bool isInteger(unsigned) const; inline bool isSignedInteger() const; inline bool isUnsignedInteger() const;
  inline bool isSignlessInteger() const; inline bool isSignlessInteger(unsigned) const; inline bool isSignedInteger(unsigned) const;
  inline bool isUnsignedInteger(unsigned) const; inline bool isIntOrFloat() const; inline bool isSignlessIntOrFloat() const; inline bool isIndex() const; inline bool isIntOrIndex() const;
  inline bool isF16() const; inline bool isBF16() const; inline bool isF32() const; inline bool isF64() const; bool isFloat() const { return kind() == TK_Float; }
  inline unsigned getIntOrFloatBitWidth() const; bool isIntOrIndexOrFloat() const { return isIntOrFloat() || isIndex(); }
  void print(llvm::raw_string_ostream &) const {}
};
struct TypeStorage {
  TK k; unsigned width = 0; int sign = 0; // sign: 0 signless, 1 signed, 2 unsigned
  const llvm::fltSemantics *sem = nullptr;
  std::vector<Type> elems; bool hasShape = false; std::vector<int64_t> shape; std::string name;
};
inline TK Type::kind() const { return p->k; }
inline bool Type::operator==(const Type &o) const {
  if (p == o.p) return true;
  if (!p || !o.p || p->k != o.p->k || p->width != o.p->width || p->sign != o.p->sign || p->elems.size() != o.p->elems.size() || p->hasShape != o.p->hasShape || p->name != o.p->name || p->sem != o.p->sem) return false;
  if (p->hasShape && p->shape.size() != o.p->shape.size()) return false;
  if (p->hasShape) for (size_t i = 0; i < p->shape.size(); ++i) if (p->shape[i] != o.p->shape[i]) return false;
  for (size_t i = 0; i < p->elems.size(); ++i) if (p->elems[i] != o.p->elems[i]) return false;
  return true;
}
inline TypeStorage *vt_newty(TK k) { auto *s = new TypeStorage(); s->k = k; return s; }
#define VT_TYPE(Name, cond) \
  using Type::Type; static bool classof(Type t) { return (cond); } static Name vt_from(Type t) { Name n; n.p = t.p; return n; }
class IntegerType : public Type {
public:
  VT_TYPE(IntegerType, t.kind() == TK_Int)
  enum SignednessSemantics { Signless, Signed, Unsigned };
  static IntegerType get(MLIRContext *, unsigned w, SignednessSemantics s = Signless) { auto *q = vt_newty(TK_Int); q->width = w; q->sign = s; return IntegerType(q); }
  unsigned getWidth() const { return p->width; }
  SignednessSemantics getSignedness() const { return (SignednessSemantics)p->sign; }
  bool isSigned() const { return p->sign == 1; } bool isUnsigned() const { return p->sign == 2; } bool isSignless() const { return p->sign == 0; }
};
class FloatType : public Type {
public:
  VT_TYPE(FloatType, t.kind() == TK_Float)
  unsigned getWidth() const { return p->width; }
  const llvm::fltSemantics &getFloatSemantics() const { return *p->sem; }
  static FloatType vt_make(unsigned w, const llvm::fltSemantics *s, const char *n) { auto *q = vt_newty(TK_Float); q->width = w; q->sem = s; q->name = n; return FloatType(q); }
  static FloatType getF64(MLIRContext *) { return vt_make(64, &llvm::fltsem::dbl, "f64"); }
  static FloatType getF32(MLIRContext *) { return vt_make(32, &llvm::fltsem::single, "f32"); }
  static FloatType getF16(MLIRContext *) { return vt_make(16, &llvm::fltsem::half, "f16"); }
  static FloatType getBF16(MLIRContext *) { return vt_make(16, &llvm::fltsem::bf16, "bf16"); }
};
#define VT_FLOAT(Name, w, sem, str) class Name : public FloatType { public: using FloatType::FloatType; \
  static bool classof(Type t) { return t.kind() == TK_Float && t.p->name == str; } static Name vt_from(Type t) { Name n; n.p = t.p; return n; } \
  static Name get(MLIRContext *) { Name n; n.p = vt_make(w, sem, str).p; return n; } };
VT_FLOAT(Float64Type, 64, &llvm::fltsem::dbl, "f64") VT_FLOAT(Float32Type, 32, &llvm::fltsem::single, "f32")
VT_FLOAT(Float16Type, 16, &llvm::fltsem::half, "f16") VT_FLOAT(BFloat16Type, 16, &llvm::fltsem::bf16, "bf16")
VT_FLOAT(Float8E5M2Type, 8, nullptr, "f8E5M2") VT_FLOAT(Float8E4M3FNType, 8, nullptr, "f8E4M3FN") VT_FLOAT(Float8E5M2FNUZType, 8, nullptr, "f8E5M2FNUZ")
VT_FLOAT(Float8E4M3FNUZType, 8, nullptr, "f8E4M3FNUZ") VT_FLOAT(Float8E4M3B11FNUZType, 8, nullptr, "f8E4M3B11FNUZ") VT_FLOAT(Float8E8M0FNUType, 8, nullptr, "f8E8M0FNU") VT_FLOAT(Float4E2M1FNType, 4, nullptr, "f4E2M1FN")
class IndexType : public Type { public: VT_TYPE(IndexType, t.kind() == TK_Index) static IndexType get(MLIRContext *) { return IndexType(vt_newty(TK_Index)); } };
class NoneType : public Type { public: VT_TYPE(NoneType, t.kind() == TK_None) static NoneType get(MLIRContext *) { return NoneType(vt_newty(TK_None)); } };
class ComplexType : public Type { public: VT_TYPE(ComplexType, t.kind() == TK_Complex)
  static ComplexType get(Type e) { auto *q = vt_newty(TK_Complex); q->elems = {e}; return ComplexType(q); } Type getElementType() const { return p->elems[0]; } };
struct ShapedType : Type {
  VT_TYPE(ShapedType, t.kind() == TK_Tensor || t.kind() == TK_UTensor)
  static constexpr int64_t kDynamic = std::numeric_limits<int64_t>::min();
  static bool isDynamic(int64_t d) { return d == kDynamic; }
  bool hasRank() const { return p->hasShape; }
  int64_t getRank() const { return p->shape.size(); }
  ArrayRef<int64_t> getShape() const { assert(hasRank() && "cannot query the shape of an unranked type"); return p->shape; }
  int64_t getDimSize(unsigned i) const { return p->shape[i]; }
  bool isDynamicDim(unsigned i) const { return isDynamic(p->shape[i]); }
  bool hasStaticShape() const { if (!hasRank()) return false; for (auto d : p->shape) if (isDynamic(d)) return false; return true; }
  int64_t getNumDynamicDims() const { int64_t n = 0; for (auto d : p->shape) n += isDynamic(d); return n; }
  static int64_t getNumElements(ArrayRef<int64_t> s) { int64_t n = 1; for (auto d : s) n *= d; return n; }
  int64_t getNumElements() const { assert(hasStaticShape() && "element count of a dynamic shape"); return getNumElements(getShape()); }
  Type getElementType() const { return p->elems[0]; }
  unsigned getElementTypeBitWidth() const { return getElementType().getIntOrFloatBitWidth(); }
};
struct TensorType : ShapedType { using ShapedType::ShapedType; static bool classof(Type t) { return ShapedType::classof(t); } static TensorType vt_from(Type t) { TensorType n; n.p = t.p; return n; }
  inline TensorType clone(ArrayRef<int64_t> s) const; inline TensorType clone(Type e) const; };
struct RankedTensorType : TensorType {
  using TensorType::TensorType; static bool classof(Type t) { return t.kind() == TK_Tensor; } static RankedTensorType vt_from(Type t) { RankedTensorType n; n.p = t.p; return n; }
  template <class A> static RankedTensorType get(ArrayRef<int64_t> s, Type e, A) { return get(s, e); }
  static RankedTensorType get(ArrayRef<int64_t> s, Type e) { auto *q = vt_newty(TK_Tensor); q->hasShape = true; q->shape.assign(s.begin(), s.end()); q->elems = {e}; RankedTensorType r; r.p = q; return r; }
  RankedTensorType clone(ArrayRef<int64_t> s) const { return get(s, getElementType()); }
  RankedTensorType clone(Type e) const { return get(getShape(), e); }
};
struct UnrankedTensorType : TensorType { using TensorType::TensorType; static bool classof(Type t) { return t.kind() == TK_UTensor; } static UnrankedTensorType vt_from(Type t) { UnrankedTensorType n; n.p = t.p; return n; }
  static UnrankedTensorType get(Type e) { auto *q = vt_newty(TK_UTensor); q->elems = {e}; UnrankedTensorType r; r.p = q; return r; } };
inline TensorType TensorType::clone(ArrayRef<int64_t> s) const { return RankedTensorType::get(s, getElementType()); }
inline TensorType TensorType::clone(Type e) const { return RankedTensorType::get(getShape(), e); }
inline LogicalResult verifyCompatibleShape(ArrayRef<int64_t> a, ArrayRef<int64_t> b) {
  if (a.size() != b.size()) return failure();
  for (size_t i = 0; i < a.size(); ++i) if (a[i] != ShapedType::kDynamic && b[i] != ShapedType::kDynamic && a[i] != b[i]) return failure();
  return success(); }
inline bool Type::isInteger() const { return kind() == TK_Int; }
inline bool Type::isInteger(unsigned w) const { return kind() == TK_Int && p->width == w; }
inline bool Type::isSignedInteger() const { return kind() == TK_Int && p->sign == 1; }
inline bool Type::isUnsignedInteger() const { return kind() == TK_Int && p->sign == 2; }
inline bool Type::isSignlessInteger() const { return kind() == TK_Int && p->sign == 0; }
inline bool Type::isSignlessInteger(unsigned w) const { return isSignlessInteger() && p->width == w; }
inline bool Type::isSignedInteger(unsigned w) const { return isSignedInteger() && p->width == w; }
inline bool Type::isUnsignedInteger(unsigned w) const { return isUnsignedInteger() && p->width == w; }
inline bool Type::isIntOrFloat() const { return kind() == TK_Int || kind() == TK_Float; }
inline bool Type::isSignlessIntOrFloat() const { return isSignlessInteger() || kind() == TK_Float; }
inline bool Type::isIndex() const { return kind() == TK_Index; }
inline bool Type::isIntOrIndex() const { return kind() == TK_Int || isIndex(); }
inline bool Type::isF16() const { return kind() == TK_Float && p->name == "f16"; }
inline bool Type::isBF16() const { return kind() == TK_Float && p->name == "bf16"; }
inline bool Type::isF32() const { return kind() == TK_Float && p->name == "f32"; }
inline bool Type::isF64() const { return kind() == TK_Float && p->name == "f64"; }
inline unsigned Type::getIntOrFloatBitWidth() const { assert(isIntOrFloat() && "bit width of a type that is not a number"); return p->width; }
inline Type getElementTypeOrSelf(Type t) { return isa<ShapedType>(t) ? cast<ShapedType>(t).getElementType() : t; }

// ------------------------------------------------------------- attributes
enum AK { AK_Int, AK_Float, AK_Str, AK_Unit, AK_Dense, AK_Array, AK_Type, AK_Resource };
struct AttrStorage;
class Attribute {
public:
  AttrStorage *p = nullptr;
  Attribute() {} Attribute(AttrStorage *q) : p(q) {} Attribute(std::nullptr_t) {}
  explicit operator bool() const { return p; }
  bool operator!() const { return !p; }
  inline bool operator==(const Attribute &o) const;
  bool operator!=(const Attribute &o) const { return !(*this == o); }
  static bool classof(Attribute) { return true; }
  static Attribute vt_from(Attribute a) { return a; }
  inline AK kind() const;
  MLIRContext *getContext() const { return &vt_ctx; }
};
struct AttrStorage {
  AK k; Type ty; std::vector<APInt> ints; std::vector<APFloat> fps; std::string str; bool splat = false; std::vector<Attribute> elems;
};
inline AK Attribute::kind() const { return p->k; }
inline bool Attribute::operator==(const Attribute &o) const {
  if (p == o.p) return true;
  if (!p || !o.p || p->k != o.p->k || p->ty != o.p->ty || p->str != o.p->str || p->ints.size() != o.p->ints.size() || p->fps.size() != o.p->fps.size() ||
      p->elems.size() != o.p->elems.size() || p->splat != o.p->splat) return false;
  for (size_t i = 0; i < p->ints.size(); ++i) if (p->ints[i] != o.p->ints[i]) return false;
  for (size_t i = 0; i < p->fps.size(); ++i) if (!vt_same_f64(p->fps[i].v, o.p->fps[i].v)) return false;
  for (size_t i = 0; i < p->elems.size(); ++i) if (p->elems[i] != o.p->elems[i]) return false;
  return true;
}
inline AttrStorage *vt_newattr(AK k, Type t) { auto *s = new AttrStorage(); s->k = k; s->ty = t; return s; }
#define VT_ATTR(Name, cond) \
  static bool classof(Attribute a) { return (cond); } static Name vt_from(Attribute a) { Name n; n.p = a.p; return n; }
struct TypedAttr : Attribute { using Attribute::Attribute; VT_ATTR(TypedAttr, a.kind() != AK_Unit && a.kind() != AK_Array) Type getType() const { return p->ty; } };
struct IntegerAttr : TypedAttr {
  using TypedAttr::TypedAttr; VT_ATTR(IntegerAttr, a.kind() == AK_Int)
  static IntegerAttr get(Type t, const APInt &v) {
    assert((t.isIndex() ? v.getBitWidth() == 64 : t.isInteger() && v.getBitWidth() == t.getIntOrFloatBitWidth()) && "integer attribute value width does not match its type");
    auto *s = vt_newattr(AK_Int, t); s->ints.push_back(v); IntegerAttr a; a.p = s; return a; }
  static IntegerAttr get(Type t, int64_t v) {
    if (t.isIndex()) return get(t, APInt(64, v));
    assert(t.isInteger() && "integer attribute of a type that is not an integer");
    return get(t, APInt(t.getIntOrFloatBitWidth(), v, t.isSignedInteger())); }
  static IntegerAttr get(MLIRContext *c, const APSInt &v) { return get(IntegerType::get(c, v.getBitWidth(), v.isUnsigned() ? IntegerType::Unsigned : IntegerType::Signed), (const APInt &)v); }
  APInt getValue() const { return p->ints[0]; }
  int64_t getInt() const { assert((getType().isSignlessInteger() || getType().isIndex()) && "getInt of an attribute that is not signless"); return getValue().getSExtValue(); }
  int64_t getSInt() const { assert(getType().isSignedInteger() && "must be signed integer"); return getValue().getSExtValue(); }
  uint64_t getUInt() const { assert(getType().isUnsignedInteger() && "must be unsigned integer"); return getValue().getZExtValue(); }
  APSInt getAPSInt() const { return APSInt(getValue(), getType().isUnsignedInteger()); }
};
struct BoolAttr : IntegerAttr { using IntegerAttr::IntegerAttr; static bool classof(Attribute a) { return a.kind() == AK_Int && a.p->ty.isSignlessInteger(1); } static BoolAttr vt_from(Attribute a) { BoolAttr n; n.p = a.p; return n; }
  static BoolAttr get(MLIRContext *c, bool b) { BoolAttr a; a.p = IntegerAttr::get(IntegerType::get(c, 1), b).p; return a; } bool getValue() const { return p->ints[0].getBoolValue(); } };
struct FloatAttr : TypedAttr {
  using TypedAttr::TypedAttr; VT_ATTR(FloatAttr, a.kind() == AK_Float)
  static FloatAttr get(Type t, const APFloat &v) { assert(isa<FloatType>(t) && &mlir::cast<FloatType>(t).getFloatSemantics() == &v.getSemantics() && "float attribute semantics do not match its type");
    auto *s = vt_newattr(AK_Float, t); s->fps.push_back(v); FloatAttr a; a.p = s; return a; }
  static FloatAttr get(Type t, double d) { assert(mlir::isa<FloatType>(t) && "float attribute of a type that is not a float");
    return get(t, APFloat(mlir::cast<FloatType>(t).getFloatSemantics(), d)); }
  APFloat getValue() const { return p->fps[0]; }
  double getValueAsDouble() const { return p->fps[0].v; }
};
struct StringAttr : TypedAttr { using TypedAttr::TypedAttr; VT_ATTR(StringAttr, a.kind() == AK_Str)
  static StringAttr get(MLIRContext *, const std::string &v) { auto *s = vt_newattr(AK_Str, Type()); s->str = v; StringAttr a; a.p = s; return a; }
  StringRef getValue() const { return p->str; } std::string str() const { return p->str; } };
struct UnitAttr : Attribute { using Attribute::Attribute; VT_ATTR(UnitAttr, a.kind() == AK_Unit) static UnitAttr get(MLIRContext *) { UnitAttr a; a.p = vt_newattr(AK_Unit, Type()); return a; } };
struct TypeAttr : Attribute { using Attribute::Attribute; VT_ATTR(TypeAttr, a.kind() == AK_Type) static TypeAttr get(Type t) { TypeAttr a; a.p = vt_newattr(AK_Type, t); return a; } Type getValue() const { return p->ty; } };
struct ArrayAttr : Attribute { using Attribute::Attribute; VT_ATTR(ArrayAttr, a.kind() == AK_Array)
  static ArrayAttr get(MLIRContext *, ArrayRef<Attribute> e) { ArrayAttr a; a.p = vt_newattr(AK_Array, Type()); a.p->elems.assign(e.begin(), e.end()); return a; }
  ArrayRef<Attribute> getValue() const { return p->elems; } size_t size() const { return p->elems.size(); } Attribute operator[](size_t i) const { return p->elems[i]; }
  auto begin() const { return p->elems.begin(); } auto end() const { return p->elems.end(); } };

struct DenseElementsAttr;
namespace vt {
template <class T> struct Get;
inline size_t at(AttrStorage *p, size_t i) { return p->splat ? 0 : i; }
template <> struct Get<APInt> { static APInt get(AttrStorage *p, size_t i) { assert(p->ints.size() && "integer view of a float literal"); return p->ints[at(p, i)]; } };
template <> struct Get<APFloat> { static APFloat get(AttrStorage *p, size_t i) { assert(p->fps.size() && "float view of an integer literal"); return p->fps[at(p, i)]; } };
template <> struct Get<IntegerAttr> { static IntegerAttr get(AttrStorage *p, size_t i) { return IntegerAttr::get(p->ty.p->elems[0], Get<APInt>::get(p, i)); } };
template <> struct Get<FloatAttr> { static FloatAttr get(AttrStorage *p, size_t i) { return FloatAttr::get(p->ty.p->elems[0], Get<APFloat>::get(p, i)); } };
template <> struct Get<Attribute> { static Attribute get(AttrStorage *p, size_t i) { return p->ints.size() ? (Attribute)Get<IntegerAttr>::get(p, i) : (Attribute)Get<FloatAttr>::get(p, i); } };
template <> struct Get<bool> { static bool get(AttrStorage *p, size_t i) { assert(p->ty.p->elems[0].isInteger(1) && "bool view"); return Get<APInt>::get(p, i).getBoolValue(); } };
template <> struct Get<int64_t> { static int64_t get(AttrStorage *p, size_t i) { assert(p->ty.p->elems[0].isInteger(64) && "int64 view"); return Get<APInt>::get(p, i).getSExtValue(); } };
template <> struct Get<int32_t> { static int32_t get(AttrStorage *p, size_t i) { assert(p->ty.p->elems[0].isInteger(32) && "int32 view"); return Get<APInt>::get(p, i).getSExtValue(); } };
template <> struct Get<int8_t> { static int8_t get(AttrStorage *p, size_t i) { assert(p->ty.p->elems[0].isInteger(8) && "int8 view"); return Get<APInt>::get(p, i).getSExtValue(); } };
template <> struct Get<uint8_t> { static uint8_t get(AttrStorage *p, size_t i) { assert(p->ty.p->elems[0].isInteger(8) && "uint8 view"); return Get<APInt>::get(p, i).getZExtValue(); } };
template <> struct Get<float> { static float get(AttrStorage *p, size_t i) { return (float)Get<APFloat>::get(p, i).v; } };
template <> struct Get<double> { static double get(AttrStorage *p, size_t i) { return Get<APFloat>::get(p, i).v; } };
template <class T> struct Range {
  AttrStorage *p; size_t n;
  struct It {
    using iterator_category = std::random_access_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = T *; using reference = T;
    AttrStorage *p; size_t i;
    T operator*() const { return Get<T>::get(p, i); } It &operator++() { ++i; return *this; } It operator++(int) { It o = *this; ++i; return o; }
    It &operator--() { --i; return *this; } bool operator==(const It &o) const { return i == o.i; } bool operator!=(const It &o) const { return i != o.i; }
    bool operator<(const It &o) const { return i < o.i; }
    It operator+(std::ptrdiff_t d) const { return It{p, i + d}; } It operator-(std::ptrdiff_t d) const { return It{p, i - d}; } It &operator+=(std::ptrdiff_t d) { i += d; return *this; }
    std::ptrdiff_t operator-(const It &o) const { return (std::ptrdiff_t)i - (std::ptrdiff_t)o.i; } T operator[](std::ptrdiff_t d) const { return Get<T>::get(p, i + d); } };
  using iterator = It; using const_iterator = It; using value_type = T;
  It begin() const { return It{p, 0}; } It end() const { return It{p, n}; } size_t size() const { return n; } bool empty() const { return n == 0; }
  T operator[](size_t i) const { assert(i < n && "element index out of range"); return Get<T>::get(p, i); } };
} // namespace vt
struct ElementsAttr : TypedAttr {
  using TypedAttr::TypedAttr; VT_ATTR(ElementsAttr, a.kind() == AK_Dense || a.kind() == AK_Resource)
  bool isSplat() const { return p->splat; }
  ShapedType getShapedType() const { return mlir::cast<ShapedType>(p->ty); }
  Type getElementType() const { return p->ty.p->elems[0]; }
  int64_t getNumElements() const { return getShapedType().getNumElements(); }
  int64_t size() const { return getNumElements(); }
  bool empty() const { return size() == 0; }
  template <class T> vt::Range<T> getValues() const { return vt::Range<T>{p, (size_t)getNumElements()}; }
  template <class T> T getSplatValue() const { assert(isSplat() && "expected splat attribute"); return vt::Get<T>::get(p, 0); }
  template <class T> auto value_begin() const { return getValues<T>().begin(); }
  template <class T> auto value_end() const { return getValues<T>().end(); }
  template <class T> std::optional<vt::Range<T>> tryGetValues() const { return getValues<T>(); }
};
struct DenseElementsAttr : ElementsAttr {
  using ElementsAttr::ElementsAttr; VT_ATTR(DenseElementsAttr, a.kind() == AK_Dense)
  ShapedType getType() const { return mlir::cast<ShapedType>(p->ty); }
  static DenseElementsAttr vt_check(Type t, size_t n, AttrStorage *s) {
    auto st = mlir::cast<ShapedType>(t); assert(st.hasStaticShape() && "literal of a dynamic shape");
    int64_t want = st.getNumElements();
    if (n == 1) s->splat = true; else assert((int64_t)n == want && "number of values does not match the shape");
    DenseElementsAttr a; a.p = s; return a; }
  static DenseElementsAttr get(ShapedType t, ArrayRef<APInt> v) {
    assert(t.getElementType().isInteger() || t.getElementType().isIndex()); auto *s = vt_newattr(AK_Dense, t);
    for (auto &x : v) { assert(x.getBitWidth() == t.getElementType().getIntOrFloatBitWidth() && "expected integer element bitwidth to match the type"); s->ints.push_back(x); }
    return vt_check(t, v.size(), s); }
  static DenseElementsAttr get(ShapedType t, ArrayRef<APFloat> v) {
    assert(isa<FloatType>(t.getElementType()) && "float values of a type that is not a float"); auto *s = vt_newattr(AK_Dense, t);
    for (auto &x : v) { assert(&x.getSemantics() == &mlir::cast<FloatType>(t.getElementType()).getFloatSemantics() && "float semantics do not match the type"); s->fps.push_back(x); }
    return vt_check(t, v.size(), s); }
  static DenseElementsAttr get(ShapedType t, ArrayRef<Attribute> v) {
    auto *s = vt_newattr(AK_Dense, t);
    for (auto x : v) {
      assert(mlir::cast<TypedAttr>(x).getType() == t.getElementType() && "element attribute type does not match the literal's element type");
      if (x.kind() == AK_Int) s->ints.push_back(x.p->ints[0]); else if (x.kind() == AK_Float) s->fps.push_back(x.p->fps[0]); else vt_fail("element attribute kind"); }
    return vt_check(t, v.size(), s); }
  static DenseElementsAttr get(ShapedType t, const SmallVectorImpl<Attribute> &v) { return get(t, ArrayRef<Attribute>(v)); }
  static DenseElementsAttr get(ShapedType t, const SmallVectorImpl<APInt> &v) { return get(t, ArrayRef<APInt>(v)); }
  static DenseElementsAttr get(ShapedType t, const SmallVectorImpl<APFloat> &v) { return get(t, ArrayRef<APFloat>(v)); }
  static DenseElementsAttr get(ShapedType t, Attribute a) { return get(t, ArrayRef<Attribute>(a)); }
  static DenseElementsAttr get(ShapedType t, IntegerAttr a) { return get(t, ArrayRef<Attribute>((Attribute)a)); }
  static DenseElementsAttr get(ShapedType t, FloatAttr a) { return get(t, ArrayRef<Attribute>((Attribute)a)); }
  static DenseElementsAttr get(ShapedType t, APInt a) { return get(t, ArrayRef<APInt>(a)); }
  static DenseElementsAttr get(ShapedType t, APFloat a) { return get(t, ArrayRef<APFloat>(a)); }
  template <class T, std::enable_if_t<std::is_arithmetic_v<T>, int> = 0> static DenseElementsAttr get(ShapedType t, ArrayRef<T> v) {
    auto *s = vt_newattr(AK_Dense, t); Type e = t.getElementType();
    for (T x : v) {
      if constexpr (std::is_floating_point_v<T>) { assert(isa<FloatType>(e) && e.getIntOrFloatBitWidth() == 8 * sizeof(T) && "element type does not match"); s->fps.push_back(APFloat(mlir::cast<FloatType>(e).getFloatSemantics(), (double)x)); }
      else { assert(e.isInteger() && e.getIntOrFloatBitWidth() == (std::is_same_v<T, bool> ? 1 : 8 * sizeof(T)) && "element type does not match"); s->ints.push_back(APInt(e.getIntOrFloatBitWidth(), (uint64_t)(int64_t)x, std::is_signed_v<T>)); } }
    return vt_check(t, v.size(), s); }
  template <class T, std::enable_if_t<std::is_arithmetic_v<T>, int> = 0> static DenseElementsAttr get(ShapedType t, T v) { return get(t, ArrayRef<T>(&v, 1)); }
  template <class T, std::enable_if_t<std::is_arithmetic_v<T>, int> = 0> static DenseElementsAttr get(ShapedType t, const SmallVectorImpl<T> &v) { return get(t, ArrayRef<T>(v)); }
  template <class T, std::enable_if_t<std::is_arithmetic_v<T>, int> = 0> static DenseElementsAttr get(ShapedType t, const std::initializer_list<T> &v) { return get(t, ArrayRef<T>(v)); }
  DenseElementsAttr reshape(ShapedType t) const { assert((isSplat() || t.getNumElements() == getNumElements()) && t.getElementType() == getElementType() && "reshape changes the elements");
    DenseElementsAttr a; a.p = new AttrStorage(*p); a.p->ty = t; return a; }
  DenseElementsAttr resizeSplat(ShapedType t) const { assert(isSplat()); DenseElementsAttr a; a.p = new AttrStorage(*p); a.p->ty = t; return a; }
};
struct SplatElementsAttr : DenseElementsAttr { using DenseElementsAttr::DenseElementsAttr; static bool classof(Attribute a) { return a.kind() == AK_Dense && a.p->splat; } static SplatElementsAttr vt_from(Attribute a) { SplatElementsAttr n; n.p = a.p; return n; } };
struct DenseIntElementsAttr : DenseElementsAttr { using DenseElementsAttr::DenseElementsAttr; static bool classof(Attribute a) { return a.kind() == AK_Dense && a.p->ty.p->elems[0].isIntOrIndex(); } static DenseIntElementsAttr vt_from(Attribute a) { DenseIntElementsAttr n; n.p = a.p; return n; }
  auto begin() const { return getValues<APInt>().begin(); } auto end() const { return getValues<APInt>().end(); }
  template <class T> static DenseIntElementsAttr get(const ShapedType &t, T &&v) { DenseIntElementsAttr a; a.p = DenseElementsAttr::get(t, v).p; return a; } };
struct DenseFPElementsAttr : DenseElementsAttr { using DenseElementsAttr::DenseElementsAttr; static bool classof(Attribute a) { return a.kind() == AK_Dense && a.p->ty.p->elems[0].isFloat(); } static DenseFPElementsAttr vt_from(Attribute a) { DenseFPElementsAttr n; n.p = a.p; return n; }
  template <class T> static DenseFPElementsAttr get(const ShapedType &t, T &&v) { DenseFPElementsAttr a; a.p = DenseElementsAttr::get(t, v).p; return a; } };
struct DenseResourceElementsAttr : ElementsAttr { using ElementsAttr::ElementsAttr; VT_ATTR(DenseResourceElementsAttr, a.kind() == AK_Resource)
  struct Blob { ArrayRef<char> getData() { return {}; } }; struct H { Blob *getBlob() { return nullptr; } }; H getRawHandle() { return H(); } };

// --------------------------------------------------------------------- IR
struct Operation; struct Block; struct Region;
struct Location { Location() {} MLIRContext *getContext() const { return &vt_ctx; } };
struct UnknownLoc : Location { static Location get(MLIRContext *) { return Location(); } };
inline InFlightDiagnostic emitError(Location) { return InFlightDiagnostic(); }
struct ValueImpl { Type ty; Operation *def = nullptr; unsigned idx = 0; std::vector<Operation *> users; std::string name;
  bool isFloat = false; int64_t ival = 0; double fval = 0; // the value of a block argument at run time
};
class Value {
public:
  ValueImpl *p = nullptr;
  Value() {} Value(ValueImpl *q) : p(q) {} Value(std::nullptr_t) {}
  operator bool() const { return p; }
  bool operator==(const Value &o) const { return p == o.p; }
  bool operator!=(const Value &o) const { return p != o.p; }
  bool operator<(const Value &o) const { return p < o.p; }
  static bool classof(Value) { return true; } static Value vt_from(Value v) { return v; }
  Type getType() const { return p->ty; }
  void setType(Type t) { p->ty = t; }
  Operation *getDefiningOp() const { return p->def; }
  template <class T> T getDefiningOp() const { return p->def && T::classof(p->def) ? T(p->def) : T(); }
  bool hasOneUse() const { return p->users.size() == 1; }
  bool use_empty() const { return p->users.empty(); }
  ArrayRef<Operation *> getUsers() const { return p->users; }
  inline void replaceAllUsesWith(Value v);
  Location getLoc() const { return Location(); }
  MLIRContext *getContext() const { return &vt_ctx; }
};
using OpResult = Value; using BlockArgument = Value;
template <class T> struct TypedValue : Value { using Value::Value; TypedValue(Value v) : Value(v) {} T getType() const { return mlir::cast<T>(p->ty); } };
struct ValueRange {
  std::vector<Value> v;
  ValueRange() {} ValueRange(std::nullptr_t) {} ValueRange(Value x) : v{x} {} ValueRange(ArrayRef<Value> a) : v(a.begin(), a.end()) {} ValueRange(std::vector<Value> a) : v(std::move(a)) {}
  ValueRange(const SmallVectorImpl<Value> &a) : v(a.begin(), a.end()) {} ValueRange(std::initializer_list<Value> a) : v(a) {}
  auto begin() const { return v.begin(); } auto end() const { return v.end(); } size_t size() const { return v.size(); } bool empty() const { return v.empty(); }
  Value operator[](size_t i) const { assert(i < v.size() && "operand index out of range"); return v[i]; } Value front() const { return (*this)[0]; } Value back() const { return (*this)[size() - 1]; }
  ValueRange slice(size_t a, size_t n) const { assert(a + n <= v.size()); return ValueRange(std::vector<Value>(v.begin() + a, v.begin() + a + n)); }
  ValueRange drop_front(size_t n = 1) const { return slice(n, size() - n); } ValueRange drop_back(size_t n = 1) const { return slice(0, size() - n); } ValueRange take_front(size_t n) const { return slice(0, n); }
  std::vector<Type> getTypes() const { std::vector<Type> t; for (auto x : v) t.push_back(x.getType()); return t; }
  std::vector<Type> getType() const { return getTypes(); }
};
using OperandRange = ValueRange; using ResultRange = ValueRange;
struct TypeRange { std::vector<Type> v; TypeRange() {} Type operator[](size_t i) const { assert(i < v.size()); return v[i]; } TypeRange(ArrayRef<Type> a) : v(a.begin(), a.end()) {} TypeRange(std::vector<Type> a) : v(a) {} TypeRange(Type t) : v{t} {}
  auto begin() const { return v.begin(); } auto end() const { return v.end(); } size_t size() const { return v.size(); } };
struct OpInfo { const char *name; bool pure, readonly, valuesem; };
struct MemoryEffectOpInterface;
struct Operation {
  const OpInfo *info = nullptr; std::vector<Value> operands; std::vector<Value> results; std::vector<std::pair<std::string, Attribute>> attrs;
  bool erased = false, replaced = false; std::vector<Value> replacement; bool usedByOther = false;
  StringRef vt_name() const { return info->name; }
  struct Name { StringRef n; StringRef getStringRef() const { return n; } bool operator==(const Name &o) const { return n == o.n; } }; Name getName() const { return Name{info->name}; }
  unsigned getNumOperands() const { return operands.size(); } unsigned getNumResults() const { return results.size(); }
  Value getOperand(unsigned i) const { assert(i < operands.size() && "operand index out of range"); return operands[i]; }
  Value getResult(unsigned i) const { assert(i < results.size() && "result index out of range"); return results[i]; }
  ValueRange getOperands() const { return ValueRange(operands); } ValueRange getResults() const { return ValueRange(results); }
  std::vector<Type> getOperandTypes() const { return getOperands().getTypes(); } std::vector<Type> getResultTypes() const { return getResults().getTypes(); }
  void setOperand(unsigned i, Value v) { assert(i < operands.size()); operands[i] = v; v.p->users.push_back(this); }
  Location getLoc() const { return Location(); } MLIRContext *getContext() const { return &vt_ctx; }
  bool hasOneUse() const { size_t n = 0; for (auto r : results) n += r.p->users.size(); return n == 1; }
  bool use_empty() const { for (auto r : results) if (r.p->users.size()) return false; return true; }
  std::vector<Operation *> getUsers() const { std::vector<Operation *> u; for (auto r : results) u.insert(u.end(), r.p->users.begin(), r.p->users.end()); return u; }
  Attribute getAttr(StringRef n) const { for (auto &a : attrs) if (n == a.first) return a.second; return Attribute(); }
  bool hasAttr(StringRef n) const { return (bool)getAttr(n); }
  void setAttr(StringRef n, Attribute v) { for (auto &a : attrs) if (n == a.first) { a.second = v; return; } attrs.push_back({n.str(), v}); }
  template <class T> bool hasTrait() const { return T::vt_has(this); }
  InFlightDiagnostic emitError(Twine = "") { return InFlightDiagnostic(); } InFlightDiagnostic emitOpError(Twine = "") { return InFlightDiagnostic(); } InFlightDiagnostic emitWarning(Twine = "") { return InFlightDiagnostic(); }
};
inline void Value::replaceAllUsesWith(Value v) { for (auto *u : p->users) for (auto &o : u->operands) if (o == *this) o = v; }
template <> inline Operation *cast<Operation *>(const Value &v) { return v.p->def; }
struct vtOp { // handle base
  Operation *op = nullptr;
  vtOp() {} vtOp(Operation *o) : op(o) {}
  explicit operator bool() const { return op; }
  bool operator==(const vtOp &o) const { return op == o.op; } bool operator!=(const vtOp &o) const { return op != o.op; }
  Operation *operator->() const { return op; } operator Operation *() const { return op; } Operation *getOperation() const { return op; }
  MLIRContext *getContext() const { return &vt_ctx; } Location getLoc() const { return Location(); }
  Value getOperand(unsigned i) const { return op->getOperand(i); } Value getOperand() const { return op->getOperand(0); } unsigned getNumOperands() const { return op->getNumOperands(); }
  ValueRange getOperands() const { return op->getOperands(); } ValueRange getResults() const { return op->getResults(); } unsigned getNumResults() const { return op->getNumResults(); }
  std::vector<Type> getResultTypes() const { return op->getResultTypes(); } std::vector<Type> getOperandTypes() const { return op->getOperandTypes(); }
  InFlightDiagnostic emitError(Twine = "") { return InFlightDiagnostic(); } InFlightDiagnostic emitOpError(Twine = "") { return InFlightDiagnostic(); }
  bool use_empty() const { return op->use_empty(); }
};
using OpState = vtOp;
struct MemoryEffectOpInterface : vtOp { using vtOp::vtOp; static bool classof(Operation *o) { return true; } static MemoryEffectOpInterface vt_from(Operation *o) { return o; } bool hasNoEffect() const { return op->info->pure; } };
namespace OpTrait { struct ReadOnly { static bool vt_has(const Operation *o) { return o->info->readonly; } }; }
struct OpFoldResult {
  Attribute a; Value v;
  OpFoldResult() {} OpFoldResult(std::nullptr_t) {} OpFoldResult(Attribute x) : a(x) {} OpFoldResult(Value x) : v(x) {}
  explicit operator bool() const { return a || v; } bool isNull() const { return !*this; }
  template <class T> bool is() const { if constexpr (std::is_base_of_v<Attribute, T>) return (bool)a; else return (bool)v; }
  template <class T> T get() const { if constexpr (std::is_base_of_v<Attribute, T>) return mlir::cast<T>(a); else return v; }
  template <class T> T dyn_cast() const { if constexpr (std::is_base_of_v<Attribute, T>) return mlir::dyn_cast_or_null<T>(a); else return v; }
};
struct vtCreate { std::vector<Type> types; std::vector<Value> operands; std::vector<Attribute> attrs; std::vector<int64_t> ints; std::vector<double> fps; std::vector<std::string> strs; };
inline void vt_arg(vtCreate &c, Type t) { c.types.push_back(t); } inline void vt_arg(vtCreate &c, TypeRange t) { c.types.insert(c.types.end(), t.begin(), t.end()); }
inline void vt_arg(vtCreate &c, Value v) { c.operands.push_back(v); } inline void vt_arg(vtCreate &c, const ValueRange &v) { c.operands.insert(c.operands.end(), v.begin(), v.end()); }
inline void vt_arg(vtCreate &c, const SmallVectorImpl<Value> &v) { c.operands.insert(c.operands.end(), v.begin(), v.end()); } inline void vt_arg(vtCreate &c, ArrayRef<Value> v) { c.operands.insert(c.operands.end(), v.begin(), v.end()); }
inline void vt_arg(vtCreate &c, const SmallVectorImpl<Type> &v) { c.types.insert(c.types.end(), v.begin(), v.end()); }
template <class T, std::enable_if_t<std::is_base_of_v<vtOp, T>, int> = 0> void vt_arg(vtCreate &c, T o) { c.operands.push_back(o.op->getResult(0)); }
inline void vt_arg(vtCreate &c, Attribute a) { c.attrs.push_back(a); } inline void vt_arg(vtCreate &c, bool b) { c.ints.push_back(b); }
inline void vt_arg(vtCreate &c, int b) { c.ints.push_back(b); } inline void vt_arg(vtCreate &c, unsigned b) { c.ints.push_back(b); } inline void vt_arg(vtCreate &c, int64_t b) { c.ints.push_back(b); }
inline void vt_arg(vtCreate &c, double b) { c.fps.push_back(b); } inline void vt_arg(vtCreate &c, const char *s) { c.strs.push_back(s); } inline void vt_arg(vtCreate &c, const std::string &s) { c.strs.push_back(s); } inline void vt_arg(vtCreate &c, StringRef s) { c.strs.push_back(s.str()); }
inline Operation *vt_newop(const OpInfo *i, std::vector<Value> operands, std::vector<Type> types) {
  auto *o = new Operation(); o->info = i; o->operands = std::move(operands);
  for (auto v : o->operands) { assert(v && "null operand"); v.p->users.push_back(o); }
  unsigned k = 0; for (auto t : types) { auto *r = new ValueImpl(); r->ty = t; r->def = o; r->idx = k++; o->results.push_back(Value(r)); }
  return o; }
struct OpBuilder {
  struct InsertionGuard { InsertionGuard(OpBuilder &) {} }; struct InsertPoint {};
  OpBuilder() {} OpBuilder(MLIRContext *) {} OpBuilder(Operation *) {}
  MLIRContext *getContext() const { return &vt_ctx; } Location getUnknownLoc() { return Location(); }
  template <class T, class... A> T getType(A &&...a) { return T::get(&vt_ctx, a...); }
  IntegerType getI1Type() { return IntegerType::get(&vt_ctx, 1); } IntegerType getI8Type() { return IntegerType::get(&vt_ctx, 8); } IntegerType getI32Type() { return IntegerType::get(&vt_ctx, 32); } IntegerType getI64Type() { return IntegerType::get(&vt_ctx, 64); }
  IntegerType getIntegerType(unsigned w) { return IntegerType::get(&vt_ctx, w); } IntegerType getIntegerType(unsigned w, bool s) { return IntegerType::get(&vt_ctx, w, s ? IntegerType::Signed : IntegerType::Unsigned); }
  FloatType getF16Type() { return FloatType::getF16(&vt_ctx); } FloatType getBF16Type() { return FloatType::getBF16(&vt_ctx); } FloatType getF32Type() { return FloatType::getF32(&vt_ctx); } FloatType getF64Type() { return FloatType::getF64(&vt_ctx); } IndexType getIndexType() { return IndexType::get(&vt_ctx); }
  BoolAttr getBoolAttr(bool b) { return BoolAttr::get(&vt_ctx, b); } IntegerAttr getI64IntegerAttr(int64_t v) { return IntegerAttr::get(getI64Type(), v); } IntegerAttr getI32IntegerAttr(int32_t v) { return IntegerAttr::get(getI32Type(), (int64_t)v); }
  IntegerAttr getIndexAttr(int64_t v) { return IntegerAttr::get(getIndexType(), v); } IntegerAttr getIntegerAttr(Type t, int64_t v) { return IntegerAttr::get(t, v); } IntegerAttr getIntegerAttr(Type t, const APInt &v) { return IntegerAttr::get(t, v); }
  FloatAttr getF64FloatAttr(double d) { return FloatAttr::get(getF64Type(), d); } FloatAttr getF32FloatAttr(float d) { return FloatAttr::get(getF32Type(), (double)d); } FloatAttr getFloatAttr(Type t, double d) { return FloatAttr::get(t, d); } FloatAttr getFloatAttr(Type t, const APFloat &d) { return FloatAttr::get(t, d); }
  StringAttr getStringAttr(StringRef s) { return StringAttr::get(&vt_ctx, s.str()); } inline TypedAttr getZeroAttr(Type t); TypedAttr getOneAttr(Type t);
  template <class T, class... A> T create(Location l, A &&...a) { return T::create(*this, l, std::forward<A>(a)...); }
  template <class T, class... A> Value createOrFold(Location l, A &&...a) { return T::create(*this, l, std::forward<A>(a)...)->getResult(0); }
  void setInsertionPoint(Operation *) {} void setInsertionPointAfter(Operation *) {} void setInsertionPointAfterValue(Value) {}
};
inline TypedAttr OpBuilder::getZeroAttr(Type t) {
  if (isa<FloatType>(t)) return FloatAttr::get(t, 0.0);
  if (t.isIntOrIndex()) return IntegerAttr::get(t, 0);
  if (isa<RankedTensorType>(t)) { TypedAttr a; a.p = DenseElementsAttr::get(cast<ShapedType>(t), (Attribute)getZeroAttr(cast<ShapedType>(t).getElementType())).p; return a; }
  return TypedAttr(); }
inline TypedAttr OpBuilder::getOneAttr(Type t) {
  if (isa<FloatType>(t)) return FloatAttr::get(t, 1.0);
  if (t.isIntOrIndex()) return IntegerAttr::get(t, 1);
  return TypedAttr(); }
using ImplicitLocOpBuilder = OpBuilder;
struct PatternRewriter : OpBuilder {
  std::vector<Operation *> changed;
  void replaceOp(Operation *op, ValueRange vs) { assert(op->results.size() == vs.size() && "incorrect number of replacement values"); op->replaced = true; op->erased = true; op->replacement.assign(vs.begin(), vs.end()); }
  void replaceOp(Operation *op, Value v) { replaceOp(op, ValueRange(v)); }
  void replaceOp(Operation *op, Operation *n) { replaceOp(op, n->getResults()); }
  template <class T, class... A> T replaceOpWithNewOp(Operation *op, A &&...a) { T n = T::create(*this, Location(), std::forward<A>(a)...); replaceOp(op, n.getOperation()->getResults()); return n; }
  void eraseOp(Operation *op) { op->erased = true; }
  void replaceAllUsesWith(Value a, Value b) { if (a.p->def) { a.p->def->replaced = true; a.p->def->replacement.resize(a.p->def->results.size()); a.p->def->replacement[a.p->idx] = b; } a.replaceAllUsesWith(b); }
  void replaceAllOpUsesWith(Operation *op, ValueRange vs) { op->replaced = true; op->replacement.assign(vs.begin(), vs.end()); }
  template <class... A> LogicalResult notifyMatchFailure(A &&...) { return failure(); }
  template <class F> void modifyOpInPlace(Operation *op, F f) { changed.push_back(op); f(); } template <class F> void updateRootInPlace(Operation *op, F f) { f(); }
  void startOpModification(Operation *) {} void finalizeOpModification(Operation *) {} void cancelOpModification(Operation *) {}
};
using RewriterBase = PatternRewriter; using IRRewriter = PatternRewriter; using ConversionPatternRewriter = PatternRewriter;
inline Operation *vt_patternRoot = nullptr; inline bool vt_patternHit = false;
struct RewritePatternSet {
  template <class OpT> RewritePatternSet &add(LogicalResult (*f)(OpT, PatternRewriter &)) {
    if (vt_patternRoot && !vt_patternHit && OpT::classof(vt_patternRoot)) { PatternRewriter r; if (succeeded(f(OpT(vt_patternRoot), r))) vt_patternHit = true; }
    return *this; }
  MLIRContext *getContext() { return &vt_ctx; }
};
template <class OpT> struct OpRewritePattern { OpRewritePattern(MLIRContext * = nullptr, int = 0) {} virtual LogicalResult matchAndRewrite(OpT op, PatternRewriter &rewriter) const = 0; };
template <class P> bool matchPattern(Value v, P &&p) { return v.getDefiningOp() ? p.match(v.getDefiningOp()) : false; }
template <class P> bool matchPattern(Operation *o, P &&p) { return p.match(o); }
inline Attribute vt_constantOf(Operation *op);
template <class A> struct vtConstM { A *a; bool match(Operation *op) { Attribute x = vt_constantOf(op); if (!x) return false; if (auto r = dyn_cast<A>(x)) { if (a) *a = r; return true; } return false; } };
template <class A> vtConstM<A> m_Constant(A *a) { return vtConstM<A>{a}; }
inline vtConstM<Attribute> m_Constant() { return vtConstM<Attribute>{nullptr}; }
} // namespace mlir
namespace llvm {
using mlir::isa; using mlir::cast; using mlir::dyn_cast; using mlir::dyn_cast_or_null; using mlir::dyn_cast_if_present; using mlir::isa_and_nonnull; using mlir::isa_and_present; using mlir::cast_or_null;
using mlir::LogicalResult; using mlir::success; using mlir::failure; using mlir::succeeded; using mlir::failed; using mlir::FailureOr;
}
