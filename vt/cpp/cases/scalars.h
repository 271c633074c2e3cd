// Folds and canonicalizations of scalar operations.
#define H(name) extern "C" void h_##name()
#define INT2(Op, R) H(Op) { auto [a, b] = two([](const char *n) { return anyI(n); }); fold<Op>(make<Op>({a, b}, {R})); }
#define NUM2(Op) H(Op) { Value a = anyNum("a"), b = anyNum("b"); fold<Op>(make<Op>({a, b}, {tNum()})); }
INT2(AtenAddIntOp, tI()) INT2(AtenSubIntOp, tI())
INT2(PrimMinIntOp, tI()) INT2(PrimMaxIntOp, tI())
// comparisons: constants, unknown integers, and sizes of tensors (never negative)
inline Value sized(const char *n) {
  int64_t i = vt_i64(n);
  switch (vt_choice(3)) {
  case 0: return cI(i);
  case 1: return arg(tI(), mkI(i));
  default: { vt_assume(i >= 0); Value t = arg(ValueTensorType::getWithLeastStaticInformation(&vt_ctx), V()); Operation *o = make<AtenSizeIntOp>({t, arg(tI(), mkI(vt_i64("dim")))}, {tI()}); bind(o->getResult(0), mkI(i)); return o->getResult(0); } } }
#define CMPI(Op) H(Op) { auto [a, b] = two(sized); fold<Op>(make<Op>({a, b}, {tB()})); }
CMPI(AtenEqIntOp) CMPI(AtenNeIntOp) CMPI(AtenLtIntOp) CMPI(AtenLeIntOp) CMPI(AtenGtIntOp) CMPI(AtenGeIntOp)
// (a comparison of one value with itself: see selfNaN)
#define CMPF(Op) H(Op) { auto [a, b] = two([](const char *n) { return anyF(n); }); if (a == b) vt_assume(!std::isnan(eval(a).f)); fold<Op>(make<Op>({a, b}, {tB()})); }
CMPF(AtenEqFloatOp) CMPF(AtenLtFloatOp) CMPF(AtenGtFloatOp) CMPF(AtenGeFloatOp)
#define CMPN(Op) H(Op##_selfNaN) { Value a = anyF("a"); vt_assume(std::isnan(eval(a).f)); fold<Op>(make<Op>({a, a}, {tB()})); }
CMPN(AtenEqFloatOp) CMPN(AtenLtFloatOp) CMPN(AtenGtFloatOp) CMPN(AtenGeFloatOp)
#define CMPB(Op) H(Op) { auto [a, b] = two([](const char *n) { return anyB(n); }); fold<Op>(make<Op>({a, b}, {tB()})); }
CMPB(AtenEqBoolOp) CMPB(AtenNeBoolOp) CMPB(Aten__Or__BoolOp)
H(Aten__Not__Op) { fold<Aten__Not__Op>(make<Aten__Not__Op>({anyB("a")}, {tB()})); }
#define CMPS(Op) H(Op) { auto [a, b] = two([](const char *) { return anyS(); }); fold<Op>(make<Op>({a, b}, {tB()})); }
CMPS(AtenEqStrOp) CMPS(AtenNeStrOp)
H(AtenLenStrOp) { fold<AtenLenStrOp>(make<AtenLenStrOp>({anyS()}, {tI()})); }
#define FLT2(Op, A, Bb) H(Op) { Value a = A("a"), b = Bb("b"); fold<Op>(make<Op>({a, b}, {tF()})); }
FLT2(AtenAddFloatOp, anyF, anyF) FLT2(AtenSubFloatOp, anyF, anyF) FLT2(AtenMulFloatOp, anyF, anyF) FLT2(AtenDivFloatOp, anyF, anyF)
FLT2(AtenAddFloatIntOp, anyF, anyI) FLT2(AtenMulFloatIntOp, anyF, anyI) FLT2(AtenMulIntFloatOp, anyI, anyF) FLT2(AtenPowIntFloatOp, anyI, anyF) FLT2(AtenDivIntOp, anyI, anyI)
NUM2(AtenAddOp) NUM2(AtenSubOp)
#ifdef VT_THOROUGH
#define VT_SMALL 60
#else
#define VT_SMALL 20
#endif
inline Value smallI(const char *n) { return anyI(n, -VT_SMALL, VT_SMALL); }
inline Value midI(const char *n) { return anyI(n, -(1ll << 31), 1ll << 31); }
H(AtenMulOp) { Value a = vt_choice(2) ? midI("a") : anyF("a"), b = vt_choice(2) ? midI("b") : anyF("b"); fold<AtenMulOp>(make<AtenMulOp>({a, b}, {tNum()})); }
H(AtenDivOp) { Value a = anyNum("a"), b = anyNum("b"); fold<AtenDivOp>(make<AtenDivOp>({a, b}, {vt_choice(2) ? tF() : tNum()})); }
#define UN(Op, A, R) H(Op) { fold<Op>(make<Op>({A("a")}, {R})); }
UN(AtenNegIntOp, anyI, tI()) UN(AtenNegFloatOp, anyF, tF()) UN(AtenSqrtIntOp, anyI, tF()) UN(AtenCeilFloatOp, anyF, tI()) UN(AtenCeilScalarOp, anyNum, tNum())
UN(AtenBoolFloatOp, anyF, tB()) UN(AtenBoolIntOp, anyI, tB()) UN(AtenIntBoolOp, anyB, tI()) UN(AtenIntFloatOp, anyF, tI())
UN(AtenIntScalarOp, anyNum, tI()) UN(AtenFloatScalarOp, anyNum, tF())
// multiplication and floor division, also of a product with a constant
template <class F> inline Value product(const char *n, F f) {
  Value v = f(n);
  if (!vt_choice(2)) return v;
  Value w = f("w");
  Operation *o = vt_choice(2) ? make<AtenMulIntOp>({v, w}, {tI()}) : make<AtenMulIntOp>({w, v}, {tI()});
  if (vt_choice(2)) make<AtenNegIntOp>({o->getResult(0)}, {tI()}); // another user
  return o->getResult(0); }
H(AtenMulIntOp) { fold<AtenMulIntOp>(make<AtenMulIntOp>({midI("a"), midI("b")}, {tI()})); }
H(AtenMulIntOp_products) {
  Value a = vt_choice(2) ? product("a", smallI) : smallI("a"); Value b = smallI("b");
  canon<AtenMulIntOp>(vt_choice(2) ? make<AtenMulIntOp>({a, b}, {tI()}) : make<AtenMulIntOp>({b, a}, {tI()})); }
H(AtenFloordivIntOp) { Value a = smallI("a"), b = smallI("b"); fold<AtenFloordivIntOp>(make<AtenFloordivIntOp>({a, b}, {tI()})); }
H(AtenFloordivIntOp_large) { // operands that a double cannot hold
  int64_t a = vt_i64("a"); vt_assume(a >= INT64_MAX - 64 || a <= -(INT64_MAX - 64)); int64_t d[] = {1, -1, 2};
  fold<AtenFloordivIntOp>(make<AtenFloordivIntOp>({cI(a), cI(d[vt_choice(3)])}, {tI()})); }
H(AtenFloordivIntOp_products) {
  Value a = product("a", smallI); Value b = smallI("b");
  canon<AtenFloordivIntOp>(vt_choice(2) ? make<AtenFloordivIntOp>({a, b}, {tI()}) : make<AtenFloordivIntOp>({b, a}, {tI()})); }
H(AtenRemainderIntOp) { Value a = smallI("a"), b = smallI("b"); fold<AtenRemainderIntOp>(make<AtenRemainderIntOp>({a, b}, {tI()})); }
H(Aten__RangeLengthOp) { Value a = smallI("lo"), b = smallI("hi"), c = smallI("step"); fold<Aten__RangeLengthOp>(make<Aten__RangeLengthOp>({a, b, c}, {tI()})); }
H(Aten__DeriveIndexOp) { Value a = smallI("index"), b = anyI("start"), c = smallI("step"); fold<Aten__DeriveIndexOp>(make<Aten__DeriveIndexOp>({a, b, c}, {tI()})); }
// is / is not, against None
inline Value anyOpt() {
  switch (vt_choice(5)) {
  case 0: return cN();
  case 1: return arg(OptionalType::get(tI()), mkN());
  case 2: return arg(OptionalType::get(tI()), mkI(1));
  case 3: { Value v = cN(); return make<DerefineOp>({v}, {(Type)OptionalType::get(tI())})->getResult(0); }
  default: { Value v = arg(tI(), mkI(1)); return make<DerefineOp>({v}, {(Type)OptionalType::get(tI())})->getResult(0); } } }
H(Aten__Is__Op) { Value a = anyOpt(), b = vt_choice(2) ? cN() : anyOpt(); fold<Aten__Is__Op>(make<Aten__Is__Op>({a, b}, {tB()})); }
H(Aten__Isnot__Op) { Value a = anyOpt(), b = vt_choice(2) ? cN() : anyOpt(); fold<Aten__Isnot__Op>(make<Aten__Isnot__Op>({a, b}, {tB()})); }
H(DerefineOp) {
  Type t[] = {tI(), tF(), OptionalType::get(tI()), OptionalType::get(tF())};
  V v = vt_choice(2) ? mkN() : mkI(vt_i64("x"));
  Value x = arg(OptionalType::get(tI()), v); Type mid = t[vt_choice(4)], end = t[vt_choice(4)];
  if (vt_choice(2)) { Operation *o = make<PrimUncheckedCastOp>({x}, {mid}); fold<DerefineOp>(make<DerefineOp>({o->getResult(0)}, {end})); }
  else { Operation *o = make<DerefineOp>({x}, {mid}); fold<PrimUncheckedCastOp>(make<PrimUncheckedCastOp>({o->getResult(0)}, {end})); } }
