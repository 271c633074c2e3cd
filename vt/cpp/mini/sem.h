// Run-time values of the small stand-in IR and the meaning of the scalar, list
// and tuple operations (TorchScript's), against which folds and
// canonicalizations are compared.
#pragma once
using namespace mlir;
using namespace mlir::torch::Torch;
namespace sem {
// X is a tensor: i names its elements, d its sizes, t its element type
struct V { enum K { U, I, F, B, S, N, L, T, X } k = U; int64_t i = 0; double f = 0; bool b = false; std::string s; std::vector<V> l; std::vector<int64_t> d; Type t; };
inline V mkI(int64_t i) { V v; v.k = V::I; v.i = i; return v; }
inline V mkF(double f) { V v; v.k = V::F; v.f = f; return v; }
inline V mkB(bool b) { V v; v.k = V::B; v.b = b; return v; }
inline V mkS(const std::string &s) { V v; v.k = V::S; v.s = s; return v; }
inline V mkN() { V v; v.k = V::N; return v; }
inline V mkL(std::vector<V> l) { V v; v.k = V::L; v.l = std::move(l); return v; }
inline std::vector<std::pair<ValueImpl *, V>> env; // values not computed from their definition
inline void bind(Value v, const V &x) { env.push_back({v.p, x}); }
inline Value arg(Type t, const V &x) { auto *p = new ValueImpl(); p->ty = t; Value v(p); bind(v, x); return v; }
inline OpBuilder B;
inline Type tI() { return IntType::get(&vt_ctx); } inline Type tF() { return torch::Torch::FloatType::get(&vt_ctx); } inline Type tB() { return BoolType::get(&vt_ctx); }
inline Type tS() { return StringType::get(&vt_ctx); } inline Type tN() { return torch::Torch::NoneType::get(&vt_ctx); } inline Type tNum() { return NumberType::get(&vt_ctx); }
inline Value cI(int64_t i) { return ConstantIntOp::create(B, Location(), B.getI64IntegerAttr(i)); }
inline Value cF(double f) { return ConstantFloatOp::create(B, Location(), B.getF64FloatAttr(f)); }
inline Value cB(bool b) { return ConstantBoolOp::create(B, Location(), b); }
inline Value cS(const std::string &s) { return ConstantStrOp::create(B, Location(), B.getStringAttr(s)); }
inline Value cN() { return ConstantNoneOp::create(B, Location()); }
inline Value list(Type e, std::vector<Value> v) { return PrimListConstructOp::create(B, Location(), (Type)ListType::get(e), ValueRange(v)); }
inline bool fits(double d) { return d >= -9223372036854775808.0 && d < 9223372036854775808.0; }
inline double num(const V &v) { return v.k == V::F ? v.f : (double)v.i; }
inline int64_t floordiv(int64_t a, int64_t b) { int64_t q = a / b; return (a % b != 0 && ((a < 0) != (b < 0))) ? q - 1 : q; }
inline int64_t floormod(int64_t a, int64_t b) { int64_t r = a % b; return (r != 0 && ((r < 0) != (b < 0))) ? r + b : r; }
inline bool eq(const V &a, const V &b) {
  if (a.k != b.k) return false;
  switch (a.k) { case V::I: return a.i == b.i; case V::F: return vt_same_f64(a.f, b.f); case V::B: return a.b == b.b; case V::S: return a.s == b.s; case V::N: return true;
  case V::L: case V::T: { if (a.l.size() != b.l.size()) return false; bool r = true; for (size_t i = 0; i < a.l.size(); ++i) r = r & eq(a.l[i], b.l[i]); return r; }
  case V::X: { if (a.d.size() != b.d.size() || a.t != b.t) return false; bool r = a.i == b.i; for (auto s : a.d) r = r | (s == 0); for (size_t i = 0; i < a.d.size(); ++i) r = r & (a.d[i] == b.d[i]); return r; }
  default: return false; } }
// Python's == on elements of lists
inline bool pyeq(const V &a, const V &b) { return a.k == V::F ? a.f == b.f : eq(a, b); }
inline V add(int64_t a, int64_t b) { int64_t r; vt_assume(!__builtin_add_overflow(a, b, &r)); return mkI(r); }
inline V sub(int64_t a, int64_t b) { int64_t r; vt_assume(!__builtin_sub_overflow(a, b, &r)); return mkI(r); }
inline V mul(int64_t a, int64_t b) { int64_t r; vt_assume(!__builtin_mul_overflow(a, b, &r)); return mkI(r); }
inline V evalOp(Operation *o, unsigned idx);
inline V eval(Value v) {
  for (auto &e : env) if (e.first == v.p) return e.second;
  assert(v.p->def && "a value without a definition");
  return evalOp(v.p->def, v.p->idx); }
inline V attr(Attribute a) {
  if (auto x = dyn_cast<mlir::BoolAttr>(a)) return mkB(x.getValue());
  if (auto x = dyn_cast<IntegerAttr>(a)) return mkI(x.getValue().getSExtValue());
  if (auto x = dyn_cast<FloatAttr>(a)) return mkF(x.getValueAsDouble());
  if (auto x = dyn_cast<StringAttr>(a)) return mkS(x.str());
  return V(); }
#ifdef VT_TENSORS
inline V vt_tensorOp(Operation *o, StringRef n, std::vector<V> &a);
#else
inline V vt_tensorOp(Operation *, StringRef, std::vector<V> &) { return V(); }
#endif
inline V evalOp(Operation *o, unsigned idx) {
  StringRef n = o->info->name;
  if (!n.consume_front("torch.")) return V();
  if (n == "constant.int") { auto a = dyn_cast_or_null<IntegerAttr>(o->getAttr("value")); vt_prove(a && a.getType().isSignlessInteger(64), "torch.constant.int needs a 64-bit integer attribute"); return mkI(a.getInt()); }
  if (n == "constant.float") { auto a = dyn_cast_or_null<FloatAttr>(o->getAttr("value")); vt_prove(a && a.getType().isF64(), "torch.constant.float needs an f64 attribute"); return mkF(a.getValueAsDouble()); }
  if (n == "constant.bool") { auto a = dyn_cast_or_null<mlir::BoolAttr>(o->getAttr("value")); vt_prove((bool)a, "torch.constant.bool needs a bool attribute"); return mkB(a.getValue()); }
  if (n == "constant.str") return mkS(cast<StringAttr>(o->getAttr("value")).str());
  if (n == "constant.number") return attr(o->getAttr("value"));
  if (n == "constant.none") return mkN();
  std::vector<V> a;
  for (auto x : o->operands) { a.push_back(eval(x)); if (a.back().k == V::U) return V(); }
  for (auto &x : a) if (x.k == V::X) return vt_tensorOp(o, n, a);
  if (n == "aten.cat") return vt_tensorOp(o, n, a);
  if (n == "prim.ListConstruct") return mkL(a);
  if (n == "prim.TupleConstruct") { V v = mkL(a); v.k = V::T; return v; }
  if (n == "derefine" || n == "tensor_static_info_cast" || n == "prim.unchecked_cast") return a[0];
  if (n == "prim.TupleUnpack" || n == "prim.ListUnpack") return a[0].l.size() == o->results.size() ? a[0].l[idx] : V();
  if (n == "prim.TupleIndex") { int64_t i = a[1].i, s = a[0].l.size(); if (i < 0) i += s; return i < 0 || i >= s ? V() : a[0].l[vt_split(i)]; }
  if (n == "prim.min.int") return mkI(a[0].i < a[1].i ? a[0].i : a[1].i);
  if (n == "prim.max.int") return mkI(a[0].i > a[1].i ? a[0].i : a[1].i);
  if (n == "prim.min.self_int") { if (a[0].l.empty()) return V(); int64_t m = a[0].l[0].i; for (auto &x : a[0].l) m = x.i < m ? x.i : m; return mkI(m); }
  if (!n.consume_front("aten.")) return V();
  if (n == "add.int") return add(a[0].i, a[1].i);
  if (n == "sub.int") return sub(a[0].i, a[1].i);
  if (n == "mul.int") return mul(a[0].i, a[1].i);
  if (n == "neg.int") return sub(0, a[0].i);
  if (n == "floordiv.int") { if (a[1].i == 0) return V(); vt_assume(!(a[0].i == INT64_MIN && a[1].i == -1)); return mkI(floordiv(a[0].i, a[1].i)); }
  if (n == "remainder.int") { if (a[1].i == 0) return V(); vt_assume(!(a[0].i == INT64_MIN && a[1].i == -1)); return mkI(floormod(a[0].i, a[1].i)); }
  if (n == "eq.int") return mkB(a[0].i == a[1].i);
  if (n == "ne.int") return mkB(a[0].i != a[1].i);
  if (n == "lt.int") return mkB(a[0].i < a[1].i);
  if (n == "le.int") return mkB(a[0].i <= a[1].i);
  if (n == "gt.int") return mkB(a[0].i > a[1].i);
  if (n == "ge.int") return mkB(a[0].i >= a[1].i);
  if (n == "eq.float") return mkB(a[0].f == a[1].f);
  if (n == "lt.float") return mkB(a[0].f < a[1].f);
  if (n == "gt.float") return mkB(a[0].f > a[1].f);
  if (n == "ge.float") return mkB(a[0].f >= a[1].f);
  if (n == "eq.bool") return mkB(a[0].b == a[1].b);
  if (n == "ne.bool") return mkB(a[0].b != a[1].b);
  if (n == "eq.str") return mkB(a[0].s == a[1].s);
  if (n == "ne.str") return mkB(a[0].s != a[1].s);
  if (n == "len.str") return mkI(a[0].s.size());
  if (n == "__not__") return mkB(!a[0].b);
  if (n == "__or__.bool") return mkB(a[0].b | a[1].b);
  if (n == "__is__") return mkB(a[0].k == V::N && a[1].k == V::N ? true : a[0].k != a[1].k ? false : eq(a[0], a[1]));
  if (n == "__isnot__") return mkB(a[0].k == V::N && a[1].k == V::N ? false : a[0].k != a[1].k ? true : !eq(a[0], a[1]));
  if (n == "add.float" || n == "add.float_int") return mkF(num(a[0]) + num(a[1]));
  if (n == "sub.float") return mkF(num(a[0]) - num(a[1]));
  if (n == "mul.float" || n == "mul.float_int" || n == "mul.int_float") return mkF(num(a[0]) * num(a[1]));
  if (n == "div.float" || n == "div.int" || n == "div") { if (num(a[1]) == 0) return V(); return mkF(num(a[0]) / num(a[1])); }
  if (n == "add") return a[0].k == V::I && a[1].k == V::I ? add(a[0].i, a[1].i) : mkF(num(a[0]) + num(a[1]));
  if (n == "sub") return a[0].k == V::I && a[1].k == V::I ? sub(a[0].i, a[1].i) : mkF(num(a[0]) - num(a[1]));
  if (n == "mul") return a[0].k == V::I && a[1].k == V::I ? mul(a[0].i, a[1].i) : mkF(num(a[0]) * num(a[1]));
  if (n == "neg.float") return mkF(-a[0].f);
  if (n == "sqrt.int") { if (a[0].i < 0) return V(); return mkF(std::sqrt((double)a[0].i)); }
  if (n == "pow.int_float") return mkF(std::pow((double)a[0].i, a[1].f));
  if (n == "ceil.float") { double c = std::ceil(a[0].f); return fits(c) ? mkI((int64_t)c) : V(); }
  if (n == "ceil.Scalar") { if (a[0].k == V::I) return a[0]; double c = std::ceil(a[0].f); return fits(c) ? mkI((int64_t)c) : V(); }
  if (n == "Float.Scalar") return mkF(a[0].k == V::B ? (double)a[0].b : num(a[0]));
  if (n == "Int.float" || n == "Int.Scalar") { if (a[0].k == V::I) return a[0]; if (a[0].k == V::B) return mkI(a[0].b); return fits(a[0].f) ? mkI((int64_t)a[0].f) : V(); }
  if (n == "Int.bool") return mkI(a[0].b);
  if (n == "Bool.float") return mkB(a[0].f != 0);
  if (n == "Bool.int") return mkB(a[0].i != 0);
  if (n == "any.bool") { bool r = false; for (auto &x : a[0].l) r = r | x.b; return mkB(r); }
  if (n == "all.bool") { bool r = true; for (auto &x : a[0].l) r = r & x.b; return mkB(r); }
  if (n == "len.t") return mkI(a[0].l.size());
  if (n == "add.t") { V r = a[0]; for (auto &x : a[1].l) r.l.push_back(x); return r; }
  if (n == "mul.left_t") { V r = mkL({}); int64_t k = vt_split(a[1].i); for (int64_t i = 0; i < k; ++i) for (auto &x : a[0].l) r.l.push_back(x); return r; }
  if (n == "__getitem__.t") { int64_t i = a[1].i, s = a[0].l.size(); if (i < 0) i += s; return i < 0 || i >= s ? V() : a[0].l[vt_split(i)]; }
  if (n == "slice.t") {
    int64_t s = a[0].l.size(), step = vt_split(a[3].i); if (step == 0) return V();
    int64_t st = a[1].k == V::N ? (step > 0 ? 0 : s - 1) : a[1].i, en = a[2].k == V::N ? (step > 0 ? s : -1) : a[2].i;
    if (a[1].k != V::N) { if (st < 0) { st += s; if (st < 0) st = step < 0 ? -1 : 0; } else if (st >= s) st = step < 0 ? s - 1 : s; }
    if (a[2].k != V::N) { if (en < 0) { en += s; if (en < 0) en = step < 0 ? -1 : 0; } else if (en >= s) en = step < 0 ? s - 1 : s; }
    V r = mkL({}); st = vt_split(st); en = vt_split(en);
    for (int64_t i = st; step > 0 ? i < en : i > en; i += step) r.l.push_back(a[0].l[i]);
    return r; }
  if (n == "eq.int_list") return mkB(eq(a[0], a[1]));
  if (n == "__contains__.int_list") { bool r = false; for (auto &x : a[0].l) r = r | (x.i == a[1].i); return mkB(r); }
  if (n == "__contains__.str_list") { bool r = false; for (auto &x : a[0].l) r = r | (x.s == a[1].s); return mkB(r); }
  if (n == "__range_length") { int64_t lo = a[0].i, hi = a[1].i, st = a[2].i; if (st == 0) return V(); sub(hi, lo);
    if (st > 0) return mkI(lo < hi ? 1 + (hi - 1 - lo) / st : 0);
    vt_assume(st != INT64_MIN); return mkI(lo > hi ? 1 + (lo - 1 - hi) / -st : 0); }
  if (n == "__derive_index") return add(a[1].i, mul(a[0].i, a[2].i).i);
  return V(); }

// ------------------------------------------------------------- comparison
inline void same(const V &want, const V &got, const char *what) { if (want.k != V::U) vt_prove(eq(want, got), what); }
inline bool compatible(Type have, Type want) { return have == want; }
template <class OpT> Operation *make(std::vector<Value> ops, std::vector<Type> tys) { return vt_newop(&OpT::vt_info, ops, tys); }
template <class OpT> void fold(Operation *o) {
  V want = eval(o->getResult(0));
  OpFoldResult r = OpT(o).fold(typename OpT::FoldAdaptor(vt_consts(o)));
  if (r.v) {
    if (r.v.p == o->results[0].p) { same(want, eval(o->getResult(0)), "an in-place fold changes the result"); return; }
    vt_prove(r.v.getType() == o->getResult(0).getType(), "fold replaces the result by a value of another type");
    same(want, eval(r.v), "fold yields a value that differs from the operation's result"); }
  else if (r.a) {
    Operation *c = TorchDialect().materializeConstant(B, r.a, o->getResult(0).getType(), Location());
    if (!c) { vt_skip(); }
    vt_prove(c->getResult(0).getType() == o->getResult(0).getType(), "fold yields a constant of another type");
    same(want, eval(c->getResult(0)), "fold yields a constant that differs from the operation's result"); } }
template <class OpT> void canon(Operation *o, bool lazy = false) {
  std::vector<V> want;
  Operation *copy = lazy ? vt_newop(&OpT::vt_info, o->operands, std::vector<Type>(1, o->results[0].getType())) : nullptr;
  if (copy) for (auto &x : copy->operands) x.p->users.pop_back();
  if (!lazy) for (auto r : o->results) want.push_back(eval(r));
  vt_patternRoot = o; vt_patternHit = false;
  RewritePatternSet ps;
  OpT::getCanonicalizationPatterns(ps, &vt_ctx);
  if (!vt_patternHit) return;
  if (lazy) want.push_back(eval(copy->getResult(0)));
  for (auto &x : o->operands) if (x.p->def && x.p->def->erased) for (auto *u : x.p->def->results[0].p->users) vt_prove(u->erased, "an operation that still has users is erased");
  if (o->replaced) {
    vt_prove(o->replacement.size() == o->results.size(), "number of replacement values");
    for (size_t i = 0; i < o->results.size(); ++i) {
      vt_prove(o->replacement[i].getType() == o->results[i].getType(), "canonicalization replaces a result by a value of another type");
      same(want[i], eval(o->replacement[i]), "canonicalization changes the operation's result"); } }
  else if (!o->erased) for (size_t i = 0; i < o->results.size(); ++i) same(want[i], eval(o->results[i]), "canonicalization in place changes the operation's result"); }
template <class OpT> void both(Operation *o) { if (vt_choice(2)) canon<OpT>(o); else fold<OpT>(o); }
// operands
inline Value anyI(const char *n) { int64_t i = vt_i64(n); return vt_choice(2) ? cI(i) : arg(tI(), mkI(i)); }
inline Value anyI(const char *n, int64_t lo, int64_t hi) { int64_t i = vt_range(n, lo, hi); return vt_choice(2) ? cI(i) : arg(tI(), mkI(i)); }
inline Value anyF(const char *n) { double f = vt_f64(n); return vt_choice(2) ? cF(f) : arg(tF(), mkF(f)); }
inline Value anyB(const char *n) { bool b = vt_bool(n); return vt_choice(2) ? cB(b) : arg(tB(), mkB(b)); }
inline std::string aStr() { const char *s[] = {"", "a", "b", "ab"}; return s[vt_choice(4)]; }
inline Value anyS() { std::string s = aStr(); return vt_choice(2) ? cS(s) : arg(tS(), mkS(s)); }
inline Value anyNum(const char *n) { return vt_choice(2) ? anyI(n) : anyF(n); }
template <class F> std::pair<Value, Value> two(F f) { Value a = f("a"); return {a, vt_choice(2) ? a : f("b")}; }
inline const char *nth(const char *base, int i) { std::string *s = new std::string(base); *s += (char)('0' + i); return s->c_str(); }
inline std::vector<Value> many(const char *base, int n, Value (*f)(const char *)) { std::vector<Value> v; for (int i = 0; i < n; ++i) v.push_back(f(nth(base, i))); return v; }
} // namespace sem
using namespace sem;
