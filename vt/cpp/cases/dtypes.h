// files: lib/Dialect/Torch/Transforms/SimplifyDtypeCalculations.cpp
// needs: getTypeForScalarType getScalarTypeForType DecomposePromoteDtypesOp getTorchTypeForScalarType getBuiltInTypeForTorchScalar getDefaultDtypeForTorchScalar getTypeForTorchType
// table: promotion
// Dtype codes and promotion, against PyTorch's tables.
#define H(name) extern "C" void h_##name()
using torch_upstream::ScalarType;
inline bool known(int64_t c) { return ((c >= 0) & (c <= 15)) | ((c >= 23) & (c <= 29)); }
H(codes_and_back) { int64_t c = vt_range("code", 0, 29); vt_assume(known(c));
  FailureOr<Type> t = getTypeForScalarType(&vt_ctx, (ScalarType)c);
  vt_prove(succeeded(t), "a dtype code without a type");
  vt_prove((int64_t)getScalarTypeForType(*t) == c, "a dtype code changes on the way to a type and back"); }
H(undefined_code) { vt_prove(failed(getTypeForScalarType(&vt_ctx, ScalarType::Undefined)), "the undefined code has a type"); }
inline bool floating(int64_t c) { return ((c >= 5) & (c <= 7)) | (c == 15) | ((c >= 23) & (c <= 26)); }
inline bool complexT(int64_t c) { return (c >= 8) & (c <= 10); }
inline int64_t sel(bool c, int64_t a, int64_t b) { return c ? a : b; }
struct Want { int64_t t; bool ok; }; // ok: PyTorch has an answer
inline Want promoted(Want a, Want b) {
  bool ua = a.t == 30, ub = b.t == 30; int64_t r = P[sel(ua | ub, 0, a.t * 30 + b.t)];
  return {sel(ua, b.t, sel(ub, a.t, r)), (bool)(a.ok & b.ok & (ua | ub | (r >= 0)))}; }
// PyTorch's result_type: dimensioned tensors, then tensors without dimensions, then numbers; a category rises, not the type in it
inline Want higher(Want hi, Want lo) {
  bool ch = complexT(hi.t), fh = floating(hi.t), cl = complexT(lo.t), fl = floating(lo.t);
  Want p = promoted(hi, lo); bool both = hi.ok & lo.ok;
  bool useP = !ch & !fh & ((hi.t == 11) | fl | cl), up = fh & cl;
  return {sel(ch, hi.t, sel(up, hi.t + 3, sel(fh, hi.t, sel(useP, p.t, sel(hi.t != 30, hi.t, lo.t))))), (bool)(both & (!useP | p.ok) & (!up | ((hi.t >= 5) & (hi.t <= 7))))}; }
// arguments: category 0 tensor with dimensions, 1 without, 2 number
inline Want wanted(const std::vector<int64_t> &cat, const std::vector<int64_t> &dt) {
  Want s[3] = {{30, true}, {30, true}, {30, true}}; bool numbers = true;
  for (auto c : cat) numbers = numbers && c == 2;
  for (size_t i = 0; i < cat.size(); ++i) s[cat[i]] = promoted(s[cat[i]], {sel((cat[i] == 2) & !numbers & (dt[i] == 7), 6, dt[i]), true});
  return higher(s[0], higher(s[1], s[2])); }
inline int64_t dtype(const char *n, int64_t cat) { int64_t d = vt_range(n, 0, 26); vt_assume(cat == 2 ? (d == 4) | (d == 7) : known(d)); return d; }
inline void promote(std::vector<int64_t> cat, bool plain, int64_t lo = 0, int64_t hi = 26) {
  std::vector<int64_t> dt; std::vector<Value> ranks, dts; size_t n = cat.size();
  for (size_t i = 0; i < n; ++i) {
    int64_t d = dtype(nth("dtype", i), cat[i]);
    if (plain) vt_assume((d <= 11) | (d == 15));
    if (i == 0) vt_assume(d >= lo && d <= hi);
    dt.push_back(i + 1 < n ? vt_split(d) : d);
    ranks.push_back(cat[i] == 2 ? cN() : cI(cat[i] == 1 ? 0 : vt_range(nth("rank", i), 1, 64)));
    dts.push_back(cI(dt[i])); }
  Want w = wanted(cat, dt); vt_assume(w.ok); int64_t want = w.t;
  Operation *o = PromoteDtypesOp::create(B, Location(), tI(), list(OptionalType::get(tI()), ranks), list(tI(), dts));
  PatternRewriter rw;
  LogicalResult r = DecomposePromoteDtypesOp(&vt_ctx).matchAndRewrite(PromoteDtypesOp(o), rw);
  if (!succeeded(r)) return;
  V got = eval(o->replacement[0]);
  vt_prove(got.k == V::I && got.i == want, "promoted dtype differs from PyTorch's"); }
inline int64_t anyCat() { return vt_choice(3); }
H(promote1) { promote({anyCat()}, false); }
H(promote2_dims) { promote({0, anyCat()}, false); }
H(promote2_zero) { promote({1, anyCat()}, false); }
H(promote2_numbers) { promote({2, anyCat()}, false); }
H(promote3_dims0) { promote({0, 0, 0}, true, 0, 3); }
H(promote3_dims1) { promote({0, 0, 0}, true, 4, 7); }
H(promote3_dims2) { promote({0, 0, 0}, true, 8, 11); }
H(promote3_dims3) { promote({0, 0, 0}, true, 12, 15); }
H(promote3_mixed) { promote({0, 2, 1}, true); }
H(promote3_mixed2) { promote({2, 1, 0}, true); }
#ifdef VT_THOROUGH
H(promote3_zero) { promote({1, 1, anyCat()}, true); }
H(promote3_more) { promote({0, 0, anyCat()}, false); }
H(promote3_numbers) { promote({2, 2, anyCat()}, false); }
#endif
// the specification above against PyTorch's own answers for two arguments
inline void specification(int c) { std::vector<int64_t> cat, dt; cat = {c / 3, c % 3}; dt = {vt_split(dtype("dtype0", cat[0])), dtype("dtype1", cat[1])};
  int64_t r = R(c, dt[0] * 30 + dt[1]); vt_assume(r >= 0); Want w = wanted(cat, dt); vt_prove(w.ok & (w.t == r), "specification of the promotion"); }
H(specification_dims) { switch (vt_choice(3)) { case 0: specification(0); break; case 1: specification(1); break; default: specification(2); } }
H(specification_zero) { switch (vt_choice(3)) { case 0: specification(3); break; case 1: specification(4); break; default: specification(5); } }
H(specification_numbers) { if (vt_choice(2)) specification(6); else specification(7); }
// the type of a number alone and next to tensors
H(numbers) { bool f = vt_choice(2); Type t = f ? (Type)tF() : (Type)tI(); int64_t c = f ? 7 : 4;
  vt_prove((int64_t)getScalarTypeForType(getBuiltInTypeForTorchScalar(t)) == c && (int64_t)getScalarTypeForType(getDefaultDtypeForTorchScalar(t)) == (f ? 6 : 4), "dtype of a number");
  FailureOr<Type> back = getTorchTypeForScalarType(&vt_ctx, (ScalarType)c); vt_prove(succeeded(back) && *back == t, "type of a number from its dtype");
  vt_prove((int64_t)getScalarTypeForType(getTypeForTorchType(&vt_ctx, t)) == c, "builtin type of a number"); }
