// define: VT_TENSORS
// Tensor operations that are folded or rewritten away: views, casts, copies,
// rounding of integers, and questions about shape and dtype.
#define H(name) extern "C" void h_##name()
#ifdef VT_THOROUGH
#define VT_DEEP 1
#else
#define VT_DEEP 0
#endif
inline int64_t vt_fresh = 1000;
inline int64_t fresh() { return ++vt_fresh; }
inline V mkX(int64_t i, const std::vector<int64_t> &d, Type t) { V v; v.k = V::X; v.i = i; v.d = d; v.t = t; return v; }
// element types, with PyTorch's codes
inline Type dtype(int64_t k) { switch (k) { case 0: return IntegerType::get(&vt_ctx, 64, IntegerType::Signed); case 1: return mlir::Float32Type::get(&vt_ctx); case 2: return IntegerType::get(&vt_ctx, 1); case 3: return IntegerType::get(&vt_ctx, 8, IntegerType::Unsigned); default: return mlir::Float16Type::get(&vt_ctx); } }
inline int64_t dcode(int64_t k) { int64_t c[] = {4, 6, 11, 0, 5}; return c[k]; }
inline Type ofCode(int64_t c) { for (int64_t k = 0; k < 5; ++k) if (dcode(k) == c) return dtype(k); vt_skip(); }
inline bool isFloatT(Type t) { return t.kind() == TK_Float; }
// a type of a tensor: any true statement about its sizes and dtype
inline Type typeOf(const V &x, const char *n, bool vs, bool known = false) {
  SmallVector<int64_t> s;
  for (size_t i = 0; i < x.d.size(); ++i) { int64_t v = vt_i64(nth(n, i)); vt_assume((v == x.d[i]) | (!known & (v == -1))); s.push_back(v); }
  Type d = known || vt_choice(2) ? x.t : Type();
  Type t = vs ? (Type)ValueTensorType::get(&vt_ctx, ArrayRef<int64_t>(s), d) : (Type)NonValueTensorType::get(&vt_ctx, ArrayRef<int64_t>(s), d);
  if (!known) const_cast<TypeStorage *>(t.p)->hasShape = vt_bool(nth(n, 9));
  return t; }
inline V anyX(const char *n, int minRank = 0, int maxRank = 2, int nd = 4, int64_t big = 1ll << 40) {
  std::vector<int64_t> d; int r = minRank + vt_choice(maxRank - minRank + 1); const char *k = n[0] == 'a' ? "asize" : "bsize";
  for (int i = 0; i < r; ++i) d.push_back(vt_range(nth(k, i), 0, big));
  return mkX(n[0], d, dtype(nd == 1 ? 0 : vt_choice(nd))); }
inline bool vsOf(Value v) { return v.getType().kind() == TK_VT; }
inline Value anyT(const V &x, const char *n, bool vs) { return arg(typeOf(x, n, vs), x); }
inline bool sameD(const std::vector<int64_t> &a, const std::vector<int64_t> &b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); ++i) r = r & (a[i] == b[i]); return r; }
inline std::vector<int64_t> ints(const V &l) { std::vector<int64_t> r; for (auto &x : l.l) r.push_back(x.i); return r; }
inline int64_t wrap(int64_t d, int64_t rank) { if (rank == 0) rank = 1; vt_assume(d >= -rank && d < rank); return vt_split(d < 0 ? d + rank : d); }
namespace sem {
inline V asX(const V &x, const std::vector<int64_t> &d) { return mkX(x.i, d, x.t); }
// the operation's result; new elements get a new name
inline V vt_tensorOp(Operation *o, StringRef n, std::vector<V> &a) {
  V x = a[0]; int64_t r = x.d.size();
  if (n == "prim.ListConstruct") return mkL(a);
  if (n == "derefine" || n == "tensor_static_info_cast" || n == "prim.unchecked_cast" || n == "copy.to_vtensor" || n == "copy.to_tensor") return x;
  if (n == "prims.view_of") return x;
  if (n == "prim.dtype") { for (int64_t k = 0; k < 5; ++k) if (dtype(k) == x.t) return mkI(dcode(k)); return V(); }
  if (n == "prim.device") return mkN();
  if (n == "prims.convert_element_type") { Type t = ofCode(vt_split(a[1].i)); return t == x.t ? x : mkX(fresh(), x.d, t); }
  if (!n.consume_front("aten.")) return V();
  if (n == "alias" || n == "detach" || n == "clone") return x;
  if (n == "dim") return mkI(r);
  if (n == "numel") { int64_t p = 1; for (auto d : x.d) p *= d; return mkI(p); }
  if (n == "size") { V l = mkL({}); for (auto d : x.d) l.l.push_back(mkI(d)); return l; }
  if (n == "size.int") { int64_t d = a[1].i; if (d < 0) d += r; return d < 0 || d >= r ? V() : mkI(x.d[vt_split(d)]); }
  if (n == "is_floating_point") return mkB(isFloatT(x.t));
  if (n == "floor" || n == "ceil" || n == "trunc" || n == "round") return isFloatT(x.t) ? mkX(fresh(), x.d, x.t) : x;
  if (n == "round.decimals") return isFloatT(x.t) ? mkX(fresh(), x.d, x.t) : V();
  if (n == "squeeze") { std::vector<int64_t> d; for (auto s : x.d) if (s != 1) d.push_back(s); return asX(x, d); }
  if (n == "squeeze.dim") { std::vector<int64_t> d; int64_t k = wrap(a[1].i, r); for (int64_t i = 0; i < r; ++i) if (i != k || x.d[i] != 1) d.push_back(x.d[i]); return asX(x, d); }
  if (n == "unsqueeze") { std::vector<int64_t> d = x.d; d.insert(d.begin() + wrap(a[1].i, r + 1), 1); return asX(x, d); }
  if (n == "transpose.int") { int64_t p = wrap(a[1].i, r), q = wrap(a[2].i, r); if (p == q) return x; std::vector<int64_t> d = x.d; std::swap(d[p], d[q]); return mkX(fresh(), d, x.t); }
  if (n == "view" || n == "reshape") { return asX(x, ints(a[1])); }
  if (n == "to.dtype" || n == "_cast_Float" || n == "_cast_Long" || n == "to.dtype_layout" || n == "to.device" || n == "to.other") {
    if (n == "to.other") { Type t = a[1].t; return t == x.t ? x : mkX(x.i + 1000 * (1 + t.kind()) + 100 * t.p->width, x.d, t); }
    if (n == "to.dtype_layout") { if (a[2].k != V::N && a[2].i != 0) return mkX(fresh(), x.d, x.t); if (a[4].k == V::B && a[4].b) return mkX(fresh(), x.d, x.t); }
    V &c = n == "to.device" ? a[2] : a[1];
    if (n == "to.dtype" || n == "to.device") vt_prove(c.k == V::I, "aten.to is given no dtype (its operand must be an int)");
    Type t = n == "_cast_Float" ? dtype(1) : n == "_cast_Long" ? dtype(0) : c.k == V::N ? x.t : ofCode(vt_split(c.i));
    return t == x.t ? x : mkX(x.i + 1000 * (1 + t.kind()) + 100 * t.p->width, x.d, t); } // the same conversion gives the same elements
  if (n == "any.dims") { // dims are given; keepdim
    std::vector<int64_t> d; bool one = true; Type t = x.t == dtype(3) ? dtype(3) : dtype(2);
    for (int64_t i = 0; i < r; ++i) { bool in = a[1].k == V::N; for (auto &k : a[1].l) in = in | (wrap(k.i, r) == i); if (in) { one = one & (x.d[i] == 1); if (a[2].b) d.push_back(1); } else d.push_back(x.d[i]); }
    return one && x.t == dtype(2) ? asX(x, d) : mkX(fresh(), d, t); }
  if (n == "broadcast_to") {
    std::vector<int64_t> d = ints(a[1]); int64_t off = (int64_t)d.size() - r; vt_assume(off >= 0);
    for (int64_t i = 0; i < (int64_t)d.size(); ++i) { if (i < off) vt_assume(d[i] >= 0); else { if (d[i] == -1) d[i] = x.d[i - off]; vt_assume((d[i] >= 0) & ((x.d[i - off] == 1) | (x.d[i - off] == d[i]))); } }
    return sameD(d, x.d) ? x : mkX(fresh(), d, x.t); }
  if (n == "slice.Tensor") {
    int64_t k = wrap(a[1].i, r), s = x.d[k], st = a[2].k == V::N ? 0 : a[2].i, en = a[3].k == V::N ? INT64_MAX : a[3].i, step = a[4].i; vt_assume(step > 0);
    if (st < 0) st += s; if (en < 0) en += s;
    if (st < 0) st = 0; if (st > s) st = s; if (en < st) en = st; if (en > s) en = s;
    std::vector<int64_t> d = x.d; d[k] = step == 1 ? en - st : (en - st + step - 1) / step;
    return d[k] == s ? x : mkX(fresh(), d, x.t); }
  if (n == "cat") { // of one or two tensors of the same dtype
    vt_prove(!a[0].l.empty(), "aten.cat is given no tensors"); V y;
    for (auto &v : a[0].l) { if (v.d.size() == 1 && (v.d[0] == 0)) { if (y.k == V::U) y = v; continue; }
      if (y.k == V::U || (y.d.size() == 1 && (y.d[0] == 0))) { y = v; wrap(a[1].i, y.d.size()); continue; }
      if (v.d.size() != y.d.size() || y.d.empty()) return V();
      std::vector<int64_t> d = y.d; int64_t k = wrap(a[1].i, d.size());
      for (int64_t i = 0; i < (int64_t)d.size(); ++i) if (i != k) vt_assume(d[i] == v.d[i]);
      if ((y.d[k] == 0)) { y = v; continue; }
      if ((v.d[k] == 0)) continue;
      d[k] += v.d[k]; y = mkX(100000 + 100 * y.i + v.i, d, y.t); }
    return y; }
  return V(); }
} // namespace sem
inline V listOf(const std::vector<Value> &v) { V l = mkL({}); for (auto x : v) l.l.push_back(eval(x)); return l; }
// run one operation on operand values: its result type says something true
template <class OpT> Operation *op(std::vector<Value> v, bool vs, bool mayRaise = false) {
  Operation *o = make<OpT>(v, {tN()}); V w = eval(o->getResult(0));
  if (w.k == V::U) vt_skip();
  for (auto &x : o->operands) x.p->users.pop_back();
  o = make<OpT>(v, {w.k == V::X ? typeOf(w, "r", vs) : w.k == V::I ? tI() : w.k == V::B ? tB() : (Type)ListType::get(tI())});
  if (w.k == V::X) bind(o->getResult(0), w);
  return o; }
#define VIEW(Op) H(Op) { bool vs = vt_choice(2); V x = anyX("a", 0, 2 + VT_DEEP, 1); fold<Op>(op<Op>({anyT(x, "a", vs)}, vs)); }
VIEW(AtenAliasOp) VIEW(AtenDetachOp) VIEW(AtenSqueezeOp)
H(PrimsViewOfOp) { V x = anyX("a", 0, 2, 1); fold<PrimsViewOfOp>(op<PrimsViewOfOp>({anyT(x, "a", true)}, true)); }
inline Value memfmt() { return vt_choice(2) ? cN() : cI(1); }
H(AtenCloneOp) { V x = anyX("a", 0, 2, 1); fold<AtenCloneOp>(op<AtenCloneOp>({anyT(x, "a", true), memfmt()}, true)); }
#define DIMOP(Op) H(Op) { bool vs = vt_choice(2); V x = anyX("a", 0, 2 + VT_DEEP, 1); fold<Op>(op<Op>({anyT(x, "a", vs), anyI("dim", -4, 4)}, vs)); }
DIMOP(AtenSqueezeDimOp) DIMOP(AtenUnsqueezeOp)
H(AtenTransposeIntOp) { bool vs = vt_choice(2); V x = anyX("a", 0, 2 + VT_DEEP, 1); fold<AtenTransposeIntOp>(op<AtenTransposeIntOp>({anyT(x, "a", vs), anyI("dim0", -4, 4), anyI("dim1", -4, 4)}, vs)); }
#define ROUND(Op) H(Op) { V x = anyX("a", 0, 1 + VT_DEEP); fold<Op>(op<Op>({anyT(x, "a", true)}, true)); }
ROUND(AtenFloorOp) ROUND(AtenCeilOp) ROUND(AtenRoundOp) ROUND(AtenTruncOp)
H(AtenRoundDecimalsOp) { V x = anyX("a", 0, 1 + VT_DEEP); fold<AtenRoundDecimalsOp>(op<AtenRoundDecimalsOp>({anyT(x, "a", true), anyI("decimals")}, true)); }
// questions
#define ASK(Op) H(Op) { bool vs = vt_choice(2); V x = anyX("a", 0, 1 + VT_DEEP, 4, 1ll << 20); fold<Op>(op<Op>({anyT(x, "a", vs)}, vs)); }
ASK(AtenDimOp) ASK(AtenIsFloatingPointOp) ASK(PrimDtypeOp)
inline Value traced(const V &x, const char *n, bool vs) { // also through copies
  if (vt_choice(3) == 0) return anyT(x, n, vs);
  if (vt_choice(2)) return make<TensorStaticInfoCastOp>({anyT(x, "ap", vs)}, {typeOf(x, "aq", vs)})->getResult(0);
  if (vs) return make<CopyToValueTensorOp>({arg(typeOf(x, "ap", false), x)}, {typeOf(x, "aq", true)})->getResult(0);
  return make<CopyToNonValueTensorOp>({arg(typeOf(x, "ap", true), x)}, {typeOf(x, "aq", false)})->getResult(0); }
H(AtenNumelOp) { bool vs = vt_choice(2); V x = anyX("a", 0, 2, 1, 1 << 10); canon<AtenNumelOp>(op<AtenNumelOp>({anyT(x, "a", vs)}, vs)); }
H(AtenSizeOp) { bool vs = vt_choice(2); V x = anyX("a", 0, 1 + VT_DEEP, 1); Operation *o = op<AtenSizeOp>({traced(x, "a", vs)}, vs); make<AtenLenTOp>({o->getResult(0)}, {tI()}); canon<AtenSizeOp>(o); }
H(AtenSizeIntOp) { bool vs = vt_choice(2); V x = anyX("a", VT_DEEP ? 0 : 1, 2 + VT_DEEP, 1); fold<AtenSizeIntOp>(op<AtenSizeIntOp>({traced(x, "a", vs), anyI("dim", -4, 4)}, vs)); }
// reshaping
H(AtenViewOp) {
  bool vs = vt_choice(2); V x = anyX("a", 0, 2, 1, 255); std::vector<Value> l; int r = vt_choice(3); int64_t p = 1, q = 1;
  for (int i = 0; i < r; ++i) { int64_t s = vt_range(nth("s", i), 0, 255); q *= s; l.push_back(vt_choice(1 + VT_DEEP) ? cI(s) : arg(tI(), mkI(s))); }
  for (auto d : x.d) p *= d; vt_assume(p == q);
  fold<AtenViewOp>(op<AtenViewOp>({anyT(x, "a", vs), list(tI(), l)}, vs)); }
H(AtenReshapeOp) {
  bool vs = vt_choice(2); V x = anyX("a", 0, 2, 1, 255); std::vector<Value> l; int r = vt_choice(3); int64_t p = 1, q = 1;
  for (int i = 0; i < r; ++i) { int64_t s = vt_range(nth("s", i), 0, 255); q *= s; l.push_back(vt_choice(1 + VT_DEEP) ? cI(s) : arg(tI(), mkI(s))); }
  for (auto d : x.d) p *= d; vt_assume(p == q);
  fold<AtenReshapeOp>(op<AtenReshapeOp>({anyT(x, "a", vs), list(tI(), l)}, vs)); }
H(AtenBroadcastToOp) {
  bool vs = vt_choice(2); V x = anyX("a", 0, 2, 1); std::vector<Value> l; int r = vt_choice(3);
  for (int i = 0; i < r; ++i) { int64_t s = vt_range(nth("s", i), -1, 1 << 20); l.push_back(vt_choice(1 + VT_DEEP) ? cI(s) : arg(tI(), mkI(s))); }
  fold<AtenBroadcastToOp>(op<AtenBroadcastToOp>({anyT(x, "a", vs), list(tI(), l)}, vs)); }
inline Value edge(const char *n) { return vt_choice(2) ? anyI(n) : cN(); }
H(AtenSliceTensorOp) { // of a tensor that is not a constant
  bool vs = VT_DEEP ? vt_choice(2) : true; V x = anyX("a", 1, 1 + VT_DEEP, 1); int64_t st[] = {1, 2, 3};
  Value step = cI(st[vt_choice(2 + VT_DEEP)]);
  fold<AtenSliceTensorOp>(op<AtenSliceTensorOp>({anyT(x, "a", vs), anyI("dim", -1 - VT_DEEP, VT_DEEP), edge("start"), edge("end"), step}, vs)); }
H(AtenAnyDimsOp) {
  V x = anyX("a", VT_DEEP ? 0 : 1, 1 + VT_DEEP, 4, 1 << 20); std::vector<Value> l; int r = vt_choice(2 + VT_DEEP);
  for (int i = 0; i < r; ++i) { int64_t d = vt_range(nth("d", i), -2, 1); l.push_back(vt_choice(1 + VT_DEEP) ? cI(d) : arg(tI(), mkI(d))); }
  fold<AtenAnyDimsOp>(op<AtenAnyDimsOp>({anyT(x, "a", true), vt_choice(3) ? list(tI(), l) : cN(), cB(vt_bool("keepdim"))}, true)); }
// conversions
inline Value flag(const char *n) { return vt_choice(2) ? cB(vt_bool(n)) : arg(tB(), mkB(vt_bool(n))); }
inline Value code() { int64_t c = dcode(vt_choice(2 + VT_DEEP)); return vt_choice(2) ? cI(c) : arg(tI(), mkI(c)); }
H(AtenToDtypeOp) { V x = anyX("a", VT_DEEP ? 0 : 1, 1, 2 + VT_DEEP); fold<AtenToDtypeOp>(op<AtenToDtypeOp>({anyT(x, "a", true), code(), flag("non_blocking"), flag("copy"), memfmt()}, true)); }
H(PrimsConvertElementTypeOp) { V x = anyX("a", VT_DEEP ? 0 : 1, 1, 3); fold<PrimsConvertElementTypeOp>(op<PrimsConvertElementTypeOp>({anyT(x, "a", true), code()}, true)); }
inline Value optB(const char *n) { return vt_choice(2) ? cB(vt_bool(n)) : cN(); }
inline Operation *toLayout() {
  V x = anyX("a", 0, VT_DEEP, 2 + VT_DEEP);
  // the forms of the arguments: in quick, of one at a time
  int k = VT_DEEP ? -1 : vt_choice(4);
  auto two = [&](int i) { return (k == i || k < 0) && vt_choice(2); };
  Value lay = two(0) ? two(0) ? cI(vt_range("layout", 0, 6)) : arg(tI(), mkI(vt_range("layout", 0, 6))) : cN();
  Value dev = two(1) ? arg(DeviceType::get(&vt_ctx), mkS("cpu")) : cN();
  Value pin = two(2) ? optB("pin_memory") : cB(false), dt = vt_choice(2) ? code() : cN();
  Value copy = two(3) ? arg(tB(), mkB(vt_bool("copy"))) : cB(k == 3 || k < 0 ? vt_bool("copy") : false), mf = two(3) ? cI(1) : cN();
  return op<AtenToDtypeLayoutOp>({anyT(x, "a", true), dt, lay, dev, pin, cB(two(3) && vt_bool("non_blocking")), copy, mf}, true); }
H(AtenToDtypeLayoutOp) { fold<AtenToDtypeLayoutOp>(toLayout()); }
H(AtenToDtypeLayoutOp_canon) { canon<AtenToDtypeLayoutOp>(toLayout()); }
H(AtenToOtherOp) { V x = anyX("a", VT_DEEP ? 0 : 1, 1, 3), y = anyX("b", 0, VT_DEEP, 3); canon<AtenToOtherOp>(op<AtenToOtherOp>({anyT(x, "a", true), anyT(y, "b", true), flag("non_blocking"), flag("copy"), memfmt()}, true)); }
H(Aten_CastFloatOp) { V x = anyX("a", VT_DEEP ? 0 : 1, 1, 3); canon<Aten_CastFloatOp>(op<Aten_CastFloatOp>({anyT(x, "a", true), flag("non_blocking")}, true)); }
H(Aten_CastLongOp) { V x = anyX("a", VT_DEEP ? 0 : 1, 1, 3); canon<Aten_CastLongOp>(op<Aten_CastLongOp>({anyT(x, "a", true), flag("non_blocking")}, true)); }
// joining
inline Operation *cat(int n, bool vs) {
  int r = VT_DEEP || n > 1 ? 2 : 1; V x = anyX("a", 1, r, 1, 1 << 20), y; if (n > 1) y = anyX("b", 1, r, 1, 1 << 20);
  if (n > 1 && x.d.size() != y.d.size()) { V &m = x.d.size() > 1 ? x : y; for (auto d : m.d) vt_assume(d != 0); } std::vector<Value> l;
  if (n > 0) l.push_back(anyT(x, "a", vs));
  if (n > 1) l.push_back(anyT(y, "b", vs));
  return op<AtenCatOp>({list(vs ? (Type)ValueTensorType::getWithLeastStaticInformation(&vt_ctx) : (Type)NonValueTensorType::getWithLeastStaticInformation(&vt_ctx), l), VT_DEEP || n > 1 ? anyI("dim", -2, 1) : cI(vt_range("dim", -1, 0))}, vs); }
H(AtenCatOp) { bool vs = vt_choice(2); fold<AtenCatOp>(cat(1, vs)); }
H(AtenCatOp_canon) { bool vs = VT_DEEP ? vt_choice(2) : true; canon<AtenCatOp>(cat(2, vs)); }
