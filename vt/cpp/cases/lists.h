// Folds and canonicalizations of operations on lists, tuples and strings.
#define H(name) extern "C" void h_##name()
#ifdef VT_THOROUGH
#define VT_DEEP 1
#else
#define VT_DEEP 0
#endif
inline Value anyI1(const char *n) { return anyI(n); }
inline Value argI(const char *n) { return arg(tI(), mkI(vt_i64(n))); }
inline Value smallI(const char *n) { return anyI(n, -5, 5); }
inline Value anyB1(const char *n) { return anyB(n); }
inline Value anyS1(const char *) { return anyS(); }
// A list literal with 0 … 2 elements; sometimes something was appended to it
// before the operation under test, sometimes another operation only reads it.
inline Value litList(Type e, const char *n, Value (*el)(const char *), Value extra, int max = 3) {
  std::vector<Value> v = many(n, vt_choice(max), el);
  Value l = list(e, v);
  switch (vt_choice(3)) {
  case 1: { std::vector<V> c; for (auto x : v) c.push_back(eval(x)); c.push_back(eval(extra)); make<AtenAppendTOp>({l, extra}, {l.getType()}); bind(l, mkL(c)); break; }
  case 2: make<AtenLenTOp>({l}, {tI()}); break;
  default: break; }
  return l; }
inline Value argList(Type e, const char *n, Value (*el)(const char *)) { std::vector<V> c; for (auto x : many(n, vt_choice(3), el)) c.push_back(eval(x)); return arg(ListType::get(e), mkL(c)); }
inline Value intList(const char *n) { return vt_choice(4) ? litList(tI(), n, anyI1, cI(9)) : argList(tI(), n, anyI1); }
inline Value boolList(const char *n) { return vt_choice(4) ? litList(tB(), n, anyB1, cB(vt_bool("extra"))) : argList(tB(), n, anyB1); }
H(AtenLenTOp) { fold<AtenLenTOp>(make<AtenLenTOp>({intList("l")}, {tI()})); }
H(AtenAnyBoolOp) { fold<AtenAnyBoolOp>(make<AtenAnyBoolOp>({boolList("l")}, {tB()})); }
H(AtenAllBoolOp) { fold<AtenAllBoolOp>(make<AtenAllBoolOp>({boolList("l")}, {tB()})); }
H(Aten__Getitem__TOp) { Value i = smallI("i"); canon<Aten__Getitem__TOp>(make<Aten__Getitem__TOp>({intList("l"), i}, {tI()}), true); }
H(AtenAddTOp) { Value a = litList(tI(), "a", argI, cI(9)), b = vt_choice(2) ? a : litList(tI(), "b", argI, cI(7)); canon<AtenAddTOp>(make<AtenAddTOp>({a, b}, {ListType::get(tI())})); }
H(AtenMulLeftTOp) { Value n = anyI("n", -1, 2 + VT_DEEP); canon<AtenMulLeftTOp>(make<AtenMulLeftTOp>({intList("l"), n}, {ListType::get(tI())}), true); }
inline Value bound(const char *n) { return vt_choice(3) ? smallI(n) : vt_choice(2) ? cN() : arg(OptionalType::get(tI()), mkN()); }
inline Value bound3(const char *n) { return vt_choice(3) ? anyI(n, -4, 4) : vt_choice(2) ? cN() : arg(OptionalType::get(tI()), mkN()); }
H(AtenSliceTOp) {
  Value l = list(tI(), many("l", vt_choice(3 + VT_DEEP), argI));
  Value a = VT_DEEP ? bound("start") : bound3("start"), b = VT_DEEP ? bound("end") : bound3("end"), c = VT_DEEP ? anyI("step", -2, 3) : cI(vt_range("step", -1, 2));
  canon<AtenSliceTOp>(make<AtenSliceTOp>({l, a, b, c}, {ListType::get(tI())}), true); }
H(AtenSliceTOp_mutated) {
  Value l = litList(tI(), "l", anyI1, cI(9)), a = cI(vt_range("start", -2, 2)), b = cI(vt_range("end", -1, 3)), c = anyI("step", 1, 2);
  canon<AtenSliceTOp>(make<AtenSliceTOp>({l, a, b, c}, {ListType::get(tI())}), true); }
H(AtenEqIntListOp) {
  std::vector<Value> v = many("l", vt_choice(3), anyI1), w = v;
  if (vt_choice(2)) w = many("r", vt_choice(3), anyI1);
  Value a = list(tI(), v), b = list(tI(), w);
  if (vt_choice(2)) b = a;
  fold<AtenEqIntListOp>(make<AtenEqIntListOp>({a, b}, {tB()})); }
H(AtenEqIntListOp_mutated) { Value a = litList(tI(), "a", anyI1, cI(9)), b = litList(tI(), "b", anyI1, cI(9)); fold<AtenEqIntListOp>(make<AtenEqIntListOp>({a, b}, {tB()})); }
H(Aten__Contains__IntListOp) { Value i = anyI("i"); fold<Aten__Contains__IntListOp>(make<Aten__Contains__IntListOp>({intList("l"), i}, {tB()})); }
inline Value someS(const char *) { return vt_choice(2) ? cS(vt_choice(2) ? "a" : "b") : arg(tS(), mkS("b")); }
H(Aten__Contains__StrListOp) { Value i = VT_DEEP ? anyS() : someS(""); Value l = litList(tS(), "l", VT_DEEP ? anyS1 : someS, cS("b")); fold<Aten__Contains__StrListOp>(make<Aten__Contains__StrListOp>({l, i}, {tB()})); }
H(PrimMinSelfIntOp) { fold<PrimMinSelfIntOp>(make<PrimMinSelfIntOp>({intList("l")}, {tI()})); }
// sort.int sorts in place: readers before it must keep seeing the old list
H(AtenSortIntOp) {
  std::vector<Value> v = many("l", 1 + vt_choice(3), anyI1);
  bool rev = vt_bool("reverse"); Value r = vt_choice(2) ? cB(rev) : arg(tB(), mkB(rev));
  Value l = list(tI(), v);
  Operation *s = make<AtenSortIntOp>({l, r}, {});
  Operation *after = make<AtenLenTOp>({l}, {tI()});
  vt_patternRoot = s; vt_patternHit = false; RewritePatternSet ps;
  AtenSortIntOp::getCanonicalizationPatterns(ps, &vt_ctx);
  if (!vt_patternHit) return;
  V got = eval(after->operands[0]);
  vt_prove(got.k == V::L && got.l.size() == v.size(), "the sorted list has another length");
  for (size_t i = 0; i + 1 < got.l.size(); ++i) vt_prove(rev ? got.l[i].i >= got.l[i + 1].i : got.l[i].i <= got.l[i + 1].i, "the list is not sorted in the order asked for");
  for (auto x : v) { int64_t e = eval(x).i, n = 0, m = 0; for (auto y : v) n += eval(y).i == e; for (auto &y : got.l) m += y.i == e; vt_prove(n == m, "the sorted list has other elements"); } }
H(AtenSortIntOp_readers) {
  std::vector<Value> v = many("l", 2, [](const char *n) { return cI(vt_i64(n)); });
  Value l = list(tI(), v); V old = eval(l);
  Operation *before = make<Aten__Getitem__TOp>({l, cI(0)}, {tI()});
  Operation *s = make<AtenSortIntOp>({l, cB(vt_bool("reverse"))}, {});
  vt_patternRoot = s; vt_patternHit = false; RewritePatternSet ps;
  AtenSortIntOp::getCanonicalizationPatterns(ps, &vt_ctx);
  same(old, eval(before->operands[0]), "an operation before the sort sees the sorted list"); }
// tuples
inline Value tup(int n) { std::vector<Value> v; std::vector<Type> t; for (int i = 0; i < n; ++i) { v.push_back(vt_choice(2) ? anyI(nth("e", i)) : anyF(nth("e", i))); t.push_back(v.back().getType()); } return PrimTupleConstructOp::create(B, Location(), (Type)TupleType::get(&vt_ctx, t), ValueRange(v)); }
H(PrimTupleIndexOp) {
  int n = vt_choice(3); Value t = tup(n); Value i = anyI("i", -4, 4);
  Type ty = vt_choice(2) ? tI() : tF();
  V want = evalOp(make<PrimTupleIndexOp>({t, i}, {ty}), 0);
  Operation *o = make<PrimTupleIndexOp>({t, i}, {ty});
  if (want.k == V::I) vt_assume(ty == tI()); if (want.k == V::F) vt_assume(ty == tF());
  canon<PrimTupleIndexOp>(o); }
H(PrimTupleUnpackOp) {
  int n = vt_choice(3); Value t = tup(n); std::vector<Type> ty;
  for (auto e : t.getDefiningOp()->operands) ty.push_back(vt_choice(2) ? e.getType() : (Type)OptionalType::get(e.getType()));
  canon<PrimTupleUnpackOp>(make<PrimTupleUnpackOp>({t}, ty)); }
H(PrimListUnpackOp) {
  Value l = litList(tI(), "l", anyI1, cI(9)); std::vector<Type> ty(vt_choice(4), tI());
  canon<PrimListUnpackOp>(make<PrimListUnpackOp>({l}, ty)); }
