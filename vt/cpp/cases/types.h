// define: VT_REAL_TYPES
// needs: isValidSubtype meetTensorTypes DerefineOp::areCastCompatible PrimUncheckedCastOp::areCastCompatible TensorStaticInfoCastOp::areCastCompatible BaseTensorType::hasSameSizesAndDtype BaseTensorType::getWithSizesAndDtypeFrom BaseTensorType::getWithSizesAndDtype BaseTensorType::getWithValueSemantics NonValueTensorType::getWithValueSemantics ValueTensorType::getWithoutValueSemantics ValueTensorType::toBuiltinTensor areSizesAndDtypesCompatible makeShapeTorchCompatible
// The order of types, against the sets of values they stand for.
#define H(name) extern "C" void h_##name()
#ifdef VT_THOROUGH
#define VT_DEEP 1
#else
#define VT_DEEP 0
#endif
// a value: kind 0 int, 1 float, 2 bool, 3 str, 4 none, 5 device, 6 generator, 7 tensor, 8 list (of values of the type `tag`), 9 tuple
struct Val { int64_t k = 0; int64_t dt = 0; bool vs = true; std::vector<int64_t> s; Type tag; std::vector<Val> m; };
// a leaf type of any of the nine kinds, not a fixed one
inline std::vector<TypeStorage *> leaves;
inline int64_t leafKind(int i) { TK k[] = {TK_TInt, TK_TFloat, TK_TNumber, TK_TNone, TK_TAny, TK_TBool, TK_TStr, TK_TDevice, TK_TGen}; return k[i]; }
inline Type anyLeaf(const char *n, int kinds = 9) { int64_t k = vt_i64(n); bool ok = false; for (int i = 0; i < kinds; ++i) ok = ok | (k == leafKind(i)); vt_assume(ok); auto *q = vt_newty((TK)k); leaves.push_back(q); return Type(q); }
inline bool isLeaf(Type t) { for (auto *q : leaves) if (q == t.p) return true; return false; }
// dtypes stand for any dtype: integer types of unknown width
inline Type anyDt(const char *n) { std::string *k = new std::string(n); *k += "dt"; int64_t w = vt_range(k->c_str(), 1, 64); return IntegerType::get(&vt_ctx, (unsigned)w, IntegerType::Signed); }
inline bool inLeaf(const Val &v, int64_t k) {
  return ((k == TK_TInt) & (v.k == 0)) | ((k == TK_TFloat) & (v.k == 1)) | ((k == TK_TBool) & (v.k == 2)) | ((k == TK_TStr) & (v.k == 3)) | ((k == TK_TNone) & (v.k == 4)) | ((k == TK_TDevice) & (v.k == 5)) |
         ((k == TK_TGen) & (v.k == 6)) | ((k == TK_TNumber) & ((v.k == 0) | (v.k == 1))) | (k == TK_TAny); }
inline bool in(const Val &v, Type t) {
  if (isLeaf(t)) return inLeaf(v, t.kind());
  switch (t.kind()) {
  case TK_TInt: return v.k == 0; case TK_TFloat: return v.k == 1; case TK_TBool: return v.k == 2; case TK_TStr: return v.k == 3; case TK_TNone: return v.k == 4; case TK_TDevice: return v.k == 5; case TK_TGen: return v.k == 6;
  case TK_TNumber: return (v.k == 0) | (v.k == 1); case TK_TAny: return true;
  case TK_TOpt: return (v.k == 4) | in(v, t.p->elems[0]);
  case TK_TUnion: { bool r = false; for (auto e : t.p->elems) r = r | in(v, e); return r; }
  case TK_TTuple: { if (v.k != 9 || v.m.size() != t.p->elems.size()) return false; bool r = true; for (size_t i = 0; i < v.m.size(); ++i) r = r & in(v.m[i], t.p->elems[i]); return r; }
  case TK_TList: return v.k == 8 && v.tag == t.p->elems[0];
  case TK_VT: case TK_NVT: {
    bool r = (v.k == 7) & (v.vs == (t.kind() == TK_VT));
    if (t.p->elems[0]) r = r & (v.dt == (int64_t)t.p->elems[0].p->width);
    if (t.p->hasShape) { if (v.s.size() != t.p->shape.size()) return false; for (size_t i = 0; i < v.s.size(); ++i) r = r & ((t.p->shape[i] == -1) | (v.s[i] == t.p->shape[i])); }
    return r; }
  default: return false; } }
inline Val leafVal(const char *n) { Val v; v.k = vt_range(n, 0, 6); return v; }
inline Val tensorVal(int rank) { Val v; v.k = 7; v.dt = vt_range("dt", 1, 64); v.vs = vt_bool("vs"); for (int i = 0; i < rank; ++i) { v.s.push_back(vt_range(nth("v", i), 0, INT64_MAX)); } return v; }
inline Type tuple(std::vector<Type> e) { return torch::Torch::TupleType::get(&vt_ctx, e); }
inline Type uni(std::vector<Type> e) { return UnionType::get(&vt_ctx, e); }
// a type without tensors
inline const char *sub(const char *n, const char *x) { std::string *k = new std::string(n); *k += x; return k->c_str(); }
inline Type scalarTy(const char *n, int shapes = 6) {
  switch (vt_choice(shapes)) {
  case 0: return anyLeaf(n);
  case 1: return OptionalType::get(anyLeaf(n));
  case 2: return uni({anyLeaf(n), anyLeaf(sub(n, "2"))});
  case 3: return tuple({anyLeaf(n)});
  case 4: return tuple({anyLeaf(n), anyLeaf(sub(n, "2"))});
  case 5: return ListType::get(anyLeaf(n));
  case 6: return uni({OptionalType::get(anyLeaf(n)), anyLeaf(sub(n, "2"))});
  case 7: return tuple({});
  default: return tuple({OptionalType::get(anyLeaf(n)), anyLeaf(sub(n, "2"))}); } }
#define VT_SHAPES (VT_DEEP ? 9 : 6)
inline Type tensorTy(const char *n, int vs = -1, int maxRank = 3) {
  Type d = vt_choice(2) ? anyDt(n) : Type();
  SmallVector<int64_t> s; bool has = vt_choice(2);
  if (has) { int r = vt_choice(maxRank); for (int i = 0; i < r; ++i) { std::string *k = new std::string(n); *k += (char)('0' + i); s.push_back(vt_range(k->c_str(), -1, INT64_MAX)); } }
  std::optional<ArrayRef<int64_t>> o; if (has) o = ArrayRef<int64_t>(s);
  if (vs < 0 ? vt_choice(2) : vs) return ValueTensorType::get(&vt_ctx, o, d);
  return NonValueTensorType::get(&vt_ctx, o, d); }
inline void sound(Type S, Type T, const Val &v) { if (isValidSubtype(S, T)) { bool a = in(v, S), b = in(v, T); vt_prove(!a | b, "a value of the subtype is not a value of the supertype"); } }
inline bool wantLeaf(int64_t s, int64_t t) { return (s == t) | (t == TK_TAny) | ((t == TK_TNumber) & ((s == TK_TInt) | (s == TK_TFloat))); }
H(subtype_leaves) { Type S = anyLeaf("s"), T = anyLeaf("t"); vt_prove(isValidSubtype(S, T) == wantLeaf(S.kind(), T.kind()), "order of the types without parameters"); }
H(subtype_values) { Type S = scalarTy("s", VT_SHAPES), T = scalarTy("t", VT_SHAPES); Val v; v.k = vt_range("k", 0, 7); sound(S, T, v); }
H(subtype_tuples) { Type S = vt_choice(2) ? anyLeaf("s") : scalarTy("s", VT_SHAPES), T = scalarTy("t", VT_SHAPES); Val v; v.k = 9; int n = vt_choice(3); for (int i = 0; i < n; ++i) v.m.push_back(leafVal(nth("k", i))); sound(S, T, v); }
H(subtype_lists) { Type S = ListType::get(anyLeaf("s")), T = scalarTy("t", VT_SHAPES); Val v; v.k = 8; v.tag = anyLeaf("tag"); sound(S, T, v); }
H(subtype_laws) { Type S = vt_choice(3) ? scalarTy("s", VT_SHAPES) : tensorTy("s", -1, 2), X = anyLeaf("x");
  vt_prove(isValidSubtype(S, S), "a type is not a subtype of itself");
  vt_prove(isValidSubtype(S, AnyType::get(&vt_ctx)), "a type is not a subtype of any");
  vt_prove(isValidSubtype(S, OptionalType::get(S)), "a type is not a subtype of its optional type");
  vt_prove(isValidSubtype(tN(), OptionalType::get(S)), "none is not of an optional type");
  vt_prove(isValidSubtype(S, uni({S, X})) && isValidSubtype(S, uni({X, S})), "a type is not a subtype of a union with it"); }
H(subtype_parts) { Type S = vt_choice(3) ? anyLeaf("s") : OptionalType::get(anyLeaf("s")), T = vt_choice(3) ? anyLeaf("t") : OptionalType::get(anyLeaf("t")), X = anyLeaf("x", 4), Y = anyLeaf("y", 4); bool st = isValidSubtype(S, T), xy = isValidSubtype(X, Y);
  switch (vt_choice(4)) {
  case 0: vt_prove(isValidSubtype(tuple({S, X}), tuple({T, Y})) == (st && xy), "tuples do not compare element by element"); break;
  case 1: vt_prove(!isValidSubtype(tuple({S}), tuple({T, Y})) && !isValidSubtype(tuple({S, X}), tuple({T})), "tuples of different lengths"); break;
  case 2: if (st) vt_prove(isValidSubtype(S, OptionalType::get(T)), "S <= T, but not S <= optional<T>"); break;
  default: vt_prove(isValidSubtype(uni({S, X}), T) == (st && isValidSubtype(X, T)), "a union is a subtype exactly if its members are"); } }
inline Type trTy(const char *n) { switch (vt_choice(3 + VT_DEEP)) { case 0: return anyLeaf(n, 5); case 1: return OptionalType::get(anyLeaf(n, 4)); case 2: return uni({tI(), anyLeaf(n, 4)}); default: return tuple({anyLeaf(n, 5)}); } }
H(subtype_transitive) { Type a = trTy("a"), b = trTy("b"), c = trTy("c"); if (isValidSubtype(a, b) && isValidSubtype(b, c)) vt_prove(isValidSubtype(a, c), "S <= T <= U, but not S <= U"); }
// tensors: exactly the inclusion of the sets of values
inline bool inclusion(Type S, Type T) {
  bool r = S.kind() == T.kind() && (!T.p->elems[0] || S.p->elems[0] == T.p->elems[0]);
  if (T.p->hasShape) { if (!S.p->hasShape || S.p->shape.size() != T.p->shape.size()) return false; for (size_t i = 0; i < S.p->shape.size(); ++i) r = r & ((T.p->shape[i] == -1) | (T.p->shape[i] == S.p->shape[i])); }
  return r; }
H(subtype_tensors) { Type S = tensorTy("s"), T = tensorTy("t"); vt_prove(isValidSubtype(S, T) == inclusion(S, T), "tensor subtyping differs from the inclusion of the described tensors"); }
H(subtype_tensors_values) { Type S = tensorTy("s", -1, 2), T = vt_choice(2) ? tensorTy("t", -1, 2) : vt_choice(2) ? (Type)OptionalType::get(tensorTy("t", -1, 2)) : uni({tI(), tensorTy("t", -1, 2)}); sound(S, T, tensorVal(vt_choice(2))); }
H(meet) {
  int vs = vt_choice(2); Type a = tensorTy("a", vs), b = tensorTy("b", vs); Val v = tensorVal(vt_choice(3));
  Type m = meetTensorTypes(cast<BaseTensorType>(a), cast<BaseTensorType>(b));
  bool both = in(v, a) & in(v, b);
  if (!m) { vt_prove(!both, "two types with a common tensor have no meet"); return; }
  vt_prove(in(v, m) == both, "the meet does not describe exactly the common tensors");
  vt_prove(m.kind() == a.kind(), "the meet changes the value semantics"); }
H(casts) { Type a = tensorTy("a", 1), b = tensorTy("b", 1); Val v = tensorVal(vt_choice(3)); bool both = in(v, a) & in(v, b);
  if (!TensorStaticInfoCastOp::areCastCompatible(TypeRange(a), TypeRange(b))) vt_prove(!both, "a static info cast that some tensor satisfies is refused");
  else vt_prove((bool)meetTensorTypes(cast<BaseTensorType>(a), cast<BaseTensorType>(b)), "a static info cast between contradictory types is accepted"); }
H(derefine) { Type S = scalarTy("s", 3), T = scalarTy("t", 3); Val v = leafVal("k");
  if (DerefineOp::areCastCompatible(TypeRange(S), TypeRange(T))) vt_prove(!in(v, S) | in(v, T), "derefine to a type that lacks values");
  if (PrimUncheckedCastOp::areCastCompatible(TypeRange(S), TypeRange(T))) vt_prove(!in(v, T) | in(v, S), "unchecked_cast to a type with other values"); }
// constructors of tensor types
H(with) { Type a = tensorTy("a"), b = tensorTy("b"); auto A = cast<BaseTensorType>(a), Bt = cast<BaseTensorType>(b);
  Type w = A.getWithSizesAndDtypeFrom(Bt); auto W = cast<BaseTensorType>(w);
  vt_prove(w.kind() == a.kind(), "getWithSizesAndDtypeFrom changes the value semantics");
  vt_prove(W.hasSameSizesAndDtype(Bt), "getWithSizesAndDtypeFrom keeps other sizes or dtype");
  Type bb = Type(BaseTensorType::vt_make(a.kind(), Bt.getOptionalSizes(), Bt.getOptionalDtype())); vt_prove(W == bb, "getWithSizesAndDtypeFrom gives another type");
  vt_prove(A.hasSameSizesAndDtype(Bt) == (a.p->hasShape == b.p->hasShape && Type(BaseTensorType::vt_make(TK_VT, A.getOptionalSizes(), A.getOptionalDtype())) == Type(BaseTensorType::vt_make(TK_VT, Bt.getOptionalSizes(), Bt.getOptionalDtype()))), "hasSameSizesAndDtype");
  ValueTensorType v = A.getWithValueSemantics(); vt_prove(v == Type(BaseTensorType::vt_make(TK_VT, A.getOptionalSizes(), A.getOptionalDtype())), "getWithValueSemantics gives another type");
  vt_prove(v.getWithoutValueSemantics() == Type(BaseTensorType::vt_make(TK_NVT, A.getOptionalSizes(), A.getOptionalDtype())), "getWithoutValueSemantics gives another type"); }
H(builtin) { Type a = tensorTy("a", 1); auto A = cast<ValueTensorType>(a); TensorType t = A.toBuiltinTensor();
  if (!A.hasDtype()) { vt_prove(!t, "a builtin tensor type without element type"); return; }
  vt_prove((bool)t && t.getElementType() == A.getDtype() && t.hasRank() == A.hasSizes(), "element type or rank of the builtin tensor type");
  if (!t.hasRank()) return;
  vt_prove(t.getShape().size() == A.getSizes().size(), "rank of the builtin tensor type");
  for (size_t i = 0; i < t.getShape().size(); ++i) vt_prove(t.getShape()[i] == (A.getSizes()[i] == -1 ? ShapedType::kDynamic : A.getSizes()[i]), "sizes of the builtin tensor type");
  auto back = makeShapeTorchCompatible(t.getShape()); for (size_t i = 0; i < back.size(); ++i) vt_prove(back[i] == A.getSizes()[i], "sizes change on the way to builtin types and back"); }
