// Torch dialect types and the operations written by hand in TorchOps.td.
#pragma once
#include "core.h"
namespace mlir { namespace torch { namespace Torch {
constexpr static int64_t kUnknownSize = -1;
namespace OpTrait { struct HasValueSemantics { static bool vt_has(const Operation *o) { return o->info->valuesem; } }; using mlir::OpTrait::ReadOnly; struct AllowsTypeRefinement { static bool vt_has(const Operation *) { return false; } };
  struct AllowedInModuleInitializer { static bool vt_has(const Operation *) { return false; } }; struct IsTrailingUnderscoreInplaceVariant { static bool vt_has(const Operation *) { return false; } }; }
#define VT_TT(Name, K) class Name : public Type { public: VT_TYPE(Name, t.kind() == K) static Name get(MLIRContext *) { return Name(vt_newty(K)); } };
VT_TT(IntType, TK_TInt) VT_TT(FloatType, TK_TFloat) VT_TT(BoolType, TK_TBool) VT_TT(NumberType, TK_TNumber) VT_TT(StringType, TK_TStr) VT_TT(NoneType, TK_TNone)
VT_TT(DeviceType, TK_TDevice) VT_TT(AnyType, TK_TAny) VT_TT(GeneratorType, TK_TGen) VT_TT(QInt8Type, TK_QInt8) VT_TT(QUInt8Type, TK_QUInt8) VT_TT(QInt16Type, TK_QInt16) VT_TT(QInt32Type, TK_QInt32)
class ListType : public Type { public: VT_TYPE(ListType, t.kind() == TK_TList) static ListType get(Type e) { auto *q = vt_newty(TK_TList); q->elems = {e}; return ListType(q); } static ListType get(MLIRContext *, Type e) { return get(e); } Type getContainedType() const { return p->elems[0]; } };
class OptionalType : public Type { public: VT_TYPE(OptionalType, t.kind() == TK_TOpt) static OptionalType get(Type e) { auto *q = vt_newty(TK_TOpt); q->elems = {e}; return OptionalType(q); } static OptionalType get(MLIRContext *, Type e) { return get(e); } Type getContainedType() const { return p->elems[0]; } };
class TupleType : public Type { public: VT_TYPE(TupleType, t.kind() == TK_TTuple) static TupleType get(MLIRContext *, ArrayRef<Type> e) { auto *q = vt_newty(TK_TTuple); q->elems.assign(e.begin(), e.end()); return TupleType(q); } ArrayRef<Type> getContainedTypes() const { return p->elems; } };
class UnionType : public Type { public: VT_TYPE(UnionType, t.kind() == TK_TUnion) static UnionType get(MLIRContext *, ArrayRef<Type> e) { auto *q = vt_newty(TK_TUnion); q->elems.assign(e.begin(), e.end()); return UnionType(q); } ArrayRef<Type> getContainedTypes() const { return p->elems; } };
class DictType : public Type { public: VT_TYPE(DictType, t.kind() == TK_TDict) static DictType get(Type k, Type v) { auto *q = vt_newty(TK_TDict); q->elems = {k, v}; return DictType(q); } Type getKeyType() const { return p->elems[0]; } Type getValueType() const { return p->elems[1]; } };
class NonValueTensorType; class ValueTensorType;
class BaseTensorType : public Type {
public:
  VT_TYPE(BaseTensorType, t.kind() == TK_VT || t.kind() == TK_NVT)
  std::optional<ArrayRef<int64_t>> getOptionalSizes() const { if (!p->hasShape) return std::nullopt; return ArrayRef<int64_t>(p->shape); }
  Type getOptionalDtype() const { return p->elems[0]; }
  Attribute getOptionalSparsity() const { return Attribute(); }
  bool hasSizes() const { return p->hasShape; }
  ArrayRef<int64_t> getSizes() const { assert(hasSizes() && "must have sizes"); return p->shape; }
  bool areAllSizesKnown() const { return hasSizes() && llvm::all_of(getSizes(), [](int64_t s) { return s != kUnknownSize; }); }
  bool hasDtype() const { return (bool)p->elems[0]; }
  Type getDtype() const { assert(hasDtype() && "must have a dtype"); return p->elems[0]; }
  static TypeStorage *vt_make(TK k, std::optional<ArrayRef<int64_t>> s, Type d) { auto *q = vt_newty(k); q->hasShape = s.has_value(); if (s) q->shape.assign(s->begin(), s->end()); q->elems = {d}; return q; }
#ifdef VT_REAL_TYPES
  bool hasSameSizesAndDtype(BaseTensorType o) const; Type getWithSizesAndDtypeFrom(BaseTensorType o) const; Type getWithSizesAndDtype(std::optional<ArrayRef<int64_t>> s, Type d) const;
  Type getWithSizesAndDtypeAndSparsity(std::optional<ArrayRef<int64_t>> s, Type d, Attribute) const;
  ValueTensorType getWithValueSemantics() const;
#else
  bool hasSameSizesAndDtype(BaseTensorType o) const {
    if (hasSizes() != o.hasSizes() || getOptionalDtype() != o.getOptionalDtype()) return false;
    return !hasSizes() || (getSizes().size() == o.getSizes().size() && std::equal(getSizes().begin(), getSizes().end(), o.getSizes().begin())); }
  Type getWithSizesAndDtypeFrom(BaseTensorType o) const { return Type(vt_make(kind(), o.getOptionalSizes(), o.getOptionalDtype())); }
  Type getWithSizesAndDtype(std::optional<ArrayRef<int64_t>> s, Type d) const { return Type(vt_make(kind(), s, d)); }
  Type getWithSizesAndDtypeAndSparsity(std::optional<ArrayRef<int64_t>> s, Type d, Attribute) const { return Type(vt_make(kind(), s, d)); }
  inline ValueTensorType getWithValueSemantics() const;
#endif
};
class ValueTensorType : public BaseTensorType { public: using BaseTensorType::BaseTensorType; static bool classof(Type t) { return t.kind() == TK_VT; } static ValueTensorType vt_from(Type t) { ValueTensorType n; n.p = t.p; return n; }
  static ValueTensorType get(MLIRContext *, std::optional<ArrayRef<int64_t>> s, Type d, Attribute = Attribute()) { ValueTensorType n; n.p = vt_make(TK_VT, s, d); return n; }
  static ValueTensorType getWithLeastStaticInformation(MLIRContext *c) { return get(c, std::nullopt, Type()); }
#ifdef VT_REAL_TYPES
  TensorType toBuiltinTensor() const; NonValueTensorType getWithoutValueSemantics() const; };
#else
  TensorType toBuiltinTensor() const { if (!hasDtype()) return TensorType(); if (!hasSizes()) return UnrankedTensorType::get(getDtype()); SmallVector<int64_t> s; for (auto x : getSizes()) s.push_back(x == kUnknownSize ? ShapedType::kDynamic : x); return RankedTensorType::get(s, getDtype()); } };
#endif
class NonValueTensorType : public BaseTensorType { public: using BaseTensorType::BaseTensorType; static bool classof(Type t) { return t.kind() == TK_NVT; } static NonValueTensorType vt_from(Type t) { NonValueTensorType n; n.p = t.p; return n; }
  static NonValueTensorType get(MLIRContext *, std::optional<ArrayRef<int64_t>> s, Type d, Attribute = Attribute()) { NonValueTensorType n; n.p = vt_make(TK_NVT, s, d); return n; }
  static NonValueTensorType getWithLeastStaticInformation(MLIRContext *c) { return get(c, std::nullopt, Type()); }
#ifdef VT_REAL_TYPES
  ValueTensorType getWithValueSemantics() const;
#endif
};
#ifndef VT_REAL_TYPES
inline ValueTensorType BaseTensorType::getWithValueSemantics() const { return ValueTensorType::get(&vt_ctx, getOptionalSizes(), getOptionalDtype()); }
#endif

// every operation class: handle + FoldAdaptor base
struct vtAdaptor { SmallVector<Attribute> attrs; vtAdaptor(ArrayRef<Attribute> a) : attrs(a.begin(), a.end()) {} ArrayRef<Attribute> getOperands() const { return attrs; } };
#define VT_OPBASE(Name, str, pure_, ro_, vs_) \
  Name() {} Name(Operation *o) : vtOp(o) {} static constexpr OpInfo vt_info{str, pure_, ro_, vs_}; static StringRef getOperationName() { return str; } \
  static bool classof(Operation *o) { return o && (o->info == &vt_info); } static bool classof(Value v) { return false; } static Name vt_from(Operation *o) { return Name(o); }
#define VT_FOLD using FoldAdaptor = Adaptor; OpFoldResult fold(FoldAdaptor adaptor); static void getCanonicalizationPatterns(RewritePatternSet &patterns, MLIRContext *context);
#define VT_ONERES Value getResult() const { return op->getResult(0); } Type getType() const { return op->getResult(0).getType(); } operator Value() const { return op->getResult(0); }
template <class B, class... A> vtCreate vt_collect(B &b, A &&...a) { vtCreate c; (vt_arg(c, std::forward<A>(a)), ...); return c; }
struct Constant { };
struct ConstantIntOp : vtOp { VT_OPBASE(ConstantIntOp, "torch.constant.int", true, true, true) VT_ONERES
  template <class B, class... A> static ConstantIntOp create(B &b, Location, A &&...a) { vtCreate c = vt_collect(b, a...); Operation *o = vt_newop(&vt_info, {}, {IntType::get(&vt_ctx)});
    if (c.attrs.size()) o->setAttr("value", c.attrs[0]); else o->setAttr("value", b.getI64IntegerAttr(c.ints[0])); return o; }
  IntegerAttr getValueAttr() const { return cast<IntegerAttr>(op->getAttr("value")); } int64_t getValue() const { return getValueAttr().getInt(); } };
struct ConstantFloatOp : vtOp { VT_OPBASE(ConstantFloatOp, "torch.constant.float", true, true, true) VT_ONERES
  template <class B, class... A> static ConstantFloatOp create(B &b, Location, A &&...a) { vtCreate c = vt_collect(b, a...); Operation *o = vt_newop(&vt_info, {}, {FloatType::get(&vt_ctx)});
    if (c.attrs.size()) o->setAttr("value", c.attrs[0]); else o->setAttr("value", b.getF64FloatAttr(c.fps[0])); return o; }
  FloatAttr getValueAttr() const { return cast<FloatAttr>(op->getAttr("value")); } APFloat getValue() const { return getValueAttr().getValue(); } };
struct ConstantBoolOp : vtOp { VT_OPBASE(ConstantBoolOp, "torch.constant.bool", true, true, true) VT_ONERES
  template <class B, class... A> static ConstantBoolOp create(B &b, Location, A &&...a) { vtCreate c = vt_collect(b, a...); Operation *o = vt_newop(&vt_info, {}, {BoolType::get(&vt_ctx)});
    if (c.attrs.size()) o->setAttr("value", c.attrs[0]); else o->setAttr("value", b.getBoolAttr(c.ints[0])); return o; }
  BoolAttr getValueAttr() const { return cast<BoolAttr>(op->getAttr("value")); } bool getValue() const { return getValueAttr().getValue(); } };
struct ConstantStrOp : vtOp { VT_OPBASE(ConstantStrOp, "torch.constant.str", true, true, true) VT_ONERES
  template <class B, class... A> static ConstantStrOp create(B &b, Location, A &&...a) { vtCreate c = vt_collect(b, a...); Operation *o = vt_newop(&vt_info, {}, {StringType::get(&vt_ctx)});
    if (c.attrs.size()) o->setAttr("value", c.attrs[0]); else o->setAttr("value", b.getStringAttr(c.strs[0])); return o; }
  StringAttr getValueAttr() const { return cast<StringAttr>(op->getAttr("value")); } StringRef getValue() const { return getValueAttr().getValue(); } };
struct ConstantDeviceOp : vtOp { VT_OPBASE(ConstantDeviceOp, "torch.constant.device", true, true, true) VT_ONERES StringRef getValue() const { return cast<StringAttr>(op->getAttr("value")).getValue(); } };
struct TorchDialect { Operation *materializeConstant(OpBuilder &builder, Attribute value, Type type, Location loc); };
struct ConstantNumberOp : vtOp { VT_OPBASE(ConstantNumberOp, "torch.constant.number", true, true, true) VT_ONERES
  template <class B, class... A> static ConstantNumberOp create(B &b, Location, A &&...a) { vtCreate c = vt_collect(b, a...); Operation *o = vt_newop(&vt_info, {}, {(Type)NumberType::get(&vt_ctx)}); o->setAttr("value", c.attrs[0]); return o; }
  Attribute getValueAttr() const { return op->getAttr("value"); } };
struct ConstantNoneOp : vtOp { VT_OPBASE(ConstantNoneOp, "torch.constant.none", true, true, true) VT_ONERES
  template <class B, class... A> static ConstantNoneOp create(B &b, Location, A &&...a) { return vt_newop(&vt_info, {}, {NoneType::get(&vt_ctx)}); } };
struct ValueTensorLiteralOp : vtOp { VT_OPBASE(ValueTensorLiteralOp, "torch.vtensor.literal", true, true, true) VT_ONERES
  template <class B, class... A> static ValueTensorLiteralOp create(B &b, Location, A &&...a) { vtCreate c = vt_collect(b, a...); auto d = cast<ElementsAttr>(c.attrs[0]);
    Operation *o = vt_newop(&vt_info, {}, {c.types.size() ? c.types[0] : (Type)ValueTensorType::get(&vt_ctx, d.getShapedType().getShape(), d.getElementType())}); o->setAttr("value", c.attrs[0]); return o; }
  ElementsAttr getValueAttr() const { return cast<ElementsAttr>(op->getAttr("value")); } ElementsAttr getValue() const { return getValueAttr(); } };
struct PrimListConstructOp : vtOp { VT_OPBASE(PrimListConstructOp, "torch.prim.ListConstruct", false, true, false) VT_ONERES ValueRange getElements() const { return op->getOperands(); }
  template <class B, class... A> static PrimListConstructOp create(B &b, Location, A &&...a) { vtCreate c = vt_collect(b, a...); return vt_newop(&vt_info, c.operands, {c.types[0]}); } };
struct PrimTupleConstructOp : vtOp { VT_OPBASE(PrimTupleConstructOp, "torch.prim.TupleConstruct", true, true, true) VT_ONERES ValueRange getElements() const { return op->getOperands(); }
  template <class B, class... A> static PrimTupleConstructOp create(B &b, Location, A &&...a) { vtCreate c = vt_collect(b, a...); return vt_newop(&vt_info, c.operands, {c.types[0]}); } };
#define VT_CASTOP(Name, str) struct Name : vtOp { VT_OPBASE(Name, str, true, true, true) VT_ONERES Value getX() const { return op->getOperand(0); } static bool areCastCompatible(TypeRange, TypeRange); \
  struct Adaptor : vtAdaptor { using vtAdaptor::vtAdaptor; Attribute getX() const { return attrs[0]; } Attribute getOperand() const { return attrs[0]; } }; VT_FOLD \
  template <class B, class... A> static Name create(B &b, Location, A &&...a) { vtCreate c = vt_collect(b, a...); Type t = c.types.size() ? c.types[0] : c.operands[0].getType(); return vt_newop(&vt_info, c.operands, {t}); } };
VT_CASTOP(DerefineOp, "torch.derefine") VT_CASTOP(TensorStaticInfoCastOp, "torch.tensor_static_info_cast") VT_CASTOP(PrimUncheckedCastOp, "torch.prim.unchecked_cast")
VT_CASTOP(CopyToValueTensorOp, "torch.copy.to_vtensor") VT_CASTOP(CopyToNonValueTensorOp, "torch.copy.to_tensor") VT_CASTOP(PrimDictConstructOp, "torch.prim.DictConstruct")
}}}
namespace mlir {
inline Attribute vt_constantOf(Operation *op) {
  using namespace torch::Torch;
  if (op && (ConstantIntOp::classof(op) || ConstantFloatOp::classof(op) || ConstantBoolOp::classof(op) || ConstantStrOp::classof(op) || ValueTensorLiteralOp::classof(op))) return op->getAttr("value");
  return Attribute(); }
inline SmallVector<Attribute> vt_consts(Operation *op) { SmallVector<Attribute> r; for (auto v : op->operands) r.push_back(vt_constantOf(v.getDefiningOp())); return r; }
}
