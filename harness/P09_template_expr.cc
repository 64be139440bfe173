// Template expressions: value, instantiation and copying of arithmetic expression trees.
// SRC: decoder/template_expression.cc
// OPTS: steps=2000000
// BOUND: every expression tree of depth 1 and 2 (quick: inner operations of instantiated trees are limited to - and negate) over + - * / negate, slot constants, a user function, constants and formal parameters, with all constants and argument values of 15 bits (depth 1) or 8 bits (depth 2), so that no result overflows an int; one operation on unconstrained 32 bit constants; 2 actual arguments
// ASSUME: results that do not fit in 32 bits are not compared (the language leaves them undefined), though computing them may not crash
#include <functional>
#include "mpact/sim/decoder/template_expression.h"
#include "vf.h"
using namespace mpact::sim::machine_description::instruction_set;
namespace {
enum Kind { kConst, kParam, kNeg, kSlot, kAdd, kSub, kMul, kDiv, kFunc };
struct N { Kind k; int a = -1, b = -1; int val = 0; };
// Reference result: an error or a value.
struct R { bool err = false; int v = 0; };
struct World {
  N n[24]; int cnt = 0; int bits = 8; bool few = false;
  // Small enough for every result to fit in an int.
  int Val(const char* nm) { int64_t v = (int64_t)(vf_u64(nm) << (64 - bits)) >> (64 - bits); vf_assume(v != -(1ll << (bits - 1))); return (int)v; }
  TemplateFormal f0{"p0", 0}, f1{"p1", 1}, f2{"p2", 2};
  TemplateFormal* f[3] = {&f0, &f1, &f2};
  // Builds the shape; kinds limited to [0, maxk].
  int Build(int depth, int params, int maxk) {
    static const int kInner[] = {kConst, kParam, kNeg, kSub};
    int k = depth == 0 ? vf_choose("leaf", 0, params ? 1 : 0) : cnt && few ? kInner[vf_choose("kind", 0, 3)] : vf_choose("kind", 0, maxk);
    int i = cnt++;
    n[i].k = (Kind)k;
    switch (k) {
      case kConst: n[i].val = Val("const"); break;
      case kParam: if (!params) vf_prune(); n[i].val = vf_choose("param", 0, params - 1); break;
      case kNeg: case kSlot: { int a = Build(depth - 1, params, maxk); n[i].a = a; break; }
      default: { int a = Build(depth - 1, params, maxk); int b = Build(depth - 1, params, maxk); n[i].a = a; n[i].b = b; break; }
    }
    return i;
  }
  static absl::StatusOr<TemplateValue> Fn(TemplateInstantiationArgs* args) {
    auto x = (*args)[0]->GetValue(), y = (*args)[1]->GetValue();
    if (!x.ok()) return x.status();
    if (!y.ok()) return y.status();
    int a = std::get<int>(x.value()), b = std::get<int>(y.value());
    return TemplateValue((int)(unsigned char)((unsigned)a ^ ((unsigned)b << 1)));
  }
  TemplateExpression* Make(int i) {
    const N& x = n[i];
    switch (x.k) {
      case kConst: return new TemplateConstant(x.val);
      case kParam: return new TemplateParam(f[x.val]);
      case kNeg: return new TemplateNegate(Make(x.a));
      case kSlot: return new SlotConstant(Make(x.a));
      case kAdd: { auto* l = Make(x.a); return new TemplateAdd(l, Make(x.b)); }
      case kSub: { auto* l = Make(x.a); return new TemplateSubtract(l, Make(x.b)); }
      case kMul: { auto* l = Make(x.a); return new TemplateMultiply(l, Make(x.b)); }
      case kDiv: { auto* l = Make(x.a); return new TemplateDivide(l, Make(x.b)); }
      default: { auto* v = new TemplateInstantiationArgs; v->push_back(Make(x.a)); v->push_back(Make(x.b)); return new TemplateFunction(Fn, v); }
    }
  }
  bool HasParam(int i) const {
    return n[i].k == kParam || (n[i].a >= 0 && HasParam(n[i].a)) || (n[i].b >= 0 && HasParam(n[i].b));
  }
  // args == nullptr: parameters are errors.
  R Ref(int i, const R* args, int nargs) const {
    const N& x = n[i]; R r;
    if (x.k == kConst) { r.v = x.val; return r; }
    if (x.k == kParam) { if (!args || x.val >= nargs) { r.err = true; return r; } return args[x.val]; }
    R p = Ref(x.a, args, nargs), q;
    if (x.b >= 0) q = Ref(x.b, args, nargs);
    r.err = p.err || q.err; 
    if (r.err) return r;
    int a = p.v, b = q.v; int v;
    switch (x.k) {
      case kNeg: v = (int)(0u - (unsigned)a); break;
      case kSlot: v = a; break;
      case kAdd: v = (int)((unsigned)a + (unsigned)b); break;
      case kSub: v = (int)((unsigned)a - (unsigned)b); break;
      case kMul: v = (int)((unsigned)a * (unsigned)b); break;
      case kDiv: if (b == 0) { r.err = true; return r; } v = a / b; break;
      default: v = (int)(unsigned char)((unsigned)a ^ ((unsigned)b << 1)); break;
    }
    r.v = v;
    return r;
  }
};
void Same(const absl::StatusOr<TemplateValue>& got, const R& want, const char* what) {
  vf_check(got.ok() == !want.err, what);
  if (got.ok() && !want.err) {
    auto v = got.value();
    const int* p = std::get_if<int>(&v);
    vf_check(p != nullptr && *p == want.v, what);
  }
}
void Constant(int depth, int maxk) {
  long base = vf_heap_live();
  {
    World w; w.bits = depth == 1 ? 15 : 8;
    int root = w.Build(depth, 1, maxk);
    R want = w.Ref(root, nullptr, 0);
    TemplateExpression* e = w.Make(root);
    bool param = w.HasParam(root);
    vf_check(e->IsConstant() == !param, "an expression is constant exactly when it has no parameters");
    if (param) vf_check(!e->GetValue().ok(), "an expression with parameters has no value");
    else Same(e->GetValue(), want, "value of a constant expression");
    TemplateExpression* c = e->DeepCopy();
    delete e;
    vf_check(c->IsConstant() == !param, "a copy is constant when the original is");
    if (!param) Same(c->GetValue(), want, "value of a copied expression");
    delete c;
    vf_reach("constant");
  }
  vf_check(vf_heap_live() == base, "no expression node is lost");
}
void Instantiate(int depth, int maxk, int params, bool few = false) {
  long base = vf_heap_live();
  {
    World w; w.bits = depth == 1 ? 15 : 8;
    w.few = few;
    int root = w.Build(depth, params, maxk);
    R a[2]; a[0].v = w.Val("arg0"); a[1].v = w.Val("arg1");
    R want = w.Ref(root, a, 2);
    TemplateExpression* e = w.Make(root);
    bool param = w.HasParam(root);
    {
      TemplateConstant c0(a[0].v), c1(a[1].v);
      TemplateInstantiationArgs args{&c0, &c1};
      auto r = e->Evaluate(&args);
      if (!r.ok()) { vf_check(want.err, "instantiation fails only for a bad parameter or division by zero"); }
      else {
        vf_check(r.value()->IsConstant(), "a fully instantiated expression is constant");
        Same(r.value()->GetValue(), want, "value after instantiation");
        delete r.value();
      }
    }
    // Nested template: the arguments are parameters of the surrounding template.
    {
      TemplateParam q0(w.f[1]);
      TemplateNegate q1(new TemplateParam(w.f[0]));
      TemplateInstantiationArgs outer{&q0, &q1};
      R b[2]; b[0] = a[1]; b[1] = a[0]; b[1].v = (int)(0u - (unsigned)a[0].v);
      R want2 = w.Ref(root, b, 2);
      auto r = e->Evaluate(&outer);
      if (!r.ok()) { vf_check(want2.err, "instantiation fails only for a bad parameter or division by zero"); }
      else {
        TemplateConstant c0(a[0].v), c1(a[1].v);
        TemplateInstantiationArgs args{&c0, &c1};
        auto r2 = r.value()->Evaluate(&args);
        if (!r2.ok()) { vf_check(want2.err, "instantiation fails only for a bad parameter or division by zero"); }
        else { Same(r2.value()->GetValue(), want2, "value after nested instantiation"); delete r2.value(); }
        delete r.value();
      }
    }
    // The template itself is unchanged.
    vf_check(e->IsConstant() == !param, "instantiation leaves the template unchanged");
    if (!param) Same(e->GetValue(), want, "instantiation leaves the template unchanged");
    delete e;
    vf_reach("instantiated");
  }
  vf_check(vf_heap_live() == base, "no expression node is lost");
}
}  // namespace
VF_ENTRY(te_const1) { Constant(1, kFunc); }
VF_ENTRY(te_const2) { Constant(2, kDiv); }
VF_ENTRY(te_inst1) { Instantiate(1, kFunc, 3); }
VF_ENTRY(te_inst2) { Instantiate(2, kDiv, 2, VF_N(true, false)); }
VF_ENTRY_T(te_inst2f) { Instantiate(2, kFunc, 3); }
// Arithmetic is defined on integers only.
VF_ENTRY(te_not_int) {
  long base = vf_heap_live();
  {
    auto bad = [](TemplateInstantiationArgs*) -> absl::StatusOr<TemplateValue> { return absl::InternalError("no"); };
    int v = (int)vf_u32("value");
    TemplateExpression* f = new TemplateFunction(bad, new TemplateInstantiationArgs);
    TemplateExpression* e;
    switch (vf_choose("op", 0, 5)) {
      case 0: e = new TemplateNegate(f); break;
      case 1: e = new TemplateAdd(f, new TemplateConstant(v)); break;
      case 2: e = new TemplateSubtract(new TemplateConstant(v), f); break;
      case 3: e = new TemplateMultiply(f, new TemplateConstant(v)); break;
      case 4: e = new TemplateDivide(new TemplateConstant(v), f); break;
      default: e = new SlotConstant(f); break;
    }
    vf_check(!e->GetValue().ok(), "a failing argument makes the value an error");
    auto r = e->Evaluate(nullptr);
    if (r.ok()) { vf_check(!r.value()->GetValue().ok(), "a failing argument makes the value an error"); delete r.value(); }
    delete e;
  }
  vf_check(vf_heap_live() == base, "no expression node is lost");
}
// One operation on any two ints: right when the result fits, and never a crash.
VF_ENTRY(te_full_range) {
  int a = (int)vf_u32("a"), b = (int)vf_u32("b");
  int64_t x = a, y = b;
  auto A = [&] { return new TemplateConstant(a); };
  auto B = [&] { return new TemplateConstant(b); };
  TemplateExpression* e; bool err = false, fits; int v;
  switch (vf_choose("op", 0, 4)) {
    case 0: e = new TemplateNegate(A()); v = (int)(0u - (unsigned)a); fits = a != (int)0x80000000; break;
    case 1: e = new TemplateAdd(A(), B()); v = (int)((unsigned)a + (unsigned)b); fits = x + y == v; break;
    case 2: e = new TemplateSubtract(A(), B()); v = (int)((unsigned)a - (unsigned)b); fits = x - y == v; break;
    case 3: vf_assume(b >= -32768 && b <= 32767 && a >= -32768 && a <= 32767); e = new TemplateMultiply(A(), B()); v = (int)((unsigned)a * (unsigned)b); fits = true; break;
    default: {
      e = new TemplateDivide(A(), B()); err = b == 0; fits = !(a == (int)0x80000000 && b == -1); v = 0;
      if (!err && fits) v = a / b;
      break;
    }
  }
  R want; want.err = err; want.v = v;
  auto got = e->GetValue();
  auto ev = e->Evaluate(nullptr);
  if (fits) {
    Same(got, want, "value of one operation");
    vf_check(ev.ok() == !err, "evaluation fails only for division by zero");
    if (ev.ok()) Same(ev.value()->GetValue(), want, "value of one evaluated operation");
  }
  if (ev.ok()) delete ev.value();
  delete e;
  vf_reach("full");
}
// Arguments that are constant expressions themselves, possibly without a value.
VF_ENTRY(te_argument_expressions) {
  long base = vf_heap_live();
  {
    TemplateFormal f0{"p0", 0}, f1{"p1", 1};
    World w; w.bits = 8;
    int a = w.Val("a"), b = w.Val("b");
    bool div = vf_choose("div", 0, 1);
    TemplateExpression* arg = div ? (TemplateExpression*)new TemplateDivide(new TemplateConstant(a), new TemplateConstant(b)) : new TemplateSubtract(new TemplateConstant(a), new TemplateConstant(b));
    if (vf_choose("negated", 0, 1)) { arg = new TemplateNegate(arg); }
    else if (vf_choose("slot", 0, 1)) arg = new SlotConstant(arg);
    bool neg = dynamic_cast<TemplateNegate*>(arg) != nullptr;
    R want; want.err = div && b == 0;
    if (!want.err) { want.v = div ? a / b : a - b; if (neg) want.v = -want.v; }
    TemplateConstant other(5);
    TemplateInstantiationArgs args{arg, &other};
    bool second = vf_choose("second", 0, 1);
    TemplateExpression* e;
    switch (vf_choose("use", 0, 3)) {
      case 0: e = new TemplateParam(&f0); break;
      case 1: e = new TemplateNegate(new TemplateParam(&f0)); want.v = -want.v; break;
      case 2: e = second ? new TemplateAdd(new TemplateParam(&f1), new TemplateParam(&f0)) : new TemplateAdd(new TemplateParam(&f0), new TemplateParam(&f1)); want.v += 5; break;
      default: {
        auto* v = new TemplateInstantiationArgs;
        v->push_back(new TemplateParam(second ? &f1 : &f0)); v->push_back(new TemplateParam(second ? &f0 : &f1));
        e = new TemplateFunction(World::Fn, v);
        int x = second ? 5 : want.v, y = second ? want.v : 5;
        want.v = (int)(unsigned char)((unsigned)x ^ ((unsigned)y << 1));
      }
    }
    auto r = e->Evaluate(&args);
    if (want.err) {
      vf_check(!r.ok() || !r.value()->GetValue().ok(), "an argument without a value gives no value");
      if (r.ok()) delete r.value();
    } else {
      vf_check(r.ok() && r.value()->IsConstant(), "a fully instantiated expression is constant");
      Same(r.value()->GetValue(), want, "value after instantiation");
      delete r.value();
    }
    delete e; delete arg;
    vf_reach("arguments");
  }
  vf_check(vf_heap_live() == base, "no expression node is lost");
}
