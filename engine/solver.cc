#include "solver.h"
#include <algorithm>
#include <chrono>
#include <cstring>

namespace vfx {
static void errH(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "vfx: z3 error %s\n", Z3_get_error_msg(c, e));
  abort();
}

Solver::Solver(unsigned timeoutMs) : timeoutMs_(timeoutMs) {
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  ctx_ = Z3_mk_context(cfg);
  Z3_set_error_handler(ctx_, errH);
  Z3_del_config(cfg);
}

static bool isCmpOp(Op op) {
  switch (op) {
    case Op::Eq: case Op::Ult: case Op::Ule: case Op::Slt: case Op::Sle:
    case Op::FLt: case Op::FLe: case Op::FEq: case Op::FUno: return true;
    default: return false;
  }
}

Z3_ast Solver::toBool(const Expr* e) { return build(e, true); }
Z3_ast Solver::toBV(const Expr* e) { return build(e, false); }

// Iterative driver around a non-recursive node builder: children first.
Z3_ast Solver::build(const Expr* root, bool asBool) {
  struct It { const Expr* e; bool b; bool visited; };
  std::vector<It> st{{root, asBool, false}};
  auto get = [&](const Expr* e, bool b) -> Z3_ast {
    auto& m = b ? bool_ : bv_;
    auto it = m.find(e);
    return it == m.end() ? nullptr : it->second;
  };
  auto put = [&](const Expr* e, bool b, Z3_ast a) {
    (b ? bool_ : bv_)[e] = a;
  };
  while (!st.empty()) {
    It it = st.back();
    const Expr* e = it.e;
    if (get(e, it.b)) { st.pop_back(); continue; }
    // decide child modes
    bool natBool = e->w == 1 && (isCmpOp(e->op) || e->op == Op::And || e->op == Op::Or || e->op == Op::Xor || e->op == Op::Ite);
    std::vector<std::pair<const Expr*, bool>> kids;
    if (it.b && !natBool && e->op != Op::Const) {
      kids.push_back({e, false});
    } else if (!it.b && natBool) {
      kids.push_back({e, true});
    } else if (natBool) {
      if (isCmpOp(e->op)) { kids.push_back({e->a, false}); kids.push_back({e->b, false}); }
      else if (e->op == Op::Ite) { kids.push_back({e->a, true}); kids.push_back({e->b, true}); kids.push_back({e->c, true}); }
      else { kids.push_back({e->a, true}); kids.push_back({e->b, true}); }
    } else if (e->op == Op::Ite) {
      kids.push_back({e->a, true}); kids.push_back({e->b, false}); kids.push_back({e->c, false});
    } else {
      if (e->a) kids.push_back({e->a, false});
      if (e->b) kids.push_back({e->b, false});
    }
    if (!it.visited) {
      st.back().visited = true;
      bool pend = false;
      for (auto& k : kids) if (!get(k.first, k.second)) { st.push_back({k.first, k.second, false}); pend = true; }
      if (pend) continue;
    }
    st.pop_back();
    std::vector<Z3_ast> k;
    for (auto& c : kids) k.push_back(get(c.first, c.second));
    Z3_ast r = nullptr;
    if (it.b && e->op == Op::Const) {
      r = e->cv ? Z3_mk_true(ctx_) : Z3_mk_false(ctx_);
    } else if (it.b && !natBool) {
      Z3_ast one = Z3_mk_unsigned_int64(ctx_, 1, Z3_mk_bv_sort(ctx_, 1));
      r = Z3_mk_eq(ctx_, k[0], one);
    } else if (!it.b && natBool) {
      Z3_sort s = Z3_mk_bv_sort(ctx_, 1);
      r = Z3_mk_ite(ctx_, k[0], Z3_mk_unsigned_int64(ctx_, 1, s), Z3_mk_unsigned_int64(ctx_, 0, s));
    } else {
      auto fsort = [&](unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(ctx_) : Z3_mk_fpa_sort_64(ctx_); };
      auto fp = [&](Z3_ast a, unsigned w) { return Z3_mk_fpa_to_fp_bv(ctx_, a, fsort(w)); };
      auto bv = [&](Z3_ast a) { return Z3_mk_fpa_to_ieee_bv(ctx_, a); };
      auto rne = [&] { return Z3_mk_fpa_rne(ctx_); };
      auto rtz = [&] { return Z3_mk_fpa_rtz(ctx_); };
      switch (e->op) {
        case Op::Const: {
          if (e->w <= 64) r = Z3_mk_unsigned_int64(ctx_, (u64)e->cv, Z3_mk_bv_sort(ctx_, e->w));
          else {
            Z3_ast hi = Z3_mk_unsigned_int64(ctx_, (u64)(e->cv >> 64), Z3_mk_bv_sort(ctx_, e->w - 64));
            Z3_ast lo = Z3_mk_unsigned_int64(ctx_, (u64)e->cv, Z3_mk_bv_sort(ctx_, 64));
            r = Z3_mk_concat(ctx_, hi, lo);
          }
          break;
        }
        case Op::Sym: {
          char nm[32]; snprintf(nm, sizeof nm, "s%u", e->p);
          r = Z3_mk_const(ctx_, Z3_mk_string_symbol(ctx_, nm), Z3_mk_bv_sort(ctx_, e->w));
          break;
        }
        case Op::Add: r = Z3_mk_bvadd(ctx_, k[0], k[1]); break;
        case Op::Sub: r = Z3_mk_bvsub(ctx_, k[0], k[1]); break;
        case Op::Mul: r = Z3_mk_bvmul(ctx_, k[0], k[1]); break;
        case Op::UDiv: r = Z3_mk_bvudiv(ctx_, k[0], k[1]); break;
        case Op::SDiv: r = Z3_mk_bvsdiv(ctx_, k[0], k[1]); break;
        case Op::URem: r = Z3_mk_bvurem(ctx_, k[0], k[1]); break;
        case Op::SRem: r = Z3_mk_bvsrem(ctx_, k[0], k[1]); break;
        case Op::And:
          if (it.b) { Z3_ast t[2] = {k[0], k[1]}; r = Z3_mk_and(ctx_, 2, t); } else r = Z3_mk_bvand(ctx_, k[0], k[1]);
          break;
        case Op::Or:
          if (it.b) { Z3_ast t[2] = {k[0], k[1]}; r = Z3_mk_or(ctx_, 2, t); } else r = Z3_mk_bvor(ctx_, k[0], k[1]);
          break;
        case Op::Xor:
          if (it.b) {
            if (e->b->op == Op::Const && e->b->cv == 1) r = Z3_mk_not(ctx_, k[0]);
            else r = Z3_mk_xor(ctx_, k[0], k[1]);
          } else r = Z3_mk_bvxor(ctx_, k[0], k[1]);
          break;
        case Op::Shl: r = Z3_mk_bvshl(ctx_, k[0], k[1]); break;
        case Op::LShr: r = Z3_mk_bvlshr(ctx_, k[0], k[1]); break;
        case Op::AShr: r = Z3_mk_bvashr(ctx_, k[0], k[1]); break;
        case Op::Eq: r = Z3_mk_eq(ctx_, k[0], k[1]); break;
        case Op::Ult: r = Z3_mk_bvult(ctx_, k[0], k[1]); break;
        case Op::Ule: r = Z3_mk_bvule(ctx_, k[0], k[1]); break;
        case Op::Slt: r = Z3_mk_bvslt(ctx_, k[0], k[1]); break;
        case Op::Sle: r = Z3_mk_bvsle(ctx_, k[0], k[1]); break;
        case Op::Concat: r = Z3_mk_concat(ctx_, k[0], k[1]); break;
        case Op::Extract: r = Z3_mk_extract(ctx_, e->p + e->w - 1, e->p, k[0]); break;
        case Op::ZExt: r = Z3_mk_zero_ext(ctx_, e->w - e->a->w, k[0]); break;
        case Op::SExt: r = Z3_mk_sign_ext(ctx_, e->w - e->a->w, k[0]); break;
        case Op::Ite: r = Z3_mk_ite(ctx_, k[0], k[1], k[2]); break;
        case Op::FAdd: r = bv(Z3_mk_fpa_add(ctx_, rne(), fp(k[0], e->w), fp(k[1], e->w))); break;
        case Op::FSub: r = bv(Z3_mk_fpa_sub(ctx_, rne(), fp(k[0], e->w), fp(k[1], e->w))); break;
        case Op::FMul: r = bv(Z3_mk_fpa_mul(ctx_, rne(), fp(k[0], e->w), fp(k[1], e->w))); break;
        case Op::FDiv: r = bv(Z3_mk_fpa_div(ctx_, rne(), fp(k[0], e->w), fp(k[1], e->w))); break;
        case Op::FSqrt: r = bv(Z3_mk_fpa_sqrt(ctx_, rne(), fp(k[0], e->w))); break;
        case Op::FLt: r = Z3_mk_fpa_lt(ctx_, fp(k[0], e->a->w), fp(k[1], e->a->w)); break;
        case Op::FLe: r = Z3_mk_fpa_leq(ctx_, fp(k[0], e->a->w), fp(k[1], e->a->w)); break;
        case Op::FEq: r = Z3_mk_fpa_eq(ctx_, fp(k[0], e->a->w), fp(k[1], e->a->w)); break;
        case Op::FUno: {
          Z3_ast t[2] = {Z3_mk_fpa_is_nan(ctx_, fp(k[0], e->a->w)), Z3_mk_fpa_is_nan(ctx_, fp(k[1], e->a->w))};
          r = Z3_mk_or(ctx_, 2, t); break;
        }
        case Op::FPExt: case Op::FPTrunc:
          r = bv(Z3_mk_fpa_to_fp_float(ctx_, rne(), fp(k[0], e->a->w), fsort(e->w))); break;
        case Op::SIToFP: r = bv(Z3_mk_fpa_to_fp_signed(ctx_, rne(), k[0], fsort(e->w))); break;
        case Op::UIToFP: r = bv(Z3_mk_fpa_to_fp_unsigned(ctx_, rne(), k[0], fsort(e->w))); break;
        case Op::FPToSI: r = Z3_mk_fpa_to_sbv(ctx_, rtz(), fp(k[0], e->a->w), e->w); break;
        case Op::FPToUI: r = Z3_mk_fpa_to_ubv(ctx_, rtz(), fp(k[0], e->a->w), e->w); break;
      }
    }
    put(e, it.b, r);
  }
  return get(root, asBool);
}

Z3_ast Solver::indicator(const Expr* e) {
  auto it = ind_.find(e);
  if (it != ind_.end()) return it->second;
  Z3_ast b = toBool(e);
  char nm[32]; snprintf(nm, sizeof nm, "p%u", e->id);
  Z3_ast p = Z3_mk_const(ctx_, Z3_mk_string_symbol(ctx_, nm), Z3_mk_bool_sort(ctx_));
  Z3_solver_assert(ctx_, inc_, Z3_mk_implies(ctx_, p, b));
  incCount_++;
  return ind_[e] = p;
}

Sat Solver::check(const std::vector<const Expr*>& pc, const Expr* cond, const Assign& base, Assign& out) {
  if (isFalse(cond)) return Sat::No;
  if (evalExpr(cond, base)) { out = base; stats.modelHits++; return Sat::Yes; }
  if (isTrue(cond)) { out = base; return Sat::Yes; }
  // independence slicing
  std::vector<char> in(symTable().size(), 0);
  for (unsigned s : symsOf(cond)) in[s] = 1;
  std::vector<char> used(pc.size(), 0);
  std::vector<const Expr*> slice;
  bool grow = true;
  while (grow) {
    grow = false;
    for (size_t i = 0; i < pc.size(); i++) {
      if (used[i]) continue;
      bool hit = false;
      for (unsigned s : symsOf(pc[i])) if (in[s]) { hit = true; break; }
      if (!hit) continue;
      used[i] = 1; slice.push_back(pc[i]);
      for (unsigned s : symsOf(pc[i])) if (!in[s]) { in[s] = 1; grow = true; }
    }
  }
  std::vector<unsigned> ids;
  for (auto* e : slice) ids.push_back(e->id);
  std::sort(ids.begin(), ids.end());
  ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
  ids.push_back(cond->id);
  std::string key((const char*)ids.data(), ids.size() * sizeof(unsigned));
  auto hit = cache_.find(key);
  if (hit != cache_.end()) {
    stats.cacheHits++;
    if (hit->second.r == Sat::Yes) {
      out = base;
      for (auto& kv : hit->second.m) { if (out.size() <= kv.first) out.resize(kv.first + 1, 0); out[kv.first] = kv.second; }
    }
    return hit->second.r;
  }
  auto t0 = std::chrono::steady_clock::now();
  stats.queries++;
  bool anyFp = cond->fp;
  for (auto* e : slice) anyFp |= e->fp;
  Z3_solver s = nullptr;
  Z3_lbool res = Z3_L_UNDEF;
  auto setTimeout = [&](Z3_solver sv, unsigned ms) {
    Z3_params p = Z3_mk_params(ctx_);
    Z3_params_inc_ref(ctx_, p);
    Z3_params_set_uint(ctx_, p, Z3_mk_string_symbol(ctx_, "timeout"), ms);
    Z3_solver_set_params(ctx_, sv, p);
    Z3_params_dec_ref(ctx_, p);
  };
  bool useInc = !anyFp;
  if (useInc) {
    // Incremental solving: every constraint is asserted once behind an
    // indicator literal; a query is a set of assumptions.
    if (inc_ && incCount_ > 4000) { Z3_solver_dec_ref(ctx_, inc_); inc_ = nullptr; ind_.clear(); incCount_ = 0; }
    if (!inc_) {
      inc_ = Z3_mk_solver_for_logic(ctx_, Z3_mk_string_symbol(ctx_, "QF_BV"));
      Z3_solver_inc_ref(ctx_, inc_);
      setTimeout(inc_, std::min(timeoutMs_, 3000u));
    }
    std::vector<Z3_ast> as;
    for (auto* e : slice) as.push_back(indicator(e));
    as.push_back(indicator(cond));
    res = Z3_solver_check_assumptions(ctx_, inc_, as.size(), as.data());
    s = inc_;
    if (res == Z3_L_UNDEF) { Z3_solver_dec_ref(ctx_, inc_); inc_ = nullptr; ind_.clear(); incCount_ = 0; s = nullptr; }
  }
  if (res == Z3_L_UNDEF) {
    s = Z3_mk_solver_for_logic(ctx_, Z3_mk_string_symbol(ctx_, anyFp ? "QF_BVFP" : "QF_BV"));
    Z3_solver_inc_ref(ctx_, s);
    useInc = false;
    setTimeout(s, timeoutMs_);
    for (auto* e : slice) Z3_solver_assert(ctx_, s, toBool(e));
    Z3_solver_assert(ctx_, s, toBool(cond));
    res = Z3_solver_check(ctx_, s);
  }
  Entry ent;
  if (res == Z3_L_TRUE) {
    ent.r = Sat::Yes; stats.sat++;
    Z3_model m = Z3_solver_get_model(ctx_, s);
    Z3_model_inc_ref(ctx_, m);
    for (unsigned i = 0; i < in.size(); i++) {
      if (!in[i]) continue;
      Z3_ast v = nullptr;
      if (!Z3_model_eval(ctx_, m, toBV(symTable()[i].e), true, &v)) continue;
      uint64_t u = 0;
      Z3_get_numeral_uint64(ctx_, v, &u);
      ent.m.push_back({i, u});
    }
    Z3_model_dec_ref(ctx_, m);
    out = base;
    for (auto& kv : ent.m) { if (out.size() <= kv.first) out.resize(kv.first + 1, 0); out[kv.first] = kv.second; }
    // self-check of the translation: the model must satisfy our own semantics
    bool ok = evalExpr(cond, out);
    for (auto* e : slice) if (!evalExpr(e, out)) ok = false;
    if (!ok) { ent.r = Sat::Unknown; stats.unknown++; fprintf(stderr, "vfx: model check failed (fp NaN payload?)\n"); }
  } else if (res == Z3_L_FALSE) {
    ent.r = Sat::No; stats.unsat++;
  } else {
    ent.r = Sat::Unknown; stats.unknown++;
  }
  if (!useInc) Z3_solver_dec_ref(ctx_, s);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  stats.time += dt;
  if (dt > stats.maxTime) stats.maxTime = dt;
  // A solver that has accumulated much slows down: start afresh.
  if (useInc && dt > 0.02 && incCount_ > 60) { Z3_solver_dec_ref(ctx_, inc_); inc_ = nullptr; ind_.clear(); incCount_ = 0; }
  if (ent.r != Sat::Unknown) cache_[key] = ent;
  return ent.r;
}
}  // namespace vfx
