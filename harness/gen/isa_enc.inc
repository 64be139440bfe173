// An encoding that answers every request with an operand that remembers it.
#if VF_ENC_VERSION == 2
#define VF_I Instruction *inst_,
#define VF_ID inst_
#else
#define VF_I
#define VF_ID nullptr
#endif
struct FakeEnc : VF_ENC_BASE {
  int slot, op = 0; uint32_t entry; bool any = false; int rsub = 0;
  int ops[8] = {}; int n_ops = 0; int seen[8][2] = {};   // for whole words: opcodes in the order of decoding
  OpcodeEnum GetOpcode(SlotEnum s, int e) override {
    if (any) { vf_check(n_ops < 8, "as many entries as declared"); seen[n_ops][0] = (int)s; seen[n_ops][1] = e; slot = (int)s; entry = (uint32_t)e; op = ops[n_ops++]; return (OpcodeEnum)op; }
    vf_check((int)s == slot && (uint32_t)e == entry, "the opcode is requested for the slot and entry being decoded"); return (OpcodeEnum)op;
  }
  vfi::Req R(const void* inst, int kind, SlotEnum s, int e, OpcodeEnum o, int en, int no) {
    vf_check((int)s == slot && (uint32_t)e == entry && (int)o == op, "operands are requested for the slot, entry and opcode being decoded");
    vfi::Req r; r.kind = kind; r.slot = (int)s; r.entry = (uint32_t)e; r.op = (int)o; r.en = en; r.no = no; r.inst = inst; return r;
  }
  ResourceOperandInterface* GetSimpleResourceOperand(VF_I SlotEnum s, int e, OpcodeEnum o, SimpleResourceVector& v, int end) override {
    R(VF_ID, 5, s, e, o, 0, 0);
    if (!any && vf_choose("null", 0, 1)) { for (auto x : v) lost.push_back({0, (int)x, 0, end}); return nullptr; }
    auto* r = new vfi::Res; for (auto x : v) r->v.push_back({0, (int)x, 0, end}); return r;
  }
  ResourceOperandInterface* GetComplexResourceOperand(VF_I SlotEnum s, int e, OpcodeEnum o, ComplexResourceEnum x, int b, int end) override {
    R(VF_ID, 6, s, e, o, 0, 0);
    if (!any && vf_choose("null", 0, 1)) { lost.push_back({1, (int)x, b, end}); return nullptr; }
    auto* r = new vfi::Res; r->v.push_back({1, (int)x, b, end}); return r;
  }
  std::vector<ResourceOperandInterface*> GetComplexResourceOperands(VF_I SlotEnum s, int e, OpcodeEnum o, ListComplexResourceEnum x, int b, int end) override {
    R(VF_ID, 7, s, e, o, 0, 0);
    std::vector<ResourceOperandInterface*> out; int n = any ? 1 : vf_choose("count", 0, 2);
    if (n == 0) lost.push_back({2, (int)x, b, end}); else rsub += n - 1;
    for (int i = 0; i < n; i++) { auto* r = new vfi::Res; r->sub = i; r->v.push_back({2, (int)x, b, end}); out.push_back(r); }
    return out;
  }
  PredicateOperandInterface* GetPredicate(VF_I SlotEnum s, int e, OpcodeEnum o, PredOpEnum x) override { return new vfi::Pred(R(VF_ID, 0, s, e, o, (int)x, 0)); }
  SourceOperandInterface* GetSource(VF_I SlotEnum s, int e, OpcodeEnum o, SourceOpEnum x, int no) override { return new vfi::Src(R(VF_ID, 1, s, e, o, (int)x, no)); }
  std::vector<SourceOperandInterface*> GetSources(VF_I SlotEnum s, int e, OpcodeEnum o, ListSourceOpEnum x, int no) override {
    std::vector<SourceOperandInterface*> out; int n = any ? 1 : vf_choose("count", 0, 2); auto r = R(VF_ID, 2, s, e, o, (int)x, no);
    counts.push_back(n);
    for (int i = 0; i < n; i++) { r.sub = i; out.push_back(new vfi::Src(r)); }
    return out;
  }
  DestinationOperandInterface* GetDestination(VF_I SlotEnum s, int e, OpcodeEnum o, DestOpEnum x, int no, int l) override {
    auto r = R(VF_ID, 3, s, e, o, (int)x, no); r.latency = {l}; return new vfi::Dst(r);
  }
  std::vector<DestinationOperandInterface*> GetDestinations(VF_I SlotEnum s, int e, OpcodeEnum o, ListDestOpEnum x, int no, const std::vector<int>& l) override {
    std::vector<DestinationOperandInterface*> out; int n = any ? 1 : vf_choose("count", 0, 2); auto r = R(VF_ID, 4, s, e, o, (int)x, no); r.latency = l;
    counts.push_back(n);
    for (int i = 0; i < n; i++) { r.sub = i; out.push_back(new vfi::Dst(r)); }
    return out;
  }
  int GetLatency(VF_I SlotEnum s, int e, OpcodeEnum o, DestOpEnum x, int no) override { R(VF_ID, 8, s, e, o, 0, 0); return 2000 + (int)x * 16 + no; }
  std::vector<int> GetLatency(VF_I SlotEnum s, int e, OpcodeEnum o, ListDestOpEnum x, int no) override { R(VF_ID, 9, s, e, o, 0, 0); return {3000 + (int)x * 16 + no, 1, 2}; }
  std::vector<vfi::XRes> lost; std::vector<int> counts;
};
#undef VF_I
#undef VF_ID
