// Components, counters and configuration entries.
// SRC: generic/component.cc
// OPTS: steps=3000000
// BOUND: imports of three entries and two children, known or not, in any order
// BOUND: trees of up to 3 components with names of 1..2 symbolic characters; up to 3 counters and 3 configuration entries of every type with any symbolic values (doubles as bit patterns, not NaN); up to 4 (thorough: 5) counter operations of any kind with any values
#include <cstring>
#include <string>
#include "mpact/sim/generic/component.h"
#include "mpact/sim/generic/config.h"
#include "mpact/sim/generic/counters.h"
#include "vf.h"
using namespace mpact::sim::generic;
using mpact::sim::proto::ComponentData;
using mpact::sim::proto::ComponentValueEntry;
namespace {
std::string Name(const char* n, int len) {
  std::string s(len, ' ');
  for (int i = 0; i < len; i++) { s[i] = vf_u8(n); vf_assume(s[i] != 0); }
  return s;
}
double Double(const char* n) {
  uint64_t b = vf_u64(n);
  vf_assume((b >> 52 & 0x7ff) != 0x7ff);
  double d; std::memcpy(&d, &b, 8);
  return d;
}
bool SameDouble(double a, double b) { return std::memcmp(&a, &b, 8) == 0; }
struct Listener : CounterValueSetInterface<uint64_t> { uint64_t last = 0; int n = 0; void SetValue(const uint64_t& v) override { last = v; n++; } };
}  // namespace
// A counter has the value of the enabled operations done on it; listeners see every update.
VF_ENTRY(counter_history) {
  uint64_t v = vf_u64("initial"); bool on = true;
  SimpleCounter<uint64_t> c("c", v);
  Listener l; c.AddListener(&l);
  SimpleCounter<uint64_t> chained("d", 0); c.AddListener(&chained);
  int updates = 0;
  for (int k = 0; k < VF_N(4, 5); k++) {
    uint64_t x = vf_u64("x");
    switch (vf_choose("op", 0, 3)) {
      case 0: c.Increment(x); if (on) { v += x; updates++; } break;
      case 1: c.Decrement(x); if (on) { v -= x; updates++; } break;
      case 2: c.SetValue(x); if (on) { v = x; updates++; } break;
      default: on = x & 1; c.SetIsEnabled(on); break;
    }
    vf_check(c.GetValue() == v && std::get<uint64_t>(c.GetCounterValue()) == v, "a counter has the value of the operations done while enabled");
    vf_check(c.IsEnabled() == on, "a counter is enabled as set");
    vf_check(l.n == updates && (!updates || (l.last == v && chained.GetValue() == v)), "listeners see every update");
  }
  vf_reach("counter");
}
VF_ENTRY(counter_types) {
  int64_t s = vf_u64("s"), ds = vf_u64("ds");
  SimpleCounter<int64_t> c("c", "about c", s);
  c.Increment(1); c.Decrement(1);
  vf_check(c.GetValue() == s, "signed counters count");
  c.SetValue(ds);
  vf_check(std::get<int64_t>(c.GetCounterValue()) == ds, "signed counters are set");
  SimpleCounter<double> d("d", 0.0);
  double x = Double("x");
  d.SetValue(x);
  vf_check(SameDouble(d.GetValue(), x), "floating point counters are set");
  // A function counter keeps the outputs of its function, for the inputs it accepts.
  uint64_t limit = vf_u64("limit"), best = 0; int accepted = 0;
  FunctionCounter<uint64_t> f("max", 0, [&](const uint64_t& in, uint64_t* out) { if (in < limit || in < best) return false; best = in; *out = in ^ 5; return true; });
  uint64_t want = 0, m = 0; bool on = true;
  for (int k = 0; k < 2; k++) {
    uint64_t in = vf_u64("in");
    on = vf_choose("on", 0, 1);
    f.SetIsEnabled(on);
    f.SetValue(in);
    if (on && in >= limit && in >= m) { m = in; want = in ^ 5; accepted++; }
    vf_check(f.GetValue() == want, "a function counter has the last output");
  }
  FunctionCounter<uint64_t> none("none", limit);
  none.SetValue(best + 1);
  vf_check(none.GetValue() == limit, "a function counter without function is not changed");
  none.SetFunction([](const uint64_t& in, uint64_t* out) { *out = in + 1; return true; });
  none.SetValue(best);
  vf_check(none.GetValue() == best + 1, "a function can be set");
  SimpleCounter<uint64_t> u;
  Component comp("comp");
  vf_check(!u.IsInitialized() && !comp.AddCounter(&u).ok(), "a counter must be initialized before it is added");
  u.Initialize("u", limit);
  vf_check(u.IsInitialized() && u.IsEnabled() && u.GetName() == "u" && u.GetValue() == limit && comp.AddCounter(&u).ok() && comp.GetCounter("u") == &u, "a counter can be initialized later");
  ComponentValueEntry e;
  vf_check(c.Export(&e).ok() && e.name() == "c" && e.about() == "about c" && e.has_sint64_value() && e.sint64_value() == ds, "signed counters are exported");
  ComponentValueEntry e2;
  vf_check(d.Export(&e2).ok() && e2.has_double_value() && SameDouble(e2.double_value(), x) && !e2.has_about(), "floating point counters are exported");
  vf_check(!d.Export(nullptr).ok(), "export needs an entry");
  vf_reach("types");
}
// Names in a component.
VF_ENTRY(component_names) {
  std::string n[3];
  for (int i = 0; i < 3; i++) n[i] = Name("name", vf_choose("length", 1, VF_N(1, 2)));
  Component root("root");
  SimpleCounter<uint64_t> c0(n[0]), c1(n[1]), c2(n[2]);
  SimpleCounter<uint64_t>* c[3] = {&c0, &c1, &c2};
  Config<uint64_t> g0(n[0], 0), g1(n[1], 1), g2(n[2], 2);
  Config<uint64_t>* g[3] = {&g0, &g1, &g2};
  Component k0(n[0]), k1(n[1]), k2(n[2]);
  Component* k[3] = {&k0, &k1, &k2};
  bool in[3] = {};
  int kind = vf_choose("kind", 0, 2);
  for (int i = 0; i < 3; i++) {
    bool dup = false;
    for (int j = 0; j < i; j++) dup |= in[j] && n[j] == n[i];
    bool ok = kind == 0 ? root.AddCounter(c[i]).ok() : kind == 1 ? root.AddConfig(g[i]).ok() : root.AddChildComponent(*k[i]).ok();
    vf_check(ok == !dup, "a name can be added once");
    in[i] = ok;
  }
  if (kind == 2) {
    int r = vf_choose("remove", 0, 2);
    bool there = false;
    for (int j = 0; j < 3; j++) if (in[j] && n[j] == n[r]) { there = true; in[j] = false; }
    vf_check(root.RemoveChildComponent(n[r]).ok() == there && !root.RemoveChildComponent(n[r]).ok(), "a child can be removed once");
  }
  for (int i = 0; i < 3; i++) {
    int who = -1;
    for (int j = 0; j < 3; j++) if (in[j] && n[j] == n[i]) who = j;
    if (kind == 0) vf_check(root.GetCounter(n[i]) == (who < 0 ? nullptr : c[who]), "counters are found by name");
    if (kind == 1) vf_check(root.GetConfig(n[i]) == (who < 0 ? nullptr : g[who]), "configuration entries are found by name");
    if (kind == 2) {
      vf_check(root.GetChildComponent(n[i]) == (who < 0 ? nullptr : k[who]), "children are found by name");
      vf_check(k[i]->parent() == (in[i] ? &root : nullptr), "the parent of a component is the one that has it as child");
    }
  }
  vf_reach("names");
}
// A configuration exported from one tree and imported into another is the same.
VF_ENTRY(component_roundtrip) {
  struct Tree {
    Component root{"root"}, a{"a", &root}, b{"b", &a};
    Config<bool> f{"f", false}; Config<int64_t> s{"s", 0}; Config<uint64_t> u{"u", 0}; Config<double> d{"d", 0}; Config<std::string> t{"t", ""}; Config<PhysicalValue> p{"p", PhysicalValue(0)};
    SimpleCounter<uint64_t> n{"n", 0};
    int written = 0, done = 0;
    Tree() {
      vf_check(root.AddConfig(&f).ok() && root.AddConfig(&u).ok() && a.AddConfig(&s).ok() && a.AddConfig(&d).ok() && b.AddConfig(&t).ok() && b.AddConfig(&p).ok() && b.AddCounter(&n).ok(), "entries are added");
      u.AddValueWrittenCallback([this]() { written++; });
      s.AddValueWrittenCallback([this]() { written++; });
      root.AddImportDoneCallback([this]() { done++; }); b.AddImportDoneCallback([this]() { done++; });
    }
  };
  Tree& x = *new Tree; Tree& y = *new Tree;
  x.f.SetValue(vf_bool("f")); x.u.SetValue(vf_u64("u")); x.s.SetValue(vf_u64("s")); x.d.SetValue(Double("d"));
  x.t.SetValue(Name("t", vf_choose("len", 0, 2)));
  x.p.SetValue(PhysicalValue(Double("p"), mpact::sim::proto::PREFIX_NANO, mpact::sim::proto::UNIT_SECOND));
  x.n.SetValue(vf_u64("n"));
  ComponentData data;
  vf_check(x.root.Export(&data).ok(), "export");
  vf_check(data.name() == "root" && data.component_data(0).name() == "a" && data.component_data(0).component_data(0).name() == "b", "the tree is exported");
  vf_check(data.component_data(0).component_data(0).statistics(0).name() == "n" && data.component_data(0).component_data(0).statistics(0).uint64_value() == x.n.GetValue(), "counters are exported");
  vf_check(!y.u.HasConfigValue(), "nothing is set before");
  vf_check(y.root.Import(data).ok(), "import");
  vf_check(y.f.GetValue() == x.f.GetValue() && y.u.GetValue() == x.u.GetValue() && y.s.GetValue() == x.s.GetValue() && SameDouble(y.d.GetValue(), x.d.GetValue()) && y.t.GetValue() == x.t.GetValue(), "an imported configuration has the values exported");
  vf_check(SameDouble(y.p.GetValue().value, x.p.GetValue().value) && y.p.GetValue().si_prefix == x.p.GetValue().si_prefix && y.p.GetValue().si_unit == x.p.GetValue().si_unit, "physical values are imported as exported");
  vf_check(y.u.HasConfigValue() && y.s.HasConfigValue() && y.t.HasConfigValue() && y.written == 2, "imported entries are marked as set and reported");
  vf_check(y.n.GetValue() == 0, "counters are not imported");
  y.root.ImportDone();
  vf_check(y.done == 2, "the end of an import is reported to all components once");
  Component other("other");
  vf_check(!other.Import(data).ok(), "an import into a component of another name fails");
  vf_check(!y.a.Import(data).ok(), "an import into a component of another name fails");
  vf_reach("roundtrip");
}
// Values of the wrong type are refused and change nothing.
VF_ENTRY(config_types) {
  uint64_t v = vf_u64("v");
  Config<uint64_t> u("u", v); Config<int64_t> s("s", (int64_t)v); Config<bool> b("b", v & 1);
  ConfigBase* all[] = {&u, &s, &b};
  int n = 0; u.AddValueWrittenCallback([&]() { n++; });
  uint64_t w = vf_u64("w");
  int t = vf_choose("type", 0, 5);
  ConfigValue cv = t == 0 ? ConfigValue(w) : t == 1 ? ConfigValue((int64_t)w) : t == 2 ? ConfigValue((bool)(w & 1)) : t == 3 ? ConfigValue(Double("x")) : t == 4 ? ConfigValue(std::string("1")) : ConfigValue(PhysicalValue(1.0));
  ComponentValueEntry e;
  if (vf_choose("named", 0, 1)) e.set_name(vf_choose("other", 0, 1) ? "o" : "u");
  if (t == 0) e.set_uint64_value(w); else if (t == 1) e.set_sint64_value(w); else if (t == 2) e.set_bool_value(w & 1); else if (t == 3) e.set_double_value(1.0); else if (t == 4) e.set_string_value("1");
  for (int i = 0; i < 3; i++) {
    vf_check(!all[i]->HasConfigValue(), "not set yet");
    bool ok = all[i]->SetConfigValue(cv).ok();
    vf_check(ok == (t == i) && all[i]->HasConfigValue() == ok, "only values of the right type are accepted");
  }
  vf_check(u.GetValue() == (t == 0 ? w : v) && s.GetValue() == (int64_t)(t == 1 ? w : v) && b.GetValue() == ((t == 2 ? w : v) & 1), "refused values change nothing");
  vf_check(n == (t == 0), "a write is reported");
  Config<uint64_t> u2("u", v);
  bool ok = u2.Import(&e).ok();
  vf_check(ok == (e.has_name() && e.name() == "u" && t == 0), "only entries of the right name and type are imported");
  vf_check(u2.GetValue() == (ok ? w : v) && u2.HasConfigValue() == ok, "refused entries change nothing");
  vf_check(!u2.Import(nullptr).ok() && !u2.Export(nullptr).ok(), "an entry is needed");
  vf_reach("config");
}
// Function counters report exactly the accepted outputs to their listeners, even if the value stays the same.
VF_ENTRY(counter_function_listeners) {
  bool accept = vf_bool("accept"), write = vf_bool("write");
  uint64_t init = vf_u64("initial"), out = vf_u64("out");
  FunctionCounter<uint64_t> f("f", init, [&](const uint64_t& in, uint64_t* o) { if (write || accept) *o = out; else *o = init; return accept; });
  Listener l, m; f.AddListener(&l); f.AddListener(&m);
  f.SetValue(vf_u64("in"));
  vf_check(f.GetValue() == (accept ? out : init), "a function counter has the last accepted output");
  vf_check(l.n == accept && m.n == accept && (!accept || (l.last == out && m.last == out)), "listeners see exactly the accepted outputs");
  f.SetValue(vf_u64("in"));
  vf_check(l.n == 2 * accept && m.n == 2 * accept, "listeners see every accepted output");
  // A description of any length is exported, if there is one.
  std::string about = Name("about", vf_choose("length", 0, 3));
  SimpleCounter<uint64_t> c("c", init);
  if (vf_choose("later", 0, 1)) { SimpleCounter<uint64_t> d("d", about, init); ComponentValueEntry e; vf_check(d.Export(&e).ok() && e.has_about() == !about.empty() && e.about() == about, "the description is exported"); }
  c.SetAbout(about);
  ComponentValueEntry e;
  vf_check(c.Export(&e).ok() && e.has_about() == !about.empty() && e.about() == about && c.GetAbout() == about, "the description is exported");
  vf_check(e.name() == "c" && e.has_uint64_value() && e.uint64_value() == init, "name and value are exported");
  // Initializing again gives the counter its new name and value, and enables it.
  bool on = vf_bool("on");
  c.SetIsEnabled(on);
  c.Initialize("other", out);
  vf_check(c.GetName() == "other" && c.GetValue() == out && c.IsEnabled() && c.IsInitialized(), "an initialized counter is enabled");
  vf_reach("listeners");
}
// Entries and children that are not known are skipped; the others are imported.
VF_ENTRY(component_partial_import) {
  Component root("root"), a("a", &root), b("b", &root);
  Config<uint64_t> u("u", 0), v("v", 0), w("w", 0);
  vf_check(root.AddConfig(&u).ok() && root.AddConfig(&v).ok() && b.AddConfig(&w).ok(), "entries are added");
  int calls[3] = {}, order = 0, at[3] = {};
  for (int i = 0; i < 3; i++) (i == 0 ? root : i == 1 ? a : b).AddImportDoneCallback([&, i]() { calls[i]++; at[i] = ++order; });
  ComponentData data;
  data.set_name("root");
  static const char* kEntry[] = {"u", "v", "x"};
  uint64_t want[3] = {0, 0, 0};
  bool set[3] = {};
  bool failed = false;
  for (int k = 0; k < 3; k++) {
    int i = vf_choose("entry", 0, 2);
    auto* e = data.add_configuration();
    bool named = vf_choose("named", 0, 3) != 0 || k == 0;
    if (named) e->set_name(kEntry[i]);
    uint64_t x = vf_u64("value");
    e->set_uint64_value(x);
    if (failed) continue;
    if (!named) failed = true; else { want[i] = x; set[i] = true; }
  }
  static const char* kChild[] = {"a", "b", "y"};
  uint64_t child = 0; bool cset = false, cfail = failed;
  for (int k = 0; k < 2; k++) {
    int i = vf_choose("child", 0, 2);
    auto* c = data.add_component_data();
    c->set_name(kChild[i]);
    auto* e = c->add_configuration();
    e->set_name("w");
    uint64_t x = vf_u64("value");
    e->set_uint64_value(x);
    if (!cfail && i == 1) { child = x; cset = true; }
  }
  vf_check(root.Import(data).ok() == !failed, "an import fails only on entries without a name");
  vf_check(u.GetValue() == want[0] && v.GetValue() == want[1] && u.HasConfigValue() == set[0] && v.HasConfigValue() == set[1], "known entries are imported, unknown ones skipped");
  vf_check(w.GetValue() == child && w.HasConfigValue() == cset, "known children are imported, unknown ones skipped");
  root.ImportDone();
  vf_check(calls[0] == 1 && calls[1] == 1 && calls[2] == 1 && at[0] == 3, "children hear about the end of an import before their parent");
  vf_reach("partial");
}
// A component that was added to a second parent belongs to that one.
VF_ENTRY(component_second_parent) {
  Component one("one"), two("two"), c("c");
  bool built = vf_choose("built", 0, 1);
  Component* k = built ? new Component("c", &one) : &c;
  if (!built) vf_check(k->parent() == nullptr && one.AddChildComponent(*k).ok(), "a component is added");
  vf_check(k->parent() == &one && k->component_name() == "c", "the parent of a component");
  vf_check(two.AddChildComponent(*k).ok() && k->parent() == &two, "the parent is the component it was added to last");
  vf_check(!two.AddChildComponent(*k).ok() && k->parent() == &two, "a component is added once");
  bool first = vf_choose("first", 0, 1);
  vf_check((first ? one : two).RemoveChildComponent("c").ok(), "removed");
  vf_check(k->parent() == (first ? &two : nullptr), "only its parent gives up a component");
  vf_check(one.GetChildComponent("c") == (first ? nullptr : k) && two.GetChildComponent("c") == (first ? k : nullptr), "the other one still knows it");
  Component* dup = new Component("c", first ? &two : &one);
  vf_check((first ? two : one).GetChildComponent("c") == k && dup->parent() == nullptr, "a name is taken once");
  vf_reach("second");
}
