// Name conversion used for every generated identifier, and the registry of named resources.
// SRC: decoder/format_name.cc decoder/resource.cc
// OPTS: steps=2000000
// BOUND: all names of up to 4 (quick) or 6 (thorough) characters; two symbolic characters at 9 positions of 8 longer names of up to 68 characters; histories of 3 (quick) or 4 (thorough) registry operations over names of 0 to 3 symbolic characters
// ASSUME: names are 7 bit ASCII
#include <string>
#include "absl/strings/str_cat.h"
#include "mpact/sim/decoder/format_name.h"
#include "mpact/sim/decoder/resource.h"
#include "vf.h"
using namespace mpact::sim::machine_description::instruction_set;
namespace {
bool Lower(char c) { return c >= 'a' && c <= 'z'; }
bool Upper(char c) { return c >= 'A' && c <= 'Z'; }
char Up(char c) { return Lower(c) ? c - 32 : c; }
char Low(char c) { return Upper(c) ? c + 32 : c; }
std::string Name(int n) {
  std::string s;
  for (int i = 0; i < n; i++) { char c = (char)vf_sym("char", 7); vf_assume(c != 0); s.push_back(c); }
  return s;
}
bool Same(const std::string& a, const char* b, int n) {
  if ((int)a.size() != n) return false;
  bool r = true;
  for (int i = 0; i < n; i++) r &= a[i] == b[i];
  return r;
}
}  // namespace
VF_ENTRY(nm_pascal) {
  int n = vf_choose("length", 0, VF_N(4, 6));
  std::string s = Name(n);
  char want[8]; int m = 0; bool cap = true;
  for (int i = 0; i < n; i++) { if (s[i] == '_') cap = true; else { want[m++] = cap ? Up(s[i]) : s[i]; cap = false; } }
  vf_check(Same(ToPascalCase(s), want, m), "pascal case");
  vf_reach("done");
}
VF_ENTRY(nm_snake) {
  int n = vf_choose("length", 0, VF_N(4, 6));
  std::string s = Name(n);
  char want[16]; int m = 0;
  for (int i = 0; i < n; i++) { if (i && Upper(s[i])) want[m++] = '_'; want[m++] = Low(s[i]); }
  vf_check(Same(ToSnakeCase(s), want, m), "snake case");
  // Pascal case identifiers survive the round trip.
  bool pascal = true;
  for (int i = 0; i < n; i++) pascal &= (i == 0 ? Upper(s[i]) : Upper(s[i]) | Lower(s[i]));
  if (pascal && n) vf_check(Same(ToPascalCase(ToSnakeCase(s)), s.data(), n), "snake case of a pascal case name converts back");
  vf_reach("done");
}
VF_ENTRY(nm_guard) {
  int n = vf_choose("length", 0, VF_N(4, 6));
  std::string s = Name(n);
  char want[8], low[8];
  for (int i = 0; i < n; i++) { want[i] = s[i] == '/' || s[i] == '.' ? '_' : Up(s[i]); low[i] = Low(s[i]); }
  vf_check(Same(ToHeaderGuard(s), want, n), "header guard");
  vf_check(Same(ToLowerCase(s), low, n), "lower case");
  std::string a = Indent(s), b = Indent(n);
  vf_check(a == b && (int)a.size() == n && a.find_first_not_of(' ') == std::string::npos, "indentation");
  vf_reach("done");
}
// Long names: two symbolic characters anywhere in names of many shapes and up to 70 characters.
VF_ENTRY(nm_long) {
  static const char* kBase[] = {"some_long_Name_with9digits_and__more", "HTTPServerConfigurationABC", "_leading_underscore_", "dir/sub.dir/file_name.v2.h", "x0x1x2x3x4x5x6x7", "aLLcAPSmIXED", "9lives_4ever",
                                "an_even_longer_name_that_goes_on_and_on_TO_fill_more_than_64_chars"};
  std::string s = kBase[vf_choose("base", 0, 7)];
  unsigned at = vf_choose("at", 0, 8) * s.size() / 8;
  std::string two = Name(2);
  s.insert(at, two);
  int n = s.size();
  char want[100]; int m = 0; bool cap = true;
  for (int i = 0; i < n; i++) { if (s[i] == '_') cap = true; else { want[m++] = cap ? Up(s[i]) : s[i]; cap = false; } }
  vf_check(Same(ToPascalCase(s), want, m), "pascal case");
  char sn[200]; m = 0;
  for (int i = 0; i < n; i++) { if (i && Upper(s[i])) sn[m++] = '_'; sn[m++] = Low(s[i]); }
  vf_check(Same(ToSnakeCase(s), sn, m), "snake case");
  char low[100];
  for (int i = 0; i < n; i++) { want[i] = s[i] == '/' || s[i] == '.' ? '_' : Up(s[i]); low[i] = Low(s[i]); }
  vf_check(Same(ToHeaderGuard(s), want, n), "header guard");
  vf_check(Same(ToLowerCase(s), low, n), "lower case");
  std::string a = Indent(s), b = Indent(n);
  vf_check(a == b && (int)a.size() == n && a.find_first_not_of(' ') == std::string::npos, "indentation");
  vf_reach("done");
}
VF_ENTRY(nm_registry) {
  long base = vf_heap_live();
  {
    const int K = VF_N(3, 4);
    ResourceFactory f;
    std::string name[K]; Resource* res[K]; int n = 0; bool simple[K], multi[K], array[K];
    for (int i = 0; i < K; i++) {
      std::string s = Name(vf_choose("length", 0, VF_N(2, 3)));
      int at = -1;
      for (int j = 0; j < n; j++) if (name[j] == s) { at = j; break; }
      Resource* r = nullptr;
      if (vf_choose("create", 0, 1)) {
        auto c = f.CreateResource(s);
        vf_check(c.ok() == (at < 0), "creating a resource fails exactly when the name is taken");
        if (c.ok()) r = c.value();
      } else {
        r = f.GetOrInsertResource(s);
        vf_check(r != nullptr, "lookup always delivers a resource");
        if (at >= 0) vf_check(r == res[at], "a name always denotes the same resource");
      }
      if (at < 0 && r) {
        for (int j = 0; j < n; j++) vf_check(r != res[j], "different names denote different resources");
        vf_check(r->name() == s, "the resource keeps its name");
        vf_check(r->pascal_name() == ToPascalCase(s), "the resource knows its generated name");
        vf_check(r->is_simple() && !r->is_multi_valued() && !r->is_array(), "a new resource is a simple scalar");
        name[n] = s; res[n] = r;
        simple[n] = vf_bool("simple"); multi[n] = vf_bool("multi"); array[n] = vf_bool("array");
        r->set_is_simple(simple[n]); r->set_is_multi_valued(multi[n]); r->set_is_array(array[n]);
        n++;
      }
    }
    vf_check((int)f.resource_map().size() == n, "every resource is registered once");
    for (int j = 0; j < n; j++) {
      auto it = f.resource_map().find(name[j]);
      vf_check(it != f.resource_map().end() && it->second == res[j], "every resource is found by its name");
      vf_check(res[j]->is_simple() == simple[j] && res[j]->is_multi_valued() == multi[j] && res[j]->is_array() == array[j], "attributes are kept");
    }
    vf_reach("done");
  }
  vf_check(vf_heap_live() == base, "the registry owns its resources");
}
