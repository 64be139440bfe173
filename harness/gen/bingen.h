// Helpers for the generator programs: a tiny description language for formats
// that is handed to the repository's API on one side and to the oracle on the
// other.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

#include "mpact/sim/decoder/bin_decoder.h"
#include "mpact/sim/decoder/bin_encoding_info.h"
#include "mpact/sim/decoder/bin_format_visitor.h"
#include "mpact/sim/decoder/decoder_error_listener.h"
#include "mpact/sim/decoder/format.h"
#include "mpact/sim/decoder/format_name.h"
#include "mpact/sim/decoder/instruction_encoding.h"
#include "mpact/sim/decoder/instruction_group.h"
#include "mpact/sim/decoder/overlay.h"

namespace bg {
using namespace mpact::sim::decoder::bin_format;
using mpact::sim::decoder::DecoderErrorListener;
using mpact::sim::machine_description::instruction_set::ToPascalCase;
using mpact::sim::machine_description::instruction_set::ToSnakeCase;

struct Comp {  // overlay component
  int kind;    // 0 constant, 1 whole field, 2 field range, 3 format range
  int64_t value = 0;
  int width = 0;
  std::string field;
  int hi = 0, lo = 0;
  std::vector<std::pair<int, int>> more;  // further ranges of the same reference
  std::vector<BitRange> ranges() const {
    std::vector<BitRange> r{BitRange{hi, lo}};
    for (auto& m : more) r.push_back(BitRange{m.first, m.second});
    return r;
  }
};
inline Comp K(int64_t v, int w) { Comp c{0}; c.value = v; c.width = w; return c; }
inline Comp W(std::string f) { Comp c{1}; c.field = f; return c; }
inline Comp R(std::string f, int hi, int lo) { Comp c{2}; c.field = f; c.hi = hi; c.lo = lo; return c; }
inline Comp F(int hi, int lo) { Comp c{3}; c.hi = hi; c.lo = lo; return c; }
struct Fld {
  std::string name;
  bool sgn;
  int width;        // of one instance
  std::string fmt;  // format reference when not empty
  int size = 1;
  int high = 0;     // filled in by place()
  int low() const { return high - width + 1; }  // of instance 0
};
struct Ovl {
  std::string name;
  bool sgn;
  int width;
  std::vector<Comp> comps;
};
struct Fmt {
  std::string name;
  int width;
  std::string base;
  std::vector<Fld> fields;
  std::vector<Ovl> ovls;
  bool packed = false;
  const Fld& field(const std::string& n) const {
    for (auto& f : fields)
      if (f.name == n) return f;
    std::cerr << "battery: no field " << n << "\n";
    exit(1);
  }
  // The oracle's placement: left to right from the most significant bit.
  void place() {
    int h = width - 1;
    for (auto& f : fields) f.high = h, h -= f.width * f.size;
    if (h != -1) std::cerr << "battery: format " << name << " is off by " << h + 1 << "\n", exit(1);
  }
};

inline void need(bool ok, const std::string& what) {
  if (!ok) {
    std::cerr << "generator refused: " << what << "\n";
    exit(4);
  }
}

inline Format* add(BinEncodingInfo* info, const Fmt& f) {
  auto r = f.base.empty() ? info->AddFormat(f.name, f.width) : info->AddFormat(f.name, f.width, f.base);
  need(r.ok(), f.name);
  Format* p = r.value();
  if (f.packed) p->set_layout(Format::Layout::kPackedStruct);
  for (auto& x : f.fields) {
    if (x.fmt.empty())
      need(p->AddField(x.name, x.sgn, x.width).ok(), f.name + "." + x.name);
    else
      p->AddFormatReferenceField(x.name, x.fmt, x.size, nullptr);
  }
  for (auto& o : f.ovls) {
    auto ro = p->AddFieldOverlay(o.name, o.sgn, o.width);
    need(ro.ok(), f.name + "." + o.name);
    for (auto& c : o.comps) {
      absl::Status s = absl::OkStatus();
      if (c.kind == 0) ro.value()->AddBitConstant(BinaryNum{c.value, c.width});
      if (c.kind == 1) s = ro.value()->AddFieldReference(c.field);
      if (c.kind == 2) s = ro.value()->AddFieldReference(c.field, c.ranges());
      if (c.kind == 3) s = ro.value()->AddFormatReference(c.ranges());
      need(s.ok(), f.name + "." + o.name + " component");
    }
  }
  return p;
}

// The oracle's view of an overlay: for every result bit, the source bit of the
// format (or -1/-2 for a constant 0/1), least significant first.
inline std::vector<int> ovlbits(const Fmt& f, const Ovl& o) {
  std::vector<int> msb;
  for (auto& c : o.comps) {
    if (c.kind == 0)
      for (int i = c.width - 1; i >= 0; i--) msb.push_back((c.value >> i) & 1 ? -2 : -1);
    else {
      int base = c.kind == 3 ? 0 : f.field(c.field).low();
      int hi = c.kind == 1 ? f.field(c.field).width - 1 : c.hi, lo = c.kind == 1 ? 0 : c.lo;
      for (int i = hi; i >= lo; i--) msb.push_back(base + i);
      for (auto& m : c.more)
        for (int i = m.first; i >= m.second; i--) msb.push_back(base + i);
    }
  }
  need((int)msb.size() == o.width, "battery: overlay width " + f.name + "." + o.name);
  return {msb.rbegin(), msb.rend()};
}
inline int tw(int w) { return w <= 8 ? 8 : w <= 16 ? 16 : w <= 32 ? 32 : w <= 64 ? 64 : 128; }
inline std::string ut(int w) { return w > 64 ? "absl::uint128" : "uint" + std::to_string(tw(w)) + "_t"; }
inline std::string it(int w) { return w > 64 ? "absl::int128" : "int" + std::to_string(tw(w)) + "_t"; }

// The text of the raw-string constant of the decoder generator that defines
// the function template `fn`.
inline std::string rawstring(const std::string& repo, const std::string& fn) {
  std::vector<std::filesystem::path> files;
  for (auto& e : std::filesystem::directory_iterator(repo + "/mpact/sim/decoder"))
    if (e.path().extension() == ".cc" || e.path().extension() == ".h") files.push_back(e.path());
  std::sort(files.begin(), files.end());
  for (auto& f : files) {
    std::ifstream in(f);
    std::stringstream ss;
    ss << in.rdbuf();
    std::string t = ss.str();
    size_t p = 0;
    while ((p = t.find("R\"", p)) != std::string::npos) {
      size_t q = t.find('(', p);
      if (q == std::string::npos) break;
      std::string delim = ")" + t.substr(p + 2, q - p - 2) + "\"";
      size_t e = t.find(delim, q);
      if (e == std::string::npos) break;
      std::string r = t.substr(q + 1, e - q - 1);
      if (r.find(" " + fn + "(") != std::string::npos && r.find("template") != std::string::npos) return r;
      p = e;
    }
  }
  need(false, "no template " + fn);
  return "";
}
}  // namespace bg
