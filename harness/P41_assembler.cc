// Assembled programs hold what their source says, where their labels say it is.
// SRC: util/asm/simple_assembler.cc util/asm/resolver.cc
// FLAGS: -iquote @VERIF@/shim_asm -DVF_HEX_DIGITS
// OPTS: steps=6000000
// BOUND: every data directive with two values, one of up to 16 hexadecimal digits, one of up to 3 decimal digits, with and without a sign; characters and strings of 2 characters, every character but quotes and backslashes, and every escape
// BOUND: programs of 3 (thorough: 4) statements out of sections, instructions with and without labels and symbols, words, space and alignment, labels, in every section; every base address and start of the data; 32 and 64 bit files; executable and relocatable
// ASSUME: ELFIO and RE2 are replaced by models; the encoding of instructions is that of the harness; lines are those of the source, in full
#include <sstream>
#include <string>
#include <vector>
#include "mpact/sim/util/asm/simple_assembler.h"
#include "vf.h"
using namespace mpact::sim::util::assembler;
namespace {
// Instructions of two bytes, 0x13, or of four: the value of the symbol, with the label as a symbol at the address.
uint64_t limit = ~uint64_t{0};  // no symbol is encoded beyond it
struct Opcodes : OpcodeAssemblerInterface {
  std::vector<uint64_t> at;
  int calls = 0;
  absl::StatusOr<size_t> Encode(uint64_t address, absl::string_view text, AddSymbolCallback add, ResolverInterface* resolver, std::vector<uint8_t>& bytes, std::vector<RelocationInfo>& relocations) override {
    calls++;
    size_t c = text.find(':');
    if (c != absl::string_view::npos) {
      auto s = add(std::string(text.substr(0, c)), address, 0, ELFIO::STT_NOTYPE, ELFIO::STB_LOCAL, 0);
      if (!s.ok()) return s;
      text.remove_prefix(c + 1);
    }
    while (!text.empty() && (text[0] == ' ' || text[0] == '\t')) text.remove_prefix(1);
    while (!text.empty() && text.back() == ' ') text.remove_suffix(1);
    if (text == "bad") return absl::InvalidArgumentError("bad");
    at.push_back(address);
    uint64_t v = 0x13;
    int size = 2;
    if (text.substr(0, 4) == "use ") {
      auto r = resolver->Resolve(text.substr(4));
      if (!r.ok()) return r.status();
      v = *r;
      size = 4;
      if (v > limit) return absl::OutOfRangeError("too far");
      relocations.emplace_back(99, std::string(text.substr(4)), 7, 5, 0);
    } else if (text != "nop") {
      return absl::InvalidArgumentError("unknown");
    }
    for (int i = 0; i < size; i++) bytes.push_back(v >> (8 * i));
    return static_cast<size_t>(size);
  }
};
Opcodes* ops;
SimpleAssembler* as;
absl::Status Assemble(const std::string& text, int cls = ELFIO::ELFCLASS64) {
  ops = new Opcodes;
  as = new SimpleAssembler(";", cls, ops);
  std::istringstream is(text);
  return as->Parse(is);
}
int g_class = ELFIO::ELFCLASS64;
struct Sym { bool found = false; uint64_t value = 0, size = 0; int bind = 0, section = 0, index = 0, type = 0; };
Sym Find(const std::string& name) {
  Sym r;
  auto* symtab = as->writer().sections[".symtab"];
  const std::string& strings = as->writer().sections[".strtab"]->data;
  bool wide = as->writer().get_class() == ELFIO::ELFCLASS64;
  size_t n = symtab->data.size() / (wide ? sizeof(ELFIO::Elf64_Sym) : sizeof(ELFIO::Elf32_Sym));
  for (size_t i = 1; i < n; i++) {
    Sym s; s.found = true; s.index = i;
    uint32_t at;
    if (wide) { auto* y = reinterpret_cast<const ELFIO::Elf64_Sym*>(symtab->data.data()) + i; at = y->st_name; s.value = y->st_value; s.size = y->st_size; s.bind = ELF_ST_BIND(y->st_info); s.type = ELF_ST_TYPE(y->st_info); s.section = y->st_shndx; }
    else { auto* y = reinterpret_cast<const ELFIO::Elf32_Sym*>(symtab->data.data()) + i; at = y->st_name; s.value = y->st_value; s.size = y->st_size; s.bind = ELF_ST_BIND(y->st_info); s.type = ELF_ST_TYPE(y->st_info); s.section = y->st_shndx; }
    if (name == strings.c_str() + at) { vf_check(!r.found, "a symbol is in the table once"); r = s; }
  }
  return r;
}
int Index(const char* section) { return as->writer().sections[section]->get_index(); }
const std::string& Data(const char* section) { return as->writer().sections[section]->data; }
bool Same(const std::string& a, const std::string& b) {
  if (a.size() != b.size()) return false;
  unsigned d = 0;
  for (size_t i = 0; i < a.size(); i++) d |= static_cast<unsigned char>(a[i] ^ b[i]);
  return d == 0;
}
uint64_t Hex(std::string* s, int digits) {  // digits of any value, without branches
  uint64_t v = 0;
  bool upper = digits > 1 && vf_choose("upper", 0, 1);
  for (int i = 0; i < digits; i++) {
    unsigned d = vf_u8("digit") & 15;
    s->push_back(static_cast<char>('0' + d + (d > 9) * ((upper ? 'A' : 'a') - '0' - 10)));
    v = v << 4 | d;
  }
  return v;
}
uint64_t Dec(std::string* s, int digits) {
  uint64_t v = 0;
  for (int i = 0; i < digits; i++) {
    unsigned d = vf_u8("decimal") & 7;
    s->push_back(static_cast<char>('0' + d));
    v = v * 10 + d;
  }
  return v;
}
void Put(std::string* s, uint64_t v, int n) { for (int i = 0; i < n; i++) s->push_back(static_cast<char>(v >> (8 * i))); }
}  // namespace
// The values of data directives.
VF_ENTRY(P41_values) {
  static const struct { const char* name; int size; bool is_signed; } kD[] = {{"bytes", 1, false}, {"uchar", 1, false}, {"short", 2, true}, {"ushort", 2, false}, {"word", 4, true}, {"uword", 4, false}, {"long", 8, true}, {"ulong", 8, false}};
  auto& d = kD[vf_choose("directive", 0, 7)];
  std::string text = "\t.data\nfirst:\n\t.", want;
  text += d.name;
  int first = vf_choose("first", 0, 2);
  text += " ";
  uint64_t v;
  if (first == 0) { text += "0x"; int n = vf_choose("digits", 0, 1) ? 1 : 2 * d.size; if (d.is_signed && n > 1) { text += "7"; n--; v = Hex(&text, n) | 7ull << (4 * n); } else v = Hex(&text, n); }
  else if (first == 1) v = Dec(&text, 2);
  else { if (!d.is_signed) { v = 3; text += "3"; } else { text += "-"; v = -Dec(&text, 2); } }
  Put(&want, v, d.size);
  if (vf_choose("second", 0, 1)) {
    text += vf_choose("space", 0, 1) ? " , " : ",";
    v = Dec(&text, d.size == 1 ? 2 : 3);
    Put(&want, v, d.size);
  }
  text += "\nafter:\n";
  vf_check(Assemble(text).ok(), "the source is understood");
  vf_check(as->CreateExecutable(0x1000, 0x1000).ok(), "the executable is made");
  vf_check(Same(Data(".data"), want), "the section holds the values");
  vf_check(Find("first").value == 0x1000 && Find("after").value == 0x1000 + want.size(), "the labels are before and after the values");
  vf_reach("values");
}
VF_ENTRY(P41_strings) {
  static const struct { char c; char v; } kEscapes[] = {{'n', '\n'}, {'r', '\r'}, {'v', '\v'}, {'f', '\f'}, {'a', '\a'}, {'b', '\b'}, {'t', '\t'}, {'\\', '\\'}, {'\'', '\''}, {'?', '?'}};
  int kind = vf_choose("kind", 0, 2);  // .char, .string, .cstring
  std::string text = "\t.data\nfirst:\n\t.", want;
  text += kind == 0 ? "char " : kind == 1 ? "string " : "cstring ";
  int n = kind == 0 ? 1 : vf_choose("length", 0, 2);
  text += kind == 0 ? '\'' : '"';
  int escape = vf_choose("escape", -1 + 1, 11) - 1;
  for (int i = 0; i < n; i++) {
    if (i == 0 && escape >= 0 && escape < 10) { text += '\\'; text += kEscapes[escape].c; want += kEscapes[escape].v; continue; }
    unsigned char c = vf_u8("c");
    vf_assume(c >= ' ' && c != '\\' && c != '"' && c != '\'' && c != ';' && c < 127);
    text += static_cast<char>(c); want += static_cast<char>(c);
  }
  text += kind == 0 ? '\'' : '"';
  if (kind == 2) want += '\0';
  if (escape == 10) { if (kind == 0) { text += ", 'z'"; want += 'z'; } else { text += ",\"y z\""; want += "y z"; if (kind == 2) want += '\0'; } }
  text += "\nafter:\n";
  vf_check(Assemble(text).ok(), "the source is understood");
  vf_check(as->CreateExecutable(0x1000, 0x1000).ok(), "the executable is made");
  vf_check(Same(Data(".data"), want), "the section holds the characters");
  vf_check(Find("first").value == 0x1000 && Find("after").value == 0x1000 + want.size(), "the labels are before and after the characters");
  vf_reach("strings");
}
namespace {
const char* const kSection[] = {".text", ".data", ".bss"};
struct Model {
  std::string text, data[3];
  uint64_t size[3] = {};
  int bss_align = 16, section = -1, labels = 0, instructions = 0;
  struct { std::string name; int section; uint64_t value; } label[8];
  struct { int section; uint64_t offset; int label; } use[8];  // -1: the end
  uint64_t at[8]; int at_section[8];
  int uses = 0;
  bool wrong = false, globals = false;
  bool Global(int i) const { return globals && (label[i].name == "l1" || label[i].name == "end"); }
  int Used(int i) const { return use[i].label >= 0 ? use[i].label : labels - 2; }
  void Bytes(const std::string& s) { if (section == 2) { wrong = true; } data[section] += s; size[section] += s.size(); }
  void Label(const std::string& n) { label[labels] = {n, section, size[section]}; labels++; }
  void Fill(uint64_t n) { data[section].append(n, '\0'); size[section] += n; }
};
void Statement(Model* m, int kind, int i) {
  std::string l = std::string("l") + static_cast<char>('0' + i);
  switch (kind) {
    case 0: case 1: case 2: m->text += std::string("\t") + kSection[kind] + "\n"; m->section = kind; break;
    case 3: m->text += "\tnop ; nothing\n"; m->at[m->instructions] = m->size[m->section]; m->at_section[m->instructions++] = m->section; m->Bytes(std::string("\x13\0", 2)); break;
    case 10: m->text += "\tuse start\n"; m->at[m->instructions] = m->size[m->section]; m->at_section[m->instructions++] = m->section; m->use[m->uses++] = {m->section, m->size[m->section], 0}; m->Bytes("????"); break;
    case 4: m->text += l + ": use end\n"; m->Label(l); m->at[m->instructions] = m->size[m->section]; m->at_section[m->instructions++] = m->section; m->use[m->uses++] = {m->section, m->size[m->section], -1}; m->Bytes("????"); break;
    case 5: m->text += l + ": .space 3\n"; m->Label(l); m->Fill(3); break;
    case 6: m->text += "\t.align 8\n"; m->Fill((8 - m->size[m->section] % 8) % 8); break;
    case 7: m->text += l + ":\t.short 0x1234, -2\n"; m->Label(l); m->Bytes("\x34\x12\xfe\xff"); break;
    case 8: m->text += l + ":\n"; m->Label(l); break;
    case 9: m->text += "\t.align 64\n"; m->Fill((64 - m->size[m->section] % 64) % 64); if (m->section == 2) m->bss_align = 64; break;
  }
}
void Program(Model* m) {
  Statement(m, vf_choose("section", 0, 2), 0);
  m->text += "start:\n"; m->Label("start");
  int n = VF_N(2, 3);
  for (int i = 1; i <= n; i++) Statement(m, vf_choose("statement", 0, 10), i);
  if (m->wrong) vf_assume(false);
  m->text += "end: .space 1\n"; m->Label("end"); m->Fill(1);
  m->text += "tail:\n"; m->Label("tail");
  m->globals = vf_choose("global", 0, 1);
  if (m->globals) m->text = "\t.global l1, end\n" + m->text;
}
}  // namespace
VF_ENTRY(P41_executable) {
  Model m;
  Program(&m);
  g_class = vf_choose("class", 1, 2);
  vf_check(Assemble(m.text, g_class).ok(), "the source is understood");
  uint64_t base = g_class == 1 ? vf_u32("base") : vf_u64("base"), start = 0;
  vf_assume(base < (g_class == 1 ? 0xf0000000 : 0xffffffff00000000));
  if (vf_choose("data", 0, 1)) { start = vf_u32("start"); vf_assume(start > 0 && start < 0xf0000000 && start % 64 == 0); as->set_data_segment_start(start); }
  auto s = as->CreateExecutable(base, "end");
  vf_check(s.ok(), "the executable is made");
  uint64_t at[3];
  at[0] = base & ~4095ull;
  at[1] = start ? start : (at[0] + m.size[0] + 4095) & ~4095ull;
  at[2] = (at[1] + m.size[1] + m.bss_align - 1) & -static_cast<uint64_t>(m.bss_align);
  uint64_t end = at[m.section] + m.size[m.section] - 1;
  for (int i = 0; i < m.uses; i++) for (int j = 0; j < 4; j++) { auto& l = m.label[m.Used(i)]; m.data[m.use[i].section][m.use[i].offset + j] = static_cast<char>((at[l.section] + l.value) >> (8 * j)); }
  for (int i = 0; i < m.labels; i++) {
    Sym y = Find(m.label[i].name);
    vf_check(y.found && y.section == Index(kSection[m.label[i].section]), "a label is a symbol of its section");
    vf_check(y.value == at[m.label[i].section] + m.label[i].value, "a label is the address of what follows it");
    vf_check(y.bind == (m.Global(i) ? ELFIO::STB_GLOBAL : ELFIO::STB_LOCAL), "the symbols named in a global directive are global");
  }
  vf_check(Same(Data(".text"), m.data[0]), "the text is what the source says");
  vf_check(Same(Data(".data"), m.data[1]), "the data are what the source says");
  vf_check(as->writer().sections[".text"]->get_size() == m.size[0] && as->writer().sections[".data"]->get_size() == m.size[1] && as->writer().sections[".bss"]->get_size() == m.size[2], "the sections have the sizes of their contents");
  vf_check(as->writer().get_entry() == end, "the entry point is the symbol");
  vf_check(ops->calls == 2 * m.instructions, "each instruction is encoded in both passes");
  for (int i = 0; i < m.instructions; i++) vf_check(ops->at[i] == m.at[i] && ops->at[m.instructions + i] == at[m.at_section[i]] + m.at[i], "an instruction is encoded for its address");
  auto& e = as->writer();
  vf_check(e.type == ELFIO::ET_EXEC && e.segments.size() == 2, "an executable has two segments");
  vf_check(e.segments[0]->vaddr == at[0] && e.segments[0]->paddr == at[0] && e.segments[0]->type == ELFIO::PT_LOAD && e.segments[0]->flags == (ELFIO::PF_R | ELFIO::PF_X), "the text is loaded where it is executed");
  vf_check(e.segments[1]->vaddr == at[1] && e.segments[1]->paddr == at[1] && e.segments[1]->type == ELFIO::PT_LOAD && e.segments[1]->flags == (ELFIO::PF_R | ELFIO::PF_W), "the data are loaded where they are used");
  vf_check(e.segments[0]->members.size() == 1 && e.segments[0]->members[0] == Index(".text"), "the text segment holds the text");
  vf_check(e.segments[1]->members.size() == 2 && e.segments[1]->members[0] == Index(".data") && e.segments[1]->members[1] == Index(".bss"), "the data segment holds the data");
  vf_reach("executable");
}
VF_ENTRY(P41_relocatable) {
  Model m;
  Program(&m);
  g_class = vf_choose("class", 1, 2);
  vf_check(Assemble(m.text, g_class).ok(), "the source is understood");
  vf_check(as->CreateRelocatable().ok(), "the relocatable file is made");
  auto& e = as->writer();
  for (int i = 0; i < m.uses; i++) for (int j = 0; j < 4; j++) m.data[m.use[i].section][m.use[i].offset + j] = static_cast<char>(m.label[m.Used(i)].value >> (8 * j));
  int locals = 4;
  for (int i = 0; i < m.labels; i++) {
    Sym y = Find(m.label[i].name);
    bool g = m.Global(i);
    if (!g) locals++;
    vf_check(y.found && y.section == Index(kSection[m.label[i].section]) && y.value == m.label[i].value, "a label is the offset of what follows it");
    vf_check(y.bind == (g ? ELFIO::STB_GLOBAL : ELFIO::STB_LOCAL), "the symbols named in a global directive are global");
  }
  for (int i = 0; i < m.labels; i++) { Sym y = Find(m.label[i].name); vf_check((y.index < locals) == (y.bind == ELFIO::STB_LOCAL), "local symbols come first"); }
  vf_check(e.sections[".symtab"]->get_info() == static_cast<unsigned>(locals) && e.sections[".symtab"]->get_link() == static_cast<unsigned>(Index(".strtab")), "the symbol table says how many are local");
  vf_check(e.type == ELFIO::ET_REL && Same(Data(".text"), m.data[0]) && Same(Data(".data"), m.data[1]), "the sections hold what the source says");
  for (int k = 0; k < 2; k++) {
    auto* r = e.sections[k ? ".rela.data" : ".rela.text"];
    int n = 0;
    for (int i = 0; i < m.uses; i++) n += m.use[i].section == k;
    if (n == 0) { vf_check(r == nullptr, "a section without relocations has no table"); continue; }
    vf_check(r != nullptr && r->get_type() == ELFIO::SHT_RELA, "relocations are in a table");
    vf_check(r->get_info() == static_cast<unsigned>(Index(kSection[k])) && r->get_link() == static_cast<unsigned>(Index(".symtab")), "the table applies to the section");
    size_t z = g_class == ELFIO::ELFCLASS64 ? sizeof(ELFIO::Elf64_Rela) : sizeof(ELFIO::Elf32_Rela);
    vf_check(r->get_entry_size() == z && r->data.size() == n * z, "there is one entry for each relocation");
    int j = 0;
    for (int i = 0; i < m.uses; i++) {
      if (m.use[i].section != k) continue;
      uint64_t off, sym, type, addend;
      if (g_class == ELFIO::ELFCLASS64) { auto* a = reinterpret_cast<const ELFIO::Elf64_Rela*>(r->data.data()) + j; off = a->r_offset; sym = a->r_info >> 32; type = a->r_info & 0xffffffff; addend = a->r_addend; }
      else { auto* a = reinterpret_cast<const ELFIO::Elf32_Rela*>(r->data.data()) + j; off = a->r_offset; sym = a->r_info >> 8; type = a->r_info & 0xff; addend = a->r_addend; }
      j++;
      vf_check(off == m.use[i].offset && sym == static_cast<unsigned>(Find(m.label[m.Used(i)].name).index) && type == 7 && addend == 5, "a relocation names the place and the symbol");
    }
    vf_reach(k ? "data relocations" : "text relocations");
  }
  vf_reach("relocatable");
}
// What cannot be assembled is refused.
VF_ENTRY(P41_errors) {
  static const char* const kBad[] = {
      "\t.data\n\t.word abc\n", "\t.data\n\t.word 5 6\n", "\t.data\n\t.uchar 1,x\n", "\t.data\n\t.word 0x1ffffffff\n", "\t.data\n\t.long 1, 99999999999999999999\n", "\t.data\n\t.short 0x\n",
      "\t.data\n\t.char a\n", "\t.data\n\t.char 'ab'\n", "\t.data\n\t.string abc\n", "\t.data\n\t.cstring \"abc\n", "\t.data\n\t.align 3\n", "\t.data\n\t.space x\n", "\t.data\n\t.space -1\n", "\t.data\n\t.wrod 1\n", "\t.data\n\t.align\n",
      "\t.text\na:\na:\n", "\t.text\na:\na: .word 1\n", "\t.text\na: nop\na: nop\n", "\t.text\na: nop\na:\n", "\t.text\na:\n\t.data\na: .word 1\n", "\t.text\n\tbad\n", "\t.text\n\tunknown\n", "\t.text\n\tuse nowhere\n",
      "\t.word 1\n\t.text\n\tnop\n", "\tnop\n\t.data\n", "a:\n\t.data\n", "a: .word 1\n\t.text\n", "\t.text\n\t.global a b\n", "\t.sect .foo\n"};
  int i = vf_choose("source", 0, static_cast<int>(sizeof(kBad) / sizeof(kBad[0])) - 1);
  auto s = Assemble(kBad[i]);
  if (s.ok()) s = as->CreateExecutable(0x1000, 0x1000);
  vf_check(!s.ok(), "a source that cannot be assembled is refused");
  vf_reach("refused");
}
VF_ENTRY(P41_error_second_pass) {  // an instruction that can be encoded with no symbol in place, and not at the end
  limit = vf_range("limit", 0, 0x3000);
  vf_check(Assemble("\t.text\na: nop\n\tuse far\n\tnop\n\t.data\nfar: .word 1\n").ok(), "the source is understood");
  bool relocatable = vf_choose("relocatable", 0, 1);
  auto s = relocatable ? as->CreateRelocatable() : as->CreateExecutable(0x1000, "a");
  vf_check(s.ok() == (static_cast<uint64_t>(relocatable ? 0 : 0x2000) <= limit), "an instruction that cannot be encoded is reported");
  vf_reach(s.ok() ? "encoded" : "reported");
}
VF_ENTRY(P41_symbols) {
  // A symbol that is not defined is an error in an executable, and undefined in a relocatable file.
  int c = vf_choose("case", 0, 4);
  if (c == 0) {
    vf_check(Assemble("\t.text\n\tuse nowhere\n\tuse nowhere\nhere: nop\n", vf_choose("class", 1, 2)).ok(), "the source is understood");
    vf_check(as->CreateRelocatable().ok(), "the relocatable file is made");
    Sym y = Find("nowhere");
    vf_check(y.found && y.section == 0 && y.value == 0, "an undefined symbol is in the table");
    auto* r = as->writer().sections[".rela.text"];
    vf_check(r != nullptr && r->data.size() == 2 * r->get_entry_size(), "with its relocations");
    vf_reach("undefined");
  } else if (c == 1) {
    vf_check(Assemble("\t.text\na: nop\n").ok(), "the source is understood");
    vf_check(!as->CreateExecutable(0x1000, "nowhere").ok(), "an entry point that is not defined is refused");
  } else if (c == 2) {  // a label is the same on the line of its statement and on its own
    int unit = vf_choose("unit", 1, 4), d = vf_choose("directive", 0, 2);
    static const char* const kStatement[] = {".word 1", ".space 4", ".string \"abcd\""};
    ops = new Opcodes;
    as = new SimpleAssembler(";", ELFIO::ELFCLASS64, ops);
    as->set_data_address_unit(unit);
    bool bss = d == 1 && vf_choose("bss", 0, 1);
    std::istringstream is(std::string(bss ? "\t.bss\n" : "\t.data\n") + "\t.space 8\na:\nb: " + kStatement[d] + "\nc: .space 1\nd:\n");
    vf_check(as->Parse(is).ok(), "the source is understood");
    vf_check(as->CreateRelocatable().ok(), "the relocatable file is made");
    vf_check(Find("a").value == 8u / unit && Find("b").value == 8u / unit && Find("c").value == 12u / unit && Find("d").value == 13u / unit, "labels count in address units");
    vf_check(Find("b").size == 4, "a symbol has the size of its statement");
    vf_reach("units");
  } else if (c == 3) {  // lines continue, and comments end with them
    vf_check(Assemble("\t.data ; the data\n; only a comment\n\na: .word 1, \\\n 2, ; two \\\n 3\nb:").ok(), "the source is understood");
    vf_check(as->CreateExecutable(0x1000, "a").ok(), "the executable is made");
    std::string want;
    Put(&want, 1, 4); Put(&want, 2, 4); Put(&want, 3, 4);
    vf_check(Same(Data(".data"), want) && Find("b").value == Find("a").value + 12, "a line continues on the next");
    vf_reach("continued");
  } else {  // no alignment, quotes within strings
    vf_check(Assemble("\t.data\na: .uchar 1\n\t.align 1\nb: .string \"x\\\"y\", \"\"\nc:\n").ok(), "the source is understood");
    vf_check(as->CreateExecutable(0x1000, "a").ok(), "the executable is made");
    vf_check(Same(Data(".data"), "\x01x\"y") && Find("b").value == Find("a").value + 1 && Find("c").value == Find("b").value + 3, "a quote within a string");
    vf_reach("quote");
  }
}
VF_ENTRY(P41_align) {  // every alignment after any number of bytes
  uint64_t align = vf_choose("log", 0, 6);
  bool zero = align == 6;
  align = zero ? 0 : uint64_t{1} << align;
  int n = vf_choose("bytes", 0, VF_N(9, 20)), where = vf_choose("section", 0, 2);
  bool data = where == 2 && vf_choose("data", 0, 1);  // bss follows the data
  std::string text = std::string(data ? "\t.data\n\t.space 5\n" : "") + "\t" + kSection[where] + "\n\t.space " + std::to_string(n)  + "\n\t.align " + std::to_string(align) + "\na: .space 1\n";
  bool ok = Assemble(text).ok();
  vf_check(ok || zero, "the source is understood");
  if (!ok) return;
  vf_check(as->CreateExecutable(0x1000, "a").ok(), "the executable is made");
  uint64_t start = data ? (0x1005 + 15) & ~15 : 0x1000, a = Find("a").value;
  uint64_t m = zero ? 1 : align;
  vf_check(a % m == 0 && (data ? a >= start + n : a >= start + n && a < start + n + m), "what follows is aligned");
  auto* sec = as->writer().sections[kSection[where]];
  vf_check((data || sec->get_size() == a - start + 1) && (where == 2 || sec->data.size() == sec->get_size()), "the section is as long as its contents");
  vf_reach("aligned");
}
