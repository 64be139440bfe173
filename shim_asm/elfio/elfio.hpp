// Model of the part of ELFIO that writes files: sections with their bytes, the symbol and string tables in their real layout.
#ifndef SHIM_ASM_ELFIO_
#define SHIM_ASM_ELFIO_
#include <cstring>
#include <functional>
#include <ostream>
#include <string>
#include <vector>
#include "elfio/elf_types.hpp"
namespace ELFIO {
struct section {
  Elf_Half index = 0; std::string name; Elf_Word type = 0, link = 0, info = 0; Elf_Xword flags = 0, align = 0, entsize = 0, size = 0; Elf64_Addr address = 0;
  std::string data;
  Elf_Half get_index() const { return index; }
  std::string get_name() const { return name; }
  Elf_Word get_type() const { return type; }
  void set_type(Elf_Word t) { type = t; }
  Elf_Xword get_flags() const { return flags; }
  void set_flags(Elf_Xword f) { flags = f; }
  Elf_Word get_link() const { return link; }
  void set_link(Elf_Word l) { link = l; }
  Elf_Word get_info() const { return info; }
  void set_info(Elf_Word i) { info = i; }
  Elf_Xword get_addr_align() const { return align; }
  void set_addr_align(Elf_Xword a) { align = a; }
  Elf_Xword get_entry_size() const { return entsize; }
  void set_entry_size(Elf_Xword e) { entsize = e; }
  Elf64_Addr get_address() const { return address; }
  void set_address(Elf64_Addr a) { address = a; }
  Elf_Xword get_size() const { return size; }
  void set_size(Elf_Xword s) { size = s; }
  const char* get_data() const { return data.data(); }
  void set_data(const char* p, Elf_Xword n) { if (type == SHT_NOBITS) return; data.assign(p, n); size = n; }
  void set_data(const std::string& s) { set_data(s.data(), s.size()); }
  void append_data(const char* p, Elf_Xword n) { if (type == SHT_NOBITS) return; data.append(p, n); size = data.size(); }
  void append_data(const std::string& s) { append_data(s.data(), s.size()); }
};
struct segment {
  Elf_Half index = 0; Elf_Word type = 0, flags = 0; Elf64_Addr vaddr = 0, paddr = 0; Elf_Xword align = 0, filesz = 0, memsz = 0;
  std::vector<Elf_Half> members;
  Elf_Word get_type() const { return type; }
  void set_type(Elf_Word t) { type = t; }
  Elf_Word get_flags() const { return flags; }
  void set_flags(Elf_Word f) { flags = f; }
  Elf_Xword get_align() const { return align; }
  void set_align(Elf_Xword a) { align = a; }
  Elf64_Addr get_virtual_address() const { return vaddr; }
  void set_virtual_address(Elf64_Addr a) { vaddr = a; }
  Elf64_Addr get_physical_address() const { return paddr; }
  void set_physical_address(Elf64_Addr a) { paddr = a; }
  Elf_Half add_section_index(Elf_Half i, Elf_Xword a) { members.push_back(i); if (a > align) align = a; return members.size(); }
  Elf_Half add_section(section* s, Elf_Xword a) { return add_section_index(s->index, a); }
  Elf_Half get_sections_num() const { return members.size(); }
};
struct elfio {
  struct Sections {
    std::vector<section*> v;
    Elf_Half size() const { return v.size(); }
    section* operator[](unsigned i) const { return i < v.size() ? v[i] : nullptr; }
    section* operator[](const std::string& n) const { for (auto* s : v) if (s->name == n) return s; return nullptr; }
    section* operator[](const char* n) const { return (*this)[std::string(n)]; }
    section* add(const std::string& n) { auto* s = new section; s->index = v.size(); s->name = n; v.push_back(s); return s; }
  } sections;
  struct Segments {
    std::vector<segment*> v;
    Elf_Half size() const { return v.size(); }
    segment* operator[](unsigned i) const { return i < v.size() ? v[i] : nullptr; }
    segment* add() { auto* s = new segment; s->index = v.size(); v.push_back(s); return s; }
  } segments;
  unsigned char cls = 0, encoding = 0, abi = 0;
  Elf_Half type = 0, machine = 0;
  Elf64_Addr entry = 0;
  void create(unsigned char c, unsigned char e) {
    cls = c; encoding = e;
    sections.v.clear(); segments.v.clear();
    sections.add("");
    sections.add(".shstrtab")->type = SHT_STRTAB;
  }
  unsigned char get_class() const { return cls; }
  void set_os_abi(unsigned char a) { abi = a; }
  void set_machine(Elf_Half m) { machine = m; }
  void set_type(Elf_Half t) { type = t; }
  Elf_Half get_type() const { return type; }
  void set_entry(Elf64_Addr e) { entry = e; }
  Elf64_Addr get_entry() const { return entry; }
  bool save(std::ostream&) { return true; }
  bool save(const std::string&) { return true; }
};
struct string_section_accessor {
  section* s;
  explicit string_section_accessor(section* x) : s(x) {}
  const char* get_string(Elf_Word i) const { return s && i < s->data.size() ? s->data.c_str() + i : nullptr; }
  Elf_Word add_string(const char* p) {
    if (s->data.empty()) s->append_data("\0", 1);
    Elf_Word at = s->data.size();
    s->append_data(p, strlen(p) + 1);
    return at;
  }
  Elf_Word add_string(const std::string& p) { return add_string(p.c_str()); }
};
struct symbol_section_accessor {
  const elfio& e; section* s;
  symbol_section_accessor(const elfio& x, section* y) : e(x), s(y) {}
  bool wide() const { return e.cls == ELFCLASS64; }
  Elf_Xword entry() const { return wide() ? sizeof(Elf64_Sym) : sizeof(Elf32_Sym); }
  Elf_Xword get_symbols_num() const { return s->data.size() / entry(); }
  template <typename T> Elf_Word Append(Elf_Word name, Elf64_Addr value, Elf_Xword size, unsigned char info, unsigned char other, Elf_Half shndx) {
    T y{}; y.st_name = name; y.st_value = value; y.st_size = size; y.st_info = info; y.st_other = other; y.st_shndx = shndx;
    s->append_data(reinterpret_cast<const char*>(&y), sizeof y);
    return s->data.size() / sizeof y - 1;
  }
  Elf_Word add_symbol(Elf_Word name, Elf64_Addr value, Elf_Xword size, unsigned char info, unsigned char other, Elf_Half shndx) {
    if (s->data.empty()) { if (wide()) Append<Elf64_Sym>(0, 0, 0, 0, 0, 0); else Append<Elf32_Sym>(0, 0, 0, 0, 0, 0); }
    return wide() ? Append<Elf64_Sym>(name, value, size, info, other, shndx) : Append<Elf32_Sym>(name, value, size, info, other, shndx);
  }
  Elf_Word add_symbol(string_section_accessor& st, const char* n, Elf64_Addr value, Elf_Xword size, unsigned char bind, unsigned char type, unsigned char other, Elf_Half shndx) {
    return add_symbol(st.add_string(n), value, size, ELF_ST_INFO(bind, type), other, shndx);
  }
  unsigned char Info(Elf_Xword i) const { const char* p = s->data.data() + i * entry(); return wide() ? reinterpret_cast<const Elf64_Sym*>(p)->st_info : reinterpret_cast<const Elf32_Sym*>(p)->st_info; }
  Elf_Xword arrange_local_symbols(std::function<void(Elf_Xword, Elf_Xword)> f = nullptr) {
    Elf_Xword first = 1, n = get_symbols_num();
    for (;;) {
      while (first < n && ELF_ST_BIND(Info(first)) == STB_LOCAL) first++;
      Elf_Xword now = first + 1;
      while (now < n && ELF_ST_BIND(Info(now)) != STB_LOCAL) now++;
      if (first >= n || now >= n) break;
      if (f) f(first, now);
      char* a = s->data.data() + first * entry(); char* b = s->data.data() + now * entry();
      for (Elf_Xword i = 0; i < entry(); i++) { char t = a[i]; a[i] = b[i]; b[i] = t; }
    }
    s->set_info(first);
    return first;
  }
};
}
#endif
