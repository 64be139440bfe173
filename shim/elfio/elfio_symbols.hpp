#ifndef SHIM_ELFIO_SYMBOLS_
#define SHIM_ELFIO_SYMBOLS_
#include "elfio/elfio.hpp"
namespace ELFIO {
struct symbol_section_accessor {
  section* s;
  symbol_section_accessor(const elfio&, section* sec) : s(sec) {}
  Elf_Xword get_symbols_num() const { return s->symbols.size(); }
  bool get_symbol(Elf_Xword i, std::string& name, Elf64_Addr& value, Elf_Xword& size, unsigned char& bind, unsigned char& type, Elf_Half& sec, unsigned char& other) const {
    if (i >= s->symbols.size()) return false;
    const vf_symbol& y = s->symbols[i];
    name = y.name; value = y.value; size = y.size; bind = y.bind; type = y.type; sec = y.section; other = y.other;
    return true;
  }
  bool get_symbol(const std::string& n, Elf64_Addr& value, Elf_Xword& size, unsigned char& bind, unsigned char& type, Elf_Half& sec, unsigned char& other) const {
    std::string name;
    for (Elf_Xword i = 0; i < s->symbols.size(); i++) if (s->symbols[i].name == n) return get_symbol(i, name, value, size, bind, type, sec, other);
    return false;
  }
};
}
#endif
