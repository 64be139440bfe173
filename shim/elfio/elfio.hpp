// Model of ELFIO: load() asks the harness (vf_elf_load) for the contents of the file.
#ifndef SHIM_ELFIO_
#define SHIM_ELFIO_
#include <memory>
#include <string>
#include <vector>
#include "elfio/elf_types.hpp"
#include "elfio/elfio_segment.hpp"
namespace ELFIO {
struct vf_symbol { std::string name; Elf64_Addr value; Elf_Xword size; unsigned char bind, type; Elf_Half section; unsigned char other; };
struct section {
  Elf_Word type = 0;
  std::vector<vf_symbol> symbols;
  Elf_Word get_type() const { return type; }
};
struct elfio {
  std::vector<std::unique_ptr<segment>> segments;
  std::vector<std::unique_ptr<section>> sections;
  Elf64_Addr entry = 0;
  std::string error;
  inline bool load(const std::string& name);
  std::string validate() const { return error; }
  Elf64_Addr get_entry() const { return entry; }
};
}
bool vf_elf_load(ELFIO::elfio* e, const std::string& name);
inline bool ELFIO::elfio::load(const std::string& name) { return vf_elf_load(this, name); }
#endif
