#ifndef SHIM_ELFIO_SEGMENT_
#define SHIM_ELFIO_SEGMENT_
#include "elfio/elf_types.hpp"
namespace ELFIO {
struct segment {
  Elf_Word type = 0, flags = 0;
  Elf64_Addr paddr = 0, vaddr = 0;
  Elf_Xword filesz = 0, memsz = 0, align = 1;
  const char* data = nullptr;
  Elf_Word get_type() const { return type; }
  Elf_Word get_flags() const { return flags; }
  Elf_Xword get_align() const { return align; }
  Elf64_Addr get_virtual_address() const { return vaddr; }
  Elf64_Addr get_physical_address() const { return paddr; }
  Elf_Xword get_file_size() const { return filesz; }
  Elf_Xword get_memory_size() const { return memsz; }
  const char* get_data() const { return data; }
};
}
#endif
