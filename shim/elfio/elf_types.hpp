#ifndef SHIM_ELFIO_TYPES_
#define SHIM_ELFIO_TYPES_
#include <cstdint>
namespace ELFIO {
typedef uint16_t Elf_Half;
typedef uint32_t Elf_Word;
typedef uint64_t Elf_Xword;
typedef uint64_t Elf64_Addr;
typedef uint64_t Elf64_Off;
constexpr Elf_Word PT_NULL = 0, PT_LOAD = 1, PT_DYNAMIC = 2, PT_INTERP = 3, PT_NOTE = 4, PT_TLS = 7;
constexpr Elf_Word PF_X = 1, PF_W = 2, PF_R = 4;
constexpr Elf_Word SHT_PROGBITS = 1, SHT_SYMTAB = 2, SHT_STRTAB = 3, SHT_DYNSYM = 11;
constexpr unsigned char STT_NOTYPE = 0, STT_OBJECT = 1, STT_FUNC = 2, STT_SECTION = 3, STT_FILE = 4;
constexpr unsigned char STB_LOCAL = 0, STB_GLOBAL = 1, STB_WEAK = 2;
}
#endif
