#ifndef SHIM_ASM_ELF_TYPES_
#define SHIM_ASM_ELF_TYPES_
#include <cstdint>
namespace ELFIO {
using Elf_Half = uint16_t; using Elf_Word = uint32_t; using Elf_Sword = int32_t; using Elf_Xword = uint64_t; using Elf_Sxword = int64_t;
using Elf32_Addr = uint32_t; using Elf32_Off = uint32_t; using Elf64_Addr = uint64_t; using Elf64_Off = uint64_t;
constexpr unsigned char ELFCLASS32 = 1, ELFCLASS64 = 2, ELFDATA2LSB = 1, ELFOSABI_NONE = 0, ELFOSABI_LINUX = 3;
constexpr Elf_Half ET_NONE = 0, ET_REL = 1, ET_EXEC = 2, EM_NONE = 0, EM_RISCV = 243, SHN_UNDEF = 0, SHN_ABS = 0xfff1;
constexpr Elf_Word PT_NULL = 0, PT_LOAD = 1, PF_X = 1, PF_W = 2, PF_R = 4;
constexpr Elf_Word SHT_NULL = 0, SHT_PROGBITS = 1, SHT_SYMTAB = 2, SHT_STRTAB = 3, SHT_RELA = 4, SHT_NOBITS = 8, SHT_REL = 9;
constexpr Elf_Xword SHF_WRITE = 1, SHF_ALLOC = 2, SHF_EXECINSTR = 4, SHF_INFO_LINK = 0x40;
constexpr unsigned char STT_NOTYPE = 0, STT_OBJECT = 1, STT_FUNC = 2, STT_SECTION = 3, STT_FILE = 4, STB_LOCAL = 0, STB_GLOBAL = 1, STB_WEAK = 2;
struct Elf32_Sym { Elf_Word st_name; Elf32_Addr st_value; Elf_Word st_size; unsigned char st_info, st_other; Elf_Half st_shndx; };
struct Elf64_Sym { Elf_Word st_name; unsigned char st_info, st_other; Elf_Half st_shndx; Elf64_Addr st_value; Elf_Xword st_size; };
struct Elf32_Rela { Elf32_Addr r_offset; Elf_Word r_info; Elf_Sword r_addend; };
struct Elf64_Rela { Elf64_Addr r_offset; Elf_Xword r_info; Elf_Sxword r_addend; };
}
#define ELF_ST_BIND(i) ((i) >> 4)
#define ELF_ST_TYPE(i) ((i) & 0xf)
#define ELF_ST_INFO(b, t) (((b) << 4) + ((t) & 0xf))
#define ELF32_R_INFO(s, t) ((s << 8) + (unsigned char)(t))
#define ELF64_R_INFO(s, t) ((((ELFIO::Elf_Xword)(s)) << 32) + ((t) & 0xffffffffL))
#endif
