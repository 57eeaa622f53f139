// Maps the shipped CrashDebug image (which holds the only available build of the mri debug-monitor core) into this
// process and splices the repository's freshly compiled platform layer into it:
//   mri core  -> Platform_*/Semihost_*        : entry points in the image are overwritten with jumps to repo code
//   repo code -> mri core (Buffer_*, Core, ..): weak trampolines (generated mri_tramp.S) jump into the image
#include "loader.h"
#include "core.h"
#include <dlfcn.h>
#include <elf.h>
#include <sys/mman.h>

struct TrampEntry { const char* name; void* slot; };                    // generated: image-provided symbols
struct PatchEntry { const char* name; void* target; };                  // generated: repo-provided symbols
extern "C" TrampEntry g_trampTable[];
extern "C" PatchEntry g_patchTable[];
uint8_t* g_mriBase;
uint8_t* g_mriDataStart;
size_t   g_mriDataSize;

void loadMri(const char* path) {
  FILE* f = fopen(path, "rb");
  if (!f) { fprintf(stderr, "cannot open %s\n", path); exit(2); }
  std::vector<uint8_t> file;
  uint8_t buf[65536];
  size_t n;
  while ((n = fread(buf, 1, sizeof buf, f)) > 0) file.insert(file.end(), buf, buf + n);
  fclose(f);
  Elf64_Ehdr* eh = (Elf64_Ehdr*)file.data();
  Elf64_Phdr* ph = (Elf64_Phdr*)(file.data() + eh->e_phoff);
  uint64_t top = 0;
  for (int i = 0; i < eh->e_phnum; i++)
    if (ph[i].p_type == PT_LOAD && ph[i].p_vaddr + ph[i].p_memsz > top) top = ph[i].p_vaddr + ph[i].p_memsz;
  top = (top + 4095) & ~4095ull;
  uint8_t* base = (uint8_t*)mmap(NULL, top, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (base == MAP_FAILED) { perror("mmap"); exit(2); }
  g_mriBase = base;
  Elf64_Dyn* dyn = NULL;
  for (int i = 0; i < eh->e_phnum; i++) {
    if (ph[i].p_type == PT_LOAD) {
      memcpy(base + ph[i].p_vaddr, file.data() + ph[i].p_offset, ph[i].p_filesz);
    }
    if (ph[i].p_type == PT_DYNAMIC) dyn = (Elf64_Dyn*)(base + ph[i].p_vaddr);
  }
  Elf64_Sym* dynsym = NULL; const char* dynstr = NULL;
  Elf64_Rela *rela = NULL, *jmprel = NULL; size_t relasz = 0, pltsz = 0;
  for (Elf64_Dyn* d = dyn; d->d_tag != DT_NULL; d++) {
    if (d->d_tag == DT_SYMTAB) dynsym = (Elf64_Sym*)(base + d->d_un.d_ptr);
    if (d->d_tag == DT_STRTAB) dynstr = (const char*)(base + d->d_un.d_ptr);
    if (d->d_tag == DT_RELA) rela = (Elf64_Rela*)(base + d->d_un.d_ptr);
    if (d->d_tag == DT_RELASZ) relasz = d->d_un.d_val;
    if (d->d_tag == DT_JMPREL) jmprel = (Elf64_Rela*)(base + d->d_un.d_ptr);
    if (d->d_tag == DT_PLTRELSZ) pltsz = d->d_un.d_val;
  }
  auto reloc = [&](Elf64_Rela* r, size_t sz) {
    for (size_t i = 0; i < sz / sizeof *r; i++) {
      uint64_t* where = (uint64_t*)(base + r[i].r_offset);
      Elf64_Sym* s = &dynsym[ELF64_R_SYM(r[i].r_info)];
      const char* name = dynstr + s->st_name;
      auto resolve = [&]() -> uint64_t {
        if (s->st_shndx != SHN_UNDEF && ELF64_R_TYPE(r[i].r_info) != R_X86_64_COPY) return (uint64_t)(base + s->st_value);
        return (uint64_t)dlsym(RTLD_DEFAULT, name);   // 0 for weak gmon/ITM hooks, never called
      };
      switch (ELF64_R_TYPE(r[i].r_info)) {
        case R_X86_64_RELATIVE: *where = (uint64_t)base + r[i].r_addend; break;
        case R_X86_64_64: *where = resolve() + r[i].r_addend; break;
        case R_X86_64_GLOB_DAT:
        case R_X86_64_JUMP_SLOT: *where = resolve(); break;
        case R_X86_64_COPY: memcpy(where, dlsym(RTLD_DEFAULT, name), s->st_size); break;
        default: fprintf(stderr, "unexpected relocation\n"); exit(2);
      }
    }
  };
  reloc(rela, relasz);
  reloc(jmprel, pltsz);
  // full symbol table
  Elf64_Shdr* sh = (Elf64_Shdr*)(file.data() + eh->e_shoff);
  std::map<std::string, uint64_t> syms;
  for (int i = 0; i < eh->e_shnum; i++) {
    if (sh[i].sh_type != SHT_SYMTAB) continue;
    Elf64_Sym* st = (Elf64_Sym*)(file.data() + sh[i].sh_offset);
    const char* str = (const char*)(file.data() + sh[sh[i].sh_link].sh_offset);
    for (size_t k = 0; k < sh[i].sh_size / sizeof *st; k++)
      if (ELF64_ST_TYPE(st[k].st_info) == STT_FUNC && st[k].st_shndx != SHN_UNDEF) syms[str + st[k].st_name] = st[k].st_value;
  }
  for (TrampEntry* t = g_trampTable; t->name; t++) {
    auto it = syms.find(t->name);
    if (it == syms.end()) { fprintf(stderr, "image lacks %s\n", t->name); exit(2); }
    *(uint64_t*)t->slot = (uint64_t)(base + it->second);
  }
  for (PatchEntry* p = g_patchTable; p->name; p++) {
    auto it = syms.find(p->name);
    if (it == syms.end()) continue;                    // new repo function the image does not know: nothing calls it
    uint8_t* w = base + it->second;
    w[0] = 0xFF; w[1] = 0x25; w[2] = w[3] = w[4] = w[5] = 0;   // jmp *0(%rip)
    memcpy(w + 6, &p->target, 8);
  }
}
