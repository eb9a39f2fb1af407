// Replays a counterexample on the real code: sx_sym() answers with the solver's values in call order.
// usage: binary entry values-file params...
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <dlfcn.h>
#include <malloc.h>
#include <unistd.h>
#include <cstring>
#include <csignal>
#include <sys/mman.h>
#include <elf.h>
#include <link.h>
#include <ucontext.h>
static std::vector<uint64_t> *vals, *params; static size_t pos = 0;
extern "C" {
uint64_t sx_sym(const char *, unsigned bits) { if (pos >= vals->size()) { pos++; return 0; } uint64_t v = (*vals)[pos++]; return bits >= 64 ? v : v & ((1ull << bits) - 1); }
void sx_assume(int c) { if (!c) { fprintf(stderr, "assumption not met\n"); _exit(77); } }
void sx_check(int c, const char *m) { if (!c) { fprintf(stderr, "CHECK FAILED: %s\n", m); _exit(1); } }
uint64_t sx_concretize(uint64_t v) { return v; }
void sx_reach(const char *) {}
uint64_t sx_param(unsigned i) { return i < params->size() ? (*params)[i] : 0; }
static bool shared_on; static void freeze_shared(bool on); static void handlers();
static char *arena, *top, *arena_end; static bool frozen; // used by the jobs that freeze (environment variable SX_ARENA)
void *sx_arena(size_t n, size_t al) {
  if (!arena_end || frozen) return nullptr; if (!arena) { arena = top = (char *)mmap(nullptr, 64 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); arena_end = arena + (64 << 20); }
  if (al < 32) al = 32; char *p = (char *)(((uintptr_t)top + 32 + al - 1) & ~(uintptr_t)(al - 1)); if (p + n > arena_end) return nullptr; ((size_t *)p)[-1] = n; top = p + n; memset(p, 0xCD, n); return p;
}
bool sx_arena_free(void *p) { if (!arena || (char *)p < arena || (char *)p >= arena_end) return false; *(volatile char *)p = 0; return true; }
void sx_freeze(int on) { if (on == 2 || shared_on || on) freeze_shared(on != 0); if (on == 2) return; frozen = on; if (arena) mprotect(arena, 64 << 20, on ? PROT_READ : PROT_READ | PROT_WRITE); }
uint64_t sx_objsize(const void *p) { if (arena && (char *)p >= arena && (char *)p < arena_end) return ((size_t *)p)[-1]; return malloc_usable_size((void *)p); }
}
// the library's own variables, from the symbol table: their pages become read-only; other variables on these pages are written by single steps
struct Sym { uintptr_t a; size_t n; }; static Sym syms[512]; static unsigned nsyms; static uintptr_t pages[1024]; static unsigned npages; static uintptr_t stepping;
static void prot(bool ro) { for (unsigned i = 0; i < npages; i++) mprotect((void *)pages[i], 4096, ro ? PROT_READ : PROT_READ | PROT_WRITE); }
static void out(const char *m) { (void)!write(2, m, strlen(m)); _exit(1); }
static void segv(int, siginfo_t *si, void *u) {
  uintptr_t x = (uintptr_t)si->si_addr; if (arena && (char *)x >= arena && (char *)x < arena_end) out("CHECK FAILED: a read-only operation writes to the container's memory\n");
  if (shared_on) { for (unsigned i = 0; i < nsyms; i++) if (x >= syms[i].a && x < syms[i].a + syms[i].n) out("CHECK FAILED: an operation writes to variables that all containers share\n");
    for (unsigned i = 0; i < npages; i++) if ((x & ~4095ull) == pages[i]) { prot(false); ((ucontext_t *)u)->uc_mcontext.gregs[REG_EFL] |= 0x100; return; } }
  out("CHECK FAILED: segmentation fault\n");
}
static void trap(int, siginfo_t *, void *u) { ((ucontext_t *)u)->uc_mcontext.gregs[REG_EFL] &= ~0x100ll; if (shared_on) prot(true); }
static void handlers() { struct sigaction sa = {}; sa.sa_flags = SA_SIGINFO; sa.sa_sigaction = segv; sigaction(SIGSEGV, &sa, nullptr); sa.sa_sigaction = trap; sigaction(SIGTRAP, &sa, nullptr); }
static int base_of(struct dl_phdr_info *i, size_t, void *p) { *(uintptr_t *)p = i->dlpi_addr; return 1; }
static void load_syms() {
  FILE *f = fopen("/proc/self/exe", "r"); if (!f) return; fseek(f, 0, SEEK_END); size_t n = ftell(f); rewind(f); char *b = (char *)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (fread(b, 1, n, f) != n) return; fclose(f);
  Elf64_Ehdr *h = (Elf64_Ehdr *)b; Elf64_Shdr *sh = (Elf64_Shdr *)(b + h->e_shoff); uintptr_t base = 0; dl_iterate_phdr(base_of, &base);
  for (unsigned i = 0; i < h->e_shnum; i++) if (sh[i].sh_type == SHT_SYMTAB) {
    Elf64_Sym *st = (Elf64_Sym *)(b + sh[i].sh_offset); unsigned cnt = sh[i].sh_size / sizeof(Elf64_Sym); const char *str = b + sh[sh[i].sh_link].sh_offset;
    for (unsigned k = 0; k < cnt; k++) { const char *nm = str + st[k].st_name; if (ELF64_ST_TYPE(st[k].st_info) != STT_OBJECT || !st[k].st_size || st[k].st_shndx >= h->e_shnum || !(sh[st[k].st_shndx].sh_flags & SHF_WRITE) || !strstr(nm, "4jstd") || !strncmp(nm, "_ZGV", 4)) continue;
      bool fresh = false; for (unsigned g = 0; g < cnt; g++) { const char *gn = str + st[g].st_name; if (!strncmp(gn, "_ZGV", 4) && !strcmp(gn + 4, nm + 2)) fresh = !*(char *)(base + st[g].st_value); } // (not yet initialised)
      if (fresh || nsyms >= 512) continue; syms[nsyms++] = Sym{base + st[k].st_value, (size_t)st[k].st_size};
      for (uintptr_t p = syms[nsyms - 1].a & ~4095ull; p < syms[nsyms - 1].a + syms[nsyms - 1].n; p += 4096) { bool have = false; for (unsigned q = 0; q < npages; q++) have |= pages[q] == p; if (!have && npages < 1024) pages[npages++] = p; } }
  }
  munmap(b, n);
}
static void freeze_shared(bool on) { if (on) { handlers(); nsyms = npages = 0; load_syms(); shared_on = true; prot(true); } else { shared_on = false; prot(false); } }
int main(int argc, char **argv) {
  static char vb[sizeof(std::vector<uint64_t>)], pb[sizeof(std::vector<uint64_t>)]; vals = new (vb) std::vector<uint64_t>; params = new (pb) std::vector<uint64_t>;
  FILE *f = fopen(argv[2], "r"); unsigned long long v; if (f) { while (fscanf(f, "%llu", &v) == 1) vals->push_back(v); fclose(f); }
  for (int i = 3; i < argc; i++) params->push_back(strtoull(argv[i], 0, 0));
  void (*entry)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!entry) { fprintf(stderr, "no entry %s\n", argv[1]); _exit(79); }
  if (getenv("SX_ARENA")) { arena_end = (char *)1; handlers(); }
  entry(); if (pos > vals->size()) { fprintf(stderr, "ran out of values\n"); _exit(78); }
  fprintf(stderr, "completed without a failure\n"); _exit(0);
}
