// libc / libc++abi functions modelled for the symbolic build.  No system header
// is included: their prototypes clash with plain C definitions.
typedef __SIZE_TYPE__ size_t;
typedef unsigned long uint64_t;
extern "C" void* malloc(size_t);
extern "C" void free(void*);
extern "C" {
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char* a, const char* b) {
  while (*a && *a == *b) { a++; b++; }
  return (int)(unsigned char)*a - (int)(unsigned char)*b;
}
int strncmp(const char* a, const char* b, size_t n) {
  while (n && *a && *a == *b) { a++; b++; n--; }
  return n ? (int)(unsigned char)*a - (int)(unsigned char)*b : 0;
}
void* memchr(const void* s, int c, size_t n) {
  const unsigned char* p = (const unsigned char*)s;
  for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void*)(p + i);
  return nullptr;
}
void* memrchr(const void* s, int c, size_t n) {
  const unsigned char* p = (const unsigned char*)s;
  for (size_t i = n; i-- > 0;) if (p[i] == (unsigned char)c) return (void*)(p + i);
  return nullptr;
}
char* strchr(const char* s, int c) {
  for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; }
}
char* strrchr(const char* s, int c) {
  const char* r = nullptr;
  for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; }
}
char* strstr(const char* h, const char* n) {
  size_t k = strlen(n);
  for (;; h++) { if (strncmp(h, n, k) == 0) return (char*)h; if (!*h) return nullptr; }
}
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strdup(const char* s) { char* r = (char*)malloc(strlen(s) + 1); return strcpy(r, s); }
size_t strnlen(const char* s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
int toupper(int c) { return (c >= 'a' && c <= 'z') ? c - 32 : c; }
int tolower(int c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return isupper(c) || islower(c); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isprint(int c) { return c >= 32 && c < 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isblank(int c) { return c == ' ' || c == 9; }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }

static int vf_errno;
char* strerror(int) { static char t[] = "error"; return t; }
int* __errno_location() { return &vf_errno; }
// strto* for 64 bit integers.
static int vf_digit(int c) { return isdigit(c) ? c - '0' : isalpha(c) ? toupper(c) - 'A' + 10 : 99; }
static unsigned long vf_strto(const char* s, char** end, int base, int is_signed) {
  const char* p = s;
  while (isspace((unsigned char)*p)) p++;
  int neg = *p == '-';
  if (*p == '-' || *p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && vf_digit((unsigned char)p[2]) < 16) { p += 2; base = 16; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0; int any = 0, over = 0;
  for (; vf_digit((unsigned char)*p) < base; p++) {
    unsigned long d = vf_digit((unsigned char)*p);
    if (v > (~0UL - d) / base) over = 1;
    v = v * base + d; any = 1;
  }
  if (end) *end = (char*)(any ? p : s);
  if (is_signed) {
    if (over || v > (neg ? 1UL << 63 : ~0UL >> 1)) { vf_errno = 34; return neg ? 1UL << 63 : ~0UL >> 1; }
  } else if (over) { vf_errno = 34; return ~0UL; }
  return neg ? 0 - v : v;
}
unsigned long strtoull(const char* s, char** e, int b) { return vf_strto(s, e, b, 0); }
unsigned long strtoul(const char* s, char** e, int b) { return vf_strto(s, e, b, 0); }
long strtoll(const char* s, char** e, int b) { return vf_strto(s, e, b, 1); }
long strtol(const char* s, char** e, int b) { return vf_strto(s, e, b, 1); }
unsigned long __isoc23_strtoull(const char* s, char** e, int b) { return vf_strto(s, e, b, 0); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return vf_strto(s, e, b, 0); }
long __isoc23_strtoll(const char* s, char** e, int b) { return vf_strto(s, e, b, 1); }
long __isoc23_strtol(const char* s, char** e, int b) { return vf_strto(s, e, b, 1); }

struct vf_div_t { int quot, rem; };
struct vf_ldiv_t { long quot, rem; };
vf_div_t div(int a, int b) { return {a / b, a % b}; }
vf_ldiv_t ldiv(long a, long b) { return {a / b, a % b}; }
vf_ldiv_t lldiv(long a, long b) { return {a / b, a % b}; }
int strncasecmp(const char* a, const char* b, size_t n) {
  for (; n; a++, b++, n--) {
    int d = tolower((unsigned char)*a) - tolower((unsigned char)*b);
    if (d || !*a) return d;
  }
  return 0;
}
int strcasecmp(const char* a, const char* b) { return strncasecmp(a, b, ~0UL); }
void qsort(void* base, size_t n, size_t w, int (*cmp)(const void*, const void*)) {
  char* p = (char*)base;
  for (size_t i = 1; i < n; i++)
    for (size_t j = i; j > 0 && cmp(p + (j - 1) * w, p + j * w) > 0; j--)
      for (size_t k = 0; k < w; k++) { char t = p[(j - 1) * w + k]; p[(j - 1) * w + k] = p[j * w + k]; p[j * w + k] = t; }
}
int pthread_once(int* c, void (*f)()) { if (!*c) { *c = 2; f(); } return 0; }
int pthread_rwlock_rdlock(void*) { return 0; }
int pthread_rwlock_wrlock(void*) { return 0; }
int pthread_rwlock_unlock(void*) { return 0; }
int pthread_rwlock_tryrdlock(void*) { return 0; }
int pthread_rwlock_trywrlock(void*) { return 0; }

int atoi(const char* s) { return (int)vf_strto(s, nullptr, 10, 1); }
long atol(const char* s) { return (long)vf_strto(s, nullptr, 10, 1); }
long atoll(const char* s) { return (long)vf_strto(s, nullptr, 10, 1); }

int __cxa_guard_acquire(uint64_t* g) { if (*(char*)g) return 0; return 1; }
void __cxa_guard_release(uint64_t* g) { *(char*)g = 1; }
void __cxa_guard_abort(uint64_t*) {}
void* __cxa_allocate_exception(size_t n) { return malloc(n + 128); }
void __cxa_free_exception(void* p) { free(p); }
void* __cxa_begin_catch(void* p) { return p; }
void __cxa_end_catch() {}
int __gxx_personality_v0(...) { return 0; }

// dynamic_cast over the Itanium ABI type_info layout.
extern char _ZTVN10__cxxabiv120__si_class_type_infoE[];
extern char _ZTVN10__cxxabiv121__vmi_class_type_infoE[];
struct TI { void* vptr; const char* name; };
struct SI { TI b; const TI* base; };
struct VBase { const TI* base; long off_flags; };
struct VMI { TI b; unsigned flags, count; VBase bases[1]; };
static const char* up(const TI* t, const char* p, const TI* want) {
  if (t == want) return p;
  if (t->vptr == _ZTVN10__cxxabiv120__si_class_type_infoE + 16) return up(((const SI*)t)->base, p, want);
  if (t->vptr == _ZTVN10__cxxabiv121__vmi_class_type_infoE + 16) {
    const VMI* v = (const VMI*)t;
    for (unsigned i = 0; i < v->count; i++) {
      long off = v->bases[i].off_flags >> 8;
      if (v->bases[i].off_flags & 1) off = *(long*)(*(char**)p + off);
      const char* r = up(v->bases[i].base, p + off, want);
      if (r) return r;
    }
  }
  return nullptr;
}
void* __dynamic_cast(const void* src, const void*, const void* dst, long) {
  const char* vt = *(const char**)src;
  long top = ((long*)vt)[-2];
  const TI* ti = ((const TI**)vt)[-1];
  return (void*)up(ti, (const char*)src + top, (const TI*)dst);
}
}
