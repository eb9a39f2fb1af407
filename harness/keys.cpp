// The maps with their default hash and equality over standard key types, and with arguments that merely convert to the key.
#include "sx.h"
#include <functional>
#include <string>
#include <string_view>
#ifndef MAP
#define MAP 15
#endif
#ifndef KT
#define KT 0
#endif
#if MAP == 15
#include "jstd/hashmap/group15_flat_map.hpp"
#define MAPT jstd::group15_flat_map
#elif MAP == 16
#include "jstd/hashmap/group16_flat_map.hpp"
#define MAPT jstd::group16_flat_map
#else
#include "jstd/hashmap/robin_hash_map.h"
#define MAPT jstd::robin_hash_map
#endif
#ifdef SX_BC // libstdc++'s byte hash (library code, not under test): any function of the bytes would do; one path per value
namespace std { size_t _Hash_bytes(const void *p, size_t n, size_t) { size_t h = n; for (size_t i = 0; i < n; i++) h += ((const unsigned char *)p)[i] & 3; return sx_concretize(h); } }
#endif
typedef uint32_t Val;
static inline uint64_t symId(unsigned bits) { return sx_sym("id", bits); }
// --- key types. id -> key; equal ids <=> equal keys
static std::string *g_str[8]; static const char *g_cs[8]; // one buffer per id, alive during the whole run
static unsigned char g_ch[8]; static unsigned g_len[8];
#if KT == 0
typedef int8_t Key; typedef int Conv; static const bool WIDE = true;
#elif KT == 1
typedef bool Key; typedef int Conv;
#elif KT == 2
typedef int Key; typedef short Conv;
#elif KT == 3
typedef uint64_t Key; typedef unsigned char Conv;
#elif KT == 4
typedef double Key; typedef float Conv;
#elif KT == 5
enum class En : unsigned short { A }; typedef En Key; typedef En Conv;
#elif KT == 6
typedef const int *Key; typedef int *Conv; static int g_obj[16];
#elif KT == 7
typedef std::string Key; typedef const char *Conv;
#elif KT == 8
typedef std::string_view Key; typedef const char *Conv;
#elif KT == 9
typedef std::string_view Key; typedef std::string Conv;
#elif KT == 10 // transparent functors
typedef std::string Key; typedef const char *Conv;
#elif KT == 11
typedef std::string Key; typedef const char *Conv; // a long key, allocated on the heap
#endif
struct THash { using is_transparent = void; size_t operator()(std::string_view s) const { return std::hash<std::string_view>()(s); } };
#if KT == 10
typedef MAPT<Key, Val, THash, std::equal_to<>> Map;
#else
typedef MAPT<Key, Val> Map;
#endif
struct Id { uint64_t v; unsigned n; };
#if KT >= 7
static const unsigned BASE = KT == 11 ? 16 : 0;
#define STRK 1
static Id mkId(unsigned n) { g_len[n] = (unsigned)sx_pick("len", 8, sx_param(2)); uint64_t c = sx_sym("char", 8) & 0xFF; sx_assume(c != 0); if (g_len[n] == 0) c = 0;
  char *b = (char *)malloc(BASE + g_len[n] + 1); for (unsigned i = 0; i < BASE + g_len[n]; i++) b[i] = 'k'; if (g_len[n]) b[BASE + g_len[n] - 1] = (char)c; b[BASE + g_len[n]] = 0; g_cs[n] = b; g_str[n] = new std::string(b); return {(uint64_t)g_len[n] << 8 | c, n}; }
#if KT == 8 || KT == 9
static Key key(Id i) { return Key(g_cs[i.n]); }
#else
static Key key(Id i) { return *g_str[i.n]; }
#endif
#if KT == 9
static Conv conv(Id i) { return *g_str[i.n]; }
#else
static Conv conv(Id i) { return Conv(g_cs[i.n]); }
#endif
#else
#define STRK 0
static Id mkId(unsigned n) { return {
#if KT == 1
  sx_concretize(sx_sym("id", 1)),
#elif KT == 6
  sx_pick("id", 8, 6),
#else
#if KT == 0 || KT == 2 // a few bits, both signs
  sx_sym("id", (unsigned)sx_param(2)) | (sx_flag("negative") ? ~0ull << sx_param(2) : 0),
#else
  sx_sym("id", (unsigned)sx_param(2)),
#endif
#endif
  n}; }
static int sext(uint64_t v) { return (int)v; }
#if KT == 0
static Key key(Id i) { return (Key)sext(i.v); } static Conv conv(Id i) { return (Conv)sext(i.v) + (i.n & 1 ? 256 : 0); } // the converted value counts
#elif KT == 1
static Key key(Id i) { return i.v != 0; } static Conv conv(Id i) { return i.v ? 2 + (int)i.n : 0; }
#elif KT == 2
static Key key(Id i) { return sext(i.v); } static Conv conv(Id i) { return (Conv)sext(i.v); }
#elif KT == 3
static Key key(Id i) { return i.v; } static Conv conv(Id i) { return (Conv)i.v; }
#elif KT == 4
static const double tab[4] = {0.0, 1.5, -1.5, 1099511627776.0}; // 0 also appears as -0
static Key key(Id i) { unsigned k = (unsigned)sx_concretize(i.v & 3); return k == 0 && i.n == 1 ? -0.0 : tab[k]; } static Conv conv(Id i) { return (Conv)key(i); }
#elif KT == 5
static Key key(Id i) { return (Key)i.v; } static Conv conv(Id i) { return (Key)i.v; }
#elif KT == 6
static Key key(Id i) { return &g_obj[i.v]; } static Conv conv(Id i) { return &g_obj[i.v]; }
#endif
#endif
struct Mod { unsigned n = 0; uint64_t k[8]; Val v[8]; bool in[8];
  int find(uint64_t id) { for (unsigned i = 0; i < n; i++) if (in[i] && k[i] == id) return (int)i; return -1; }
  unsigned size() { unsigned c = 0; for (unsigned i = 0; i < n; i++) c += in[i]; return c; } };
static uint64_t idv(Id i) { return KT == 4 ? i.v & 3 : i.v; }
template <class R> static void res(Map &m, R r, Mod &md, Id id, Val v, bool assign) {
  int at = md.find(idv(id)); bool fresh = at < 0; if (fresh) { at = (int)md.n++; md.k[at] = idv(id); md.v[at] = v; md.in[at] = true; } else if (assign) md.v[at] = v;
  sx_check(r.second == fresh, "the insertion reports whether an equal key was present"); sx_check(r.first != m.end() && r.first->first == key(id) && r.first->second == md.v[at], "the insertion returns the element with an equal key");
}
static void ins(Map &m, Mod &md, Id id, unsigned form, Val v) {
  switch (form) {
  case 0: res(m, m.emplace(key(id), v), md, id, v, false); break;
  case 1: res(m, m.emplace(conv(id), v), md, id, v, false); break;
  case 2: res(m, m.insert(std::pair<Conv, Val>(conv(id), v)), md, id, v, false); break;
  case 3: { const std::pair<const Key, Val> p(key(id), v); res(m, m.insert(p), md, id, v, false); break; }
  case 4: { std::pair<Key, Val> p(key(id), v); res(m, m.insert(std::move(p)), md, id, v, false); break; }
  case 5: res(m, m.insert_or_assign(key(id), v), md, id, v, true); break;
  case 6: res(m, m.insert_or_assign(conv(id), v), md, id, v, true); break;
  case 7: res(m, m.try_emplace(key(id), v), md, id, v, false); break;
  case 8: res(m, m.try_emplace(conv(id), v), md, id, v, false); break;
  case 9: case 10: { int at = md.find(idv(id)); Val &r = form == 9 ? m[key(id)] : m[Key(conv(id))]; sx_check(r == (at < 0 ? 0 : md.v[at]), "operator[] refers to the value of the equal key, a new one starts at zero"); r = v;
    if (at < 0) { at = (int)md.n++; md.k[at] = idv(id); md.in[at] = true; } md.v[at] = v; break; }
#if KT != 4 && KT != 5 // does not compile for keys that are not classes or integers
  case 11: res(m, m.emplace(std::piecewise_construct, std::forward_as_tuple(conv(id)), std::forward_as_tuple(v)), md, id, v, false); break;
#endif
  case 12: res(m, m.emplace(std::pair<Conv, Val>(conv(id), v)), md, id, v, false); break;
  case 13: { Conv c = conv(id); const Conv &cc = c; res(m, m.try_emplace(cc, v), md, id, v, false); break; }
  case 14: { Conv c = conv(id); const Conv &cc = c; res(m, m.insert_or_assign(cc, v), md, id, v, true); break; }
  case 15: { m.insert({{key(id), v}}); int at = md.find(idv(id)); if (at < 0) { at = (int)md.n++; md.k[at] = idv(id); md.v[at] = v; md.in[at] = true; } break; }
  }
}
static void look(Map &m, Mod &md, Id id) {
  const Map &c = m; Key k = key(id); Conv q = conv(id); int at = md.find(idv(id)); bool in = at >= 0;
  auto i = m.find(k); sx_check((i != m.end()) == in, "find() finds exactly the keys that compare equal"); if (in) sx_check(i->first == k && i->second == md.v[at], "the found element has the equal key and its value");
  auto j = m.find(q); sx_check((j != m.end()) == in, "find() with a convertible argument finds exactly the keys equal to the converted value"); if (in) sx_check(j->second == md.v[at], "find() with a convertible argument: the value");
  auto l = c.find(q); sx_check((l != c.end()) == in, "const find() with a convertible argument");
  sx_check(m.count(k) == in && m.contains(k) == in, "count() and contains()");
#if KT != 10
  sx_check(m.count(q) == in && m.contains(q) == in, "count() and contains() with a convertible argument");
#endif
}
SX_ENTRY t_keys() { // params: inserted keys, form of the last insertion (16: all), id bits
  unsigned n = (unsigned)sx_param(0); uint64_t forms = sx_param(1); long base = sx_live;
#if KT == 9
  forms &= 1 << 0 | 1 << 3 | 1 << 4 | 1 << 5 | 1 << 7 | 1 << 9 | 1 << 15; // a converted view would refer to a temporary string
#endif
  { Map m; Mod md; Id id[4]; for (unsigned i = 0; i <= n; i++) id[i] = mkId(i);
    for (unsigned i = 0; i < n; i++) { unsigned f = 0; if (i + 1 == n) { f = (unsigned)sx_pick("form", 8, 16); sx_assume((forms >> f & 1) != 0); } ins(m, md, id[i], f, (Val)(11 * i + 5)); }
    sx_check(m.size() == md.size(), "size() counts the keys that are not equal to each other");
    for (unsigned i = 0; i <= n; i++) look(m, md, id[i]);
    unsigned seen = 0; for (auto &e : m) { bool any = false; for (unsigned i = 0; i < n; i++) any |= e.first == key(id[i]); sx_check(any, "the iteration visits inserted keys only"); seen++; } sx_check(seen == md.size(), "the iteration visits every element once");
    bool byconv = sx_flag("conv"); int at = md.find(idv(id[n])); size_t gone = 
#if KT != 10
      byconv ? m.erase(conv(id[n])) :
#endif
      m.erase(key(id[n])); (void)byconv;
    sx_check(gone == (at >= 0 ? 1u : 0u), "erase() removes exactly the equal key"); if (at >= 0) md.in[at] = false;
    sx_check(m.size() == md.size(), "size() after erase()"); for (unsigned i = 0; i <= n; i++) look(m, md, id[i]);
  }
  for (unsigned i = 0; i <= n; i++) { free((void *)g_cs[i]); delete g_str[i]; }
  sx_check(sx_live == base, "every block is released"); sx_reach("end");
}
