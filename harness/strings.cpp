// string_view.h, string_utils.h, string_traits.h, string_iterator.h, string_libc.h, string_stl.h against lexicographic comparison of the contents.
#ifdef SX_MODE
#define STRING_UTILS_STL 0
#define STRING_UTILS_U64 1
#define STRING_UTILS_SSE42 2
#define STRING_UTILS_LIBC 3
#define STRING_UTILS_MODE SX_MODE
#endif
#include "sx.h"
#include <string>
#include <vector>
#include "jstd/basic/stddef.h"
#include "jstd/iterator.h"
#include "jstd/string/string_view.h"
#include "jstd/string/string_helper.h"
#ifndef SX_CHAR
#define SX_CHAR char
#endif
typedef SX_CHAR T;
typedef std::make_unsigned<T>::type UT;
typedef jstd::basic_string_view<T> SV;
namespace SU = jstd::str_utils;
#if defined(SX_MODE) && SX_MODE == STRING_UTILS_U64
static const bool NZ = true; // this mode orders strings without embedded NULs
#else
static const bool NZ = false;
#endif
static const unsigned BITS = sizeof(T) == 4 ? 31 : sizeof(T) * 8; // wide characters are non-negative
struct Buf { T *p; size_t n; Buf(size_t n, bool nz = false, size_t extra = 0) : p((T *)malloc((n + extra) * sizeof(T) + (n + extra == 0))), n(n) { for (size_t i = 0; i < n; i++) { p[i] = (T)sx_sym("ch", BITS); if (nz) sx_assume(p[i] != 0); } for (size_t i = 0; i < extra; i++) p[n + i] = 0; }
  ~Buf() { free(p); } Buf(const Buf &) = delete; };
static int lex(const T *a, size_t n, const T *b, size_t m) { // lexicographic order of the code units, without branches on their values
  int r = n < m ? -1 : n > m ? 1 : 0; for (size_t i = n < m ? n : m; i-- > 0;) { UT x = (UT)a[i], y = (UT)b[i]; r = x == y ? r : x < y ? -1 : 1; } return r;
}
static int sgn(int v) { return v < 0 ? -1 : v > 0 ? 1 : 0; }
static void cmp(const SV &a, const SV &b, int r) {
  sx_check((a == b) == (r == 0), "== holds exactly for equal contents"); sx_check((a != b) == (r != 0), "!= is the negation of =="); sx_check(a.is_equal(b) == (r == 0), "is_equal holds exactly for equal contents");
  sx_check((a < b) == (r < 0), "< is the lexicographic order"); sx_check((a > b) == (r > 0), "> is the lexicographic order"); sx_check((a <= b) == (r <= 0), "<= is the lexicographic order"); sx_check((a >= b) == (r >= 0), ">= is the lexicographic order");
  sx_check(sgn(a.compare(b)) == r, "compare is negative, zero or positive as the lexicographic order says");
}
SX_ENTRY t_cmp() {
  for (size_t n = sx_param(0); n <= sx_param(1); n++) for (size_t m = sx_param(2); m <= sx_param(3); m++) {
    Buf a(n, NZ), b(m, NZ); SV x(a.p, n), y(b.p, m); int r = lex(a.p, n, b.p, m); cmp(x, y, r);
    sx_check(SU::is_equal(a.p, n, b.p, m) == (r == 0) && SU::is_equal_unsafe(x, y) == (r == 0) && SU::is_equal_safe(x, y) == (r == 0), "str_utils::is_equal* hold exactly for equal contents");
    sx_check(sgn(SU::compare(a.p, n, b.p, m)) == r && sgn(SU::compare_unsafe(x, y)) == r && sgn(SU::compare_safe(x, y)) == r, "str_utils::compare* are the lexicographic order");
    if (n == m) { sx_check(SU::is_equal(a.p, b.p, n) == (r == 0) && sgn(SU::compare(a.p, b.p, n)) == r, "comparison of a common length"); sx_check(x.is_equal(a.p, b.p, n) == (r == 0) && sgn(x.compare(a.p, b.p, n)) == r, "view comparison of a common length"); }
  }
  sx_reach("end");
}
SX_ENTRY t_cstr() { // NUL-terminated arguments; std::string, std::vector
  size_t n = sx_param(0), m = sx_param(1); Buf a(n), b(m, true, 1); SV x(a.p, n); int r = lex(a.p, n, b.p, m);
  sx_check(x.is_equal(b.p) == (r == 0), "is_equal(str) compares the whole contents"); sx_check(sgn(x.compare(b.p)) == r, "compare(str) compares the whole contents");
  std::basic_string<T> s(b.p, m); sx_check(x.is_equal(s) == (r == 0) && sgn(x.compare(s)) == r, "comparison with a std::string");
  SV y(static_cast<const T *>(b.p)); sx_check(y.size() == m && y.data() == b.p, "a view of a NUL-terminated string ends before the NUL"); SV z(s); sx_check(z.size() == m && z.data() == s.data(), "a view of a std::string"); cmp(x, z, r);
  SV w; w = static_cast<const T *>(b.p); sx_check(w.size() == m && w.data() == b.p, "assigning a NUL-terminated string"); w = s; sx_check(w.size() == m && w.data() == s.data(), "assigning a std::string"); std::basic_string<T> t = x.to_string(); sx_check(t.size() == n && lex(t.data(), n, a.p, n) == 0, "to_string copies the contents");
  std::vector<T> v(a.p, a.p + n); SV u(v); sx_check(u.size() == n && u == x, "a view of a std::vector"); sx_reach("end");
}
SX_ENTRY t_sub() { // every position and count, 64 bits wide
  size_t n = sx_param(0), m = sx_param(1); Buf a(n), b(m, false, 1); SV x(a.p, n), y(b.p, m); size_t pos = sx_sym("pos", 64), cnt = sx_sym("count", 64), pos2 = sx_sym("pos2", 64), cnt2 = sx_sym("count2", 64); unsigned what = (unsigned)sx_param(2);
  bool in = pos <= n, in2 = pos2 <= m, threw = false; size_t k = in ? (cnt < n - pos ? cnt : n - pos) : 0, k2 = in2 ? (cnt2 < m - pos2 ? cnt2 : m - pos2) : 0;
  if (in) { pos = sx_concretize(pos); k = sx_concretize(k); } if (in2 && what >= 4 && what <= 5) { pos2 = sx_concretize(pos2); k2 = sx_concretize(k2); }
  const T *p = a.p + (in ? pos : 0), *q = b.p + (in2 ? pos2 : 0); bool ok = in;
  try {
    if (what == 0) { SV s = x.substr(pos, cnt); sx_check(in && s.data() == p && s.size() == k, "substr is the given range, cut at the end"); }
    if (what == 1) { T *d = (T *)malloc(n * sizeof(T) + 1); size_t r = x.copy(d, cnt, pos); sx_check(in && r == k, "copy returns the number of characters copied"); sx_check(lex(d, k, p, k) == 0, "copy copies the given range"); free(d); }
    if (what == 2) { bool e = x.is_equal(pos, cnt, y); sx_check(in && e == (lex(p, k, b.p, m) == 0), "is_equal(pos, count, view) compares the given range"); }
    if (what == 3) { int e = x.compare(pos, cnt, y); sx_check(in && sgn(e) == lex(p, k, b.p, m), "compare(pos, count, view) compares the given range"); }
    if (what == 4) { ok = in && in2; bool e = x.is_equal(pos, cnt, y, pos2, cnt2); sx_check(ok && e == (lex(p, k, q, k2) == 0), "is_equal(pos1, count1, view, pos2, count2) compares the given ranges"); }
    if (what == 5) { ok = in && in2; int e = x.compare(pos, cnt, y, pos2, cnt2); sx_check(ok && sgn(e) == lex(p, k, q, k2), "compare(pos1, count1, view, pos2, count2) compares the given ranges"); }
    if (what >= 6 && what <= 9) { for (size_t i = 0; i < m; i++) sx_assume(b.p[i] != 0); const T *z = b.p; size_t c2 = cnt2 < m ? cnt2 : m; if (what >= 8) c2 = sx_concretize(c2);
      if (what == 6) { bool e = x.is_equal(pos, cnt, z); sx_check(in && e == (lex(p, k, z, m) == 0), "is_equal(pos, count, str) compares the given range"); }
      if (what == 7) { int e = x.compare(pos, cnt, z); sx_check(in && sgn(e) == lex(p, k, z, m), "compare(pos, count, str) compares the given range"); }
      if (what == 8) { bool e = x.is_equal(pos, cnt, z, cnt2); sx_check(in && e == (lex(p, k, z, c2) == 0), "is_equal(pos, count, str, count2) compares the given ranges"); }
      if (what == 9) { int e = x.compare(pos, cnt, z, cnt2); sx_check(in && sgn(e) == lex(p, k, z, c2), "compare(pos, count, str, count2) compares the given ranges"); } }
    if (what == 10) { ok = pos < n; const SV &c = x; const T &r = c.at(pos); sx_check(ok && &r == a.p + pos, "at(pos) is the character at pos"); T &w = x.at(pos); sx_check(&w == a.p + pos, "at(pos) is the character at pos"); }
  } catch (const std::out_of_range &) { threw = true; }
  if (what == 4 || what == 5) ok = in && in2; if (what == 10) ok = pos < n;
  sx_check(threw == !ok, "out_of_range is thrown exactly for positions beyond the end"); sx_reach("end");
}
SX_ENTRY t_iter() { // iterators of a view
  size_t n = sx_param(0); Buf a(n); SV x(a.p, n); size_t i = 0; typedef SV::iterator I; typedef SV::const_iterator CI;
  for (I it = x.begin(); it != x.end(); ++it, i++) sx_check(&*it == a.p + i, "iteration visits the characters in order"); sx_check(i == n, "iteration visits every character");
  i = 0; for (CI it = x.cbegin(); it != x.cend(); i++) { CI old = it++; sx_check(&*old == a.p + i && it - old == 1, "it++ returns the old position"); } sx_check(i == n, "iteration with it++ visits every character");
  i = n; for (I it = x.end(); it != x.begin();) { I old = it--; i--; sx_check(old - it == 1 && &*it == a.p + i, "it-- returns the old position"); } sx_check(i == 0, "iteration backwards visits every character");
  i = n; for (CI it = x.cend(); it != x.cbegin();) { --it; i--; sx_check(&*it == a.p + i, "--it"); CI b = it; CI old = b--; sx_check(old == it && it - b == 1, "it-- of a const iterator"); }
  i = 0; for (I it = x.begin(); it != x.end(); i++) { I old = it++; sx_check(&*old == a.p + i, "it++ returns the old position"); }
  if (n > 0) { size_t j = sx_sym("j", 8); sx_assume(j < n); size_t k = sx_sym("k", 8); sx_assume(k < n); ptrdiff_t d = (ptrdiff_t)j;
    sx_check(&x.begin()[d] == a.p + j && &*(x.begin() + d) == a.p + j && &*(d + x.begin()) == a.p + j && &x.cbegin()[d] == a.p + j && &*(d + x.cbegin()) == a.p + j && &*(x.cend() - (ptrdiff_t)(n - j)) == a.p + j && &*(x.end() - (ptrdiff_t)(n - j)) == a.p + j, "iterator arithmetic");
    CI p = x.cbegin() + d, q = x.cbegin() + (ptrdiff_t)k; sx_check((p < q) == (j < k) && (p > q) == (j > k) && (p <= q) == (j <= k) && (p >= q) == (j >= k) && (p == q) == (j == k) && (p != q) == (j != k) && p - q == (ptrdiff_t)j - (ptrdiff_t)k, "iterator comparison");
    I s = x.begin() + d, t = x.begin() + (ptrdiff_t)k; sx_check((s < t) == (j < k) && (s > t) == (j > k) && (s <= t) == (j <= k) && (s >= t) == (j >= k) && (s == t) == (j == k) && (s != t) == (j != k) && s - t == (ptrdiff_t)j - (ptrdiff_t)k, "iterator comparison");
    s += (ptrdiff_t)k; s -= d; sx_check(s == t, "+= and -="); p += (ptrdiff_t)k; p -= d; sx_check(p == q, "+= and -=");
    sx_check(&x[j] == a.p + j && &x.front() == a.p && &x.back() == a.p + n - 1, "[], front and back"); const SV &c = x; sx_check(&c[j] == a.p + j, "[] of a const view"); }
  sx_reach("end");
}
SX_ENTRY t_mod() { // operations that move or extend the view; a buffer with room behind the view is written only where the view grows
  size_t n = sx_param(0), m = sx_param(1); Buf a(n + m + 1), b(m); T *old = (T *)malloc((n + m + 1) * sizeof(T)); for (size_t i = 0; i <= n + m; i++) old[i] = a.p[i];
  unsigned what = (unsigned)sx_param(2); SV x(a.p, n); T ch = (T)sx_sym("c", BITS); size_t add = m;
  switch (what) {
  case 0: x.append(b.p, m); break; case 1: x.append(m, ch); for (size_t i = 0; i < m; i++) b.p[i] = ch; break; case 2: x.append(static_cast<const T *>(b.p), static_cast<const T *>(b.p + m)); break;
  case 3: { SV y(b.p, m); x.append(y.cbegin(), y.cend()); break; } case 4: for (size_t i = 0; i < m; i++) x.push_back(b.p[i]); break; case 5: { SV y(b.p, m); x.append(y.begin(), y.end()); break; }
  }
  sx_check(x.data() == a.p && x.size() == n + add, "append extends the view by the appended characters");
  for (size_t i = 0; i < n; i++) sx_check(a.p[i] == old[i], "append keeps the present contents"); for (size_t i = 0; i < m; i++) sx_check(a.p[n + i] == b.p[i], "append stores the characters behind the view");
  sx_check(x.read_last() == 0 || (what == 4 && m == 0), "the extended view is NUL-terminated");
  SV y(b.p, m), u(x), v; u.swap(y); sx_check(u.data() == b.p && u.size() == m && y.data() == a.p && y.size() == n + m, "swap"); swap(u, y); sx_check(u.data() == a.p && y.size() == m, "swap"); std::swap(u, y); sx_check(y.data() == a.p && u.size() == m, "std::swap"); v = y; sx_check(v.data() == a.p && v.size() == n + m && !(v.empty() != (n + m == 0)) && v.length() == n + m, "assignment");
  v.attach(a.p, n); sx_check(v.data() == a.p && v.size() == n, "attach"); v.attach(static_cast<const T *>(a.p), static_cast<const T *>(a.p + m)); sx_check(v.data() == a.p && v.size() == m, "attach of a range"); v.attach(a.p, n, n + m); sx_check(v.data() == a.p + n && v.size() == m, "attach of positions"); v.attach(x); sx_check(v.data() == a.p && v.size() == n + m, "attach of a view");
  SV f(static_cast<const T *>(a.p), static_cast<const T *>(a.p + n)); sx_check(f.data() == a.p && f.size() == n, "view of a range"); f.expand(m); sx_check(f.size() == n + m, "expand"); f.shrink(m); sx_check(f.size() == n, "shrink"); f.commit(n); sx_check(f.data() == a.p + n, "commit"); f.comsume(n); sx_check(f.data() == a.p, "comsume"); f.apply((ptrdiff_t)n); f.apply(-(ptrdiff_t)n); sx_check(f.data() == a.p, "apply"); f.offset((ptrdiff_t)m); sx_check(f.size() == n + m, "offset");
  f.clear(); sx_check(f.empty() && f.data() == nullptr, "clear"); free(old); sx_reach("end");
}
SX_ENTRY t_ctl() { // libc:: and stl:: primitives on strings without embedded NULs
  size_t n = sx_param(0), m = sx_param(1); Buf a(n, true, 1), b(m, true, 1); int r = lex(a.p, n, b.p, m); const T *x = a.p, *y = b.p; size_t k = n < m ? n : m; int rk = lex(a.p, k, b.p, k); using namespace jstd; std::basic_string<T> s(x, n), t(y, m);
  sx_check(libc::StrLen(x) == n && libc::StrLenSafe(x) == n && libc::StrLenSafe((const T *)nullptr) == 0, "StrLen counts the characters before the NUL");
  sx_check(libc::StrEqual(x, y) == (r == 0) && stl::StrEqual(x, y) == (r == 0), "StrEqual(str, str)"); sx_check(sgn(libc::StrCmp(x, y)) == r && sgn(stl::StrCmp(x, y)) == r && sgn(SU::compare(x, y)) == r, "StrCmp(str, str)");
  sx_check(libc::StrEqual(x, y, k) == (rk == 0) && libc::StrEqualSafe(x, y, k) == (rk == 0), "libc::StrEqual(str, str, count)"); sx_check(stl::StrEqual(x, y, k) == (rk == 0) && stl::StrEqualSafe(x, y, k) == (rk == 0), "stl::StrEqual(str, str, count)");
  sx_check(sgn(libc::StrCmp(x, y, k)) == rk && sgn(libc::StrCmpSafe(x, y, k)) == rk, "libc::StrCmp(str, str, count)"); sx_check(sgn(stl::StrCmp(x, y, k)) == rk && sgn(stl::StrCmpSafe(x, y, k)) == rk, "stl::StrCmp(str, str, count)");
  sx_check(libc::StrEqual(x, n, y, m) == (r == 0) && libc::StrEqualSafe(x, n, y, m) == (r == 0) && libc::StrEqualUnsafe(s, t) == (r == 0) && libc::StrEqualSafe(s, t) == (r == 0), "libc::StrEqual(str, len, str, len)");
  sx_check(stl::StrEqual(x, n, y, m) == (r == 0) && stl::StrEqualSafe(x, n, y, m) == (r == 0) && stl::StrEqualUnsafe(s, t) == (r == 0) && stl::StrEqualSafe(s, t) == (r == 0), "stl::StrEqual(str, len, str, len)");
  sx_check(sgn(libc::StrCmp(x, n, y, m)) == r && sgn(libc::StrCmpSafe(x, n, y, m)) == r && sgn(libc::StrCmpUnsafe(s, t)) == r && sgn(libc::StrCmpSafe(s, t)) == r, "libc::StrCmp(str, len, str, len)");
  sx_check(sgn(stl::StrCmp(x, n, y, m)) == r && sgn(stl::StrCmpSafe(x, n, y, m)) == r && sgn(stl::StrCmpUnsafe(s, t)) == r && sgn(stl::StrCmpSafe(s, t)) == r, "stl::StrCmp(str, len, str, len)");
  const T *z = nullptr; sx_check(!libc::StrEqualSafe(x, z, k) && !libc::StrEqualSafe(z, x, k) && libc::StrEqualSafe(z, z, k) && !SU::is_equal_safe(x, z, k) && SU::is_equal_safe(z, z, k) && !stl::StrEqualSafe(z, x, k), "the null string equals only the null string"); sx_check(libc::StrCmpSafe(x, z, k) > 0 && libc::StrCmpSafe(z, x, k) < 0 && libc::StrCmpSafe(z, z, k) == 0 && SU::compare_safe(x, z, k) > 0 && SU::compare_safe(z, x, k) < 0 && stl::StrCmpSafe(z, z, k) == 0 && stl::StrCmpSafe(x, z, k) > 0, "the null string is smaller than every string");
  T *d = (T *)malloc(n * sizeof(T) + 1); SU::mem_copy(d, x, n); sx_check(lex(d, n, x, n) == 0, "mem_copy copies the characters"); free(d); sx_reach("end");
}
