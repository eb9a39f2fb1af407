// iterator utilities, reverse iterators, swap: against the sequence they run over
#include "sx.h"
#include <vector>
#include <forward_list>
#include <initializer_list>
#include "jstd/memory/swap.h"
#include "jstd/iterator.h"
enum { MAXN = 8 };
static int A[MAXN]; static unsigned N;
static void fill() { N = sx_param(0); for (unsigned i = 0; i < N; i++) A[i] = (int)sx_sym("element", 32); }
template <class Tag> struct Walk { // an iterator with no more than the category offers
  typedef Tag iterator_category; typedef int value_type; typedef std::ptrdiff_t difference_type; typedef int *pointer; typedef int &reference;
  int *p = nullptr; int &operator*() const { return *p; } Walk &operator++() { ++p; return *this; } Walk operator++(int) { Walk t = *this; ++p; return t; } bool operator==(const Walk &o) const { return p == o.p; } bool operator!=(const Walk &o) const { return p != o.p; }
};
template <class Tag> struct Walk2 : Walk<Tag> { Walk2() {} Walk2(int *q) { this->p = q; } Walk2 &operator++() { ++this->p; return *this; } Walk2 operator++(int) { Walk2 t = *this; ++this->p; return t; } Walk2 &operator--() { --this->p; return *this; } Walk2 operator--(int) { Walk2 t = *this; --this->p; return t; } };
typedef jstd::iterator_utils U;
SX_ENTRY t_walk() { // advance, distance, next, prev
  fill(); unsigned i = sx_pick("from", 8, N + 1), j = sx_pick("to", 8, N + 1); std::ptrdiff_t d = (std::ptrdiff_t)j - (std::ptrdiff_t)i;
  { int *p = A + i; U::advance(p, d); sx_check(p == A + j, "advance"); sx_check(U::distance(A + i, A + j) == d, "distance"); sx_check(U::next(A + i, d) == A + j && U::prev(A + j, d) == A + i, "next, prev"); const int *c = A + i; U::advance(c, (int)d); sx_check(c == A + j, "advance"); sx_check(jstd::distance(A + i, A + j) == d, "distance"); }
  { typedef Walk2<jstd::bidirectional_iterator_tag> W; W p(A + i); U::advance(p, d); sx_check(p.p == A + j, "advance of a bidirectional iterator"); sx_check(U::next(W(A + i), d).p == A + j && U::prev(W(A + j), d).p == A + i, "next, prev of a bidirectional iterator"); if (d >= 0) sx_check(U::distance(W(A + i), W(A + j)) == d, "distance of bidirectional iterators"); }
  if (d >= 0) { typedef Walk<jstd::forward_iterator_tag> W; W p, q; p.p = A + i; q.p = A + j; W r = p; U::advance(r, d); sx_check(r == q, "advance of a forward iterator"); sx_check(U::distance(p, q) == d && U::next(p, d) == q, "distance, next of forward iterators");
    typedef Walk<jstd::input_iterator_tag> X; X x, y; x.p = A + i; y.p = A + j; sx_check(U::distance(x, y) == d, "distance of input iterators"); U::advance(x, d); sx_check(x == y, "advance of an input iterator");
    { Walk<std::forward_iterator_tag> a, b; a.p = A + i; b.p = A + j; sx_check(jstd::distance(a, b) == d, "distance of standard forward iterators"); } { Walk<std::input_iterator_tag> a, b; a.p = A + i; b.p = A + j; sx_check(jstd::distance(a, b) == d, "distance of standard input iterators"); } std::forward_list<int> f(A, A + N); sx_check(jstd::distance(std::next(f.begin(), i), std::next(f.begin(), j)) == d, "distance of forward list iterators"); }
  if (j < N && i <= j) sx_check(U::next(A + i, 0) == A + i && U::next(A + j) == A + j + 1 && U::prev(A + j + 1) == A + j, "next and prev by default go one step");
  sx_reach("end");
}
SX_ENTRY t_reverse() {
  fill(); typedef jstd::reverse_iterator<int *> R; typedef jstd::reverse_iterator<const int *> CR; R b(A + N), e(A); unsigned n = 0;
  for (R r = b; r != e; ++r, n++) { if (n >= N) break; sx_check(*r == A[N - 1 - n] && &*r == r.operator->() && r.base() == A + N - n, "a reverse iterator yields the sequence backwards"); } sx_check(n == N, "a reverse iterator yields the whole sequence"); n = 0;
  for (R r = b; r != e; n++) { if (n >= N) break; R o = r++; sx_check(&*o == A + N - 1 - n, "postfix increment"); } n = 0; for (R r = e; r != b; n++) { if (n >= N) break; R o = r--; sx_check(o.base() == A + n && r.base() == A + n + 1, "postfix decrement"); R q = r; --q; ++q; sx_check(q == r, "decrement and increment"); }
  unsigned i = sx_pick("from", 8, N + 1), j = sx_pick("to", 8, N + 1); std::ptrdiff_t d = (std::ptrdiff_t)j - (std::ptrdiff_t)i; R x = b + i, y = b; y += j;
  sx_check(x.base() == A + N - i && y.base() == A + N - j, "+ and +="); sx_check(y - x == d && x + d == y && d + x == y && y - d == x, "difference and sum"); R z = y; z -= d; sx_check(z == x, "-="); CR cx = x, cy; cy = y;
  sx_check((x == y) == (d == 0) && (x != y) == (d != 0) && (x < y) == (d > 0) && (x > y) == (d < 0) && (x <= y) == (d >= 0) && (x >= y) == (d <= 0), "comparisons"); sx_check((cx < y) == (d > 0) && (x == cy) == (d == 0) && cy - x == d, "comparisons of mixed constness");
  if (j < N) { sx_check(&x[d] == A + N - 1 - j && y[0] == A[N - 1 - j], "subscript"); sx_check(jstd::make_reverse_iterator(A + N) == b, "make_reverse_iterator"); }
  sx_reach("end");
}
struct Box { const int *begin() const { return A; } const int *end() const { return A + N; } jstd::reverse_iterator<const int *> rbegin() const { return jstd::reverse_iterator<const int *>(A + N); } jstd::reverse_iterator<const int *> rend() const { return jstd::reverse_iterator<const int *>(A); } };
SX_ENTRY t_range() { // begin, end and the like of containers, arrays and lists
  fill(); int B[4] = {A[0], A[1], A[2], A[3]}; const int C_[3] = {A[0], A[1], A[2]}; std::vector<int> v(A, A + N); const std::vector<int> &w = v; std::initializer_list<int> il = {A[0], A[1], A[2]}; std::initializer_list<int> no = {};
  sx_check(jstd::begin(v) == v.begin() && jstd::end(v) == v.end() && jstd::begin(w) == w.begin() && jstd::end(w) == w.end() && jstd::cbegin(Box()) == A && jstd::cend(Box()) == A + N, "begin, end");
  sx_check(jstd::rbegin(v) == v.rbegin() && jstd::rend(v) == v.rend() && jstd::rbegin(w) == w.rbegin() && jstd::rend(w) == w.rend() && jstd::crbegin(Box()).base() == A + N && jstd::crend(Box()).base() == A, "rbegin, rend");
  sx_check(jstd::size(v) == N && jstd::size(B) == 4 && jstd::empty(v) == (N == 0) && !jstd::empty(B) && !jstd::empty(il) && jstd::empty(no) && jstd::size(C_) == 3, "size, empty"); sx_check(jstd::data(v) == v.data() && jstd::data(w) == v.data() && jstd::data(B) == B && jstd::data(il) == il.begin() && jstd::data(C_) == C_, "data");
  unsigned n = 0; for (auto r = jstd::rbegin(B); r != jstd::rend(B); ++r, n++) { if (n > 3) break; sx_check(*r == A[3 - n], "an array backwards"); } sx_check(n == 4, "an array backwards"); n = 0; for (auto r = jstd::rbegin(il); r != jstd::rend(il); ++r, n++) { if (n > 2) break; sx_check(*r == A[2 - n], "a list backwards"); } sx_check(n == 3, "a list backwards");
  sx_reach("end");
}
struct Obj { int *p; static int live; explicit Obj(int v) : p(new int(v)) { live++; } Obj(Obj &&o) noexcept : p(o.p) { o.p = nullptr; live++; } Obj &operator=(Obj &&o) noexcept { if (this != &o) { delete p; p = o.p; o.p = nullptr; } return *this; } ~Obj() { delete p; live--; } };
int Obj::live = 0;
SX_ENTRY t_swap() {
  fill(); int x = A[0], y = A[1]; jstd::swap(x, y); sx_check(x == A[1] && y == A[0], "swap");
  { Obj a(A[2]), b(A[3]); jstd::swap(a, b); sx_check(a.p && b.p && *a.p == A[3] && *b.p == A[2], "swap of move-only objects"); jstd::swap(a, a); } sx_check(Obj::live == 0, "swap leaves no object behind");
  int c[3] = {A[0], A[1], A[2]}, d[3] = {A[1], A[2], A[3]}; jstd::swap(c, d); for (int i = 0; i < 3; i++) sx_check(c[i] == A[i + 1] && d[i] == A[i], "swap of arrays");
  unsigned i = sx_pick("from", 8, 4), j = sx_pick("to", 8, 4); if (i <= j && j <= 3) { int e[4] = {A[0], A[1], A[2], A[3]}, f[4] = {7, 8, 9, 10}; int *r = jstd::swap_ranges(e + i, e + j, f); sx_check(r == f + (j - i), "swap_ranges returns the end"); for (unsigned k = 0; k < 4; k++) sx_check(e[k] == (k >= i && k < j ? 7 + (int)(k - i) : A[k]) && f[k] == (k < j - i ? A[i + k] : 7 + (int)k), "swap_ranges exchanges exactly the two ranges"); }
  sx_reach("end");
}
