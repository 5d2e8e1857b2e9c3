// Witness functions, analysed (never executed) by checks/U03.py.
#include <cstddef>
#include "arolla/util/iterator.h"
namespace witness {
struct Arr {
  using value_type = int;
  using size_type = size_t;
  using difference_type = ptrdiff_t;
  const int& operator[](size_type) const;
};
using It = arolla::ConstArrayIterator<Arr>;
using D = ptrdiff_t;
// elem: the element reached; index p (offset) expected in the name table of U03.py
const int& deref(const Arr* a, size_t p, size_t q, D n) { It i(a, p); return *i; }
const int* arrow(const Arr* a, size_t p, size_t q, D n) { It i(a, p); return i.operator->(); }
const int& index(const Arr* a, size_t p, size_t q, D n) { It i(a, p); return i[n]; }
const int& plus(const Arr* a, size_t p, size_t q, D n) { It i(a, p); return *(i + n); }
const int& plus_keeps(const Arr* a, size_t p, size_t q, D n) { It i(a, p); (void)(i + n); return *i; }
const int& rplus(const Arr* a, size_t p, size_t q, D n) { It i(a, p); return *(n + i); }
const int& minus(const Arr* a, size_t p, size_t q, D n) { It i(a, p); return *(i - n); }
const int& addassign(const Arr* a, size_t p, size_t q, D n) { It i(a, p); i += n; return *i; }
const int& addassign_ret(const Arr* a, size_t p, size_t q, D n) { It i(a, p); It& r = (i += n); return *r; }
const int& subassign(const Arr* a, size_t p, size_t q, D n) { It i(a, p); i -= n; return *i; }
const int& subassign_ret(const Arr* a, size_t p, size_t q, D n) { It i(a, p); It& r = (i -= n); return *r; }
const int& preinc(const Arr* a, size_t p, size_t q, D n) { It i(a, p); ++i; return *i; }
const int& preinc_ret(const Arr* a, size_t p, size_t q, D n) { It i(a, p); It& r = ++i; return *r; }
const int& predec(const Arr* a, size_t p, size_t q, D n) { It i(a, p); --i; return *i; }
const int& predec_ret(const Arr* a, size_t p, size_t q, D n) { It i(a, p); It& r = --i; return *r; }
const int& postinc(const Arr* a, size_t p, size_t q, D n) { It i(a, p); i++; return *i; }
const int& postinc_ret(const Arr* a, size_t p, size_t q, D n) { It i(a, p); It r = i++; return *r; }
const int& postdec(const Arr* a, size_t p, size_t q, D n) { It i(a, p); i--; return *i; }
const int& postdec_ret(const Arr* a, size_t p, size_t q, D n) { It i(a, p); It r = i--; return *r; }
const int& copied(const Arr* a, size_t p, size_t q, D n) { It i(a, p); It j = i; ++i; return *j; }
bool preinc_same(const Arr* a, size_t p, size_t q, D n) { It i(a, p); It& r = ++i; return &r == &i; }
bool predec_same(const Arr* a, size_t p, size_t q, D n) { It i(a, p); It& r = --i; return &r == &i; }
bool add_same(const Arr* a, size_t p, size_t q, D n) { It i(a, p); It& r = (i += n); return &r == &i; }
bool sub_same(const Arr* a, size_t p, size_t q, D n) { It i(a, p); It& r = (i -= n); return &r == &i; }
D diff(const Arr* a, size_t p, size_t q, D n) { It i(a, p); It j(a, q); return i - j; }
bool eq(const Arr* a, size_t p, size_t q, D n) { It i(a, p); It j(a, q); return i == j; }
bool ne(const Arr* a, size_t p, size_t q, D n) { It i(a, p); It j(a, q); return i != j; }
bool lt(const Arr* a, size_t p, size_t q, D n) { It i(a, p); It j(a, q); return i < j; }
bool gt(const Arr* a, size_t p, size_t q, D n) { It i(a, p); It j(a, q); return i > j; }
bool le(const Arr* a, size_t p, size_t q, D n) { It i(a, p); It j(a, q); return i <= j; }
bool ge(const Arr* a, size_t p, size_t q, D n) { It i(a, p); It j(a, q); return i >= j; }
bool default_eq(const Arr* a, size_t p, size_t q, D n) { It i; It j; return i == j; }
}  // namespace witness
