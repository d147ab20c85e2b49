#include "alloc_ops.hpp"
#include <nsimd/nsimd.h>
#include <deque>
#include <list>
#include <stdexcept>
#include <stdlib.h>
#include <vector>

namespace aops {
const int size_of[NTYPES] = {1, 1, 2, 2, 4, 4, 8, 8, 2, 4, 8};
const char *const name_of[NTYPES] = {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f16", "f32", "f64"};
#define STR_(x) #x
#define STR(x) STR_(x)
const char *const standard = STR(NSIMD_CXX);
const int max_alignment = 64;

#define EACH(X) X(0, i8) X(1, u8) X(2, i16) X(3, u16) X(4, i32) X(5, u32) X(6, i64) X(7, u64) X(8, f16) X(9, f32) X(10, f64)

void *alloc(int kind, int type, long long n) {
  if (kind == 0) return nsimd_aligned_alloc((nsimd_nat)n);
  if (kind == 1) return nsimd::aligned_alloc((nsimd_nat)n);
  switch (type) {
#define X(i, T) case i: return nsimd::aligned_alloc_for<T>((nsimd_nat)n);
    EACH(X)
#undef X
  }
  return 0;
}
void release(int kind, int type, void *p) {
  if (kind == 0) { nsimd_aligned_free(p); return; }
  if (kind == 1) { nsimd::aligned_free(p); return; }
  switch (type) {
#define X(i, T) case i: nsimd::aligned_free_for<T>(p); return;
    EACH(X)
#undef X
  }
}

// element values are small so that every type represents them exactly
template <typename T> T mk(long v) { return (T)v; }
template <typename T> long rd(T const &v) { return (long)v; }
template <> f16 mk<f16>(long v) { return nsimd_f32_to_f16((f32)v); }
template <> long rd<f16>(f16 const &v) { return (long)nsimd_f16_to_f32(v); }

struct Base : Cont {
  virtual void op(int o, size_t a, size_t b, long v, Base *other) = 0;
  virtual size_t size() = 0;
  virtual long at(size_t) = 0;
  virtual const void *data() { return 0; }
  virtual void drop() = 0;
};
template <typename C> struct Reserve_ { static void go(C &, size_t) {} static void shrink(C &) {} static const void *data(C &) { return 0; } static void front(C &c, typename C::value_type const &v) { c.push_front(v); } };
template <typename T, typename A> struct Reserve_<std::vector<T, A> > {
  typedef std::vector<T, A> C;
  static void go(C &c, size_t n) { c.reserve(n); }
  static void shrink(C &c) {
#if NSIMD_CXX >= 2011
    c.shrink_to_fit();
#else
    C(c).swap(c);
#endif
  }
  static const void *data(C &c) { return c.empty() ? 0 : &c[0]; }
  static void front(C &, T const &) {}
};
template <typename C> struct Impl : Base {
  typedef typename C::value_type T;
  char mem[sizeof(C)];
  C *c;
  Impl() { arm(true); c = new (mem) C(); arm(false); }
  static void adv(typename C::iterator &it, size_t n) { while (n--) ++it; }
  virtual void op(int o, size_t a, size_t b, long v, Base *other_) {
    Impl *other = static_cast<Impl *>(other_);
    T val = mk<T>(v);
    arm(true);
    switch (o) {
    case PushBack: c->push_back(val); break;
    case PushFront: Reserve_<C>::front(*c, val); break;
    case PopBack: if (!c->empty()) c->pop_back(); break;
    case Resize: c->resize(a, val); break;
    case Reserve: Reserve_<C>::go(*c, a); break;
    case InsertN: { typename C::iterator it = c->begin(); adv(it, b); c->insert(it, a, val); break; }
    case AssignN: c->assign(a, val); break;
    case Clear: c->clear(); break;
    case EraseRange: { typename C::iterator i = c->begin(), j; adv(i, a); j = i; adv(j, b); c->erase(i, j); break; }
    case Shrink: Reserve_<C>::shrink(*c); break;
    case SwapWith: c->swap(*other->c); break;
    case CopyFrom: { C t(*other->c); c->swap(t); break; }
    }
    arm(false);
  }
  virtual size_t size() { return c->size(); }
  virtual long at(size_t i) { typename C::iterator it = c->begin(); adv(it, i); return rd<T>(*it); }
  virtual const void *data() { return Reserve_<C>::data(*c); }
  virtual void drop() { arm(true); c->~C(); arm(false); c = 0; }
};

bool has(int cont) {
#if NSIMD_CXX >= 2020
  return cont == Vector; // the allocator is then restricted to element types
#else
  (void)cont;
  return true;
#endif
}
Cont *make(int cont, int type) {
  switch (cont * 16 + type) {
#define X(i, T) case i: return new Impl<std::vector<T, nsimd::allocator<T> > >();
    EACH(X)
#undef X
#if NSIMD_CXX < 2020
#define X(i, T) case 16 + i: return new Impl<std::list<T, nsimd::allocator<T> > >();
    X(4, i32) X(0, i8) X(10, f64)
#undef X
#define X(i, T) case 32 + i: return new Impl<std::deque<T, nsimd::allocator<T> > >();
    X(4, i32) X(0, i8) X(10, f64)
#undef X
#endif
  }
  return 0;
}
#define CATCH                                                                  \
  catch (std::bad_alloc &) { arm(false); return 1; }                           \
  catch (std::length_error &) { arm(false); return 2; }                        \
  catch (...) { arm(false); return 3; }
int apply(Cont *c, int op, size_t a, size_t b, long val, Cont *other) {
  try { static_cast<Base *>(c)->op(op, a, b, val, static_cast<Base *>(other)); return 0; }
  CATCH
}
size_t size(Cont *c) { return static_cast<Base *>(c)->size(); }
long at(Cont *c, size_t i) { return static_cast<Base *>(c)->at(i); }
const void *data(Cont *c) { return static_cast<Base *>(c)->data(); }
void destroy(Cont *c) { static_cast<Base *>(c)->drop(); delete c; }

template <typename T> int all(size_t n, void **out) {
  try { nsimd::allocator<T> a; arm(true); T *p = a.allocate(n); arm(false); *out = (void *)p; return 0; }
  CATCH
}
int al_allocate(int type, size_t n, void **out) {
  switch (type) {
#define X(i, T) case i: return all<T>(n, out);
    EACH(X)
#undef X
  }
  return 3;
}
void al_deallocate(int type, void *p, size_t n) {
  switch (type) {
#define X(i, T) case i: { nsimd::allocator<T> a; arm(true); a.deallocate((T *)p, n); arm(false); return; }
    EACH(X)
#undef X
  }
}
template <typename T> int scp(size_t n, bool copy, Scope *s) {
  try {
    arm(true);
    nsimd::scoped_aligned_mem_for<T> m(n);
    T *p = m.get();
    if (copy) {
      nsimd::scoped_aligned_mem_for<T> k(m);
      T *q = k.get();
      arm(false);
      s->body(p, n, sizeof(T), q);
      arm(true);
    } else {
      arm(false);
      s->body(p, n, sizeof(T), 0);
      arm(true);
    }
  }
  CATCH
  arm(false);
  return 0;
}
int scoped(int type, size_t n, bool copy, Scope *s) {
  switch (type) {
#define X(i, T) case i: return scp<T>(n, copy, s);
    EACH(X)
#undef X
  }
  return 3;
}
}
