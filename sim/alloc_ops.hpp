// Boundary between the allocation simulator (C++17) and the code using the
// library headers, which is compiled for each language standard.
#ifndef VSIM_ALLOC_OPS_HPP
#define VSIM_ALLOC_OPS_HPP
#include <stddef.h>
namespace aops {
const int NTYPES = 11;
extern const int size_of[NTYPES];
extern const char *const name_of[NTYPES];
extern const char *const standard;
extern const int max_alignment;
// kind 0: nsimd_aligned_alloc (bytes), 1: nsimd::aligned_alloc (bytes), 2: nsimd::aligned_alloc_for<T>
void *alloc(int kind, int type, long long n);
void release(int kind, int type, void *p);
// containers: see alloc_ops.cpp.  All return 0 ok, 1 bad_alloc, 2 length_error, 3 other exception
enum { Vector, List, Deque, NCONT };
bool has(int cont);
struct Cont { virtual ~Cont() {} };
enum Op { PushBack, PopBack, Resize, Reserve, InsertN, AssignN, Clear, EraseRange, Shrink, SwapWith, CopyFrom, PushFront, OpEnd };
Cont *make(int cont, int type);
int apply(Cont *, int op, size_t a, size_t b, long val, Cont *other);
size_t size(Cont *);
long at(Cont *, size_t i);
const void *data(Cont *); // vector only, 0 when empty
void destroy(Cont *);     // runs the destructor of the container only
// direct allocator use: returns status, *out the pointer
int al_allocate(int type, size_t n, void **out);
void al_deallocate(int type, void *p, size_t n);
// scoped buffer: status of the whole scope.  body() runs inside it and may throw
struct Scope { virtual ~Scope() {} virtual void body(void *p, size_t n, size_t elt, void *copy) = 0; };
int scoped(int type, size_t n, bool copy, Scope *);
void arm(bool); // provided by the simulator
}
#endif
