// Analysis intrinsics and tracked ("opaque") bounded types used by every driver.
// None of these functions has a body at run time: they are interpreted by the analyser only.
#ifndef VSA_H
#define VSA_H
#include <cstddef>
#include <new>
#include <utility>
#include <type_traits>
#include <memory>
typedef unsigned long tok;
extern "C" {
int  vsa_choose(int n) noexcept;                       // nondeterministic choice
int  vsa_choose_named(const char* what) noexcept;      // nondeterministic yes/no, shown in the trace
void vsa_note(const char*) noexcept;
tok  vsa_fresh() noexcept;                             // fresh value number
tok  vsa_sym(int k) noexcept;                          // named value number
int  vsa_int() noexcept;                               // arbitrary int
tok  vsa_term1(int op, tok a) noexcept; tok vsa_term2(int op, tok a, tok b) noexcept;
int  vsa_rel(int op, tok a, tok b) noexcept;           // uninterpreted relation
int  vsa_same(tok a, tok b) noexcept;                  // identity of value numbers
void vsa_assume(int c) noexcept;
void vsa_ctor(const void* self, int type, unsigned long size, unsigned long align, tok t) noexcept;
void vsa_scribble(const void* self, unsigned long size) noexcept;   // the storage's bytes become indeterminate
void vsa_dtor(const void* self, int type) noexcept;
tok  vsa_tok(const void* self, int type) noexcept;     // use of a live object
void vsa_settok(const void* self, int type, tok t) noexcept;
int  vsa_owned(const void* base, unsigned long size, int* type, const void** addr) noexcept;
int  vsa_owned_heap(const void* base, unsigned long size) noexcept;
int  vsa_inside(const void* p, const void* base, unsigned long size) noexcept;
void vsa_freeze(const void* base, unsigned long size) noexcept;
void vsa_unfreeze(const void* base, unsigned long size) noexcept;
void vsa_alloc_mode(int mayfail) noexcept;
void vsa_alloc_forbid(int on) noexcept;
void vsa_check(int cond, const char* msg) noexcept;
void vsa_fail(const char* msg) noexcept;
void vsa_cover(const char* label) noexcept;
void vsa_stop() noexcept;                              // ends this path silently
int  vsa_loop_forget() noexcept;                       // same, also forgetting the value numbers
int  vsa_loop() noexcept;                              // history loop (fixpoint over canonical states)
// ghost state (exempt from the read-only rules)
extern int vsa_throw_mode;                             // 0: bounded types never throw; 1: may throw
extern tok vsa_last_thrown; extern int vsa_thrown;
extern int vsa_cnt[16]; extern int vsa_counting;
extern tok vsa_log[16];
}
#ifdef VSA_MAIN
extern "C" { int vsa_throw_mode = 0; tok vsa_last_thrown = 0; int vsa_thrown = 0; int vsa_cnt[16] = {0}; int vsa_counting = 0; tok vsa_log[16] = {0}; }
#endif
#define CHECK(c) vsa_check((c) ? 1 : 0, #c)
#define CHECKM(c, m) vsa_check((c) ? 1 : 0, m)
#define CHECK_SAME(a, b, m) vsa_check(vsa_same((tok)(a), (tok)(b)), m)

#if defined(__cpp_exceptions) || defined(__EXCEPTIONS)
#define VSA_EXC 1
struct Boom { tok id; explicit Boom(tok i) noexcept : id(i) {} };
inline void vsa_throw_point(const char* what) {
  if (vsa_throw_mode) if (vsa_choose_named(what)) { vsa_last_thrown = vsa_fresh(); vsa_thrown = vsa_thrown + 1; throw Boom(vsa_last_thrown); }
}
// a constructor that throws has already written to its storage
inline void vsa_throw_ctor(const char* what, const void* self, unsigned long size) {
  if (vsa_throw_mode) if (vsa_choose_named(what)) { vsa_scribble(self, size); vsa_last_thrown = vsa_fresh(); vsa_thrown = vsa_thrown + 1; throw Boom(vsa_last_thrown); }
}
extern "C" __attribute__((used, noinline)) inline void vsa_throw_bad_alloc_impl() { vsa_thrown = vsa_thrown + 1; throw std::bad_alloc(); }
#define TRY try
#define CATCH_BOOM catch (Boom& vsa_e_)
#else
inline void vsa_throw_point(const char*) {}
inline void vsa_throw_ctor(const char*, const void*, unsigned long) {}
#endif

enum { MOVED = 1, UNSPEC = 2, DEFAULTED = 3 };
enum { OP_HASH = 10, OP_CONV = 20, OP_CALL = 30, OP_IO = 40 };
enum { REL_EQ = 0, REL_LT = 1 };
#define TOK_MOVED vsa_sym(MOVED)
#define TOK_UNSPEC vsa_sym(UNSPEC)

// one struct body, parametrised by which special members exist and which of them may throw
#define VSA_BODY_NOHASH(NAME, ID, SIZE, ALIGN) alignas(ALIGN) unsigned char pad_[SIZE]; VSA_BODY_EMPTY(NAME, ID)
#define VSA_BODY_EMPTY(NAME, ID) \
  enum { id = ID }; \
  struct mk {}; \
  NAME(mk, tok t) noexcept { vsa_ctor(this, ID, sizeof(NAME), alignof(NAME), t); } \
  ~NAME() noexcept { vsa_dtor(this, ID); } \
  tok t() const noexcept { return vsa_tok(this, ID); } \
  friend bool operator==(const NAME& a, const NAME& b) { return vsa_rel(REL_EQ, a.t(), b.t()) != 0; } \
  friend bool operator<(const NAME& a, const NAME& b) { return vsa_rel(REL_LT, a.t(), b.t()) != 0; }
#define VSA_BODY(NAME, ID, SIZE, ALIGN) VSA_BODY_NOHASH(NAME, ID, SIZE, ALIGN) \
  friend std::size_t hash_value(const NAME& a) { return vsa_term1(OP_HASH + (ID), a.t()); }
// vsa_cnt[0]: copies made of types whose moves cannot throw; [1]: copies; [2]: moves
#define VSA_CNT_C(NAME) (vsa_cnt[1] = vsa_cnt[1] + 1, (std::is_nothrow_move_constructible<NAME>::value && std::is_nothrow_move_assignable<NAME>::value) ? (void)(vsa_cnt[0] = vsa_cnt[0] + 1) : (void)0)
#define VSA_CNT_M(NAME) (vsa_cnt[2] = vsa_cnt[2] + 1)
#define VSA_DEFAULT_T(NAME, ID) NAME() { vsa_throw_ctor("default constructor of " #NAME " throws", this, sizeof(NAME)); vsa_ctor(this, ID, sizeof(NAME), alignof(NAME), vsa_sym(DEFAULTED + 100 * (ID))); }
#define VSA_DEFAULT_N(NAME, ID) NAME() noexcept { vsa_ctor(this, ID, sizeof(NAME), alignof(NAME), vsa_sym(DEFAULTED + 100 * (ID))); }
#define VSA_COPY_T(NAME, ID) NAME(const NAME& r) { if (vsa_counting) VSA_CNT_C(NAME); vsa_throw_ctor("copy constructor of " #NAME " throws", this, sizeof(NAME)); vsa_ctor(this, ID, sizeof(NAME), alignof(NAME), r.t()); }
#define VSA_COPY_N(NAME, ID) NAME(const NAME& r) noexcept { if (vsa_counting) VSA_CNT_C(NAME); vsa_ctor(this, ID, sizeof(NAME), alignof(NAME), r.t()); }
#define VSA_MOVE_T(NAME, ID) NAME(NAME&& r) { if (vsa_counting) VSA_CNT_M(NAME); vsa_throw_ctor("move constructor of " #NAME " throws", this, sizeof(NAME)); tok x = r.t(); vsa_settok(&r, ID, TOK_MOVED); vsa_ctor(this, ID, sizeof(NAME), alignof(NAME), x); }
#define VSA_MOVE_N(NAME, ID) NAME(NAME&& r) noexcept { if (vsa_counting) VSA_CNT_M(NAME); tok x = r.t(); vsa_settok(&r, ID, TOK_MOVED); vsa_ctor(this, ID, sizeof(NAME), alignof(NAME), x); }
#define VSA_CASG_T(NAME, ID) NAME& operator=(const NAME& r) { if (vsa_counting) VSA_CNT_C(NAME); tok x = r.t(); vsa_settok(this, ID, TOK_UNSPEC); vsa_throw_point("copy assignment of " #NAME " throws"); vsa_settok(this, ID, x); return *this; }
#define VSA_CASG_N(NAME, ID) NAME& operator=(const NAME& r) noexcept { if (vsa_counting) VSA_CNT_C(NAME); tok x = r.t(); vsa_settok(this, ID, x); return *this; }
#define VSA_MASG_T(NAME, ID) NAME& operator=(NAME&& r) { if (vsa_counting) VSA_CNT_M(NAME); tok x = r.t(); vsa_throw_point("move assignment of " #NAME " throws"); vsa_settok(&r, ID, TOK_MOVED); vsa_settok(this, ID, x); return *this; }
#define VSA_MASG_N(NAME, ID) NAME& operator=(NAME&& r) noexcept { if (vsa_counting) VSA_CNT_M(NAME); tok x = r.t(); vsa_settok(&r, ID, TOK_MOVED); vsa_settok(this, ID, x); return *this; }

#endif
