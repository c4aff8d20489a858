/*
 * libmon: runtime monitor interposed between vctrs.so and libR.
 *
 * vctrs.so is linked with -Wl,--wrap=<sym> for each function below, so each
 * call *from vctrs* reaches __wrap_<sym> here; R's own calls and those of
 * other packages do not.  Everything is off until the harness turns it on.
 *
 *  - gc injection: R's own torture mode is switched on for the duration of a
 *    single R API call made by vctrs, so a collection happens exactly where R
 *    itself would be allowed to collect (no collection is invented).
 *  - armoured allocation: vectors are allocated through a custom allocator, so
 *    that each is its own malloc block (red zones, quarantine after free) and
 *    the rounding tail is poisoned.
 *  - fill pattern: fresh atomic vectors are filled with a chosen pattern.
 *  - allocation faults: the k-th allocation raises an R error.
 *  - bounds / type checks on element accessors that R 4.3 does not check.
 */
#define R_NO_REMAP
#include <R.h>
#include <Rinternals.h>
#include <R_ext/Rallocators.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdint.h>
#include <unistd.h>

extern void R_gc_torture(int gap, int wait, Rboolean inhibit);

/* ---- ASan interface (weak: absent in uninstrumented processes) ---------- */
extern void __asan_poison_memory_region(void const volatile*, size_t) __attribute__((weak));
extern void __asan_unpoison_memory_region(void const volatile*, size_t) __attribute__((weak));
extern int __asan_address_is_poisoned(void const volatile*) __attribute__((weak));

/* ---- state ---------------------------------------------------------------*/
static int st_on = 0;            /* any monitoring at all */
static int st_armor = 0;
static int st_fill = -1;         /* -1: leave alone, 0..255: byte */
static double st_gc_p = 0.0;     /* probability that an API call is tortured */
static int64_t st_fault_at = -1; /* fail the k-th allocation (1-based) */
static int64_t st_gc_at = -1;    /* torture exactly the k-th API call */
static uint64_t st_rng = 88172645463325252ULL;
static int64_t n_alloc = 0, n_api = 0, n_gc = 0, n_fault = 0, n_armor = 0, n_fill = 0;
static int64_t n_acc = 0, n_bad = 0;
static char bad_msg[512];

static uint64_t rnd(void) {
  st_rng ^= st_rng << 13; st_rng ^= st_rng >> 7; st_rng ^= st_rng << 17;
  return st_rng;
}

static void report_bad(const char* fmt, const char* fn, long long i, long long n) {
  ++n_bad;
  if (n_bad == 1) snprintf(bad_msg, sizeof bad_msg, fmt, fn, i, n);
  fprintf(stderr, "MON-VIOLATION ");
  fprintf(stderr, fmt, fn, i, n);
  fprintf(stderr, "\n");
  fflush(stderr);
}

/* An armoured object handed to R after it was collected: libR is not instrumented,
 * so its header is looked at here. */
static void dead(const char* fn) {
  report_bad("%s: object used after it was collected", fn, 0, 0);
  Rf_error("MON-VIOLATION %s: object used after it was collected", fn);
}
#define ALIVE(fn, x) do { if (st_on && __asan_address_is_poisoned && __asan_address_is_poisoned(x)) dead(fn); } while (0)

/* ---- custom allocator -----------------------------------------------------*/
static void* mon_mem_alloc(R_allocator_t* a, size_t n) { return malloc(n); }
static void mon_mem_free(R_allocator_t* a, void* p) {
  free(p);
}
static R_allocator_t mon_allocator = { mon_mem_alloc, mon_mem_free, NULL, NULL };

static size_t elt_size(SEXPTYPE t) {
  switch (t) {
  case LGLSXP: case INTSXP: return sizeof(int);
  case REALSXP: return sizeof(double);
  case CPLXSXP: return sizeof(Rcomplex);
  case RAWSXP: return 1;
  case STRSXP: case VECSXP: case EXPRSXP: return sizeof(SEXP);
  default: return 0;
  }
}

extern SEXP __real_Rf_allocVector(SEXPTYPE, R_xlen_t);
#define REAL_allocVector Rf_allocVector

static SEXP mon_alloc(SEXPTYPE type, R_xlen_t n) {
  SEXP out;
  size_t es = elt_size(type);
  if (st_armor && es && n > 0 && !(n == 1 && (type == INTSXP || type == LGLSXP || type == REALSXP))) {
    out = Rf_allocVector3(type, n, &mon_allocator);
    ++n_armor;
    if (__asan_poison_memory_region) {
      size_t used = es * (size_t) n, cap = (used + 7) & ~(size_t) 7;
      char* p = (char*) DATAPTR(out);
      if (cap > used) __asan_poison_memory_region(p + used, cap - used);
      __asan_poison_memory_region(p - 16, 16); /* the end of the header: only libR looks at it */
    }
  } else {
    out = REAL_allocVector(type, n);
  }
  if (st_fill >= 0 && n > 0 &&
      (type == INTSXP || type == LGLSXP || type == REALSXP || type == CPLXSXP || type == RAWSXP)) {
    memset(DATAPTR(out), st_fill, es * (size_t) n);
    ++n_fill;
  }
  return out;
}

/* ---- per-call entry: counts, torture switch, faults ----------------------*/
static inline int mon_enter(int allocates) {
  if (!st_on) return 0;
  ++n_api;
  if (allocates) {
    ++n_alloc;
    if (st_fault_at > 0 && n_alloc == st_fault_at) {
      ++n_fault;
      Rf_error("mon: injected allocation failure");
    }
  }
  int hit = 0;
  if (st_gc_at > 0) hit = (n_api == st_gc_at);
  else if (st_gc_p > 0) hit = ((double) (rnd() >> 11) / 9007199254740992.0) < st_gc_p;
  if (hit) { ++n_gc; R_gc_torture(1, 0, FALSE); }
  return hit;
}
static inline void mon_leave(int hit) { if (hit) R_gc_torture(0, 0, FALSE); }

#define ALLOC_FN(ret, name, params, args)                 \
  ret __wrap_##name params {                              \
    int hit_ = mon_enter(1);                              \
    ret out_ = name args;                                 \
    mon_leave(hit_);                                      \
    return out_;                                          \
  }
#define API_FN(ret, name, params, args)                   \
  ret __wrap_##name params {                              \
    int hit_ = mon_enter(0);                              \
    ret out_ = name args;                                 \
    mon_leave(hit_);                                      \
    return out_;                                          \
  }
#define API_VOID(name, params, args)                      \
  void __wrap_##name params {                             \
    int hit_ = mon_enter(0);                              \
    name args;                                            \
    mon_leave(hit_);                                      \
  }

SEXP __wrap_Rf_allocVector(SEXPTYPE type, R_xlen_t n) {
  int hit = mon_enter(1);
  SEXP out = (st_on && (st_armor || st_fill >= 0)) ? mon_alloc(type, n) : Rf_allocVector(type, n);
  mon_leave(hit);
  return out;
}

ALLOC_FN(SEXP, Rf_allocArray, (SEXPTYPE t, SEXP d), (t, d))
ALLOC_FN(SEXP, Rf_allocSExp, (SEXPTYPE t), (t))
ALLOC_FN(SEXP, Rf_mkNamed, (SEXPTYPE t, const char** n), (t, n))
SEXP __wrap_Rf_duplicate(SEXP x) {
  ALIVE("Rf_duplicate", x); int hit_ = mon_enter(1);
  SEXP out_ = Rf_duplicate(x); mon_leave(hit_); return out_;
}
SEXP __wrap_Rf_shallow_duplicate(SEXP x) {
  ALIVE("Rf_shallow_duplicate", x); int hit_ = mon_enter(1);
  SEXP out_ = Rf_shallow_duplicate(x); mon_leave(hit_); return out_;
}
ALLOC_FN(SEXP, Rf_cons, (SEXP a, SEXP b), (a, b))
ALLOC_FN(SEXP, Rf_lcons, (SEXP a, SEXP b), (a, b))
ALLOC_FN(SEXP, Rf_ScalarInteger, (int x), (x))
ALLOC_FN(SEXP, Rf_ScalarReal, (double x), (x))
ALLOC_FN(SEXP, Rf_ScalarString, (SEXP x), (x))
ALLOC_FN(SEXP, Rf_mkString, (const char* s), (s))
SEXP __wrap_Rf_coerceVector(SEXP x, SEXPTYPE t) {
  ALIVE("Rf_coerceVector", x); int hit_ = mon_enter(1);
  SEXP out_ = Rf_coerceVector(x, t); mon_leave(hit_); return out_;
}
SEXP __wrap_Rf_lengthgets(SEXP x, R_len_t n) {
  ALIVE("Rf_lengthgets", x); int hit_ = mon_enter(1);
  SEXP out_ = Rf_lengthgets(x, n); mon_leave(hit_); return out_;
}
SEXP __wrap_Rf_xlengthgets(SEXP x, R_xlen_t n) {
  ALIVE("Rf_xlengthgets", x); int hit_ = mon_enter(1);
  SEXP out_ = Rf_xlengthgets(x, n); mon_leave(hit_); return out_;
}
ALLOC_FN(SEXP, Rf_asCharacterFactor, (SEXP x), (x))
ALLOC_FN(SEXP, Rf_match, (SEXP a, SEXP b, int n), (a, b, n))
ALLOC_FN(SEXP, R_MakeExternalPtr, (void* p, SEXP t, SEXP q), (p, t, q))
API_FN(SEXP, Rf_mkChar, (const char* s), (s))
API_FN(SEXP, Rf_mkCharCE, (const char* s, cetype_t e), (s, e))
API_FN(SEXP, Rf_mkCharLenCE, (const char* s, int n, cetype_t e), (s, n, e))
SEXP __wrap_Rf_getAttrib(SEXP x, SEXP n) {
  ALIVE("Rf_getAttrib", x); int hit_ = mon_enter(0);
  SEXP out_ = Rf_getAttrib(x, n); mon_leave(hit_); return out_;
}
/* NULL, symbols and builtins are shared by the whole session: nothing may be written to them */
static int is_shared_obj(SEXP x) {
  switch (TYPEOF(x)) { case NILSXP: case SYMSXP: case BUILTINSXP: case SPECIALSXP: return 1; default: return 0; }
}
#define CHECK_NULL(fn, x, empty)                                              \
  do {                                                                        \
    if (st_on && !(empty) && is_shared_obj(x)) {                              \
      report_bad("%s: attributes written to NULL, a symbol or a builtin", fn, 0, 0); \
      Rf_error("MON-VIOLATION %s: attributes written to NULL, a symbol or a builtin", fn); \
    }                                                                         \
  } while (0)
SEXP __wrap_Rf_setAttrib(SEXP x, SEXP n, SEXP v) {
  ALIVE("Rf_setAttrib", x); CHECK_NULL("Rf_setAttrib", x, v == R_NilValue || x == R_NilValue); int hit_ = mon_enter(0);
  SEXP out_ = Rf_setAttrib(x, n, v); mon_leave(hit_); return out_;
}
void __wrap_SET_ATTRIB(SEXP x, SEXP v) {
  ALIVE("SET_ATTRIB", x); CHECK_NULL("SET_ATTRIB", x, v == R_NilValue);
  SET_ATTRIB(x, v);
}
void __wrap_SET_OBJECT(SEXP x, int v) {
  ALIVE("SET_OBJECT", x); CHECK_NULL("SET_OBJECT", x, v == 0);
  SET_OBJECT(x, v);
}
API_VOID(Rf_copyMostAttrib, (SEXP x, SEXP y), (x, y))
API_VOID(Rf_defineVar, (SEXP s, SEXP v, SEXP e), (s, v, e))

/* ---- accessors with bounds checks ----------------------------------------*/
#define CHECK_ELT(fn, x, i)                                                   \
  do {                                                                        \
    if (st_on) {                                                              \
      ++n_acc;                                                                \
      ALIVE(fn, x);                                                           \
      R_xlen_t n_ = XLENGTH(x);                                               \
      if ((i) < 0 || (i) >= n_)                                               \
        { report_bad("%s: index %lld outside vector of length %lld", fn, (long long) (i), (long long) n_); \
          Rf_error("MON-VIOLATION %s: index %lld outside vector of length %lld", fn, (long long) (i), (long long) n_); } \
    }                                                                         \
  } while (0)

SEXP __wrap_STRING_ELT(SEXP x, R_xlen_t i) { CHECK_ELT("STRING_ELT", x, i); return STRING_ELT(x, i); }
SEXP __wrap_VECTOR_ELT(SEXP x, R_xlen_t i) { CHECK_ELT("VECTOR_ELT", x, i); return VECTOR_ELT(x, i); }
void __wrap_SET_STRING_ELT(SEXP x, R_xlen_t i, SEXP v) {
  CHECK_ELT("SET_STRING_ELT", x, i);
  SET_STRING_ELT(x, i, v);
}
SEXP __wrap_SET_VECTOR_ELT(SEXP x, R_xlen_t i, SEXP v) {
  CHECK_ELT("SET_VECTOR_ELT", x, i);
  return SET_VECTOR_ELT(x, i, v);
}

/* ---- harness interface (.Call) -------------------------------------------*/
SEXP mon_config(SEXP on, SEXP armor, SEXP fill, SEXP gc_p, SEXP fault_at, SEXP gc_at, SEXP seed) {
  st_on = Rf_asInteger(on);
  st_armor = Rf_asInteger(armor);
  st_fill = Rf_asInteger(fill);
  st_gc_p = Rf_asReal(gc_p);
  st_fault_at = (int64_t) Rf_asReal(fault_at);
  st_gc_at = (int64_t) Rf_asReal(gc_at);
  st_rng = 88172645463325252ULL ^ ((uint64_t) (uint32_t) Rf_asInteger(seed) * 0x9E3779B97F4A7C15ULL);
  if (!st_rng) st_rng = 1;
  for (int i = 0; i < 8; ++i) rnd();
  n_alloc = n_api = 0;
  R_gc_torture(0, 0, FALSE);
  return R_NilValue;
}
SEXP mon_off(void) {
  st_on = 0; st_armor = 0; st_fill = -1; st_gc_p = 0; st_fault_at = -1; st_gc_at = -1;
  R_gc_torture(0, 0, FALSE);
  return R_NilValue;
}
SEXP mon_counts(void) {
  const char* nms[] = {"alloc", "api", "gc", "fault", "armor", "fill", "acc", "bad", ""};
  SEXP out = PROTECT(Rf_mkNamed(REALSXP, nms));
  double* p = REAL(out);
  p[0] = n_alloc; p[1] = n_api; p[2] = n_gc; p[3] = n_fault;
  p[4] = n_armor; p[5] = n_fill; p[6] = n_acc; p[7] = n_bad;
  UNPROTECT(1);
  return out;
}
SEXP mon_bad_msg(void) { return Rf_mkString(bad_msg); }

/* Deep copy of a value into armoured storage (attributes copied too). */
static SEXP armour(SEXP x, int depth) {
  if (depth > 50) return x;
  SEXP out;
  switch (TYPEOF(x)) {
  case LGLSXP: case INTSXP: case REALSXP: case CPLXSXP: case RAWSXP: {
    R_xlen_t n = XLENGTH(x);
    int a = st_armor, f = st_fill; st_armor = 1; st_fill = -1;
    out = PROTECT(mon_alloc(TYPEOF(x), n));
    st_armor = a; st_fill = f;
    if (n) memcpy(DATAPTR(out), DATAPTR_RO(x), elt_size(TYPEOF(x)) * (size_t) n);
    break;
  }
  case STRSXP: {
    R_xlen_t n = XLENGTH(x);
    int a = st_armor; st_armor = 1;
    out = PROTECT(mon_alloc(STRSXP, n));
    st_armor = a;
    for (R_xlen_t i = 0; i < n; ++i) SET_STRING_ELT(out, i, STRING_ELT(x, i));
    break;
  }
  case VECSXP: {
    R_xlen_t n = XLENGTH(x);
    int a = st_armor; st_armor = 1;
    out = PROTECT(mon_alloc(VECSXP, n));
    st_armor = a;
    for (R_xlen_t i = 0; i < n; ++i) SET_VECTOR_ELT(out, i, armour(VECTOR_ELT(x, i), depth + 1));
    break;
  }
  default:
    return x;
  }
  if (ATTRIB(x) != R_NilValue) {
    /* copy each attribute value, preserving the pairlist and flags */
    SEXP at = PROTECT(Rf_shallow_duplicate(ATTRIB(x)));
    for (SEXP p = at; p != R_NilValue; p = CDR(p))
      SETCAR(p, armour(CAR(p), depth + 1));
    SET_ATTRIB(out, at);
    SET_OBJECT(out, OBJECT(x));
    if (IS_S4_OBJECT(x)) SET_S4_OBJECT(out);
    UNPROTECT(1);
  }
  UNPROTECT(1);
  return out;
}
SEXP mon_armour(SEXP x) { return armour(x, 0); }

/* Truelengths of the CHARSXPs of a character vector (as double). */
SEXP mon_truelengths(SEXP x) {
  R_xlen_t n = XLENGTH(x);
  SEXP out = PROTECT(Rf_allocVector(REALSXP, n));
  for (R_xlen_t i = 0; i < n; ++i) REAL(out)[i] = (double) TRUELENGTH(STRING_ELT(x, i));
  UNPROTECT(1);
  return out;
}
SEXP mon_set_truelengths(SEXP x, SEXP v) {
  R_xlen_t n = XLENGTH(x);
  for (R_xlen_t i = 0; i < n; ++i) SET_TRUELENGTH(STRING_ELT(x, i), (R_xlen_t) REAL(v)[i]);
  return R_NilValue;
}
/* Address of an object (identity / aliasing checks). */
SEXP mon_addr(SEXP x) {
  char buf[32]; snprintf(buf, sizeof buf, "%p", (void*) x);
  return Rf_mkString(buf);
}
/* Bytes of an atomic vector's data, for bit-level comparison. */
SEXP mon_bytes(SEXP x) {
  size_t n = elt_size(TYPEOF(x)) * (size_t) XLENGTH(x);
  if (TYPEOF(x) == STRSXP || TYPEOF(x) == VECSXP) return R_NilValue;
  SEXP out = PROTECT(Rf_allocVector(RAWSXP, n));
  if (n) memcpy(RAW(out), DATAPTR_RO(x), n);
  UNPROTECT(1);
  return out;
}
/* Deterministic self tests of the monitor: prove that it can see. */
SEXP mon_selftest_oob(SEXP which) {
  SEXP v = PROTECT(mon_alloc(INTSXP, 3));
  volatile int* p = INTEGER(v);
  int k = Rf_asInteger(which);
  p[2] = 1;
  p[k] = 1; /* k == 3: in the padding; must be reported in an ASan build */
  UNPROTECT(1);
  return R_NilValue;
}
SEXP mon_has_asan(void) { return Rf_ScalarLogical(__asan_poison_memory_region != NULL); }
SEXP mon_ppstack(void) { extern int R_PPStackTop; return Rf_ScalarInteger(R_PPStackTop); }
