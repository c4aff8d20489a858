/* Small probes used by the R harness (no instrumentation). */
#define R_NO_REMAP
#include <R.h>
#include <Rinternals.h>
#include <string.h>
#include <stdio.h>
#include <R_ext/Rdynload.h>

SEXP pr_truelengths(SEXP x) {
  R_xlen_t n = XLENGTH(x);
  SEXP out = PROTECT(Rf_allocVector(REALSXP, n));
  for (R_xlen_t i = 0; i < n; ++i) REAL(out)[i] = (double) TRUELENGTH(STRING_ELT(x, i));
  UNPROTECT(1);
  return out;
}
SEXP pr_set_truelengths(SEXP x, SEXP v) {
  R_xlen_t n = XLENGTH(x);
  for (R_xlen_t i = 0; i < n; ++i) SET_TRUELENGTH(STRING_ELT(x, i), (R_xlen_t) REAL(v)[i]);
  return R_NilValue;
}
SEXP pr_addr(SEXP x) {
  char buf[32]; snprintf(buf, sizeof buf, "%p", (void*) x);
  return Rf_mkString(buf);
}
SEXP pr_bits(SEXP x) {
  size_t es;
  switch (TYPEOF(x)) {
  case LGLSXP: case INTSXP: es = 4; break;
  case REALSXP: es = 8; break;
  case CPLXSXP: es = 16; break;
  case RAWSXP: es = 1; break;
  default: return R_NilValue;
  }
  size_t n = es * (size_t) XLENGTH(x);
  SEXP out = PROTECT(Rf_allocVector(RAWSXP, n));
  if (n) memcpy(RAW(out), DATAPTR_RO(x), n);
  UNPROTECT(1);
  return out;
}
SEXP pr_is_altrep(SEXP x) { return Rf_ScalarLogical(ALTREP(x)); }

/* ---- digest of everything the caller can see of an object -----------------
 * strict: bit for bit, attribute order, object bit, the strings' hidden length
 * word; otherwise values only (NaN payloads canonical, attribute order free). */
#include <stdint.h>
#define MIX(h, v) ((h) = ((h) ^ (uint64_t) (v)) * 0x100000001b3ULL, (h) ^= (h) >> 29)
static R_xlen_t pjw(const char* s) {   /* R_Newhashpjw() */
  unsigned h = 0, g;
  for (const char* p = s; *p; ++p) {
    h = (h << 4) + (*p);
    if ((g = h & 0xf0000000) != 0) { h = h ^ (g >> 24); h = h ^ g; }
  }
  return (R_xlen_t) (int) h;
}
static uint64_t dig(SEXP x, int strict, int depth) {
  uint64_t h = 0xcbf29ce484222325ULL;
  int type = TYPEOF(x);
  MIX(h, type);
  if (depth > 60) return h;
  switch (type) {
  case LGLSXP: case INTSXP: {
    R_xlen_t n = XLENGTH(x); MIX(h, n);
    const int* p = (const int*) DATAPTR_RO(x);
    for (R_xlen_t i = 0; i < n; ++i) MIX(h, (uint32_t) p[i]);
    break;
  }
  case CPLXSXP: case REALSXP: {
    R_xlen_t n = XLENGTH(x) * (type == CPLXSXP ? 2 : 1); MIX(h, n);
    const double* p = (const double*) DATAPTR_RO(x);
    for (R_xlen_t i = 0; i < n; ++i) {
      uint64_t b; memcpy(&b, p + i, 8);
      if (!strict && ISNAN(p[i])) b = R_IsNA(p[i]) ? 1 : 2;
      MIX(h, b);
    }
    break;
  }
  case RAWSXP: {
    R_xlen_t n = XLENGTH(x); MIX(h, n);
    for (R_xlen_t i = 0; i < n; ++i) MIX(h, RAW(x)[i]);
    break;
  }
  case STRSXP: {
    R_xlen_t n = XLENGTH(x); MIX(h, n);
    for (R_xlen_t i = 0; i < n; ++i) {
      SEXP s = STRING_ELT(x, i);
      MIX(h, (uintptr_t) s);
      /* R itself caches the hash of strings used as symbols there */
      if (strict && TRUELENGTH(s) != 0 && (s == NA_STRING || TRUELENGTH(s) != pjw(CHAR(s)))) MIX(h, TRUELENGTH(s));
    }
    break;
  }
  case VECSXP: case EXPRSXP: {
    R_xlen_t n = XLENGTH(x); MIX(h, n);
    for (R_xlen_t i = 0; i < n; ++i) MIX(h, dig(VECTOR_ELT(x, i), strict, depth + 1));
    break;
  }
  case LISTSXP: case LANGSXP: case DOTSXP:
    for (SEXP p = x; p != R_NilValue && TYPEOF(p) != SYMSXP && (TYPEOF(p) == LISTSXP || TYPEOF(p) == LANGSXP || TYPEOF(p) == DOTSXP); p = CDR(p)) {
      MIX(h, (uintptr_t) TAG(p)); MIX(h, dig(CAR(p), strict, depth + 1));
    }
    return h;
  case PROMSXP:
    return h;
  default:
    MIX(h, (uintptr_t) x);
    return h;
  }
  if (strict) { MIX(h, OBJECT(x)); MIX(h, IS_S4_OBJECT(x)); }
  uint64_t acc = 0;
  for (SEXP p = ATTRIB(x); p != R_NilValue; p = CDR(p)) {
    uint64_t a = dig(CAR(p), strict, depth + 1);
    MIX(a, (uintptr_t) TAG(p));
    if (strict) MIX(h, a); else acc += a;
  }
  MIX(h, acc);
  return h;
}
SEXP pr_digest(SEXP x, SEXP strict) {
  char buf[32]; snprintf(buf, sizeof buf, "%016llx", (unsigned long long) dig(x, Rf_asLogical(strict), 0));
  return Rf_mkString(buf);
}
/* The variables of an environment, without creating references to their values. */
SEXP pr_digest_env(SEXP env, SEXP skip, SEXP strict) {
  SEXP nms = PROTECT(R_lsInternal3(env, TRUE, TRUE));
  uint64_t h = 1469598103934665603ULL;
  for (R_xlen_t i = 0; i < XLENGTH(nms); ++i) {
    if (STRING_ELT(nms, i) == STRING_ELT(skip, 0)) continue;
    MIX(h, (uintptr_t) STRING_ELT(nms, i));
    MIX(h, dig(Rf_findVarInFrame(env, Rf_installTrChar(STRING_ELT(nms, i))), Rf_asLogical(strict), 0));
  }
  UNPROTECT(1);
  char buf[32]; snprintf(buf, sizeof buf, "%016llx", (unsigned long long) h);
  return Rf_mkString(buf);
}
SEXP pr_refs(SEXP x) { return Rf_ScalarInteger(MAYBE_SHARED(x) ? 2 : MAYBE_REFERENCED(x) ? 1 : 0); }
