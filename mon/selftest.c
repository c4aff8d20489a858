/* Instrumented code that commits known faults, to prove the sanitizers see them. */
#define R_NO_REMAP
#include <R.h>
#include <Rinternals.h>
#include <limits.h>
SEXP st_poke(SEXP x, SEXP i) { INTEGER(x)[Rf_asInteger(i)] = 7; return x; }
SEXP st_overflow(SEXP x) { volatile int a = Rf_asInteger(x); volatile int b = a + INT_MAX; return Rf_ScalarInteger(b); }
extern SEXP mon_armour(SEXP);
/* an object that nothing protects is used after a collection */
SEXP st_freed(void) { SEXP s = PROTECT(Rf_allocVector(INTSXP, 3)); SEXP x = mon_armour(s); int* p = INTEGER(x); x = R_NilValue; R_gc(); R_gc(); R_gc(); UNPROTECT(1); return Rf_ScalarInteger(p[0]); }
