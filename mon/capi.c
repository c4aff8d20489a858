/* Calls vctrs' registered C callables, as another package's native code would, through the
   package's own header and shim (inst/include) and through R_GetCCallable(). */
#include <R.h>
#include <Rinternals.h>
#include <R_ext/Rdynload.h>
#include "vctrs.c"

#define GET(T, name) ((T) R_GetCCallable("vctrs", name))
typedef SEXP (*f1)(SEXP);
typedef SEXP (*f2)(SEXP, SEXP);
static int up = 0;
static void init(void) { if (!up) { vctrs_init_api(); up = 1; } }
static SEXP lgl2(int a, int b) { SEXP o = PROTECT(Rf_allocVector(LGLSXP, 2)); LOGICAL(o)[0] = a; LOGICAL(o)[1] = b; UNPROTECT(1); return o; }

SEXP k_shim(void) {
  init();
  return lgl2((DL_FUNC) obj_is_vector == R_GetCCallable("vctrs", "obj_is_vector") && (DL_FUNC) short_vec_size == R_GetCCallable("vctrs", "short_vec_size"),
              (DL_FUNC) short_vec_recycle == R_GetCCallable("vctrs", "short_vec_recycle") && (DL_FUNC) vec_is_vector == R_GetCCallable("vctrs", "vec_is_vector"));
}
SEXP k_is_vector(SEXP x) { init(); return lgl2(obj_is_vector(x), vec_is_vector(x)); }
SEXP k_size(SEXP x) { init(); return Rf_ScalarInteger(short_vec_size(x)); }
SEXP k_recycle(SEXP x, SEXP n) { init(); return short_vec_recycle(x, INTEGER(n)[0]); }
SEXP k_cast(SEXP x, SEXP to) { return GET(f2, "exp_vec_cast")(x, to); }
SEXP k_chop(SEXP x, SEXP i) { return GET(f2, "exp_vec_chop")(x, i); }
SEXP k_slice(SEXP x, SEXP i) { return GET(f2, "exp_vec_slice_impl")(x, i); }
SEXP k_names(SEXP x) { return GET(f1, "exp_vec_names")(x); }
SEXP k_set_names(SEXP x, SEXP n) { return GET(f2, "exp_vec_set_names")(x, n); }
static SEXP seq_(SEXP a) { return GET(SEXP (*)(R_len_t, R_len_t, bool), "exp_short_compact_seq")(INTEGER(a)[0], INTEGER(a)[1], INTEGER(a)[2] != 0); }
/* slice by a compact sequence (zero-based start, size, increasing) */
SEXP k_slice_seq(SEXP x, SEXP a) { SEXP i = PROTECT(seq_(a)); SEXP o = GET(f2, "exp_vec_slice_impl")(x, i); UNPROTECT(1); return o; }
/* the same, with a sequence that is reused for two slices */
SEXP k_slice_init(SEXP x, SEXP a, SEXP b) {
  void (*ini)(int*, R_len_t, R_len_t, bool) = GET(void (*)(int*, R_len_t, R_len_t, bool), "exp_short_init_compact_seq");
  SEXP i = PROTECT(seq_(a)), o = PROTECT(Rf_allocVector(VECSXP, 2));
  SET_VECTOR_ELT(o, 0, GET(f2, "exp_vec_slice_impl")(x, i));
  ini(INTEGER(i), INTEGER(b)[0], INTEGER(b)[1], INTEGER(b)[2] != 0);
  SET_VECTOR_ELT(o, 1, GET(f2, "exp_vec_slice_impl")(x, i));
  UNPROTECT(2); return o;
}
/* chop by compact sequences, one for each row of a matrix */
SEXP k_chop_seq(SEXP x, SEXP m) {
  int n = Rf_nrows(m); SEXP l = PROTECT(Rf_allocVector(VECSXP, n));
  for (int j = 0; j < n; ++j) SET_VECTOR_ELT(l, j, GET(SEXP (*)(R_len_t, R_len_t, bool), "exp_short_compact_seq")(INTEGER(m)[j], INTEGER(m)[j + n], INTEGER(m)[j + 2 * n] != 0));
  SEXP o = GET(f2, "exp_vec_chop")(x, l); UNPROTECT(1); return o;
}
