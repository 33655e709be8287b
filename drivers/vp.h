// Analysis intrinsics.  They are only declared: driver functions are compiled to
// IR and analysed, never linked or executed.
#pragma once
extern "C" {
double vp_sym(const char *name, double lo, double hi, int flags); // 1 lo open, 2 hi open, 4 may be NaN, 8 float
float vp_symf(const char *name);
double vp_symi(const char *name, int idx, double lo, double hi);
int vp_isym(const char *name, int lo, int hi);
double vp_nan();
void vp_out(const char *name, int idx, double v);
void vp_outi(const char *name, int idx, int v);
void vp_outf(const char *name, int idx, float v);
void vp_assume(bool c);
void vp_snap(const char *name, const void *p, long n);
void vp_abs(const char *name, void *p, long n);
}
#define VP_INF __builtin_inf()
static inline double vpx(const char *n) { return vp_sym(n, -VP_INF, VP_INF, 0); }
static inline double vpopen(const char *n, double lo, double hi) { return vp_sym(n, lo, hi, 3); }
