// Harness interface.  The same harness source is (a) executed symbolically from its LLVM IR, where
// vf_real/vf_int/... return symbolic variables and vf_eq/vf_check become solver queries, and (b) built
// natively to replay a concrete assignment against the real code.
#pragma once
extern "C" {
double vf_real(const char *name, double lo, double hi);  // any real in [lo, hi]
double vf_any(const char *name);                         // any double (bit-precise mode: NaN, infinities, ... included)
int vf_int(const char *name, int lo, int hi);            // any int in [lo, hi]
int vf_pick(const char *name, int lo, int hi);           // any int in [lo, hi], split into one path per value
int vf_cfg(const char *name);                            // size parameter of this run (stated bound)
void vf_assume(int cond);
void vf_eq(double a, double b, const char *msg);    // equal (reals: exactly; natively: to rounding)
void vf_le(double a, double b, const char *msg);    // a <= b   (natively: to rounding)
void vf_same(double a, double b, const char *msg);  // bit-precise mode: identical value (NaN == NaN, -0 == +0)
void vf_ieq(long a, long b, const char *msg);
void vf_check(int cond, const char *msg);
void vf_reach(const char *msg);
int vf_symbolic(void);
// reading back a written file: text characters and numbers (compared to five digits natively)
int vf_file_open(const char *name);                  // 1 if it exists
int vf_file_char(void);                              // next character, -1 if a number or the end comes next
int vf_file_end(void);                               // 1 at the end
void vf_file_real(double want, const char *msg);     // the next item is a number: the expected one
// an unknown function: the same value at the same arguments, otherwise anything in [-4, 4]
double vf_uf2(const char *name, double a, double b);
double vf_uf4(const char *name, double a, double b, double c, double d);
void vf_parallel(int n, void (*fn)(void *, int), void *arg);  // fn(arg, 0..n-1) at the same time; data races are violations
void vf_barrier(void);
int vf_thread(void);  // number of this thread within vf_parallel
long vf_heap(void);  // memory held by live heap allocations (objects symbolically, bytes natively)
}
