// Harness API. Under SX_SYM the functions are executed by the symbolic executor (engine/), otherwise by native.hpp.
#ifndef SX_H
#define SX_H
#ifdef __cplusplus
extern "C" {
#endif
int sx_int(const char *name, int lo, int hi);           // symbolic integer in [lo,hi]
int sx_choice(const char *name, int n);                 // case split: concrete value in [0,n)
double sx_real(const char *name);                       // symbolic real, unconstrained
double sx_real_in(const char *name, double lo, double hi);
int sx_nd_choice(int n);                                // environment choice
double sx_nd_real(void);                                // environment value
void sx_assume(int c);
void sx_check(int c, const char *msg);
void sx_check_eq(double a, double b, const char *msg);
void sx_check_le(double a, double b, const char *msg);
int sx_conc(int v);                                     // case split on the value
void sx_reach(const char *msg);                         // reachability witness
void sx_fail(const char *msg) ;
void sx_prune(void) ;
int sx_param(const char *name, int dflt);
int sx_live(void);
void sx_trace(const char *name, int v);
void sx_threads(int n); /* parallel regions run with n threads from here on (0: as the parameter says) */
void sx_run_ranks(int n, void (*fn)(int, void *), void *arg);
void sx_barrier(void);
int sx_tid(void);
int sx_nthreads(void);
int sx_is_sym(double v);
void sx_exact_arithmetic(int on); // rational arithmetic on concrete numbers from here on
int sx_is_undef(double v);
int sx_same(double a, double b);
int sx_readable(const void *p, unsigned long n);
unsigned long sx_block_size(const void *p);
int sx_race(int on);
void sx_dbg(const char *name, double v);
#ifdef __cplusplus
}
#endif
#endif
