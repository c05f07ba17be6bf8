// Stand-in for omp.h where the compiler that makes the intermediate representation has none
#pragma once
#if defined(VF_SYMBOLIC) || defined(VF_THREADS)
extern "C" {
void omp_set_num_threads(int);
int omp_get_num_threads(void);
int omp_get_max_threads(void);
int omp_get_thread_num(void);
int omp_get_num_procs(void);
}
#else
static inline void omp_set_num_threads(int) {}
static inline int omp_get_num_threads(void) { return 1; }
static inline int omp_get_max_threads(void) { return 1; }
static inline int omp_get_thread_num(void) { return 0; }
static inline int omp_get_num_procs(void) { return 1; }
#endif
static inline double omp_get_wtime(void) { return 0; }
