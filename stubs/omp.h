// Minimal OpenMP runtime declarations so that clang can parse sources that
// include <omp.h> (only gcc's copy is installed in the sandbox).
#ifndef VERIF_STUB_OMP_H
#define VERIF_STUB_OMP_H
extern "C" {
int omp_get_thread_num(void);
int omp_get_num_threads(void);
int omp_get_max_threads(void);
int omp_get_num_procs(void);
int omp_in_parallel(void);
void omp_set_num_threads(int);
double omp_get_wtime(void);
}
#endif
