/* Declarations only: lets clang resolve Eigen's includes without libomp. */
#ifndef STUB_OMP_H
#define STUB_OMP_H
#ifdef __cplusplus
extern "C" {
#endif
int omp_get_num_threads(void);
int omp_get_max_threads(void);
int omp_get_thread_num(void);
int omp_get_num_procs(void);
int omp_in_parallel(void);
void omp_set_num_threads(int);
double omp_get_wtime(void);
typedef struct { int x; } omp_lock_t;
void omp_init_lock(omp_lock_t*); void omp_destroy_lock(omp_lock_t*);
void omp_set_lock(omp_lock_t*); void omp_unset_lock(omp_lock_t*); int omp_test_lock(omp_lock_t*);
#ifdef __cplusplus
}
#endif
#endif
