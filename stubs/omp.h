/* minimal declaration-only omp.h so that clang can parse (clang ships none here) */
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
int omp_get_max_threads(void);
int omp_get_num_threads(void);
int omp_get_thread_num(void);
int omp_get_num_procs(void);
int omp_in_parallel(void);
int omp_get_level(void);
void omp_set_num_threads(int);
void omp_set_nested(int);
void omp_set_max_active_levels(int);
double omp_get_wtime(void);
typedef struct { void *p; } omp_lock_t;
void omp_init_lock(omp_lock_t *);
void omp_destroy_lock(omp_lock_t *);
void omp_set_lock(omp_lock_t *);
void omp_unset_lock(omp_lock_t *);
#ifdef __cplusplus
}
#endif
