/* Declarations of the OpenMP runtime routines, as seen by the generated code (the runtime itself is simulated). */
#ifndef SIM_OMP_H
#define SIM_OMP_H
#ifdef __cplusplus
extern "C" {
#endif
typedef enum omp_sched_t {
    omp_sched_static = 1, omp_sched_dynamic = 2, omp_sched_guided = 3, omp_sched_auto = 4, omp_sched_monotonic = (int) 0x80000000u
} omp_sched_t;
typedef struct omp_lock_t { void* _lk; } omp_lock_t;
typedef struct omp_nest_lock_t { void* _lk; } omp_nest_lock_t;
void omp_set_schedule(omp_sched_t kind, int chunk);
void omp_get_schedule(omp_sched_t* kind, int* chunk);
int omp_get_thread_num(void);
int omp_get_num_threads(void);
int omp_get_max_threads(void);
void omp_set_num_threads(int n);
int omp_get_num_procs(void);
int omp_in_parallel(void);
int omp_get_dynamic(void);
void omp_set_dynamic(int d);
int omp_get_nested(void);
void omp_set_nested(int n);
int omp_get_max_active_levels(void);
void omp_set_max_active_levels(int n);
int omp_get_level(void);
int omp_get_active_level(void);
int omp_get_thread_limit(void);
double omp_get_wtime(void);
double omp_get_wtick(void);
void omp_init_lock(omp_lock_t*);
void omp_destroy_lock(omp_lock_t*);
void omp_set_lock(omp_lock_t*);
void omp_unset_lock(omp_lock_t*);
int omp_test_lock(omp_lock_t*);
#ifdef __cplusplus
}
#endif
#endif
