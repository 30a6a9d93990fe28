// OpenMP runtime that never gives more than one thread, whatever is asked for.
extern "C" {
static int asked = 4;
int g1_regions = 0;
void GOMP_parallel(void (*fn)(void *), void *d, unsigned, unsigned) { ++g1_regions; fn(d); }
void GOMP_barrier() {}
void GOMP_critical_start() {}
void GOMP_critical_end() {}
void GOMP_critical_name_start(void **) {}
void GOMP_critical_name_end(void **) {}
void GOMP_atomic_start() {}
void GOMP_atomic_end() {}
bool GOMP_single_start() { return true; }
int  omp_get_thread_num() { return 0; }
int  omp_get_num_threads() { return 1; }
int  omp_get_max_threads() { return asked; }
void omp_set_num_threads(int n) { asked = n < 1 ? 1 : n; }
int  omp_get_num_procs() { return 4; }
int  omp_in_parallel() { return 0; }
int  omp_get_level() { return 0; }
int  omp_get_dynamic() { return 0; }
void omp_set_dynamic(int) {}
int  omp_get_nested() { return 0; }
void omp_set_nested(int) {}
}
