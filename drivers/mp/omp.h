// Stand-in for the OpenMP runtime: the pragmas are ignored, so a parallel region is
// analysed as a team of one thread.
#pragma once
extern "C" {
int omp_get_max_threads(void);
int omp_get_thread_num(void);
int omp_get_num_threads(void);
}
