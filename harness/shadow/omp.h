// Stand-in for <omp.h>: thread numbers come from the sequential scheduler model in harness/omp_rt.cpp.
#pragma once
extern "C" { int omp_get_max_threads(); int omp_get_num_threads(); int omp_get_thread_num(); void omp_set_num_threads(int); }
