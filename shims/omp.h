#pragma once
inline int omp_get_max_threads() { return 1; }
inline int omp_get_num_threads() { return 1; }
inline int omp_get_thread_num() { return 0; }
extern "C" long sym_param(const char*, long);
inline int omp_get_num_procs() { return (int)sym_param("cpus", 1); }
inline void omp_set_num_threads(int) {}
