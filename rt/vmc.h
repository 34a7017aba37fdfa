// Interface between the rank-side scenario (in the library under test) and the controlled runtime.
#ifndef VMC_H
#define VMC_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
int         vmc_rank(void);
int         vmc_nranks(void);
int         vmc_npar(void);
double      vmc_par(int i);              // numeric case parameters
const char* vmc_spar(int i);             // string case parameters
void        vmc_emit(const char* key, const double* d, size_t n);   // appended to this rank's blob `key`
void        vmc_emitf(const char* key, const float* d, size_t n);
void        vmc_emit1(const char* key, double d);
void        vmc_bytes(const char* key, const void* d, size_t n);
void        vmc_fail(const char* fmt, ...) __attribute__((noreturn));  // the property is broken in this run
int         vmc_choose(int n, const char* label);   // explored data choice (each alternative is free)
int         vmc_choose_cost(int n, int cost, const char* label); // alternatives 1.. cost `cost`
void        vmc_yield(void);
int         vmc_try(void (*fn)(void*), void* arg);   // 1: fn ended in ERROR()/exit
const char* vmc_last_log(void);
const char* vmc_log(void);
void        vmc_log_clear(void);
void        vmc_clock(double seconds);               // this rank's wall clock from now on (negative: the real one)
void        vmc_count(const char* key, double n);    // adds to a counter of the run
void        vmc_tsan_mode(int mode);                 // 0 off, 1 scheduling points, 2 conflict recording, 3 conflict recording in every OpenMP team
void        vmc_region_begin(void);
void        vmc_region_tag(int tag);
void        vmc_region_stack(void* p);               // frames below p are private to the running job
const char* vmc_region_end(void);                    // NULL: no conflicting access
void        vmc_disk_limit(long long bytes, int op_mode); // faults: see vmc.cc
void        vmc_disk_xor(unsigned long long x);
int         vmc_disk_tripped(void);                  // the fault has happened
long long   vmc_disk_used(void);
long*       vmc_shared(void);                 // 64 numbers all ranks of a run see, zero at its start
int         vmc_nfibers(void);
int         vmc_fiber(void);
void        vmc_guard_malloc(int on);
void        vmc_guard_check(void);               // nothing was written before any guarded allocation
#ifdef __cplusplus
}
#endif
#endif
