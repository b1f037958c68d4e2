// Interface between a driver and the recording scheduler (vp_sched.cpp).
#pragma once
#include <cstdint>
extern "C" {
void vps_start(uint64_t seed, int mode, long limit);   // from now on one thread runs at a time, chosen by the seed
void vps_stop();                                        // back to ordinary execution (all other threads joined)
void vps_point();                                       // a place where another thread may be chosen
void vps_text(const char* json);                        // record an event: fields of a JSON object, without braces
void vps_name_mutex(const void* m, const char* name);
void vps_hook(void (*f)(int tid));                      // called whenever the running thread reaches a scheduling point
int vps_self();
void vps_quiet(int on);                                 // 1: suspend the recording of memory accesses of this thread, -1: resume
void vps_lean(int on);                                  // 1: no memory accesses, and only the mutexes of named buffers, are recorded
void vps_dump(const char* path);
void vps_dump_to(const char* path);                    // where the recording goes when the run cannot be finished
void vps_script(const char* letters, const char* threads);   // strategy 7: whose critical section ends next (a small letter: begins), one letter per thread
void vps_shared(const void* p, unsigned long n);        // memory of library-internal objects whose accesses are not recorded one by one
void vps_access(const void* p, int write);              // an access of such an object
}
