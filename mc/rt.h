// Runtime that closes the system: every byte of fresh memory has a known value,
// and OpenMP regions run on virtual threads under the harness's control.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

namespace rt {
extern unsigned char fill_byte; // value of fresh heap memory (0xFF: NaN as a double)
struct Omp {
  int nthreads = 1;          // team size of the next parallel regions
  std::vector<int> order;    // order in which the team's members run (default 0,1,..)
  bool record = false;       // record the accesses of each member (instrumented build)
  // preemption: before its k-th recorded access, member t is suspended and the
  // others run first
  int preempt_thread = -1;
  uint64_t preempt_at = 0;
  // results
  uint64_t regions = 0;
  uint64_t accesses = 0;     // recorded accesses
  uint64_t shared_bytes = 0; // bytes touched by more than one member
  uint64_t written = 0;      // bytes written by some member
  std::string conflict;      // first pair of conflicting accesses without ordering
  std::vector<uint64_t> conflict_at; // access index (of the later member) of conflicts
  std::vector<int> conflict_thread;
  std::vector<uint64_t> thread_accesses;
  void reset() {
    regions = accesses = shared_bytes = written = 0;
    conflict.clear();
    conflict_at.clear();
    conflict_thread.clear();
    thread_accesses.clear();
  }
};
extern Omp omp;
extern bool instrumented; // the code under test reports its accesses
} // namespace rt
