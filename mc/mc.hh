// Common support of the explorers: deterministic allocator, reporting, cell registry.
//
// An explorer is a program made of independent "cells". A cell fixes a configuration of the library
// (value type, table/cache/arena sizes), an address policy of the allocator and a bounded space of
// inputs, histories or faults, which it enumerates completely. A cell is a pure function of its name:
// running it twice gives the same execution, addresses included.
#pragma once

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace mc {

/*------------------------------------------------------------------------------------------------*/
// Allocator (alloc.cc). All C++ allocations (operator new) of an explorer are served from a region
// mapped at a fixed address.

enum class grow  { up, down, alternate };  // where fresh blocks are taken
enum class reuse { lifo, fifo };           // which freed block of the same size is reused first

void set_policy(grow g, reuse r);
std::size_t live_blocks();
std::size_t live_bytes();
std::uint64_t total_allocations();

struct addr_policy { const char* name; grow g; reuse r; };
inline const std::vector<addr_policy>&
all_policies()
{
  static const std::vector<addr_policy> p = {
    {"up-lifo", grow::up, reuse::lifo}, {"down-lifo", grow::down, reuse::lifo},
    {"alt-lifo", grow::alternate, reuse::lifo}, {"down-fifo", grow::down, reuse::fifo},
    {"up-fifo", grow::up, reuse::fifo},
  };
  return p;
}
inline void
use_policy(const std::string& n)
{
  for (const auto& p : all_policies()) if (n == p.name) { set_policy(p.g, p.r); return; }
  abort();
}

// Deviation-bounded exploration of addresses: the allocation whose index (counted from the call of
// arm()) is in this set takes its block from the other end of the region and never reuses a block.
void arm_deviations(const std::set<std::uint64_t>& d);
void disarm_deviations();
std::uint64_t allocations_since_arm();

// Fault injection: throw std::bad_alloc at the n-th allocation (0-based) from now on; <0 disarms.
void fail_allocation(long long n);

// While on, small blocks are placed one right after the other, with no header and no gap, and are never reused.
void tight_blocks(bool on);

/*------------------------------------------------------------------------------------------------*/

struct stats
{
  std::uint64_t states = 0;       // distinct states/inputs visited
  std::uint64_t transitions = 0;  // operations of the library executed
  std::uint64_t validated = 0;    // executions (traces) compared with the reference model
  std::map<std::string, std::uint64_t> extra;
  std::set<std::string> outcomes; // distinct observed outcomes (bounded)
  std::vector<std::string> samples;
  std::vector<std::string> known;
};

inline stats& st() { static stats s; return s; }

inline void sample(const std::string& s) { if (st().samples.size() < 4) st().samples.push_back(s); }
inline void outcome(const std::string& s) { if (st().outcomes.size() < 100000) st().outcomes.insert(s); }

// Where we are: printed when the explored code crashes or aborts.
inline std::string& where() { static std::string s; return s; }

[[noreturn]] void fail(const std::string& msg);

#define MC_FAIL(...)                                                                               \
  do { std::ostringstream mc_os_; mc_os_ << __VA_ARGS__; ::mc::fail(mc_os_.str()); } while (0)
#define MC_CHECK(cond, ...)                                                                        \
  do { if (!(cond)) { MC_FAIL("[" #cond "] " << __VA_ARGS__); } } while (0)

/*------------------------------------------------------------------------------------------------*/

struct cell
{
  std::string name;
  bool thorough_only;
  std::function<void()> run;
};

inline std::vector<cell>& cells() { static std::vector<cell> c; return c; }

inline void
add_cell(std::string name, std::function<void()> f, bool thorough_only = false)
{
  cells().push_back({std::move(name), thorough_only, std::move(f)});
}

// Each translation unit of an explorer registers its cells with a static registrar.
struct registrar { registrar(void (*f)()) { f(); } };

} // namespace mc
