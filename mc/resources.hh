#pragma once

#include "mc.hh"

namespace mc {

/*------------------------------------------------------------------------------------------------*/
// Sizes of the tables, caches and arena of a manager.

struct resources
{
  const char* name;
  std::size_t unique, cache, arena, hom_unique, hom_cache, flat_unique;
};

inline const std::vector<resources>&
all_resources()
{
  static const std::vector<resources> r = {
    {"big",   4096, 4096, 1 << 16, 4096, 4096, 4096},
    {"tiny",     2,    8,       0,    2,    8,    2},
    {"small",   16,   16,     200,   16,   16,   16},
    {"evict",  512,    4,      72,  512,    4,  512},
    {"page",    64,   64,    4096,   64,   64,   64},
  };
  return r;
}

inline const resources&
res(const std::string& n)
{
  for (const auto& r : all_resources()) if (n == r.name) return r;
  abort();
}

inline resources small(std::size_t cache, std::size_t unique) { return {"own", unique, cache, 300, unique, cache, unique}; }

} // namespace mc
