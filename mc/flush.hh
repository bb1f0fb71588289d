// Exact accounting of unified elements and of memory.
#pragma once

#include "balance.hh"
#include "homs.hh"

namespace mc {

template <typename M> auto values_size(const M& m, int) -> decltype(m.values_stats().size) { return m.values_stats().size; }
template <typename M> std::size_t values_size(const M&, long) { return 0; }

// Fills the caches of operations (of at most ~25 entries) with known operations on one level, whose operands and results are kept
// alive, and empties the cache of homomorphisms: afterwards, unified elements are only used by handles.
template <typename C>
struct flusher
{
  using SDD = sdd::SDD<C>;
  sdd::manager<C>& m;
  std::vector<SDD> ops, all;
  static constexpr unsigned nb_nodes = 8 + 28;

  explicit flusher(sdd::manager<C>& m_)
    : m(m_)
  {
    bridge<C> b;
    for (unsigned i = 0; i < 8; ++i) ops.push_back(SDD(100, b.values(mask(1) << (8 + i)), sdd::one<C>()));
    for (unsigned i = 0; i < 8; ++i) for (unsigned j = 0; j < i; ++j)
      all.push_back(SDD(100, b.values((mask(1) << (8 + i)) | (mask(1) << (8 + j))), sdd::one<C>()));
  }

  void
  flush()
  {
    m.reset_hom_cache();
    std::size_t k = 0;
    for (unsigned i = 0; i < 8; ++i) for (unsigned j = 0; j < i; ++j, ++k)
    {
      const bool ok = ops[i] + ops[j] == all[k] && all[k] - ops[i] == ops[j] && (all[k] & ops[i]) == ops[i];
      MC_CHECK(ok, "wrong result of a one-level operation");
    }
  }

  struct sizes { std::size_t sdd, hom, val; };
  sizes
  now()
  {
    flush();
    return {m.sdd_stats().size, m.hom_stats().size, values_size(m, 0)};
  }
  void
  expect(const sizes& s, const char* when)
  {
    const auto n = now();
    MC_CHECK(n.sdd == s.sdd, when << ": " << n.sdd << " unified diagrams, expected " << s.sdd);
    MC_CHECK(n.hom == s.hom, when << ": " << n.hom << " unified homomorphisms, expected " << s.hom);
    MC_CHECK(n.val == s.val, when << ": " << n.val << " unified value sets, expected " << s.val);
    ++st().validated;
  }
};

} // namespace mc
