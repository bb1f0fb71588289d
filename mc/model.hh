// The reference model: finite sets of assignments, represented explicitly as bit masks, and the
// bridge between these sets and the diagrams of the library.
#pragma once

#include <algorithm>
#include <array>
#include <cassert>
#include <list>
#include <memory>

#include "mc.hh"
#include "resources.hh"
#include "sdd/sdd.hh"

namespace mc {

using mask = std::uint64_t;

/*------------------------------------------------------------------------------------------------*/
// Shapes: the levels of a diagram, from top to bottom. A level is flat (a domain size) or
// hierarchical (a nested shape).

struct shape;
using shape_ptr = std::shared_ptr<const shape>;

struct level
{
  unsigned dom;      // flat: the number of values
  shape_ptr nested;  // hierarchical
  unsigned size() const;
};

struct shape
{
  std::string name;
  std::vector<level> levels;

  // number of assignments of levels [i, end)
  unsigned
  count(std::size_t i = 0) const
  {
    unsigned n = 1;
    for (; i < levels.size(); ++i) n *= levels[i].size();
    return n;
  }
};

inline unsigned level::size() const { return nested ? nested->count() : dom; }

// Parse "2,3,(2,2),2".
inline shape_ptr
parse_shape(const std::string& s, std::size_t& i)
{
  auto res = std::make_shared<shape>();
  while (i < s.size() && s[i] != ')')
  {
    if (s[i] == ',') { ++i; continue; }
    if (s[i] == '(')
    {
      ++i;
      auto n = parse_shape(s, i);
      ++i; // ')'
      res->levels.push_back({0, n});
    }
    else
    {
      unsigned d = 0;
      while (i < s.size() && isdigit(static_cast<unsigned char>(s[i]))) d = d * 10 + (s[i++] - '0');
      res->levels.push_back({d, nullptr});
    }
  }
  return res;
}

inline shape_ptr
make_shape(const std::string& s)
{
  std::size_t i = 0;
  auto p = std::const_pointer_cast<shape>(parse_shape(s, i));
  p->name = s;
  return p;
}

inline mask full(unsigned n) { return n >= 64 ? ~mask(0) : ((mask(1) << n) - 1); }
inline unsigned popcount(mask m) { return static_cast<unsigned>(__builtin_popcountll(m)); }

/*------------------------------------------------------------------------------------------------*/
// Values. The k-th value of a domain is renamed, so that the extreme values are used as well.

inline unsigned
value_of(unsigned k, unsigned renaming, bool bitset64)
{
  if (renaming == 0) return k;
  static const unsigned b[8] = {63, 0, 31, 32, 1, 62, 33, 30};
  static const unsigned f[8] = {4294967295u, 0, 256, 65536, 1, 255, 257, 4294967294u};
  return bitset64 ? b[k] : f[k];
}

template <typename Values> struct values_bridge;

template <>
struct values_bridge<sdd::values::bitset<64>>
{
  using type = sdd::values::bitset<64>;
  static constexpr bool is_bitset = true;
  static type make(const std::vector<unsigned>& vs)
  { type r; for (auto v : vs) r.insert(v); return r; }
  static std::vector<unsigned> get(const type& v)
  {
    std::vector<unsigned> r;
    const auto c = v.content();
    for (unsigned i = 0; i < 64; ++i) if (c.test(i)) r.push_back(i);
    return r;
  }
};

template <>
struct values_bridge<sdd::values::flat_set<unsigned int>>
{
  using type = sdd::values::flat_set<unsigned int>;
  static constexpr bool is_bitset = false;
  static type make(const std::vector<unsigned>& vs) { return type(vs.begin(), vs.end()); }
  static std::vector<unsigned> get(const type& v) { return std::vector<unsigned>(v.begin(), v.end()); }
};

/*------------------------------------------------------------------------------------------------*/
template <typename C> auto set_flat(C& c, std::size_t n, int) -> decltype(c.flat_set_unique_table_size, void())
{ c.flat_set_unique_table_size = n; }
template <typename C> void set_flat(C&, std::size_t, long) {}

template <typename C>
C
make_conf(const resources& r)
{
  C c;
  c.sdd_unique_table_size = r.unique;
  c.sdd_difference_cache_size = r.cache;
  c.sdd_intersection_cache_size = r.cache;
  c.sdd_sum_cache_size = r.cache;
  c.sdd_arena_size = r.arena;
  c.hom_unique_table_size = r.hom_unique;
  c.hom_cache_size = r.hom_cache;
  set_flat(c, r.flat_unique, 0);
  return c;
}

/*------------------------------------------------------------------------------------------------*/
// Bridge between masks and diagrams of configuration C.

template <typename C>
struct bridge
{
  using SDD = sdd::SDD<C>;
  using V = typename C::Values;
  using vb = values_bridge<V>;
  using flat = sdd::flat_node<C>;
  using hier = sdd::hierarchical_node<C>;

  unsigned renaming = 0;

  unsigned val(unsigned k) const { return value_of(k, renaming, vb::is_bitset); }

  V
  values(mask m) const
  {
    std::vector<unsigned> vs;
    for (unsigned k = 0; m >> k && k < 64; ++k) if (m >> k & 1) vs.push_back(val(k));
    return vb::make(vs);
  }

  // inverse of values(); fails on a foreign value
  mask
  unvalues(const V& v, unsigned dom) const
  {
    mask r = 0;
    for (unsigned x : vb::get(v))
    {
      unsigned k = 0;
      while (k < dom && val(k) != x) ++k;
      MC_CHECK(k < dom, "foreign value " << x);
      r |= mask(1) << k;
    }
    return r;
  }

  // The i-th level (from the top) of a shape of n levels has variable n-1-i.
  static unsigned var(const shape& s, std::size_t i) { return static_cast<unsigned>(s.levels.size() - 1 - i); }

  // Diagram with a single assignment.
  SDD
  single(const shape& s, unsigned e, std::size_t i = 0) const
  {
    if (i == s.levels.size()) return sdd::one<C>();
    const unsigned rest = s.count(i + 1);
    const SDD succ = single(s, e % rest, i + 1);
    const unsigned v = e / rest;
    return s.levels[i].nested ? SDD(var(s, i), single(*s.levels[i].nested, v), succ)
                              : SDD(var(s, i), values(mask(1) << v), succ);
  }

  // Partition of the values of level i by the set of what follows.
  static std::map<mask, mask>
  partition(const shape& s, mask m, std::size_t i)
  {
    const unsigned rest = s.count(i + 1);
    std::map<mask, mask> by_succ; // successor -> valuation
    for (unsigned v = 0; v < s.levels[i].size(); ++v)
    {
      const mask succ = (m >> (v * rest)) & full(rest);
      if (succ) by_succ[succ] |= mask(1) << v;
    }
    return by_succ;
  }

  // Group values which have the same successors, then union of the groups.
  SDD
  grouped(const shape& s, mask m, std::size_t i = 0) const
  {
    if (m == 0) return sdd::zero<C>();
    if (i == s.levels.size()) return sdd::one<C>();
    std::vector<SDD> ops;
    for (const auto& kv : partition(s, m, i))
    {
      const SDD succ = grouped(s, kv.first, i + 1);
      ops.push_back(s.levels[i].nested ? SDD(var(s, i), grouped(*s.levels[i].nested, kv.second), succ)
                                       : SDD(var(s, i), values(kv.second), succ));
    }
    return ops.size() == 1 ? ops[0] : sdd::sum<C>(ops.begin(), ops.end());
  }

  SDD
  incremental(const shape& s, mask m) const
  {
    SDD r = sdd::zero<C>();
    for (unsigned e = 0; e < s.count(); ++e) if (m >> e & 1) r = r + single(s, e);
    return r;
  }

  SDD
  decremental(const shape& s, mask m) const
  {
    SDD r = grouped(s, full(s.count()));
    for (unsigned e = s.count(); e-- > 0;) if (!(m >> e & 1)) r = r - single(s, e);
    return r;
  }

  SDD
  nary(const shape& s, mask m) const
  {
    std::list<SDD> ops;
    for (unsigned e = 0; e < s.count(); ++e) if (m >> e & 1) ops.push_front(single(s, e));
    return sdd::sum<C>(ops.begin(), ops.end());
  }

  SDD
  meet(const shape& s, mask m) const // intersection of co-singletons
  {
    const SDD all = grouped(s, full(s.count()));
    SDD r = all;
    for (unsigned e = 0; e < s.count(); ++e) if (!(m >> e & 1)) r &= all - single(s, e);
    return r;
  }

  static constexpr unsigned nb_builders = 5;
  SDD
  build(const shape& s, mask m, unsigned b) const
  {
    switch (b)
    {
      case 0: return grouped(s, m);
      case 1: return incremental(s, m);
      case 2: return decremental(s, m);
      case 3: return nary(s, m);
      default: return meet(s, m);
    }
  }

  // The set denoted by a diagram of the given shape. Fails if the diagram isn't a canonical diagram
  // of this shape: levels in order, arcs with non-empty, pairwise disjoint valuations and non-zero,
  // pairwise distinct successors.
  mask
  extract(const SDD& x, const shape& s, std::size_t i = 0) const
  {
    if (x == sdd::zero<C>()) return 0;
    if (i == s.levels.size())
    {
      MC_CHECK(x == sdd::one<C>(), "not |1| below the last level: " << x);
      return 1;
    }
    MC_CHECK(x != sdd::one<C>(), "|1| above the last level of " << s.name);
    const unsigned rest = s.count(i + 1);
    mask res = 0, seen = 0;
    std::vector<SDD> succs;
    const auto arc = [&](mask v, const SDD& succ)
    {
      MC_CHECK(v != 0, "empty valuation on an arc of " << x);
      MC_CHECK((v & seen) == 0, "overlapping valuations in " << x);
      MC_CHECK(succ != sdd::zero<C>(), "arc to |0| in " << x);
      for (const auto& o : succs) MC_CHECK(o != succ, "two arcs with the same successor in " << x);
      succs.push_back(succ);
      seen |= v;
      const mask sub = extract(succ, s, i + 1);
      for (unsigned k = 0; k < s.levels[i].size(); ++k) if (v >> k & 1) res |= sub << (k * rest);
    };
    if (s.levels[i].nested)
    {
      MC_CHECK(sdd::mem::is<hier>(x), "flat node at a hierarchical level: " << x);
      const auto& n = sdd::mem::variant_cast<hier>(*x);
      MC_CHECK(n.variable() == var(s, i), "wrong variable in " << x);
      MC_CHECK(n.size() != 0, "node without arcs");
      for (const auto& a : n) arc(extract(a.valuation(), *s.levels[i].nested), a.successor());
    }
    else
    {
      MC_CHECK(sdd::mem::is<flat>(x), "hierarchical node at a flat level: " << x);
      const auto& n = sdd::mem::variant_cast<flat>(*x);
      MC_CHECK(n.variable() == var(s, i), "wrong variable in " << x);
      MC_CHECK(n.size() != 0, "node without arcs");
      for (const auto& a : n) arc(unvalues(a.valuation(), s.levels[i].dom), a.successor());
    }
    return res;
  }

  void
  expect(const SDD& x, const shape& s, mask m, const char* what) const
  {
    const mask got = extract(x, s);
    if (got != m)
    {
      MC_FAIL(what << ": shape " << s.name << " expected set " << std::hex << m << " got " << got
                   << std::dec << " in " << x);
    }
    ++st().validated;
  }
};

/*------------------------------------------------------------------------------------------------*/
// The canonical diagram of a set, computed by the model alone (hash-consing on explicit sets). Node
// identities are shared between levels and nested levels, as in a decision diagram library.

struct canonical
{
  struct node { unsigned var; bool hier; std::vector<std::pair<std::uint64_t, int>> arcs; };
  // valuation: flat -> mask of values; hierarchical -> identity of the nested node
  std::map<std::pair<std::pair<unsigned, bool>, std::vector<std::pair<std::uint64_t, int>>>, int> ids;
  std::vector<node> nodes; // 0: |0|, 1: |1|

  canonical() : nodes(2) {}

  int
  make(const shape& s, mask m, std::size_t i = 0)
  {
    if (m == 0) return 0;
    if (i == s.levels.size()) return 1;
    const unsigned rest = s.count(i + 1);
    std::map<mask, mask> by_succ;
    for (unsigned v = 0; v < s.levels[i].size(); ++v)
    {
      const mask succ = (m >> (v * rest)) & full(rest);
      if (succ) by_succ[succ] |= mask(1) << v;
    }
    std::vector<std::pair<std::uint64_t, int>> arcs;
    for (const auto& kv : by_succ)
    {
      const int succ = make(s, kv.first, i + 1);
      const std::uint64_t v = s.levels[i].nested
                            ? static_cast<std::uint64_t>(make(*s.levels[i].nested, kv.second)) : kv.second;
      arcs.emplace_back(v, succ);
    }
    std::sort(arcs.begin(), arcs.end());
    const unsigned var = static_cast<unsigned>(s.levels.size() - 1 - i);
    const bool h = bool(s.levels[i].nested);
    const auto key = std::make_pair(std::make_pair(var, h), arcs);
    const auto it = ids.find(key);
    if (it != ids.end()) return it->second;
    const int id = static_cast<int>(nodes.size());
    nodes.push_back({var, h, arcs});
    ids.emplace(key, id);
    return id;
  }

  void
  reach(int id, std::set<int>& seen) const
  {
    if (!seen.insert(id).second || id < 2) return;
    for (const auto& a : nodes[id].arcs)
    {
      if (nodes[id].hier) reach(static_cast<int>(a.first), seen);
      reach(a.second, seen);
    }
  }
};

/*------------------------------------------------------------------------------------------------*/

inline std::string
hex(mask m)
{
  std::ostringstream os; os << "0x" << std::hex << m; return os.str();
}

template <typename C> struct conf_name;
template <> struct conf_name<sdd::conf0> { static const char* get() { return "bitset"; } };
template <> struct conf_name<sdd::conf1> { static const char* get() { return "flat_set"; } };
template <> struct conf_name<sdd::conf2> { static const char* get() { return "flat_set/uint"; } };

} // namespace mc
