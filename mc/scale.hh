// Larger instances: frames of n leaf levels, flat or grouped in hierarchies, and explicit sets of words (one value per leaf).
// Families are indexed by a parameter (number of levels, of values, of operands, of iterations) which is enumerated, so that
// what only happens beyond some size is met as well.
#pragma once

#include "homs.hh"

namespace mc {

using word = std::vector<unsigned short>;
using lang = std::set<word>;

inline lang lu(const lang& a, const lang& b) { lang r(a); r.insert(b.begin(), b.end()); return r; }
inline lang li(const lang& a, const lang& b) { lang r; for (const auto& w : a) if (b.count(w)) r.insert(w); return r; }
inline lang ld(const lang& a, const lang& b) { lang r; for (const auto& w : a) if (!b.count(w)) r.insert(w); return r; }

inline std::string
show(const word& w)
{
  std::string r;
  for (auto v : w) { r += std::to_string(v); r += '.'; if (r.size() > 80) { r += ".."; break; } }
  return r;
}

// The first difference between two sets.
inline std::string
differ(const lang& got, const lang& want)
{
  for (const auto& w : want) if (!got.count(w)) return "lacks " + show(w);
  for (const auto& w : got) if (!want.count(w)) return "has " + show(w) + " in excess";
  return "same";
}

/*------------------------------------------------------------------------------------------------*/

struct lev { std::string id; std::vector<lev> nested; }; // a leaf has no nested levels

struct frame
{
  std::string name;
  std::vector<lev> levels;
  unsigned n = 0;                       // number of leaves
  std::vector<std::string> leaf;        // identifiers of the leaves, in order
};

inline unsigned
leaves(const lev& l)
{
  if (l.nested.empty()) return 1;
  unsigned r = 0; for (const auto& x : l.nested) r += leaves(x); return r;
}

// kind 'f': flat; 'g': hierarchies of k leaves; 'd': leaf followed by a hierarchy with the rest, k levels deep; 'b': balanced binary tree;
// 'm': leaves and singleton hierarchies alternate
inline frame
make_frame(char kind, unsigned n, unsigned k = 3)
{
  frame f;
  f.n = n;
  f.name = std::string(1, kind) + std::to_string(n) + (kind == 'g' || kind == 'd' ? "/" + std::to_string(k) : "");
  for (unsigned i = 0; i < n; ++i) f.leaf.push_back("x" + std::to_string(i));
  unsigned hs = 0;
  const auto hid = [&]{ return "h" + std::to_string(hs++); };
  const std::function<std::vector<lev>(unsigned, unsigned)> flat = [&](unsigned lo, unsigned hi)
  { std::vector<lev> r; for (unsigned i = lo; i < hi; ++i) r.push_back({f.leaf[i], {}}); return r; };
  const std::function<std::vector<lev>(unsigned, unsigned, unsigned)> deep = [&](unsigned lo, unsigned hi, unsigned d)
  {
    if (hi - lo <= 1 || d == 0) return flat(lo, hi);
    std::vector<lev> r; r.push_back({f.leaf[lo], {}});
    r.push_back({hid(), deep(lo + 1, hi, d - 1)});
    return r;
  };
  const std::function<std::vector<lev>(unsigned, unsigned)> tree = [&](unsigned lo, unsigned hi)
  {
    if (hi - lo <= 2) return flat(lo, hi);
    const unsigned mid = (lo + hi) / 2;
    std::vector<lev> r; r.push_back({hid(), tree(lo, mid)}); r.push_back({hid(), tree(mid, hi)});
    return r;
  };
  switch (kind)
  {
    case 'f': f.levels = flat(0, n); break;
    case 'g': for (unsigned i = 0; i < n; i += k) f.levels.push_back({hid(), flat(i, std::min(i + k, n))}); break;
    case 'd': f.levels = deep(0, n, k); break;
    case 'b': f.levels = tree(0, n); break;
    default: for (unsigned i = 0; i < n; ++i) f.levels.push_back(i % 2 ? lev{hid(), flat(i, i + 1)} : lev{f.leaf[i], {}});
  }
  return f;
}

/*------------------------------------------------------------------------------------------------*/

template <typename C>
struct scale
{
  using SDD = sdd::SDD<C>;
  using vb = values_bridge<typename C::Values>;
  using levs = std::vector<lev>;

  static std::size_t ident(const SDD& x) { return reinterpret_cast<std::size_t>(&*x); } // unified: one address per diagram
  static unsigned var(const levs& ls, std::size_t i) { return static_cast<unsigned>(ls.size() - 1 - i); }

  static sdd::order_builder<C>
  builder(const levs& ls)
  {
    sdd::order_builder<C> ob;
    for (std::size_t i = ls.size(); i-- > 0;)
    {
      if (ls[i].nested.empty()) ob.push(ls[i].id); else ob.push(ls[i].id, builder(ls[i].nested));
    }
    return ob;
  }

  // product of sets of values, one per leaf
  static SDD
  product(const levs& ls, const std::vector<std::vector<unsigned>>& vs, std::size_t& at)
  {
    std::vector<std::pair<bool, SDD>> nested(ls.size(), {false, sdd::one<C>()});
    std::vector<std::size_t> where_(ls.size());
    for (std::size_t i = 0; i < ls.size(); ++i)
    {
      where_[i] = at;
      if (ls[i].nested.empty()) ++at; else nested[i] = {true, product(ls[i].nested, vs, at)};
    }
    SDD r = sdd::one<C>();
    for (std::size_t i = ls.size(); i-- > 0;)
      r = nested[i].first ? SDD(var(ls, i), nested[i].second, r) : SDD(var(ls, i), vb::make(vs[where_[i]]), r);
    return r;
  }
  static SDD product(const frame& f, const std::vector<std::vector<unsigned>>& vs) { std::size_t at = 0; return product(f.levels, vs, at); }

  static SDD
  single(const frame& f, const word& w)
  {
    std::vector<std::vector<unsigned>> vs;
    for (auto v : w) vs.push_back({v});
    return product(f, vs);
  }

  // b: 0 n-ary, 1 n-ary in reverse order, 2 one by one, 3 balanced
  static SDD
  build(const frame& f, const lang& l, unsigned b)
  {
    std::vector<SDD> ops;
    for (const auto& w : l) ops.push_back(single(f, w));
    if (b == 0) return sdd::sum<C>(ops.begin(), ops.end());
    if (b == 1) return sdd::sum<C>(ops.rbegin(), ops.rend());
    if (b == 2) { SDD r = sdd::zero<C>(); for (const auto& x : ops) r += x; return r; }
    const std::function<SDD(std::size_t, std::size_t)> half = [&](std::size_t lo, std::size_t hi) -> SDD
    {
      if (hi == lo) return sdd::zero<C>();
      if (hi - lo == 1) return ops[lo];
      return half(lo, (lo + hi) / 2) + half((lo + hi) / 2, hi);
    };
    return half(0, ops.size());
  }

  // The set of words of a diagram of this frame; fails when the diagram isn't canonical.
  static lang
  extract(const SDD& x, const frame& f)
  {
    std::map<std::pair<const levs*, std::pair<std::size_t, std::size_t>>, lang> memo; // by unique address
    return walk(x, f.levels, 0, memo);
  }

  using memo_t = std::map<std::pair<const levs*, std::pair<std::size_t, std::size_t>>, lang>;

  static lang
  walk(const SDD& x, const levs& ls, std::size_t i, memo_t& memo)
  {
    if (x == sdd::zero<C>()) return {};
    if (i == ls.size())
    {
      MC_CHECK(x == sdd::one<C>(), "not |1| below the last level");
      return {word()};
    }
    MC_CHECK(x != sdd::one<C>(), "|1| above the last level");
    const auto key = std::make_pair(&ls, std::make_pair(i, ident(x)));
    const auto found = memo.find(key);
    if (found != memo.end()) return found->second;
    lang r, heads;
    std::set<std::size_t> succs;
    const auto arc = [&](const lang& hs, const SDD& succ)
    {
      MC_CHECK(!hs.empty(), "empty valuation on an arc");
      MC_CHECK(succ != sdd::zero<C>(), "arc to |0|");
      MC_CHECK(succs.insert(ident(succ)).second, "two arcs with the same successor");
      const lang tails = walk(succ, ls, i + 1, memo);
      for (const auto& h : hs)
      {
        MC_CHECK(heads.insert(h).second, "overlapping valuations");
        for (const auto& t : tails) { word w(h); w.insert(w.end(), t.begin(), t.end()); r.insert(std::move(w)); }
      }
      MC_CHECK(r.size() < 3000000, "the harness does not expect so many words");
    };
    if (!ls[i].nested.empty())
    {
      MC_CHECK(sdd::mem::is<sdd::hierarchical_node<C>>(x), "flat node at a hierarchical level");
      const auto& n = sdd::mem::variant_cast<sdd::hierarchical_node<C>>(*x);
      MC_CHECK(n.variable() == var(ls, i), "wrong variable");
      for (const auto& a : n) arc(walk(a.valuation(), ls[i].nested, 0, memo), a.successor());
    }
    else
    {
      MC_CHECK(sdd::mem::is<sdd::flat_node<C>>(x), "hierarchical node at a flat level");
      const auto& n = sdd::mem::variant_cast<sdd::flat_node<C>>(*x);
      MC_CHECK(n.variable() == var(ls, i), "wrong variable");
      for (const auto& a : n)
      {
        lang hs;
        for (unsigned v : vb::get(a.valuation())) hs.insert(word{static_cast<unsigned short>(v)});
        arc(hs, a.successor());
      }
    }
    MC_CHECK(!r.empty(), "node without arcs");
    memo.emplace(key, r);
    return r;
  }

  static void
  expect(const SDD& x, const frame& f, const lang& want, const std::string& what)
  {
    where() = f.name + " " + what;
    const lang got = extract(x, f);
    MC_CHECK(got == want, f.name << " " << what << ": " << got.size() << " words instead of " << want.size() << ", " << differ(got, want));
    ++st().validated; ++st().transitions;
  }
};

/*------------------------------------------------------------------------------------------------*/
// Families of sets of words over n leaves.

inline unsigned dom_of(unsigned n) { return std::min(60u, std::max(3u, n)); }

inline lang one_hot(unsigned n, unsigned v = 1)
{ lang r; for (unsigned i = 0; i < n; ++i) { word w(n, 0); w[i] = static_cast<unsigned short>(v); r.insert(w); } return r; }

inline lang steps(unsigned n)
{ lang r; for (unsigned i = 0; i <= n; ++i) { word w(n, 0); for (unsigned j = 0; j < i; ++j) w[j] = 1; r.insert(w); } return r; }

inline lang constants(unsigned n, unsigned d)
{ lang r; for (unsigned v = 0; v < d; ++v) r.insert(word(n, static_cast<unsigned short>(v))); return r; }

inline lang rotations(unsigned n, unsigned d)
{
  lang r;
  for (unsigned i = 0; i < d; ++i) { word w(n); for (unsigned j = 0; j < n; ++j) w[j] = static_cast<unsigned short>((i + j) % d); r.insert(w); }
  return r;
}

// all values on k levels starting at "at", 0 elsewhere
inline lang
cube(unsigned n, unsigned at, unsigned k)
{
  lang r{word(n, 0)};
  for (unsigned j = at; j < std::min(n, at + k); ++j)
  {
    lang s;
    for (word w : r) for (unsigned short v = 0; v < 3; ++v) { w[j] = v; s.insert(w); }
    r.swap(s);
  }
  return r;
}

// the last level depends on the first one
inline lang
ends(unsigned n, unsigned d)
{
  lang r;
  for (unsigned v = 0; v < d; ++v)
  {
    word w(n, 0); w[0] = static_cast<unsigned short>(v); w[n - 1] = static_cast<unsigned short>(v * v % d); r.insert(w);
    w[n - 1] = static_cast<unsigned short>((v + 1) % d); r.insert(w);
  }
  return r;
}

inline std::vector<std::pair<std::string, lang>>
families(unsigned n)
{
  const unsigned d = dom_of(n);
  return { {"one-hot", one_hot(n)}, {"steps", steps(n)}, {"constants", constants(n, d)}, {"rotations", rotations(n, d)}
         , {"cube0", cube(n, 0, 4)}, {"cube-end", cube(n, n > 4 ? n - 4 : 0, 4)}, {"ends", ends(n, d)}, {"zero", {word(n, 0)}} };
}

} // namespace mc
