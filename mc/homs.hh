// Homomorphism expressions together with the function they denote.
//
// The denotation of an expression over a shape is a table: the image (a set of assignments) of each
// assignment; the image of a set is the union of the images of its elements.
#pragma once

#include "model.hh"

namespace mc {

/*------------------------------------------------------------------------------------------------*/
// Fault injection: the n-th call of user code from now on throws (never when negative).

struct fault { long long number; };
inline std::function<void()>& thrower() { static std::function<void()> f; return f; } // throws something else
inline long long& fault_countdown() { static long long n = -1; return n; }
inline std::uint64_t& callbacks() { static std::uint64_t n = 0; return n; }
inline void
tick()
{
  ++callbacks();
  auto& n = fault_countdown();
  if (n < 0) return;
  if (n-- == 0)
  {
    if (thrower()) thrower()();
    throw fault{static_cast<long long>(callbacks())};
  }
}

/*------------------------------------------------------------------------------------------------*/
// User function on values, given by a table.

template <typename C>
struct vfun
{
  std::vector<mask> tbl; bool sel; bool shift; unsigned ren;

  typename C::Values
  operator()(const typename C::Values& v) const
  {
    tick();
    bridge<C> b; b.renaming = ren;
    const mask in = b.unvalues(v, static_cast<unsigned>(tbl.size()));
    mask out = 0;
    for (std::size_t k = 0; k < tbl.size(); ++k) if (in >> k & 1) out |= tbl[k];
    return b.values(out);
  }
  bool selector() const noexcept { return sel; }
  bool shifter() const noexcept { return shift; }
  friend bool operator==(const vfun& l, const vfun& r) noexcept
  { return l.tbl == r.tbl && l.sel == r.sel && l.shift == r.shift && l.ren == r.ren; }
};

// The same without selector() nor shifter(): the library has to use its defaults.
template <typename C>
struct vfun_plain
{
  std::vector<mask> tbl; unsigned ren;
  typename C::Values operator()(const typename C::Values& v) const { return vfun<C>{tbl, false, false, ren}(v); }
  friend bool operator==(const vfun_plain& l, const vfun_plain& r) noexcept { return l.tbl == r.tbl && l.ren == r.ren; }
};

// The hash is deliberately poor: only equality separates functions.
inline std::size_t poor_hash(const std::vector<mask>& t) { return t.empty() ? 1 : t[0] & 3; }

/*------------------------------------------------------------------------------------------------*/
// User inductive: deterministic automaton which reads all the values of a path, nested ones included,
// and keeps the accepted paths.

template <typename C>
struct dfa
{
  int q;                 // current state
  int modulus;           // q' = (q + weight * value) mod modulus
  int accept;
  int weight;
  bool sel;
  unsigned ren, dom;

  using H = sdd::homomorphism<C>;
  int step(int s, unsigned k) const { return static_cast<int>((s + weight * k) % static_cast<unsigned>(modulus)); }
  dfa at(int s) const { dfa r = *this; r.q = s; return r; }

  H
  operator()(const sdd::order<C>& o, const typename C::Values& v) const
  {
    tick();
    bridge<C> b; b.renaming = ren;
    const mask in = b.unvalues(v, dom);
    std::vector<H> ops;
    for (int s = 0; s < modulus; ++s)
    {
      mask out = 0;
      for (unsigned k = 0; k < dom; ++k) if (in >> k & 1 && step(q, k) == s) out |= mask(1) << k;
      if (out) ops.push_back(sdd::cons<C>(o, b.values(out), sdd::inductive<C>(at(s))));
    }
    return sdd::sum<C>(o, ops.begin(), ops.end());
  }

  H
  operator()(const sdd::order<C>& o, const sdd::SDD<C>& x) const
  {
    tick();
    std::vector<H> ops;
    for (int s = 0; s < modulus; ++s)
    {
      dfa nested = *this; nested.accept = s;
      const sdd::SDD<C> part = sdd::inductive<C>(nested)(o.nested(), x);
      if (!part.empty()) ops.push_back(sdd::cons<C>(o, part, sdd::inductive<C>(at(s))));
    }
    return sdd::sum<C>(o, ops.begin(), ops.end());
  }

  sdd::SDD<C> operator()() const { tick(); return q == accept ? sdd::one<C>() : sdd::zero<C>(); }
  bool selector() const noexcept { return sel; }
  friend bool operator==(const dfa& l, const dfa& r) noexcept
  {
    return l.q == r.q && l.modulus == r.modulus && l.accept == r.accept && l.weight == r.weight && l.sel == r.sel
        && l.ren == r.ren && l.dom == r.dom;
  }
};

// User inductive: applies a table to the values of one variable and uses skip() to reach it.
template <typename C>
struct targeted
{
  std::string var; std::set<std::string> path; // levels to go through
  std::vector<mask> tbl; bool sel; unsigned ren;

  using H = sdd::homomorphism<C>;
  bool skip(const std::string& id) const noexcept { return id != var && !path.count(id); }
  bool selector() const noexcept { return sel; }

  H
  operator()(const sdd::order<C>& o, const typename C::Values& v) const
  {
    return sdd::cons<C>(o, vfun<C>{tbl, false, false, ren}(v), sdd::id<C>());
  }
  H
  operator()(const sdd::order<C>& o, const sdd::SDD<C>& x) const
  {
    tick();
    return sdd::cons<C>(o, sdd::inductive<C>(*this)(o.nested(), x), sdd::id<C>());
  }
  sdd::SDD<C> operator()() const { tick(); return sdd::one<C>(); }
  friend bool operator==(const targeted& l, const targeted& r) noexcept
  { return l.var == r.var && l.path == r.path && l.tbl == r.tbl && l.sel == r.sel && l.ren == r.ren; }
};

} // namespace mc

namespace std {
template <typename C> struct hash<mc::vfun<C>> { std::size_t operator()(const mc::vfun<C>& f) const noexcept { return mc::poor_hash(f.tbl); } };
template <typename C> struct hash<mc::vfun_plain<C>> { std::size_t operator()(const mc::vfun_plain<C>& f) const noexcept { return mc::poor_hash(f.tbl); } };
template <typename C> struct hash<mc::dfa<C>> { std::size_t operator()(const mc::dfa<C>& d) const noexcept { return static_cast<std::size_t>(d.q); } };
template <typename C> struct hash<mc::targeted<C>> { std::size_t operator()(const mc::targeted<C>& t) const noexcept { return mc::poor_hash(t.tbl); } };
}

namespace mc {

/*------------------------------------------------------------------------------------------------*/

template <typename C>
struct term
{
  sdd::homomorphism<C> h;
  std::vector<mask> f;
  std::string name;
};

inline mask
image(const std::vector<mask>& f, mask x)
{
  mask r = 0;
  for (std::size_t e = 0; e < f.size(); ++e) if (x >> e & 1) r |= f[e];
  return r;
}

inline bool
is_selector(const std::vector<mask>& f)
{
  for (std::size_t e = 0; e < f.size(); ++e) if (f[e] & ~(mask(1) << e)) return false;
  return true;
}

/*------------------------------------------------------------------------------------------------*/
// A shape with identifiers and its order.

template <typename C>
struct world
{
  using H = sdd::homomorphism<C>;
  using SDD = sdd::SDD<C>;
  using T = term<C>;
  using OB = sdd::order_builder<C>;

  struct var { std::string id; unsigned dom, stride; std::set<std::string> path; };
  struct hier { std::string id; shape_ptr nested; unsigned stride, size; std::string prefix; };

  shape_ptr s;
  bridge<C> b;
  std::string prefix;
  std::vector<var> vars;    // flat variables, nested ones included
  std::vector<hier> hiers;  // hierarchical levels of the first hierarchy
  sdd::order<C> o;
  std::vector<SDD> handles; // all the sets, when there are few enough

  static OB
  builder(const shape& sh, const std::string& pre)
  {
    OB ob;
    for (std::size_t i = sh.levels.size(); i-- > 0;)
    {
      const std::string id = pre + std::to_string(i);
      if (sh.levels[i].nested) ob.push(id, builder(*sh.levels[i].nested, id + "."));
      else ob.push(id);
    }
    return ob;
  }

  void
  collect(const shape& sh, const std::string& pre, unsigned unit, std::set<std::string> path, bool top)
  {
    unsigned stride = unit * sh.count();
    for (std::size_t i = 0; i < sh.levels.size(); ++i)
    {
      stride /= sh.levels[i].size();
      const std::string id = pre + std::to_string(i);
      if (sh.levels[i].nested)
      {
        if (top) hiers.push_back({id, sh.levels[i].nested, stride, sh.levels[i].size(), id + "."});
        auto p = path; p.insert(id);
        collect(*sh.levels[i].nested, id + ".", stride, p, false);
      }
      else vars.push_back({id, sh.levels[i].dom, stride, path});
    }
  }

  world(const shape_ptr& sp, const std::string& pre = "v", unsigned renaming = 0, bool all = true)
    : s(sp), prefix(pre), o(builder(*sp, pre))
  {
    b.renaming = renaming;
    collect(*s, pre, 1, {}, true);
    if (all && s->count() <= 10)
    {
      for (mask x = 0; x <= full(s->count()); ++x)
      {
        handles.push_back(b.grouped(*s, x));
        b.expect(handles.back(), *s, x, "construction");
      }
    }
  }

  unsigned n() const { return s->count(); }
  mask all() const { return full(n()); }
  SDD set(mask x) const { return handles.empty() ? b.grouped(*s, x) : handles[x]; }

  // denotations
  std::vector<mask> f_id() const { std::vector<mask> f(n()); for (unsigned e = 0; e < n(); ++e) f[e] = mask(1) << e; return f; }
  std::vector<mask>
  f_digit(unsigned stride, unsigned dom, const std::vector<mask>& tbl) const
  {
    std::vector<mask> f(n());
    for (unsigned e = 0; e < n(); ++e)
    {
      const unsigned d = e / stride % dom;
      for (unsigned k = 0; k < dom; ++k) if (tbl[d] >> k & 1) f[e] |= mask(1) << (e - d * stride + k * stride);
    }
    return f;
  }

  // expressions
  T id() const { return {sdd::id<C>(), f_id(), "id"}; }
  T constant(mask x) const { return {sdd::constant<C>(set(x)), std::vector<mask>(n(), x), "const(" + hex(x) + ")"}; }

  static std::string
  text(const std::vector<mask>& t) { std::string r; for (mask m : t) r += (r.empty() ? "" : ",") + hex(m).substr(2); return r; }

  // kind: 0 no flags, 1 flagged selector, 2 flagged shifter, 3 no flag members at all
  T
  function(const var& v, const std::vector<mask>& tbl, unsigned kind) const
  {
    const std::string nm = v.id + "[" + text(tbl) + "]" + (kind == 1 ? "s" : kind == 2 ? "S" : kind == 3 ? "p" : "");
    const auto f = f_digit(v.stride, v.dom, tbl);
    if (kind == 3) return {sdd::function<C>(o, v.id, vfun_plain<C>{tbl, b.renaming}), f, nm};
    return {sdd::function<C>(o, v.id, vfun<C>{tbl, kind == 1, kind == 2, b.renaming}), f, nm};
  }

  T
  targeted_inductive(const var& v, const std::vector<mask>& tbl, bool sel) const
  {
    return { sdd::inductive<C>(targeted<C>{v.id, v.path, tbl, sel, b.renaming}), f_digit(v.stride, v.dom, tbl)
           , "ind(" + v.id + "[" + text(tbl) + "]" + (sel ? "s" : "") + ")" };
  }

  T
  automaton(int modulus, int accept, int weight, bool sel) const
  {
    unsigned dom = 0;
    for (const auto& v : vars) dom = std::max(dom, v.dom);
    dfa<C> d{0, modulus, accept, weight, sel, b.renaming, dom};
    std::vector<mask> f(n());
    for (unsigned e = 0; e < n(); ++e)
    {
      int q = 0;
      for (const auto& v : vars) q = d.step(q, e / v.stride % v.dom);
      if (q == accept) f[e] = mask(1) << e;
    }
    return {sdd::inductive<C>(d), f, "dfa" + std::to_string(weight) + "%" + std::to_string(modulus) + "=" + std::to_string(accept) + (sel ? "s" : "")};
  }

  T
  local(const hier& l, const T& nested) const
  {
    return {sdd::local<C>(l.id, o, nested.h), f_digit(l.stride, l.size, nested.f), "@" + l.id + "(" + nested.name + ")"};
  }

  static T comp(const T& l, const T& r)
  {
    T t{sdd::composition<C>(l.h, r.h), r.f, "(" + l.name + " o " + r.name + ")"};
    for (auto& m : t.f) m = image(l.f, m);
    return t;
  }

  T sum(const std::vector<T>& ts) const
  {
    std::vector<H> hs; std::vector<mask> f(n()); std::string nm;
    for (const auto& t : ts)
    {
      hs.push_back(t.h); nm += (nm.empty() ? "" : " + ") + t.name;
      for (unsigned e = 0; e < n(); ++e) f[e] |= t.f[e];
    }
    return {sdd::sum<C>(o, hs.begin(), hs.end()), f, "(" + nm + ")"};
  }

  T inter(const std::vector<T>& ts) const
  {
    std::vector<H> hs; std::vector<mask> f(n(), all()); std::string nm;
    for (const auto& t : ts)
    {
      hs.push_back(t.h); nm += (nm.empty() ? "" : " & ") + t.name;
      for (unsigned e = 0; e < n(); ++e) f[e] &= t.f[e];
    }
    return {sdd::intersection<C>(o, hs.begin(), hs.end()), f, "(" + nm + ")"};
  }

  T ite(const T& i, const T& t, const T& e) const
  {
    T r{sdd::if_then_else<C>(i.h, t.h, e.h), e.f, "ite(" + i.name + ", " + t.name + ", " + e.name + ")"};
    for (unsigned k = 0; k < n(); ++k) if (i.f[k]) r.f[k] = t.f[k];
    return r;
  }

  // Does the iteration of h converge from every assignment, hence from every set?
  static bool
  fix_f(const std::vector<mask>& f, std::vector<mask>& out)
  {
    out = std::vector<mask>(f.size());
    for (std::size_t e = 0; e < f.size(); ++e)
    {
      mask x = mask(1) << e; unsigned k = 0;
      for (;; ++k)
      {
        const mask y = image(f, x);
        if (y == x) break;
        x = y;
        if (k > 4 * f.size()) return false;
      }
      out[e] = x;
    }
    return true;
  }

  static bool can_fix(const T& t) { std::vector<mask> f; return fix_f(t.f, f); }
  static T
  fix(const T& t)
  {
    T r{sdd::fixpoint<C>(t.h), {}, "(" + t.name + ")*"};
    if (!fix_f(t.f, r.f)) abort();
    return r;
  }

  // Apply to every set and compare; optionally through the rewritten homomorphism.
  void
  check(const T& t, bool rewritten, const std::vector<mask>& sets) const
  {
    const H h = rewritten ? sdd::rewrite<C>(o, t.h) : t.h;
    if (h.selector()) MC_CHECK(is_selector(t.f), "claims to be a selector: " << t.name);
    for (mask x : sets)
    {
      where() = s->name + (rewritten ? " rewritten " : " ") + t.name + " on " + hex(x);
      const SDD y = h(o, set(x));
      const mask want = image(t.f, x);
      if (handles.empty()) b.expect(y, *s, want, where().c_str());
      else if (y != handles[want])
      {
        const mask got = b.extract(y, *s);
        MC_FAIL(where() << ": expected " << hex(want) << " got " << hex(got));
      }
      ++st().transitions; ++st().validated;
    }
    ++st().states;
  }

  std::vector<mask>
  all_sets() const { std::vector<mask> r; for (mask x = 0; x <= all(); ++x) r.push_back(x); return r; }

  // Enough to decide the image of every assignment, plus the empty and the full set, their halves and
  // complements of assignments.
  std::vector<mask>
  basis() const
  {
    std::vector<mask> r{0, all()};
    for (unsigned e = 0; e < n(); ++e) { r.push_back(mask(1) << e); r.push_back(all() & ~(mask(1) << e)); }
    for (unsigned e = 1; e < n(); e *= 2)
    { mask m = 0; for (unsigned k = 0; k < n(); ++k) if (k / e % 2) m |= mask(1) << k; r.push_back(m); r.push_back(all() & ~m); }
    std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end());
    return r;
  }

  /*----------------------------------------------------------------------------------------------*/
  // The base expressions of a world.

  // tables of a domain: keep-subsets, rotations, saturating increment, reset, non-determinism
  static std::vector<std::pair<std::vector<mask>, unsigned>>
  tables(unsigned dom)
  {
    std::vector<std::pair<std::vector<mask>, unsigned>> r;
    const auto id = [](unsigned k){ return mask(1) << k; };
    const auto make = [&](std::function<mask(unsigned)> f, unsigned kind)
    { std::vector<mask> t; for (unsigned k = 0; k < dom; ++k) t.push_back(f(k)); r.emplace_back(t, kind); };
    for (unsigned v = 0; v < dom; ++v) make([&](unsigned k){ return k == v ? id(k) : 0; }, 1);       // keep one value
    make([&](unsigned k){ return k != 0 ? id(k) : 0; }, 0);                                         // the same, undeclared
    make([&](unsigned k){ return id((k + 1) % dom); }, 2);                                           // rotation, shifter
    make([&](unsigned k){ return id((k + 1) % dom); }, 3);
    make([&](unsigned k){ return k + 1 < dom ? id(k + 1) : 0; }, 2);                                 // increment, partial
    make([&](unsigned k){ return id(std::min(k + 1, dom - 1)); }, 0);                                // saturating
    make([&](unsigned){ return id(0); }, 3);                                                         // reset
    make([&](unsigned k){ return k == 0 ? full(dom) : id(k); }, 0);                                  // non-deterministic
    make([&](unsigned){ return mask(0); }, 1);                                                       // remove all
    return r;
  }

  std::vector<T>
  base(bool inductives) const
  {
    std::vector<T> r;
    for (const auto& v : vars) for (const auto& t : tables(v.dom)) r.push_back(function(v, t.first, t.second));
    r.push_back(constant(1)); r.push_back(constant(all() / 3));
    if (inductives)
    {
      r.push_back(automaton(2, 1, 1, true)); r.push_back(automaton(3, 0, 2, false));
      const auto ts = tables(vars.back().dom);
      r.push_back(targeted_inductive(vars.back(), ts[0].first, true));
      r.push_back(targeted_inductive(vars.front(), tables(vars.front().dom)[vars.front().dom + 1].first, false));
    }
    return r;
  }

  // A smaller base, one of each kind per variable.
  std::vector<T>
  small_base() const
  {
    std::vector<T> r;
    for (const auto& v : vars)
    {
      const auto ts = tables(v.dom);
      r.push_back(function(v, ts[0].first, ts[0].second));
      r.push_back(function(v, ts[v.dom + 1].first, ts[v.dom + 1].second)); // rotation
      r.push_back(function(v, ts[v.dom + 3].first, ts[v.dom + 3].second)); // partial increment
      r.push_back(function(v, ts[v.dom + 6].first, ts[v.dom + 6].second)); // non-deterministic
    }
    r.push_back(automaton(2, 1, 1, false));
    return r;
  }
};

} // namespace mc
