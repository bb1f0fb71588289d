// C04: ownership. Handles (SDD, homomorphism, containers of them) own what they reach; what nothing uses is reclaimed.
//
// Explored: all the sequences of handle operations up to a depth, one after another in the same manager. After each step the contents of
// all the registers are compared with a model. At the end of each program, caches are filled with known operations: the numbers of
// unified elements must be exactly those of the model. The last cells look at the memory after the manager is destroyed.
#include "flush.hh"

#include <deque>
#include <unordered_set>

using namespace mc;
using C = sdd::CONF;
using SDD = sdd::SDD<C>;
using H = sdd::homomorphism<C>;
using B = bridge<C>;
using W = world<C>;
using T = term<C>;

namespace {

/*------------------------------------------------------------------------------------------------*/

struct content { shape_ptr s; std::size_t i; mask m; int id; }; // shape unknown: s == nullptr; moved-from: id == -1

struct hmodel
{
  enum kind { id, constant, comp, cons_flat, cons_hier, sum, fix };
  using key = std::tuple<int, long long, int, std::vector<int>>;
  std::map<key, int> ids; std::vector<key> nodes;
  hmodel() { make(id, 0, 0, {}); }
  int make(int k, long long a, int b, std::vector<int> v)
  {
    const key ky(k, a, b, v);
    const auto it = ids.find(ky);
    if (it != ids.end()) return it->second;
    nodes.push_back(ky); ids.emplace(ky, static_cast<int>(nodes.size() - 1));
    return static_cast<int>(nodes.size() - 1);
  }
  int kind_of(int h) const { return std::get<0>(nodes[h]); }
};

struct machine
{
  sdd::manager<C>& m;
  const W& w;
  canonical cn;
  hmodel hm;

  flusher<C> fl;
  std::size_t base_sdd = 0, base_hom = 0, base_val = 0;

  std::vector<SDD> init_;
  std::vector<content> init_c;

  explicit machine(sdd::manager<C>& m_, const W& w_, const std::vector<mask>& sets)
    : m(m_), w(w_), fl(m_)
  {
    for (mask x : sets) init_.push_back(w.b.nary(*w.s, x)), init_c.push_back(mk(w.s, 0, x));
    flush();
    // what the initial diagrams take is known
    std::set<int> seen{0, 1}; std::set<mask> vals;
    for (const auto& c : init_c) reach(c.id, seen, vals);
    base_hom = m.hom_stats().size;
    base_sdd = flusher<C>::nb_nodes; base_val = values_size(m, 0) - vals.size();
    MC_CHECK(m.sdd_stats().size == base_sdd + seen.size(), "number of nodes of the initial diagrams: " << m.sdd_stats().size << ", expected " << base_sdd + seen.size());
  }

  std::set<int> over_order; // diagrams over the levels of w.o
  content
  mk(const shape_ptr& s, std::size_t i, mask x)
  {
    const content c{s, i, x, cn.make(*s, x, i)};
    if (s == w.s && i == 0) over_order.insert(c.id);
    return c;
  }

  int
  node(unsigned var, bool hier, std::uint64_t val, int succ)
  {
    if (succ == 0 || val == 0) return 0;
    const std::vector<std::pair<std::uint64_t, int>> arcs{{val, succ}};
    const auto key = std::make_pair(std::make_pair(var, hier), arcs);
    const auto it = cn.ids.find(key);
    if (it != cn.ids.end()) return it->second;
    const int id = static_cast<int>(cn.nodes.size());
    cn.nodes.push_back({var, hier, arcs}); cn.ids.emplace(key, id);
    return id;
  }

  void flush() { fl.flush(); }

  // elements of the model which are in use
  void
  reach(int id, std::set<int>& seen, std::set<mask>& vals) const
  {
    if (!seen.insert(id).second || id < 2) return;
    for (const auto& a : cn.nodes[id].arcs)
    {
      if (cn.nodes[id].hier) reach(static_cast<int>(a.first), seen, vals); else vals.insert(a.first);
      reach(a.second, seen, vals);
    }
  }

  void
  reach_hom(int h, std::set<int>& homs, std::set<int>& seen, std::set<mask>& vals) const
  {
    if (!homs.insert(h).second) return;
    const auto& n = hm.nodes[h];
    switch (std::get<0>(n))
    {
      case hmodel::constant: reach(static_cast<int>(std::get<1>(n)), seen, vals); break;
      case hmodel::cons_flat: vals.insert(static_cast<mask>(std::get<1>(n))); reach_hom(std::get<2>(n), homs, seen, vals); break;
      case hmodel::cons_hier: reach(static_cast<int>(std::get<1>(n)), seen, vals); reach_hom(std::get<2>(n), homs, seen, vals); break;
      default: for (int o : std::get<3>(n)) reach_hom(o, homs, seen, vals);
    }
  }

  // Is this diagram the node of the model?
  bool
  same(const SDD& x, int id) const
  {
    if (id == 0) return x == sdd::zero<C>();
    if (id == 1) return x == sdd::one<C>();
    if (x == sdd::zero<C>() || x == sdd::one<C>()) return false;
    const auto& n = cn.nodes[id];
    const auto arcs = [&](const auto& lib, const auto& match)
    {
      if (lib.variable() != n.var || lib.size() != n.arcs.size()) return false;
      std::size_t found = 0;
      for (const auto& a : lib) for (const auto& ma : n.arcs) found += match(a, ma);
      return found == n.arcs.size();
    };
    if (n.hier)
    {
      if (!sdd::mem::is<B::hier>(x)) return false;
      return arcs(sdd::mem::variant_cast<B::hier>(*x), [&](const auto& a, const auto& ma)
             { return same(a.valuation(), static_cast<int>(ma.first)) && same(a.successor(), ma.second); });
    }
    if (!sdd::mem::is<B::flat>(x)) return false;
    return arcs(sdd::mem::variant_cast<B::flat>(*x), [&](const auto& a, const auto& ma)
           { return w.b.unvalues(a.valuation(), 8) == ma.first && same(a.successor(), ma.second); });
  }

  /*----------------------------------------------------------------------------------------------*/

  struct state
  {
    std::vector<SDD> r; std::vector<content> c;    // registers a, b, c
    std::vector<SDD> v; std::vector<content> vc;   // a container
    std::vector<H> h; std::vector<int> hc;         // homomorphisms
  };

  state
  start() const
  {
    state s;
    s.r = init_; s.c = init_c;
    for (int i = 0; i < 2; ++i) { s.h.push_back(sdd::id<C>()); s.hc.push_back(0); }
    s.v.reserve(1);
    return s;
  }

  int
  eval(int h, int x)
  {
    // an operand must be over the levels of the order
    if (x == 0) return 0;
    const auto n = hm.nodes[h];
    if (std::get<0>(n) != hmodel::id && !over_order.count(x)) return -2;
    switch (std::get<0>(n))
    {
      case hmodel::id: return x;
      case hmodel::constant: return static_cast<int>(std::get<1>(n));
      case hmodel::comp: return [&]{ const int r = eval(std::get<3>(n)[1], x); return r < 0 ? r : eval(std::get<3>(n)[0], r); }();
      case hmodel::cons_flat: return std::get<2>(n) != 0 ? -2 : node(top_var(), false, static_cast<std::uint64_t>(std::get<1>(n)), x);
      case hmodel::cons_hier: return std::get<2>(n) != 0 ? -2 : node(top_var(), true, static_cast<std::uint64_t>(std::get<1>(n)), x);
      default: return -2; // not evaluated
    }
  }
  unsigned top_var() const { return static_cast<unsigned>(w.s->levels.size() - 1); }

  static unsigned nb_ops() { return 42; }
  static std::string
  op_name(unsigned op)
  {
    static const char* n[] = {"a=b", "b=c", "a=a", "a=move(b)", "c=move(a)", "swap(a,b)", "swap(SDD(a),b)", "swap(a,a)", "a=a.first.succ", "a=a.last.succ",
                              "a=a.first.val", "a=a.last.val", "b=a.first.succ", "a=SDD(9,{0},a)", "b=SDD(9,a,b)", "a=a+b", "b&=a", "a=b-a", "a=0", "c=single", "SDD(move(c)) dropped",
                              "v.push(a)", "v.push(v0)", "v.insert(begin,b)", "v.erase(begin)", "a=v.back", "v.clear", "a=v0.first.succ; v.clear",
                              "h=const(a)", "h=const(b)oh", "h=h.right", "g=h", "h=move(g)", "swap(g,h)", "h=cons({1},h)", "h=cons(a,g)", "g=g+h", "h=fix(h+id)", "a=h(a)", "b=h(move(b))",
                              "a=h.operand", "g=id"};
    return n[op];
  }

  bool alive(const content& c) const { return c.id >= 0; }

  template <typename F>
  bool
  arc(const SDD& x, bool last, bool val, const content& c, content& out, const F& f)
  {
    if (!alive(c) || c.id < 2) return false;
    const auto nd = cn.nodes[c.id]; // copy: the model grows
    if (val && !nd.hier) return false;
    const auto& ma = last ? nd.arcs.back() : nd.arcs.front();
    out = {nullptr, 0, 0, val ? static_cast<int>(ma.first) : ma.second};
    if (c.s)
    {
      for (const auto& kv : B::partition(*c.s, c.m, c.i))
      {
        if (val) { const content t = mk(c.s->levels[c.i].nested, 0, kv.second); if (t.id == out.id) out = t; }
        else { const content t = mk(c.s, c.i + 1, kv.first); if (t.id == out.id) out = t; }
      }
    }
    // the assignment may release the node which is read: nothing of it is used afterwards
    const auto pick = [&](const auto& lib)
    {
      for (const auto& a : lib) if (same(a.successor(), ma.second)) { f(a.successor()); return; }
      MC_FAIL("arc not found");
    };
    if (nd.hier)
    {
      const auto& lib = sdd::mem::variant_cast<B::hier>(*x);
      if (!val) pick(lib);
      else
      {
        for (const auto& a : lib) if (same(a.successor(), ma.second)) { f(a.valuation()); return true; }
        MC_FAIL("arc not found");
      }
    }
    else pick(sdd::mem::variant_cast<B::flat>(*x));
    return true;
  }

  // false: not enabled in this state
  bool
  step(state& s, unsigned op)
  {
    auto& a = s.r[0]; auto& b = s.r[1]; auto& c = s.r[2];
    auto& ca = s.c[0]; auto& cb = s.c[1]; auto& cc = s.c[2];
    auto& h = s.h[0]; auto& g = s.h[1]; int& mh = s.hc[0]; int& mg = s.hc[1];
    const content dead{nullptr, 0, 0, -1};
    const auto same_levels = [&](const content& x, const content& y)
    { return alive(x) && alive(y) && x.s && x.s == y.s && x.i == y.i; };
    content out;
    ++st().transitions;
    switch (op)
    {
      case 0: if (!alive(cb)) return false; a = b; ca = cb; return true;
      case 1: if (!alive(cc)) return false; b = c; cb = cc; return true;
      case 2: { if (!alive(ca)) return false; const SDD& alias = a; a = alias; return true; }
      case 3: if (!alive(cb)) return false; a = std::move(b); ca = cb; cb = dead; return true;
      case 4: if (!alive(ca)) return false; c = std::move(a); cc = ca; ca = dead; return true;
      case 5: swap(a, b); std::swap(ca, cb); return true;
      case 6: if (!alive(ca) || !alive(cb)) return false; swap(SDD(a), b); cb = ca; return true;
      case 7: swap(a, a); return true;
      case 8: if (!arc(a, false, false, ca, out, [&](auto&& x){ a = std::forward<decltype(x)>(x); })) return false; ca = out; return true;
      case 9: if (!arc(a, true, false, ca, out, [&](auto&& x){ a = std::forward<decltype(x)>(x); })) return false; ca = out; return true;
      case 10: if (!arc(a, false, true, ca, out, [&](auto&& x){ a = std::forward<decltype(x)>(x); })) return false; ca = out; return true;
      case 11: if (!arc(a, true, true, ca, out, [&](auto&& x){ a = std::forward<decltype(x)>(x); })) return false; ca = out; return true;
      case 12: if (!arc(a, false, false, ca, out, [&](auto&& x){ b = std::forward<decltype(x)>(x); })) return false; cb = out; return true;
      case 13: if (!alive(ca)) return false; a = SDD(9, w.b.values(1), a); ca = {nullptr, 0, 0, node(9, false, 1, ca.id)}; return true;
      case 14: if (!alive(ca) || !alive(cb)) return false; b = SDD(9, a, b); cb = {nullptr, 0, 0, node(9, true, static_cast<std::uint64_t>(ca.id), cb.id)}; return true;
      case 15: if (!same_levels(ca, cb)) return false; a = a + b; ca = mk(ca.s, ca.i, ca.m | cb.m); return true;
      case 16: if (!same_levels(ca, cb)) return false; b &= a; cb = mk(ca.s, ca.i, ca.m & cb.m); return true;
      case 17: if (!same_levels(ca, cb)) return false; a = b - a; ca = mk(ca.s, ca.i, cb.m & ~ca.m); return true;
      case 18: a = SDD(); ca = {nullptr, 0, 0, 0}; return true;
      case 19: c = w.b.single(*w.s, w.n() - 2); cc = mk(w.s, 0, mask(1) << (w.n() - 2)); return true;
      case 20: { if (!alive(cc)) return false; SDD t(std::move(c)); cc = dead; return true; }
      case 21: if (!alive(ca) || s.v.size() > 2) return false; s.v.push_back(a); s.vc.push_back(ca); return true;
      case 22: if (s.v.empty() || s.v.size() > 2) return false; s.v.push_back(s.v[0]); s.vc.push_back(content(s.vc[0])); return true;
      case 23: if (!alive(cb) || s.v.size() > 2) return false; s.v.insert(s.v.begin(), b); s.vc.insert(s.vc.begin(), cb); return true;
      case 24: if (s.v.empty()) return false; s.v.erase(s.v.begin()); s.vc.erase(s.vc.begin()); return true;
      case 25: if (s.v.empty()) return false; a = s.v.back(); ca = s.vc.back(); return true;
      case 26: if (s.v.empty()) return false; s.v.clear(); s.vc.clear(); return true;
      case 27: if (s.v.empty() || !arc(s.v[0], false, false, s.vc[0], out, [&](auto&& x){ a = std::forward<decltype(x)>(x); })) return false;
               ca = out; s.v.clear(); s.vc.clear(); return true;
      case 28: if (!alive(ca)) return false; h = sdd::constant<C>(a); mh = hm.make(hmodel::constant, ca.id, 0, {}); return true;
      case 29: if (!alive(cb) || mh < 0 || hm.kind_of(mh) == hmodel::comp) return false; h = sdd::composition<C>(sdd::constant<C>(b), h);
               mh = mh == 0 ? hm.make(hmodel::constant, cb.id, 0, {}) : hm.make(hmodel::comp, 0, 0, {hm.make(hmodel::constant, cb.id, 0, {}), mh}); return true;
      case 30: if (mh < 0 || hm.kind_of(mh) != hmodel::comp) return false; h = sdd::mem::variant_cast<sdd::hom::_composition<C>>(*h).right;
               { const int t = std::get<3>(hm.nodes[mh])[1]; mh = t; } return true;
      case 31: if (mh < 0) return false; g = h; mg = mh; return true;
      case 32: if (mg < 0) return false; h = std::move(g); mh = mg; mg = -1; return true;
      case 33: { std::swap(g, h); std::swap(mg, mh); return true; }
      case 34: if (mh < 0) return false; h = sdd::cons<C>(w.o, w.b.values(2), h); mh = hm.make(hmodel::cons_flat, 2, mh, {}); return true;
      case 35: if (!alive(ca) || mg < 0) return false; h = sdd::cons<C>(w.o, a, g); mh = hm.make(hmodel::cons_hier, ca.id, mg, {}); return true;
      case 36:
      {
        if (mg < 0 || mh < 0 || hm.kind_of(mg) == hmodel::sum || hm.kind_of(mh) == hmodel::sum) return false;
        g = sdd::sum<C>(w.o, {g, h});
        if (mg != mh) { const int x = std::min(mg, mh), y = std::max(mg, mh); mg = hm.make(hmodel::sum, 0, 0, {x, y}); }
        return true;
      }
      case 37:
      {
        if (mh < 0 || mh == 0 || hm.kind_of(mh) == hmodel::sum || hm.kind_of(mh) == hmodel::fix) return false;
        h = sdd::fixpoint<C>(sdd::sum<C>(w.o, {h, sdd::id<C>()}));
        mh = hm.make(hmodel::fix, 0, 0, {hm.make(hmodel::sum, 0, 0, {0, mh})});
        return true;
      }
      case 38: { if (mh < 0 || !alive(ca)) return false; const int r = eval(mh, ca.id); if (r < 0) return false; a = h(w.o, a); if (r != ca.id) ca = {nullptr, 0, 0, r}; return true; }
      case 39: { if (mh < 0 || !alive(cb)) return false; const int r = eval(mh, cb.id); if (r < 0) return false; const SDD t = h(w.o, std::move(b)); b = t; if (r != cb.id) cb = {nullptr, 0, 0, r}; return true; }
      case 40: if (mh < 0 || hm.kind_of(mh) != hmodel::constant) return false; a = sdd::mem::variant_cast<sdd::hom::_constant<C>>(*h).operand;
               ca = {nullptr, 0, 0, static_cast<int>(std::get<1>(hm.nodes[mh]))}; return true;
      case 41: g = sdd::id<C>(); mg = 0; return true;
    }
    return false;
  }

  void
  check(const state& s) const
  {
    for (std::size_t i = 0; i < s.r.size(); ++i) if (alive(s.c[i]))
      MC_CHECK(same(s.r[i], s.c[i].id), "register " << i << " holds " << s.r[i]);
    for (std::size_t i = 0; i < s.v.size(); ++i) MC_CHECK(same(s.v[i], s.vc[i].id), "element " << i << " of the container is " << s.v[i]);
    for (std::size_t i = 0; i < s.r.size(); ++i) for (std::size_t j = 0; j < i; ++j) if (alive(s.c[i]) && alive(s.c[j]))
      MC_CHECK((s.r[i] == s.r[j]) == (s.c[i].id == s.c[j].id), "equality of registers");
    if (s.hc[0] >= 0 && s.hc[1] >= 0) MC_CHECK((s.h[0] == s.h[1]) == (s.hc[0] == s.hc[1]), "equality of homomorphisms");
    ++st().validated;
  }

  void
  counts(const state* s, const char* when)
  {
    std::set<int> seen{0, 1}, homs{0}; std::set<mask> vals;
    for (const auto& c : init_c) reach(c.id, seen, vals);
    if (s)
    {
      for (const auto& c : s->c) if (alive(c)) reach(c.id, seen, vals);
      for (const auto& c : s->vc) reach(c.id, seen, vals);
      for (int h : s->hc) if (h >= 0) reach_hom(h, homs, seen, vals);
    }
    const auto ns = m.sdd_stats().size, nh = m.hom_stats().size, nv = values_size(m, 0);
    MC_CHECK(ns == base_sdd + seen.size(), when << ": " << ns << " unified diagrams, expected " << base_sdd + seen.size());
    MC_CHECK(nh == base_hom - 1 + homs.size(), when << ": " << nh << " unified homomorphisms, expected " << base_hom - 1 + homs.size());
    if (nv) MC_CHECK(nv == base_val + vals.size(), when << ": " << nv << " unified value sets, expected " << base_val + vals.size());
    ++st().validated;
  }

  // Runs a program; false when its last operation is not enabled.
  bool
  program(const std::vector<unsigned>& p, bool with_counts)
  {
    {
      state s = start();
      for (std::size_t i = 0; i < p.size(); ++i)
      {
        where() = w.s->name + ":";
        for (std::size_t j = 0; j <= i; ++j) where() += " " + op_name(p[j]) + ";";
        if (!step(s, p[i])) { return false; }
        if (i + 1 == p.size() || !with_counts) check(s);
      }
      ++st().states;
      if (with_counts) { flush(); counts(&s, "in use"); }
    }
    if (with_counts) counts(nullptr, "after the program");
    return true;
  }

  // All programs up to a depth whose operations are of an alphabet; prefixes first, disabled prefixes are cut.
  void
  explore(const std::vector<unsigned>& alphabet, unsigned depth, std::vector<unsigned>& p)
  {
    if (!program(p, true)) return;
    if (p.size() == depth) return;
    for (unsigned op : alphabet) { p.push_back(op); explore(alphabet, depth, p); p.pop_back(); }
  }
};

const std::vector<unsigned> sdd_ops{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20};
const std::vector<unsigned> vec_ops{0, 3, 5, 8, 10, 15, 21, 22, 23, 24, 25, 26, 27};
const std::vector<unsigned> hom_ops{0, 3, 8, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41};
std::vector<unsigned> all_ops() { std::vector<unsigned> r; for (unsigned i = 0; i < machine::nb_ops(); ++i) r.push_back(i); return r; }

std::vector<mask> contents(const W& w) { const mask n = w.all(); return {n & 0x5a6b9cd3, n & 0x9335ac66, n & 0x33cc0ff1}; }

void
programs(const std::string& sn, const std::vector<unsigned>& alphabet, unsigned depth, const std::vector<unsigned>& prefix, const resources& r, const std::string& pn)
{
  use_policy(pn);
  { auto m = sdd::init<C>(make_conf<C>(r)); const W w(make_shape(sn), "v", 0, false); } // what is allocated once
  (void)all_ops();
  balance bal;
  {
    auto m = sdd::init<C>(make_conf<C>(r));
    const W w(make_shape(sn), "v", 0, false);
    machine mc_(m, w, contents(w));
    std::vector<unsigned> p = prefix;
    mc_.explore(alphabet, depth, p);
  }
  bal.check("programs");
  sample("all programs up to depth " + std::to_string(depth) + " of " + std::to_string(alphabet.size()) + " handle operations over shape " + sn);
}

/*------------------------------------------------------------------------------------------------*/
// Computations: every expression of a base, every pair of them, applied and forgotten: nothing may stay, neither in tables nor in memory.

void
computations(const std::string& sn, const resources& r, const std::string& pn, bool pairs, bool rewritten)
{
  use_policy(pn);
  const auto body = [&](std::size_t i, std::size_t j, unsigned comb) -> bool
  {
    bool more = false;
    auto m = sdd::init<C>(make_conf<C>(r));
    const W w(make_shape(sn), "v", 0, false);
    machine mc_(m, w, contents(w));
    const std::size_t n = w.small_base().size();
    if (i < n && j < n)
    {
      more = true;
      mc_.flush(); mc_.counts(nullptr, "before");
      {
        const auto bs = w.small_base();
        T t = bs[i];
        if (comb == 1) t = W::comp(bs[i], bs[j]);
        if (comb == 2) t = w.sum({bs[i], bs[j], w.id()});
        if (comb == 3) { t = w.sum({w.id(), bs[i], W::comp(bs[j], bs[i])}); t = W::fix(t); }
        if (comb == 4) t = is_selector(bs[i].f) && bs[i].h.selector() ? w.ite(bs[i], bs[j], W::comp(bs[j], bs[j])) : W::fix(w.sum({bs[j], w.id(), bs[i]}));
        if (comb == 5 && !w.hiers.empty())
        {
          const W nested(w.hiers[0].nested, w.hiers[0].prefix, 0, false);
          t = W::comp(w.local(w.hiers[0], nested.small_base()[i % nested.small_base().size()]), bs[j]);
        }
        for (mask x : contents(w))
        {
          where() = sn + " " + t.name + " on " + hex(x);
          const H h = rewritten ? sdd::rewrite<C>(w.o, t.h) : t.h;
          w.b.expect(h(w.o, w.b.grouped(*w.s, x)), *w.s, image(t.f, x), "application");
          ++st().transitions;
        }
      }
      mc_.flush();
      mc_.counts(nullptr, "after the application");
      ++st().states;
    }
    return more;
  };
  body(0, 0, 2); // what is allocated once
  for (std::size_t i = 0; ; ++i)
  {
    bool more = false;
    for (std::size_t j = 0; j == 0 || (pairs && j <= 40); ++j) for (unsigned comb = pairs ? 1 : 0; comb < (pairs ? 6u : 1u); ++comb)
    {
      balance bal;
      const bool d = body(i, j, comb);
      char what[100]; snprintf(what, sizeof what, "application %zu,%zu,%u", i, j, comb);
      bal.check(what);
      more |= d;
    }
    if (!more) break;
  }
  sample("applications of " + std::to_string(st().states) + " homomorphisms over shape " + sn + (rewritten ? ", rewritten" : "") + ", each in a new manager");
}

/*------------------------------------------------------------------------------------------------*/
// Handles in standard containers, enumerations which outlive the handle, orders which outlive their builder.

void
others(const std::string& sn, const resources& r, const std::string& pn)
{
  use_policy(pn);
  { auto m = sdd::init<C>(make_conf<C>(r)); const W w(make_shape(sn), "v", 0, false); auto g = w.b.grouped(*w.s, 1).paths(); while (g) g(); }
  balance bal;
  {
    auto m = sdd::init<C>(make_conf<C>(r));
    const W w(make_shape(sn), "v", 0, false);
    machine mc_(m, w, contents(w));
    for (mask x = 0; x <= w.all(); ++x)
    {
      where() = sn + " containers of " + hex(x);
      {
        std::set<SDD> os; std::unordered_set<SDD> us; std::deque<SDD> dq; std::map<SDD, mask> mp;
        for (mask y = x; y; y &= y - 1)
        {
          const SDD d = w.b.incremental(*w.s, y);
          os.insert(d); us.insert(d); dq.push_front(d); dq.push_back(d); mp[d] = y;
        }
        MC_CHECK(os.size() == popcount(x) && us.size() == popcount(x) && mp.size() == popcount(x) && dq.size() == 2 * popcount(x), "sizes of containers");
        std::sort(dq.begin(), dq.end());
        dq.erase(std::unique(dq.begin(), dq.end()), dq.end());
        MC_CHECK(dq.size() == popcount(x), "sorted container");
        for (const auto& kv : mp) w.b.expect(kv.first, *w.s, kv.second, "element of a container");
        std::vector<SDD> vv(dq.begin(), dq.end());
        std::rotate(vv.begin(), vv.begin() + vv.size() / 2, vv.end());
        std::reverse(vv.begin(), vv.end());
        std::swap(os, *std::make_unique<std::set<SDD>>()); // drops
        for (const auto& d : vv) MC_CHECK(us.count(d) == 1, "lost element");
      }
      where() = sn + " enumeration of " + hex(x);
      for (unsigned stop = 0; stop <= popcount(x); ++stop)
      {
        auto d = std::make_unique<SDD>(w.b.decremental(*w.s, x));
        auto gen = d->paths();
        unsigned k = 0;
        for (; k < stop && gen; ++k, gen()) if (k == stop / 2) d.reset(); // the enumeration keeps its diagram
      }
      mc_.flush(); mc_.counts(nullptr, "after containers");
      ++st().states; ++st().transitions;
    }
  }
  bal.check("containers");
  sample("containers and abandoned enumerations of every set over shape " + sn);
}

void
cells_()
{
  const std::string c = std::string(conf_name<C>::get()) + "/";
  const auto& pols = all_policies();
  unsigned k = 0;
  const auto pol = [&]{ return std::string(pols[k++ % pols.size()].name); };
#ifdef ENUMERATIONS // coroutines do not mix with AddressSanitizer
  for (const char* sn : {"2,2", "(2),2", "2,2,2", "(2,2),2"}) { const std::string pn = pol(); add_cell(c + "others/" + sn, [=]{ others(sn, small(8, 2), pn); }); }
  return;
#endif
  for (const char* sn : {"2,2", "(2),2", "(2,2),2", "2,2,2", "(2,(2)),2"}) for (std::size_t cap : {4, 16})
  {
    const std::string pn = pol();
    add_cell(c + "all/3/" + sn + "/" + std::to_string(cap), [=]{ programs(sn, all_ops(), 3, {}, small(cap, cap), pn); }, (cap == 16 && std::string(sn) != "(2),2") || std::string(sn) == "2,2,2");
  }
  for (const char* sn : {"2,2", "(2),2", "(2,2),2"}) for (unsigned f : sdd_ops)
    add_cell(c + "sdd/4/" + sn + "/" + std::to_string(f), [=]{ programs(sn, sdd_ops, 4, {f}, small(f % 2 ? 3 : 8, 2), pols[f % pols.size()].name); }, std::string(sn) == "2,2");
  for (const char* sn : {"2,2", "(2),2"}) for (unsigned f : vec_ops)
    add_cell(c + "vec/5/" + sn + "/" + std::to_string(f), [=]{ programs(sn, vec_ops, 5, {f}, small(4, 2), pols[f % pols.size()].name); }, std::string(sn) == "2,2");
  for (const char* sn : {"2,2", "(2),2"}) for (unsigned f : hom_ops)
  {
    add_cell(c + "hom/4/" + sn + "/" + std::to_string(f), [=]{ programs(sn, hom_ops, 4, {f}, small(4, 2), pols[f % pols.size()].name); });
    for (unsigned f2 : hom_ops) add_cell(c + "hom/5/" + sn + "/" + std::to_string(f) + "," + std::to_string(f2), [=]{ programs(sn, hom_ops, 5, {f, f2}, small(4, 2), pols[f % pols.size()].name); }, true);
  }
  for (const char* sn : {"2,2", "(2),2", "(2,2),2"}) for (unsigned f : all_ops())
    add_cell(c + "all/4/" + sn + "/" + std::to_string(f), [=]{ programs(sn, all_ops(), 4, {f}, small(4, 2), pols[f % pols.size()].name); }, true);
  for (const char* sn : {"2,2", "(2),2", "(2,2),2", "2,(2),2"}) for (bool rw : {false, true})
  {
    add_cell(c + "computations/1/" + sn + (rw ? "/rewritten" : ""), [=]{ computations(sn, small(8, 4), pols[rw].name, false, rw); });
    add_cell(c + "computations/2/" + sn + (rw ? "/rewritten" : ""), [=]{ computations(sn, small(8, 4), pols[2 + rw].name, true, rw); }, std::string(sn) == "2,(2),2");
  }
}
const registrar reg(cells_);

} // namespace
