// C09: construction of homomorphisms: unification, simplifications, refusals.
#include "homs.hh"
#include <unordered_map>

using namespace mc;
using C = sdd::CONF;
using SDD = sdd::SDD<C>;
using H = sdd::homomorphism<C>;
using W = world<C>;
using O = sdd::order<C>;
using OB = sdd::order_builder<C>;
using V = C::Values;

namespace mc {
// Two families of user types with the same content.
struct fun_a { int k; V operator()(const V& v) const { return v; }
  friend bool operator==(const fun_a& l, const fun_a& r) noexcept { return l.k == r.k; } };
struct fun_b { int k; V operator()(const V& v) const { return v; }
  friend bool operator==(const fun_b& l, const fun_b& r) noexcept { return l.k == r.k; } };
template <int N>
struct ind_n
{
  int k;
  H operator()(const O& o, const V& v) const { return sdd::cons<C>(o, v, sdd::id<C>()); }
  H operator()(const O& o, const SDD& v) const { return sdd::cons<C>(o, v, sdd::id<C>()); }
  SDD operator()() const { return sdd::one<C>(); }
  bool selector() const noexcept { return true; }
  friend bool operator==(const ind_n& l, const ind_n& r) noexcept { return l.k == r.k; }
};
}
namespace std {
template <> struct hash<mc::fun_a> { std::size_t operator()(const mc::fun_a&) const noexcept { return 5; } };
template <> struct hash<mc::fun_b> { std::size_t operator()(const mc::fun_b&) const noexcept { return 5; } };
template <int N> struct hash<mc::ind_n<N>> { std::size_t operator()(const mc::ind_n<N>&) const noexcept { return 5; } };
}

namespace {

/*------------------------------------------------------------------------------------------------*/
// Expressions of the model. The key identifies expressions up to associativity, commutativity,
// idempotence, neutral elements and merging of local applications: expressions with different keys
// must never be unified.

struct expr;
using ex = std::shared_ptr<const expr>;
struct expr
{
  enum kind { leaf, id, local, comp, sum, inter, fix, ite } k;
  std::function<H(const W&)> make; // leaf: builds it from fresh user objects
  std::string name;                // leaf
  unsigned var;                    // local: variable
  std::string ident;               // local: identifier
  std::vector<ex> ops;
};

struct key
{
  expr::kind k = expr::id; std::string leaf; unsigned var = 0; std::vector<key> ops;
  std::string
  text() const
  {
    static const char* n[] = {"", "id", "loc", "seq", "sum", "int", "fix", "ite"};
    if (k == expr::leaf) return leaf;
    std::string r = n[k];
    if (k == expr::local) r += std::to_string(var);
    r += "(";
    for (const auto& o : ops) r += o.text() + ",";
    return r + ")";
  }
};

key mk(expr::kind k, std::vector<key> ops, unsigned var = 0) { key r; r.k = k; r.ops = std::move(ops); r.var = var; return r; }

key mk_local(unsigned var, key n) { return n.k == expr::id ? n : mk(expr::local, {std::move(n)}, var); }

key
mk_seq(const std::vector<key>& in)
{
  std::vector<key> flat;
  for (const auto& o : in)
  {
    if (o.k == expr::id) continue;
    if (o.k == expr::comp) flat.insert(flat.end(), o.ops.begin(), o.ops.end()); else flat.push_back(o);
  }
  std::vector<key> out;
  for (const auto& o : flat)
  {
    if (!out.empty() && o.k == expr::local && out.back().k == expr::local && out.back().var == o.var)
      out.back() = mk_local(o.var, mk_seq({out.back().ops[0], o.ops[0]}));
    else out.push_back(o);
  }
  if (out.empty()) return key{};
  return out.size() == 1 ? out[0] : mk(expr::comp, out);
}

key
mk_set(expr::kind k, const std::vector<key>& in)
{
  std::vector<key> flat;
  for (const auto& o : in) { if (o.k == k) flat.insert(flat.end(), o.ops.begin(), o.ops.end()); else flat.push_back(o); }
  std::map<unsigned, std::vector<key>> loc;
  std::map<std::string, key> out;
  for (const auto& o : flat) { if (o.k == expr::local) loc[o.var].push_back(o.ops[0]); else out[o.text()] = o; }
  for (const auto& l : loc) { const key n = mk_local(l.first, mk_set(k, l.second)); out[n.text()] = n; }
  std::vector<key> ops;
  for (auto& kv : out) ops.push_back(kv.second);
  return ops.size() == 1 ? ops[0] : mk(k, ops);
}

key
key_of(const ex& e)
{
  std::vector<key> ks;
  for (const auto& o : e->ops) ks.push_back(key_of(o));
  switch (e->k)
  {
    case expr::leaf: { key r; r.k = expr::leaf; r.leaf = e->name; return r; }
    case expr::id: return key{};
    case expr::local: return mk_local(e->var, ks[0]);
    case expr::comp: return mk_seq(ks);
    case expr::sum: case expr::inter: return mk_set(e->k, ks);
    case expr::fix: return ks[0].k == expr::id || ks[0].k == expr::fix ? ks[0] : mk(expr::fix, ks);
    default: break;
  }
  if (ks[0].k == expr::id) return ks[1];
  if (ks[1].text() == ks[2].text()) return ks[1];
  return mk(expr::ite, ks);
}

H
build(const ex& e, const W& w)
{
  switch (e->k)
  {
    case expr::leaf: return e->make(w);
    case expr::id: return sdd::id<C>();
    case expr::local: return sdd::local<C>(e->ident, w.o, build(e->ops[0], w));
    case expr::comp: { const H l = build(e->ops[0], w), r = build(e->ops[1], w); return sdd::composition<C>(l, r); }
    case expr::fix: return sdd::fixpoint<C>(build(e->ops[0], w));
    case expr::ite: { const H i = build(e->ops[0], w), t = build(e->ops[1], w), f = build(e->ops[2], w); return sdd::if_then_else<C>(i, t, f); }
    default: break;
  }
  std::vector<H> hs;
  for (const auto& o : e->ops) hs.push_back(build(o, w));
  return e->k == expr::sum ? sdd::sum<C>(w.o, hs.begin(), hs.end()) : sdd::intersection<C>(w.o, hs.begin(), hs.end());
}

std::string
text(const ex& e)
{
  if (e->k == expr::leaf) return e->name;
  static const char* n[] = {"", "id", "local", "comp", "sum", "inter", "fix", "ite"};
  std::string r = n[e->k];
  if (e->k == expr::local) r += "@" + e->ident;
  r += "(";
  for (const auto& o : e->ops) r += text(o) + " ";
  return r + ")";
}

ex leaf(const std::string& n, std::function<H(const W&)> f) { return std::make_shared<expr>(expr{expr::leaf, std::move(f), n, 0, "", {}}); }
ex node(expr::kind k, std::vector<ex> ops) { return std::make_shared<expr>(expr{k, nullptr, "", 0, "", std::move(ops)}); }
ex loc(const W& w, const W::hier& l, const ex& n)
{ return std::make_shared<expr>(expr{expr::local, nullptr, "", w.o.node(l.id).variable(), l.id, {n}}); }

/*------------------------------------------------------------------------------------------------*/

// Leaves: every constructor with user-given components, each component varied on its own.
std::vector<ex>
leaves(const W& w)
{
  std::vector<ex> r;
  r.push_back(node(expr::id, {}));
  // the flat variables of the first hierarchy: functions on others are local applications
  for (const auto& v : w.vars) if (v.path.empty())
  {
    const std::string var = "var" + std::to_string(w.o.node(v.id).variable());
    const std::vector<std::vector<mask>> tabs = {{2, 1}, {1, 0}};
    for (const auto& tb : tabs)
    {
      std::vector<mask> t(tb); t.resize(v.dom, 0);
      for (unsigned kind = 0; kind < 4; ++kind)
        r.push_back(leaf("fun(" + var + " " + W::text(t) + " kind" + std::to_string(kind) + ")", [=](const W& ww)
        { return kind == 3 ? sdd::function<C>(ww.o, v.id, vfun_plain<C>{t, 0}) : sdd::function<C>(ww.o, v.id, vfun<C>{t, kind == 1, kind == 2, 0}); }));
    }
    r.push_back(leaf("fun_a(" + var + " 1)", [=](const W& ww) { return sdd::function<C>(ww.o, v.id, fun_a{1}); }));
    r.push_back(leaf("fun_b(" + var + " 1)", [=](const W& ww) { return sdd::function<C>(ww.o, v.id, fun_b{1}); }));
  }
  for (int q = 0; q < 2; ++q) for (int a = 0; a < 2; ++a)
    r.push_back(leaf("dfa" + std::to_string(q) + std::to_string(a), [=](const W&) { return sdd::inductive<C>(dfa<C>{q, 2, a, 1, a == 0, 0, 3}); }));
  r.push_back(leaf("ind0(1)", [](const W&) { return sdd::inductive<C>(ind_n<0>{1}); }));
  r.push_back(leaf("ind0(2)", [](const W&) { return sdd::inductive<C>(ind_n<0>{2}); }));
  r.push_back(leaf("ind1(1)", [](const W&) { return sdd::inductive<C>(ind_n<1>{1}); }));
  for (mask x : {mask(0), mask(1), mask(2), w.all()})
    r.push_back(leaf("const" + hex(x), [=](const W& ww) { return sdd::constant<C>(ww.b.grouped(*ww.s, x)); }));
  return r;
}

// prefixing, with each component varied
std::vector<ex>
conses(const W& w)
{
  std::vector<ex> r;
  const auto next = [](unsigned n) -> H
  { return n == 0 ? sdd::id<C>() : n == 1 ? H(sdd::inductive<C>(ind_n<0>{1})) : H(sdd::constant<C>(sdd::one<C>())); };
  for (unsigned lvl = 0; lvl < w.s->levels.size(); ++lvl) for (unsigned n = 0; n < 3; ++n) for (mask x = 1; x < 4; ++x)
    r.push_back(leaf("cons(" + std::to_string(lvl) + " " + hex(x) + " " + std::to_string(n) + ")", [=](const W& ww)
    {
      const O fresh(W::builder(*ww.s, ww.prefix)); // an equal order, built again
      O at = fresh;
      for (unsigned i = 0; i < lvl; ++i) at = at.next();
      if (ww.s->levels[lvl].nested) return sdd::cons<C>(at, ww.b.grouped(*ww.s->levels[lvl].nested, x), next(n));
      return sdd::cons<C>(at, ww.b.values(x), next(n));
    }));
  // other identifiers, other hierarchies below
  r.push_back(leaf("cons(other ids)", [=](const W& ww)
  {
    const O o(W::builder(*ww.s, "z"));
    return ww.s->levels[0].nested ? sdd::cons<C>(o, ww.b.grouped(*ww.s->levels[0].nested, 1), next(0)) : sdd::cons<C>(o, ww.b.values(1), next(0));
  }));
  r.push_back(leaf("cons(longer)", [=](const W& ww)
  {
    OB ob = W::builder(*ww.s, ww.prefix) << OB("below");
    const O o(ob);
    return ww.s->levels[0].nested ? sdd::cons<C>(o, ww.b.grouped(*ww.s->levels[0].nested, 1), next(0)) : sdd::cons<C>(o, ww.b.values(1), next(0));
  }));
  return r;
}

std::vector<ex>
nested_leaves(const W& w)
{
  std::vector<ex> r;
  for (const auto& l : w.hiers)
  {
    const W nw(l.nested, l.prefix, 0, false);
    for (const auto& v : nw.vars) if (v.path.empty())
    {
      std::vector<mask> t{2, 1}; t.resize(v.dom, 0);
      const auto f = leaf("fun(var" + std::to_string(nw.o.node(v.id).variable()) + " " + W::text(t) + " kind0)"
                         , [=](const W& ww) { return sdd::function<C>(W(l.nested, l.prefix, 0, false).o, v.id, vfun<C>{t, false, false, 0}); });
      r.push_back(loc(w, l, f));
      r.push_back(loc(w, l, node(expr::fix, {f})));
    }
    r.push_back(loc(w, l, leaf("dfa01", [](const W&) { return sdd::inductive<C>(dfa<C>{0, 2, 1, 1, false, 0, 3}); })));
    r.push_back(loc(w, l, leaf("ind0(1)", [](const W&) { return sdd::inductive<C>(ind_n<0>{1}); })));
    r.push_back(loc(w, l, node(expr::id, {})));
  }
  return r;
}

struct registry
{
  std::unordered_map<H, std::string> key_by_handle;
  std::unordered_map<std::string, std::vector<std::pair<std::string, H>>> by_key;

  void
  add(const ex& e, const H& h)
  {
    const std::string k = key_of(e).text();
    const auto it = key_by_handle.emplace(h, k);
    if (!it.second) MC_CHECK(it.first->second == k, "different homomorphisms unified: " << text(e) << " [" << k << "] and [" << it.first->second << "]");
    ++st().states; ++st().validated;
  }
};

void
same(const H& a, const H& b, const std::string& what)
{
  MC_CHECK(a == b && !(a != b) && !(a < b) && !(b < a), "different handles: " << what);
  MC_CHECK(std::hash<H>()(a) == std::hash<H>()(b), "different hashes: " << what);
  MC_CHECK(a.selector() == b.selector(), "different properties: " << what);
  ++st().validated; ++st().transitions;
}

// Everything built twice from fresh components, pairwise distinct.
void
unify(const std::string& sn, const std::string& rn, const std::string& pn, unsigned depth)
{
  use_policy(pn);
  const auto conf = make_conf<C>(res(rn));
  auto m = sdd::init<C>(conf);
  const auto base0 = m.hom_stats().size;
  {
    const W w(make_shape(sn), "v", 0, false);
    std::vector<ex> l1 = leaves(w);
    for (auto& e : nested_leaves(w)) l1.push_back(e);
    for (auto& e : conses(w)) l1.push_back(e);
    registry reg;
    std::vector<std::pair<ex, H>> all;
    const auto put = [&](const ex& e)
    {
      where() = sn + " " + text(e);
      const H h = build(e, w);
      reg.add(e, h);
      all.emplace_back(e, h);
      ++st().transitions;
    };
    for (const auto& e : l1) put(e);
    // leaves used in combinations: one of each kind
    std::vector<ex> sub;
    for (std::size_t i = 0; i < l1.size(); i += (depth == 1 ? 2 : 5)) sub.push_back(l1[i]);
    for (auto& e : nested_leaves(w)) sub.push_back(e);
    std::vector<ex> l2;
    for (const auto& a : sub)
    {
      l2.push_back(node(expr::fix, {a}));
      for (const auto& b : sub)
      {
        l2.push_back(node(expr::comp, {a, b})); l2.push_back(node(expr::sum, {a, b})); l2.push_back(node(expr::inter, {a, b}));
      }
    }
    std::vector<ex> preds;
    for (const auto& a : sub) if (build(a, w).selector()) preds.push_back(a);
    MC_CHECK(!preds.empty(), "no selector");
    for (const auto& i : preds) for (const auto& a : sub) for (const auto& b : sub) l2.push_back(node(expr::ite, {i, a, b}));
    for (const auto& e : l2) put(e);
    if (depth > 1)
    {
      for (std::size_t i = 0; i < l2.size(); i += 3) for (std::size_t j = 0; j < sub.size(); j += 2)
        for (expr::kind k : {expr::comp, expr::sum, expr::inter}) { put(node(k, {l2[i], sub[j]})); put(node(k, {sub[j], l2[i]})); }
      for (std::size_t i = 0; i < l2.size(); i += 2) put(node(expr::fix, {l2[i]}));
      for (std::size_t i = 0; i + 5 < l2.size(); i += 5) { put(node(expr::comp, {l2[i], l2[i + 5]})); put(node(expr::sum, {l2[i], l2[i + 5], l2[i / 2]})); }
    }
    // again, backwards
    for (std::size_t i = all.size(); i-- > 0;) { where() = sn + " again " + text(all[i].first); same(all[i].second, build(all[i].first, w), where()); }
    // forget every other one and build everything again, twice
    for (unsigned round = 0; round < 2; ++round)
    {
      reg.key_by_handle.clear();
      for (std::size_t i = round; i < all.size(); i += 2) all[i].second = sdd::id<C>();
      for (std::size_t i = 0; i < all.size(); ++i)
      {
        where() = sn + " rebuilt " + text(all[i].first);
        const H h = build(all[i].first, w);
        if (i % 2 != round) same(h, all[i].second, where());
        else all[i].second = h;
        reg.add(all[i].first, h);
      }
    }
    st().extra["expressions"] += all.size();
  }
  MC_CHECK(m.hom_stats().size == base0, "homomorphisms left: " << m.hom_stats().size << " instead of " << base0);
  sample("all expressions of depth " + std::to_string(depth + 1) + " over shape " + sn + " built four times");
}

// All compositions of n expressions of a small pool, bracketed in every way.
void
sequences(const std::string& sn, const std::string& rn, const std::string& pn, unsigned n)
{
  use_policy(pn);
  auto m = sdd::init<C>(make_conf<C>(res(rn)));
  const W w(make_shape(sn), "v", 0, false);
  std::vector<ex> pool;
  unsigned funs = 0, inds = 0;
  for (const auto& e : leaves(w))
  {
    if (e->k == expr::id) pool.push_back(e);
    else if (e->name.compare(0, 4, "fun(") == 0 && funs++ % 4 == 0 && funs < 8) pool.push_back(e);
    else if (e->name.compare(0, 3, "ind") == 0 && inds++ == 0) pool.push_back(e);
  }
  const auto nl = nested_leaves(w);
  for (std::size_t i = 0; i < nl.size() && i < 8; i += (i < 2 ? 1 : 3)) pool.push_back(nl[i]);
  registry reg;
  std::vector<H> keep;
  std::function<std::vector<ex>(const std::vector<ex>&, std::size_t, std::size_t)> all
    = [&](const std::vector<ex>& seq, std::size_t b, std::size_t e) -> std::vector<ex>
  {
    if (e - b == 1) return {seq[b]};
    std::vector<ex> r;
    for (std::size_t k = b + 1; k < e; ++k) for (const auto& l : all(seq, b, k)) for (const auto& x : all(seq, k, e)) r.push_back(node(expr::comp, {l, x}));
    return r;
  };
  std::vector<std::size_t> idx(n);
  for (;;)
  {
    std::vector<ex> seq;
    for (auto i : idx) seq.push_back(pool[i]);
    for (const auto& e : all(seq, 0, n))
    {
      where() = sn + " " + text(e);
      const H h = build(e, w);
      reg.add(e, h);
      same(h, build(e, w), where());
    }
    std::size_t p = 0;
    while (p < n && ++idx[p] == pool.size()) idx[p++] = 0;
    if (p == n) break;
  }
  sample("all compositions of " + std::to_string(n) + " among " + std::to_string(pool.size()) + " expressions of shape " + sn + ", bracketed in every way");
}

// The homomorphisms rewriting produces: every component varied on its own, operands in any order.
void
saturations(const std::string& rn, const std::string& pn)
{
  use_policy(pn);
  auto m = sdd::init<C>(make_conf<C>(res(rn)));
  const auto base = m.hom_stats().size;
  {
    using opt = sdd::hom::optional_homomorphism<C>;
    const W w(make_shape("(2),2"), "v", 0, false);
    const H id = sdd::id<C>();
    std::vector<H> pool; // fresh user objects each time
    const auto make = [&](unsigned i) -> H
    {
      return i == 0 ? sdd::inductive<C>(ind_n<0>{1}) : i == 1 ? sdd::inductive<C>(ind_n<0>{2}) : i == 2 ? sdd::inductive<C>(ind_n<1>{1})
           : i == 3 ? sdd::function<C>(w.o, "v1", fun_a{1}) : sdd::function<C>(w.o, "v1", fun_b{1});
    };
    std::vector<std::vector<unsigned>> gs{{}};
    for (unsigned a = 0; a < 4; ++a) { gs.push_back({a}); for (unsigned b = 0; b < 4; ++b) { gs.push_back({a, b}); if (a != b) for (unsigned c = 0; c < 4; ++c) gs.push_back({a, b, c}); } }
    std::unordered_map<H, std::string> seen;
    std::unordered_map<std::string, H> by_key;
    for (unsigned round = 0; round < 2; ++round)
    for (unsigned kind = 0; kind < 3; ++kind) for (unsigned var = 0; var < 3; ++var) for (int f = -1; f < 5; ++f) for (int l = -1; l < 5; ++l) for (const auto& g : gs)
    {
      if (kind < 2 && g.empty() && f < 0 && l < 0) continue; // no operand at all
      std::vector<H> hs;
      std::set<unsigned> gset(g.begin(), g.end());
      for (auto i : g) hs.push_back(make(i));
      std::string k = "sat" + std::to_string(kind) + " @" + std::to_string(var) + " F" + std::to_string(f) + " L" + std::to_string(l) + " G";
      for (auto i : gset) k += std::to_string(i);
      where() = k;
      H h = id;
      if (kind < 2)
      {
        opt of, ol;
        if (f >= 0) of = make(f);
        if (l >= 0) ol = make(l);
        if (g.empty() && (f < 0 || l < 0)) k = "leaf" + std::to_string(std::max(f, l));
        h = kind == 0 ? sdd::hom::saturation_sum<C>(var, std::move(of), hs.begin(), hs.end(), std::move(ol))
                      : sdd::hom::saturation_intersection<C>(var, std::move(of), hs.begin(), hs.end(), std::move(ol));
      }
      else
      {
        if (g.empty() && (f < 0) != (l < 0)) k = "leaf" + std::to_string(std::max(f, l));
        h = sdd::hom::saturation_fixpoint<C>(var, f < 0 ? id : make(f), hs.begin(), hs.end(), l < 0 ? id : make(l));
      }
      const auto it = seen.emplace(h, k);
      MC_CHECK(it.first->second == k, "different homomorphisms unified: " << k << " and " << it.first->second);
      const auto jt = by_key.emplace(k, h);
      same(jt.first->second, h, k);
      ++st().states;
    }
  }
  MC_CHECK(m.hom_stats().size == base, "homomorphisms left: " << m.hom_stats().size << " instead of " << base);
  sample("saturated sums, intersections and fixpoints, all components varied");
}

// The documented simplifications, for all operands.
void
laws(const std::string& sn, const std::string& rn, const std::string& pn)
{
  use_policy(pn);
  auto m = sdd::init<C>(make_conf<C>(res(rn)));
  const W w(make_shape(sn), "v", 0, false);
  std::vector<ex> l1 = leaves(w);
  for (auto& e : nested_leaves(w)) l1.push_back(e);
  const auto cs = conses(w);
  for (std::size_t i = 0; i < cs.size(); i += 4) l1.push_back(cs[i]);
  // some composite operands
  const std::size_t nl = l1.size();
  for (std::size_t i = 0; i + 3 < nl; i += 4)
  {
    l1.push_back(node(expr::sum, {l1[i], l1[i + 3]})); l1.push_back(node(expr::inter, {l1[i + 1], l1[i + 2]}));
    l1.push_back(node(expr::comp, {l1[i], l1[i + 1]})); l1.push_back(node(expr::fix, {l1[i + 1]}));
  }
  std::vector<H> hs; std::vector<std::string> ts;
  for (const auto& e : l1) { hs.push_back(build(e, w)); ts.push_back(text(e)); }
  const H id = sdd::id<C>();
  const auto S = [&](std::initializer_list<H> l) { return sdd::sum<C>(w.o, l); };
  const auto I = [&](std::initializer_list<H> l) { return sdd::intersection<C>(w.o, l); };
  const auto K = [&](const H& l, const H& r) { return sdd::composition<C>(l, r); };
  const auto F = [&](const H& h) { return sdd::fixpoint<C>(h); };
  same(F(id), id, "fix(id)"); same(K(id, id), id, "id o id"); same(S({id}), id, "sum(id)"); same(I({id}), id, "inter(id)");
  for (std::size_t i = 0; i < hs.size(); ++i)
  {
    where() = sn + " laws of " + ts[i];
    const H& a = hs[i];
    same(K(id, a), a, where() + " id o a"); same(K(a, id), a, where() + " a o id");
    same(F(F(a)), F(a), where() + " fix(fix(a))");
    same(S({a}), a, where() + " sum(a)"); same(S({a, a}), a, where() + " sum(a,a)"); same(S({a, a, a}), a, where());
    same(I({a}), a, where() + " inter(a)"); same(I({a, a}), a, where() + " inter(a,a)");
    for (std::size_t j = 0; j < hs.size(); ++j)
    {
      const H& b = hs[j];
      where() = sn + " laws of " + ts[i] + " and " + ts[j];
      if (a.selector()) same(sdd::if_then_else<C>(a, b, b), b, where() + " ite(a,b,b)");
      same(sdd::if_then_else<C>(id, a, b), a, where() + " ite(id,a,b)");
      same(S({a, b}), S({b, a}), where() + " sum commutes"); same(I({a, b}), I({b, a}), where() + " inter commutes");
      same(S({a, b, a}), S({a, b}), where()); same(I({b, a, b}), I({a, b}), where());
      for (std::size_t k = (i + j) % 3; k < hs.size(); k += 3)
      {
        const H& c = hs[k];
        const H abc = S({a, b, c});
        same(S({S({a, b}), c}), abc, where() + " sum((a+b)+c), c=" + ts[k]); same(S({a, S({b, c})}), abc, where() + " sum(a+(b+c)), c=" + ts[k]);
        const H iabc = I({a, b, c});
        same(I({I({a, b}), c}), iabc, where() + " inter, c=" + ts[k]); same(I({a, I({b, c})}), iabc, where() + " inter, c=" + ts[k]);
        if (i == j) same(S({S({a, c}), c}), S({c, a}), where());
      }
    }
    ++st().states;
  }
  // local applications
  for (const auto& l : w.hiers)
  {
    const auto L = [&](const H& h) { return sdd::local<C>(l.id, w.o, h); };
    same(L(id), id, "local(id)");
    for (std::size_t i = 0; i < hs.size(); ++i) for (std::size_t j = 0; j < hs.size(); ++j)
    {
      const H &a = hs[i], &b = hs[j];
      if (a == id || b == id) continue; // local(id) is id, which isn't merged
      where() = sn + " local laws at " + l.id + " of " + ts[i] + " and " + ts[j];
      same(S({L(a), L(b)}), L(S({a, b})), where() + " sum of locals");
      same(I({L(a), L(b)}), L(I({a, b})), where() + " intersection of locals");
      same(K(L(a), L(b)), L(K(a, b)), where() + " composition of locals");
      for (const auto& l2 : w.hiers) if (l2.id != l.id)
      {
        const H x = sdd::local<C>(l2.id, w.o, hs[(i * 7 + j) % hs.size()]);
        same(S({L(a), x, L(b)}), S({x, L(S({a, b}))}), where() + " sum of locals at two levels");
        same(I({L(a), x, L(b)}), I({x, L(I({a, b}))}), where() + " intersection of locals at two levels");
        if (x != id && L(a) != id) MC_CHECK(x != L(a), "locals at different levels unified: " << where());
      }
      ++st().states;
    }
  }
  sample("documented simplifications for all operands among " + std::to_string(hs.size()) + " expressions of shape " + sn);
}

// Functions named by nested identifiers are local applications.
void
carried(const std::string& sn)
{
  use_policy("alt-lifo");
  auto m = sdd::init<C>(make_conf<C>(res("small")));
  const W w(make_shape(sn), "v", 0, false);
  std::map<std::string, H> made;
  for (const auto& v : w.vars) for (mask t0 = 0; t0 < 4; ++t0)
  {
    std::vector<mask> t{t0, 1}; t.resize(v.dom, 0);
    const H h = sdd::function<C>(w.o, v.id, vfun<C>{t, false, false, 0});
    same(h, sdd::function<C>(w.o, v.id, vfun<C>{t, false, false, 0}), "function on " + v.id);
    // the same through explicit local applications
    std::vector<std::string> path(v.path.begin(), v.path.end());
    std::sort(path.begin(), path.end(), [](const std::string& a, const std::string& b){ return a.size() < b.size(); });
    // orders of each hierarchy alone
    std::vector<O> orders{w.o};
    shape_ptr sh = w.s;
    std::string prefix = w.prefix;
    for (const auto& p : path)
    {
      sh = sh->levels[std::stoul(p.substr(prefix.size()))].nested;
      prefix = p + ".";
      orders.push_back(O(W::builder(*sh, prefix)));
    }
    H x = sdd::function<C>(orders.back(), v.id, vfun<C>{t, false, false, 0});
    for (std::size_t i = path.size(); i-- > 0;) x = sdd::local<C>(path[i], orders[i], x);
    same(h, x, "function on " + v.id + " and local applications");
    for (const auto& kv : made) MC_CHECK(kv.second != h, "functions " << kv.first << " and " << v.id << " unified");
    made.emplace(v.id + hex(t0), h);
    ++st().states;
  }
  sample("functions on each identifier of shape " + sn);
}

// the user-given leaf that decides whether an expression of leaves() or nested_leaves() is a selector
std::string
ts_hint(const ex& e)
{
  if (e->k == expr::leaf) return e->name;
  if (e->k == expr::id) return "id";
  return ts_hint(e->ops[0]);
}

template <typename E, typename F>
void
refused(const F& f, const std::string& what, sdd::manager<C>& m)
{
  const auto before = m.hom_stats().size;
  where() = what;
  bool ok = false;
  try { f(); MC_FAIL("accepted: " << what); }
  catch (const E& e) { ok = true; outcome(std::string(e.what())); }
  catch (const std::exception& e) { MC_FAIL("wrong exception for " << what << ": " << e.what()); }
  MC_CHECK(ok && m.hom_stats().size == before, "refusal of " << what << " left something behind");
  ++st().states; ++st().transitions; ++st().validated;
}

void
refusals(const std::string& sn)
{
  use_policy("down-lifo");
  auto m = sdd::init<C>(make_conf<C>(res("tiny")));
  const W w(make_shape(sn), "v", 0, false);
  std::vector<ex> l1 = leaves(w);
  for (auto& e : nested_leaves(w)) l1.push_back(e);
  std::vector<H> hs;
  for (const auto& e : l1) hs.push_back(build(e, w));
  const std::vector<H> none;
  for (unsigned round = 0; round < 3; ++round)
  {
    refused<std::invalid_argument>([&]{ sdd::sum<C>(w.o, none.begin(), none.end()); }, "empty sum", m);
    refused<std::invalid_argument>([&]{ sdd::sum<C>(w.o, std::initializer_list<H>{}); }, "empty sum", m);
    refused<std::invalid_argument>([&]{ sdd::intersection<C>(w.o, none.begin(), none.end()); }, "empty intersection", m);
    refused<std::invalid_argument>([&]{ sdd::intersection<C>(w.o, std::initializer_list<H>{}); }, "empty intersection", m);
    for (const char* bad : {"", "w", "v", "v00", "v0.", "v1.9", "no such identifier"})
    {
      refused<sdd::identifier_not_found_error<C>>([&]{ sdd::function<C>(w.o, bad, fun_a{1}); }, std::string("function on unknown ") + bad, m);
      for (const auto& h : hs)
        refused<sdd::identifier_not_found_error<C>>([&]{ sdd::local<C>(bad, w.o, h); }, std::string("local on unknown ") + bad, m);
    }
    for (std::size_t i = 0; i < hs.size(); ++i)
    {
      // whether an expression is a selector is known from how it was built
      bool sel = false;
      {
        const std::string n = ts_hint(l1[i]);
        sel = n.find("kind1") != std::string::npos || n == "dfa00" || n == "dfa10" || n.compare(0, 3, "ind") == 0 || n == "id";
      }
      MC_CHECK(hs[i].selector() == sel, "selector: " << text(l1[i]));
      for (const auto& t : hs)
      {
        if (!sel) refused<std::invalid_argument>([&]{ sdd::if_then_else<C>(hs[i], t, hs[0]); }, "predicate " + text(l1[i]), m);
        else { (void)sdd::if_then_else<C>(hs[i], t, hs[0]); ++st().transitions; }
      }
    }
  }
  // everything still there
  for (std::size_t i = 0; i < hs.size(); ++i) same(hs[i], build(l1[i], w), "after refusals: " + text(l1[i]));
  sample("all refused constructions over shape " + sn);
}

void
cells_()
{
  const std::string c = std::string(conf_name<C>::get()) + "/";
  struct P { const char* shape; const char* res; const char* pol; unsigned depth; bool th; };
  for (const auto& p : std::vector<P>{
         {"2,2", "tiny", "alt-lifo", 1, false}, {"(2),2", "small", "down-lifo", 1, false}, {"(2,2),(2)", "tiny", "up-fifo", 1, false}, {"2,(2)", "big", "up-lifo", 1, false},
         {"(2),2", "tiny", "alt-lifo", 2, false}, {"2,2", "small", "down-fifo", 2, false}, {"(2),(2,2)", "small", "alt-lifo", 2, false},
         {"(2,2),(2)", "big", "down-lifo", 2, true}, {"2,(2),2", "tiny", "up-lifo", 2, true} })
    add_cell(c + "unify/" + p.shape + "/" + p.res + "/" + p.pol + "/" + std::to_string(p.depth), [=]{ unify(p.shape, p.res, p.pol, p.depth); }, p.th);
  for (const char* s : {"2,2", "(2),2", "(2,2),(2)"})
  {
    add_cell(c + "sequences/" + s + "/4", [=]{ sequences(s, "small", "alt-lifo", 4); });
    add_cell(c + "sequences/" + s + "/5", [=]{ sequences(s, "tiny", "up-lifo", 5); }, true);
  }
  for (const char* r : {"tiny", "big"}) add_cell(c + std::string("saturations/") + r, [=]{ saturations(r, "down-lifo"); });
  add_cell(c + "laws/2,2", []{ laws("2,2", "small", "alt-lifo"); });
  add_cell(c + "laws/(2),2", []{ laws("(2),2", "tiny", "down-lifo"); });
  add_cell(c + "laws/(2),(2,2)", []{ laws("(2),(2,2)", "small", "up-lifo"); });
  add_cell(c + "laws/2,(2),(2)", []{ laws("2,(2),(2)", "big", "alt-lifo"); }, true);
  for (const char* s : {"2,2", "(2),2", "(2,2),(2)", "((2),2),2", "(((2,2)),2),(2)"}) add_cell(c + std::string("carried/") + s, [=]{ carried(s); });
  for (const char* s : {"2,2", "(2),2", "(2,2),(2)"}) add_cell(c + std::string("refusals/") + s, [=]{ refusals(s); });
}
const registrar reg(cells_);

} // namespace
