// C07: evaluation of homomorphisms; C08: rewriting and saturation.
#include "homs.hh"
#include "sdd/order/strategies/identifiers_per_hierarchy.hh"

using namespace mc;
using C = sdd::CONF;
using SDD = sdd::SDD<C>;
using W = world<C>;
using T = term<C>;

namespace {

enum mode { plain, rewritten };

struct env
{
  sdd::manager<C> m;
  W w;
  env(const std::string& sn, const std::string& rn, const std::string& pn, unsigned ren = 0)
    : m((use_policy(pn), sdd::init<C>(make_conf<C>(res(rn))))), w(make_shape(sn), "v", ren)
  {}
};

// nested expressions of each hierarchical level, as local applications
std::vector<T>
locals(const W& w, bool small)
{
  std::vector<T> r;
  for (const auto& l : w.hiers)
  {
    W nw(l.nested, l.prefix, w.b.renaming);
    auto nb = small ? nw.small_base() : nw.base(true);
    for (const auto& t : nb) r.push_back(w.local(l, t));
    const auto sb = nw.small_base();
    r.push_back(w.local(l, nw.sum({sb[0], sb[1]})));
    r.push_back(w.local(l, nw.fix(nw.sum({nw.id(), sb[1], sb.back()}))));
    r.push_back(w.local(l, W::comp(sb[2], sb[0])));
    r.push_back(w.local(l, nw.inter({sb[0], sb.back()})));
    r.push_back(w.local(l, nw.ite(sb[0], sb[1], sb[3])));
    for (auto& n : locals(nw, true)) r.push_back(w.local(l, n)); // deeper
  }
  return r;
}

std::vector<T>
full_base(const W& w)
{
  auto r = w.base(true);
  for (auto& t : locals(w, false)) r.push_back(t);
  r.push_back(w.id());
  return r;
}

std::vector<T>
reduced_base(const W& w)
{
  auto r = w.small_base();
  if (!w.hiers.empty())
  {
    const auto l = locals(w, true);
    // the last five kinds of the first and last hierarchical levels
    for (std::size_t i = 0; i < l.size(); i += std::max<std::size_t>(1, l.size() / 6)) r.push_back(l[i]);
  }
  r.push_back(w.id());
  return r;
}

std::vector<T>
selectors(const std::vector<T>& ts)
{
  std::vector<T> r;
  for (const auto& t : ts) if (t.h.selector()) r.push_back(t);
  return r;
}

void
done(const std::string& what, const W& w)
{
  sample(what + " over shape " + w.s->name + " on all its sets; last: " + where());
}

void
unary(const std::string& sn, const std::string& rn, const std::string& pn, mode md)
{
  env e(sn, rn, pn, 1); const W& w = e.w;
  const auto sets = w.all_sets();
  for (const auto& t : full_base(w))
  {
    w.check(t, md == rewritten, sets);
    if (W::can_fix(t)) w.check(W::fix(t), md == rewritten, sets);
    const auto r = w.sum({w.id(), t});
    w.check(r, md == rewritten, sets);
    w.check(W::fix(r), md == rewritten, sets);
    w.check(W::comp(t, t), md == rewritten, sets);
  }
  done("every base expression, its closure and its square", w);
}

void
binary(const std::string& sn, const std::string& op, const std::string& rn, const std::string& pn, mode md)
{
  env e(sn, rn, pn); const W& w = e.w;
  const auto sets = w.n() <= 8 ? w.all_sets() : w.basis();
  const auto bs = w.n() <= 6 ? full_base(w) : reduced_base(w);
  if (op == "sum")
    for (std::size_t i = 0; i < bs.size(); ++i) for (std::size_t j = 0; j < i; ++j) w.check(w.sum({bs[i], bs[j]}), md == rewritten, sets);
  if (op == "comp")
    for (const auto& a : bs) for (const auto& b : bs) w.check(W::comp(a, b), md == rewritten, sets);
  if (op == "inter")
  {
    const auto sl = selectors(full_base(w));
    for (std::size_t i = 0; i < sl.size(); ++i) for (std::size_t j = 0; j < i; ++j)
    {
      w.check(w.inter({sl[i], sl[j]}), md == rewritten, sets);
      w.check(w.sum({sl[i], sl[j]}), md == rewritten, sets);
      for (std::size_t k = 0; k < j; k += 2) w.check(w.inter({sl[i], sl[j], sl[k]}), md == rewritten, w.basis());
    }
  }
  if (op == "closure")
    for (std::size_t i = 0; i < bs.size(); ++i) for (std::size_t j = 0; j < i; ++j)
      w.check(W::fix(w.sum({w.id(), bs[i], bs[j]})), md == rewritten, sets);
  if (op == "ite")
  {
    const auto sl = selectors(full_base(w)); const auto rb = reduced_base(w);
    const auto some = w.basis();
    for (const auto& p : sl) for (const auto& a : rb) for (const auto& b : rb) w.check(w.ite(p, a, b), md == rewritten, some);
  }
  done("every pair for " + op, w);
}

// composed expressions of depth three
void
deep( const std::string& sn, const std::string& op, const std::string& rn, const std::string& pn, mode md, std::size_t part = 0
    , std::size_t parts = 1)
{
  env e(sn, rn, pn); const W& w = e.w;
  const auto sets = w.basis();
  const auto bs = reduced_base(w);
  const auto sl = selectors(bs);
  std::vector<T> two;
  for (std::size_t i = 0; i < bs.size(); ++i) for (std::size_t j = 0; j < bs.size(); ++j)
  {
    two.push_back(W::comp(bs[i], bs[j]));
    if (j < i) two.push_back(w.sum({bs[i], bs[j]}));
  }
  for (const auto& p : sl) for (std::size_t i = 0; i + 1 < bs.size(); i += 3) two.push_back(w.ite(p, bs[i], bs[i + 1]));
  for (std::size_t i = part; i < two.size(); i += parts)
  {
    if (op == "fix") { w.check(W::fix(w.sum({w.id(), two[i]})), md == rewritten, sets); }
    for (std::size_t j = 0; j < bs.size(); ++j)
    {
      if (op == "comp") { w.check(W::comp(two[i], bs[j]), md == rewritten, sets); w.check(W::comp(bs[j], two[i]), md == rewritten, sets); }
      if (op == "sum") w.check(w.sum({two[i], bs[j], w.id()}), md == rewritten, sets);
      if (op == "fix") w.check(W::fix(w.sum({two[i], bs[j], w.id()})), md == rewritten, sets);
    }
    if (op == "comp2")
      for (std::size_t j = 0; j < two.size(); ++j) w.check(W::comp(two[i], two[j]), md == rewritten, sets);
    if (op == "fix2")
      for (std::size_t j = 0; j < i; ++j) w.check(W::fix(w.sum({two[i], two[j], w.id()})), md == rewritten, sets);
  }
  done("expressions of depth three, " + op, w);
}

/*------------------------------------------------------------------------------------------------*/
// All the operands at once: every subset of a pool in which several operands skip the first level,
// several are local to it and several concern it together with others.

void
families(const std::string& sn, const std::string& op, const std::string& rn, const std::string& pn, mode md)
{
  env e(sn, rn, pn); const W& w = e.w;
  const auto sets = w.basis();
  std::vector<T> pool;
  const auto table = [](const W::var& v, unsigned k){ return W::tables(v.dom)[k]; };
  const auto& first = w.vars.front(); const auto& last = w.vars.back();
  if (op == "inter")
  {
    for (const auto& v : w.vars) if (pool.size() < 4) { const auto t = table(v, pool.size() % v.dom); pool.push_back(w.function(v, t.first, 1)); }
    pool.push_back(w.automaton(2, 1, 1, true)); pool.push_back(w.automaton(2, 0, 1, true)); pool.push_back(w.automaton(3, 1, 1, true));
    pool.push_back(W::comp(w.function(first, table(first, 0).first, 1), w.function(last, table(last, 1).first, 1)));
    pool.push_back(w.sum({w.function(first, table(first, 1).first, 1), w.function(last, table(last, 0).first, 1)}));
  }
  else
  {
    for (const auto& v : w.vars) if (pool.size() < 4)
    {
      const auto t = table(v, v.dom + (pool.size() % 2 ? 3 : 6));
      pool.push_back(w.function(v, t.first, t.second));
    }
    pool.push_back(w.automaton(2, 1, 1, true));
    const auto inc = table(first, first.dom + 3), rst = table(first, first.dom + 5), linc = table(last, last.dom + 3), lrst = table(last, last.dom + 5);
    pool.push_back(W::comp(w.function(first, inc.first, inc.second), w.function(last, lrst.first, lrst.second)));
    pool.push_back(W::comp(w.function(last, linc.first, linc.second), w.function(first, rst.first, rst.second)));
    pool.push_back(W::comp(w.function(first, rst.first, rst.second), w.automaton(3, 2, 1, false)));
  }
  pool.push_back(w.id());
  for (std::size_t sub = 1; sub < (std::size_t(1) << pool.size()); ++sub)
  {
    std::vector<T> ops;
    for (std::size_t i = 0; i < pool.size(); ++i) if (sub >> i & 1) ops.push_back(pool[i]);
    if (op == "inter") w.check(w.inter(ops), md == rewritten, sets);
    if (op == "sum") w.check(w.sum(ops), md == rewritten, sets);
    if (op == "closure" && (sub >> (pool.size() - 1) & 1)) w.check(W::fix(w.sum(ops)), md == rewritten, sets);
  }
  done("every subset of " + std::to_string(pool.size()) + " operands for " + op, w);
}

/*------------------------------------------------------------------------------------------------*/
// Inductive homomorphisms and prefixing.

void
automata(const std::string& sn, const std::string& rn, const std::string& pn, mode md)
{
  env e(sn, rn, pn); const W& w = e.w;
  const auto sets = w.n() <= 9 ? w.all_sets() : w.basis();
  for (int mod = 1; mod <= 4; ++mod) for (int acc = 0; acc < mod; ++acc) for (int weight = 0; weight < 3; ++weight) for (bool sel : {false, true})
  {
    const auto a = w.automaton(mod, acc, weight, sel);
    w.check(a, md == rewritten, sets);
    for (const auto& v : w.vars)
    {
      const auto ts = W::tables(v.dom);
      const auto f = w.function(v, ts[v.dom + 1].first, 2);
      w.check(W::comp(a, f), md == rewritten, w.basis());
      w.check(W::fix(w.sum({w.id(), W::comp(f, a)})), md == rewritten, w.basis());
      if (sel) w.check(w.ite(a, f, w.constant(1)), md == rewritten, w.basis());
    }
  }
  for (const auto& v : w.vars) for (const auto& t : W::tables(v.dom))
  {
    const auto i = w.targeted_inductive(v, t.first, t.second == 1);
    w.check(i, md == rewritten, sets);
    w.check(W::fix(w.sum({w.id(), i})), md == rewritten, sets);
    w.check(w.sum({i, w.function(w.vars[0], W::tables(w.vars[0].dom)[0].first, 1)}), md == rewritten, w.basis());
  }
  done("automata and targeted inductives", w);
}

void
prefixing(const std::string& sn, const std::string& rn, const std::string& pn)
{
  env e(sn, rn, pn); const W& w = e.w;
  // the tail of the shape
  auto ts = std::make_shared<shape>(); ts->name = "tail of " + sn;
  ts->levels.assign(w.s->levels.begin() + 1, w.s->levels.end());
  const unsigned rest = ts->count();
  const auto& top = w.s->levels[0];
  // expressions on the tail are built with the whole order, evaluated from o.next()
  std::vector<T> tail;
  tail.push_back({sdd::id<C>(), {}, "id"});
  for (unsigned k = 0; k < rest; ++k) tail.back().f.push_back(mask(1) << k);
  for (const auto& v : w.vars)
  {
    if (v.stride >= rest || !v.path.empty()) continue;
    for (const auto& t : W::tables(v.dom))
    {
      T x = w.function(v, t.first, t.second);
      x.f.resize(rest); // the first block: top digit 0
      tail.push_back(x);
    }
  }
  for (mask v = 0; v <= full(top.size()); ++v) for (const auto& t : tail)
  {
    const auto h = top.nested ? sdd::cons<C>(w.o, w.b.grouped(*top.nested, v), t.h) : sdd::cons<C>(w.o, w.b.values(v), t.h);
    MC_CHECK(!h.selector(), "prefixing can't be a selector");
    for (mask x = 0; x <= full(rest); ++x)
    {
      where() = sn + " cons(" + hex(v) + ", " + t.name + ") on " + hex(x);
      const mask y = image(t.f, x);
      mask want = 0;
      for (unsigned k = 0; k < top.size(); ++k) if (v >> k & 1) want |= y << (k * rest);
      SDD tl = sdd::zero<C>();
      {
        // the tail has its own shape: variables are those of the lower levels
        bridge<C> b; tl = b.grouped(*ts, x);
      }
      w.b.expect(h(w.o.next(), tl), *w.s, want, where().c_str());
      // the same as the continuation of a constant: const, then nothing else is looked at
      ++st().transitions;
    }
    ++st().states;
  }
  done("all prefixes of all tails", w);
}

/*------------------------------------------------------------------------------------------------*/
// Transition systems: the reachable states by saturation, whatever the hierarchy.

void
systems(const std::string& sn, const std::string& rn, const std::string& pn, unsigned k, unsigned part, unsigned parts)
{
  env e(sn, rn, pn); const W& w = e.w;
  // guarded commands: if variable i has value a (or no guard) then apply table t to variable j
  std::vector<T> cmds;
  for (const auto& g : w.vars) for (unsigned a = 0; a <= (g.dom > 2 ? 1u : g.dom - 1); ++a) for (const auto& v : w.vars)
  {
    const auto ts = W::tables(v.dom);
    std::vector<mask> keep(g.dom); keep[a] = mask(1) << a;
    for (unsigned t : {v.dom + 3, v.dom + 5}) // partial increment, reset
      cmds.push_back(W::comp(w.function(v, ts[t].first, ts[t].second), w.function(g, keep, 1)));
  }
  // a synchronous move of two variables
  for (std::size_t i = 0; i + 1 < w.vars.size(); ++i)
  {
    const auto& u = w.vars[i]; const auto& v = w.vars[i + 1];
    cmds.push_back(W::comp(w.function(u, W::tables(u.dom)[u.dom + 1].first, 2), w.function(v, W::tables(v.dom)[v.dom + 1].first, 3)));
  }
  std::vector<mask> init;
  for (unsigned x = 0; x < w.n(); ++x) init.push_back(mask(1) << x);
  std::vector<std::size_t> idx(k);
  for (std::size_t i = 0; i < k; ++i) idx[i] = i;
  std::uint64_t count = 0;
  while (true)
  {
    if (count++ % parts == part)
    {
      std::vector<T> ops{w.id()};
      for (auto i : idx) ops.push_back(cmds[i]);
      const auto t = W::fix(w.sum(ops));
      w.check(t, true, init);
      w.check(t, false, init);
    }
    std::size_t p = k;
    while (p-- > 0) if (idx[p] < cmds.size() - k + p) break;
    if (p == std::size_t(-1)) break;
    ++idx[p];
    for (std::size_t q = p + 1; q < k; ++q) idx[q] = idx[q - 1] + 1;
  }
  sample("all systems of " + std::to_string(k) + " commands among " + std::to_string(cmds.size()) + " over " + sn);
}

/*------------------------------------------------------------------------------------------------*/
// Token ring of n stations: closed form of the reachable set, compared for several hierarchies.

void
ring(unsigned nmax, const std::string& rn, const std::string& pn)
{
  use_policy(pn);
  auto m = sdd::init<C>(make_conf<C>(res(rn)));
  const auto keep = [](unsigned a){ return vfun<C>{{a == 0 ? 1u : 0u, a == 1 ? 2u : 0u}, true, false, 0}; };
  const auto put = [](unsigned a){ return vfun<C>{{mask(1) << a, mask(1) << a}, false, false, 0}; };
  for (unsigned n = 2; n <= nmax; ++n) for (unsigned group = 1; group <= 4; ++group)
  {
    std::vector<std::string> ids;
    for (unsigned i = 0; i < n; ++i) ids.push_back("s" + std::to_string(i));
    sdd::order_builder<C> ob(ids.begin(), ids.end());
    if (group > 1) ob = sdd::identifiers_per_hierarchy<C>(group)(ob);
    const sdd::order<C> o(ob);
    std::vector<sdd::homomorphism<C>> ts{sdd::id<C>()};
    for (unsigned i = 0; i < n; ++i) // the token moves from i to i+1; it may be duplicated only by station 0
    {
      const auto& a = ids[i]; const auto& b = ids[(i + 1) % n];
      ts.push_back(sdd::composition<C>( sdd::function<C>(o, b, put(1))
                 , sdd::composition<C>(sdd::function<C>(o, a, put(0))
                 , sdd::composition<C>(sdd::function<C>(o, b, keep(0)), sdd::function<C>(o, a, keep(1))))));
    }
    for (unsigned tokens = 0; tokens <= std::min(n, 3u); ++tokens)
    {
      where() = "ring of " + std::to_string(n) + " stations, groups of " + std::to_string(group) + ", " + std::to_string(tokens) + " tokens";
      bridge<C> b;
      const SDD init(o, [&](const std::string& id){ return b.values(std::stoul(id.substr(1)) < tokens ? 2 : 1); });
      const auto h = sdd::fixpoint<C>(sdd::sum<C>(o, ts.begin(), ts.end()));
      const auto r = sdd::rewrite<C>(o, h);
      const SDD x = r(o, init), y = h(o, init);
      MC_CHECK(x == y, where() << ": rewritten and original fixpoints differ");
      // binomial(n, tokens) states
      std::uint64_t c = 1;
      for (unsigned k = 0; k < tokens; ++k) c = c * (n - k) / (k + 1);
      MC_CHECK(x.size() == c, where() << ": " << x.size() << " states instead of " << c);
      st().transitions += 2; st().validated += 2; ++st().states;
    }
  }
  sample("rings of 2.." + std::to_string(nmax) + " stations, 4 hierarchies each");
}

/*------------------------------------------------------------------------------------------------*/
// Known finding: the evaluation cache identifies an application by the homomorphism and its operand
// only. An inductive homomorphism which looks at identifiers gives different results on equal nested
// diagrams found at different levels; the second one is answered with the first one.

void
stale_inductive()
{
  use_policy("up-lifo");
  auto m = sdd::init<C>(make_conf<C>(res("big")));
  bridge<C> b;
  using OB = sdd::order_builder<C>;
  const sdd::order<C> o(OB("x", OB("a")) << OB("y", OB("d")));
  // the identifier d exists below y only: below x the inductive has nothing to do
  const auto h = sdd::inductive<C>(targeted<C>{"d", {}, {2, 2}, false, 0});
  const SDD n(0u, b.values(1), sdd::one<C>());
  const SDD s(1u, n, SDD(0u, n, sdd::one<C>()));
  const SDD want(1u, n, SDD(0u, SDD(0u, b.values(2), sdd::one<C>()), sdd::one<C>()));
  const auto lx = sdd::local<C>("x", o, h), ly = sdd::local<C>("y", o, h);
  const SDD x = lx(o, s); // nothing to do: x has no identifier d
  MC_CHECK(x == s, "an inductive homomorphism which skips everything changed its operand");
  const SDD y = ly(o, s);
  if (y != want) st().known.push_back("stale-inductive-other-identifiers");
  m.reset_hom_cache();
  MC_CHECK(ly(o, s) == want, "after a reset of the cache: " << ly(o, s));
  st().states = 1; st().transitions = 3; st().validated = 2;
  sample("local x of an inductive on d, then local y of the same inductive, equal nested diagrams");
}

void
cells_()
{
  const std::string c = std::string(conf_name<C>::get()) + "/";
  struct S { const char* shape; const char* res; const char* pol; bool th; };
  const std::vector<S> shapes = {
    {"2,2", "small", "up-lifo", false}, {"3,2", "evict", "alt-lifo", false}, {"2,2,2", "small", "down-lifo", false},
    {"(2),2", "tiny", "up-lifo", false}, {"2,(3)", "small", "alt-lifo", false}, {"(2,2),2", "evict", "up-lifo", false},
    {"2,(2,2)", "small", "down-lifo", false}, {"(2),(2)", "tiny", "alt-lifo", false}, {"((2),2),2", "small", "up-lifo", false},
    {"((2,2))", "big", "up-lifo", false}, {"(2),(2),2", "page", "alt-lifo", false},
  };
  for (mode md : {plain, rewritten})
  {
    const std::string p = c + (md == plain ? "eval/" : "rewrite/");
    for (const auto& s : shapes)
    {
      add_cell(p + "unary/" + s.shape, [=]{ unary(s.shape, s.res, s.pol, md); }, s.th);
      for (const char* op : {"sum", "comp", "inter", "closure", "ite"})
        add_cell(p + op + "/" + s.shape, [=]{ binary(s.shape, op, s.res, s.pol, md); }, s.th);
      for (const char* op : {"comp", "sum", "fix"})
        add_cell(p + "deep-" + op + "/" + s.shape, [=]{ deep(s.shape, op, s.res, s.pol, md); }, std::string(s.shape) == "2,2,2");
      for (const char* op : {"comp2", "fix2"}) for (unsigned q = 0; q < 4; ++q)
        add_cell( p + "deep-" + op + "/" + s.shape + "/" + std::to_string(q)
                , [=]{ deep(s.shape, op, s.res, s.pol, md, q, 4); }, true);
      for (const char* op : {"inter", "sum", "closure"})
        add_cell(p + "families-" + op + "/" + s.shape, [=]{ families(s.shape, op, s.res, s.pol, md); });
      add_cell(p + "automata/" + s.shape, [=]{ automata(s.shape, s.res, s.pol, md); }, s.th);
    }
  }
  for (const auto& s : shapes)
    if (std::string(s.shape) != "((2,2))") add_cell(c + "eval/cons/" + s.shape, [=]{ prefixing(s.shape, s.res, s.pol); });
  add_cell(c + "eval/stale-inductive", stale_inductive);
  for (const char* s : {"2,2,2", "(2,2),2", "2,(2,2)", "(2),(2),(2)", "(2,2,2)", "((2),2),2", "2,(2,(2))", "((2),(2)),2"})
  {
    add_cell(c + "rewrite/systems2/" + s, [=]{ systems(s, "small", "alt-lifo", 2, 0, 1); });
    add_cell(c + "rewrite/systems3/" + s, [=]{ systems(s, "page", "down-lifo", 3, 0, 1); });
    for (unsigned q = 0; q < 8; ++q)
      add_cell(c + "rewrite/systems4/" + s + "/" + std::to_string(q), [=]{ systems(s, "small", "up-lifo", 4, q, 8); }, true);
  }
  for (const char* s : {"3,3", "(3),3", "(3),(3)", "(3,3)"})
    add_cell(c + "rewrite/systems2/" + s, [=]{ systems(s, "evict", "alt-lifo", 2, 0, 1); });
  add_cell(c + "rewrite/ring", []{ ring(12, "page", "up-lifo"); });
  add_cell(c + "rewrite/ring/small", []{ ring(6, "small", "alt-lifo"); });
}
const registrar reg(cells_);

} // namespace
