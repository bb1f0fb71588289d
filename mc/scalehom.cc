// C07, C08, C09 (and C03 for applications) on larger instances.
#include <unordered_map>
#include "scale.hh"

using namespace mc;
using C = sdd::CONF;
using SDD = sdd::SDD<C>;
using H = sdd::homomorphism<C>;
using O = sdd::order<C>;
using S = scale<C>;
using vb = values_bridge<C::Values>;

#include "scalehom.hh"

namespace {

std::vector<unsigned>
sizes(const std::string& which)
{
  if (which == "low") { std::vector<unsigned> r; for (unsigned i = 1; i <= 12; ++i) r.push_back(i); return r; }
  if (which == "mid") return {16, 17, 24, 33};
  if (which == "high") return {64, 65, 129};
  abort();
}

std::vector<frame>
frames(char kind, unsigned n)
{
  if (kind == 'g') return {make_frame('g', n, 1), make_frame('g', n, 3), make_frame('g', n, n)};
  if (kind == 'd') return {make_frame('d', n, std::min(n, 20u)), make_frame('d', n, 2)};
  return {make_frame(kind, n)};
}

// A function on each level alone.
void
levels(bool rw, char kind, const std::string& which, const std::string& rn, const std::string& pn)
{
  use_policy(pn);
  auto m = sdd::init<C>(make_conf<C>(res(rn)));
  for (unsigned n : sizes(which)) for (const auto& f : frames(kind, n))
  {
    const world_t w(f, rw);
    const auto fam = families(n);
    std::vector<SDD> h; for (const auto& x : fam) h.push_back(S::build(f, x.second, 0));
    for (unsigned i = 0; i < n; ++i)
    {
      const std::vector<gfun> gs = {rot(dom_of(n)), keep1, drop0u, dec, any2, set1};
      for (std::size_t g = 0; g < gs.size(); ++g)
      {
        const term_t t = w.fun(i, gs[g]);
        const std::size_t a = (i + g) % fam.size(), b = (i + g + 3) % fam.size();
        w.check(t, h[a], fam[a].second, fam[a].first);
        if (n < 20) w.check(w.sum({world_t::id(), t}), h[b], fam[b].second, fam[b].first + " id +");
      }
    }
  }
  sample("functions on each of n levels, frames of kind " + std::string(1, kind));
}

// Chains of n operands.
void
chains(bool rw, char kind, const std::string& which, const std::string& rn, const std::string& pn)
{
  use_policy(pn);
  auto m = sdd::init<C>(make_conf<C>(res(rn)));
  for (unsigned n : sizes(which)) for (const auto& f : frames(kind, n))
  {
    const world_t w(f, rw);
    const auto fam = families(n);
    std::vector<SDD> h; for (const auto& x : fam) h.push_back(S::build(f, x.second, 0));
    std::vector<term_t> r, d, k, in;
    for (unsigned i = 0; i < n; ++i)
    {
      r.push_back(w.fun(i, rot(dom_of(n)))); d.push_back(w.fun(i, drop2)); k.push_back(w.fun(i, i % 2 ? any2 : inc(3))); in.push_back(w.fun(i, keep0));
    }
    term_t left = world_t::id(), right = world_t::id(), cond = world_t::id(), deepite = world_t::id();
    for (unsigned i = 0; i < n; ++i)
    {
      left = world_t::comp(r[i], left); right = world_t::comp(right, r[i]);
      cond = world_t::ite(in[i], cond, r[i]);
      deepite = world_t::ite(d[i], r[n - 1 - i], deepite);
    }
    left.name = "composition to the left"; right.name = "composition to the right"; cond.name = "conditionals"; deepite.name = "conditionals in else";
    term_t s = w.sum(r), s2 = w.sum(k), x = w.inter(d); s.name = "sum of rotations"; s2.name = "sum of others"; x.name = "intersection of selectors";
    term_t chain = world_t::id(); for (unsigned i = 0; i < n; ++i) chain = world_t::comp(d[i], chain); chain.name = "composition of selectors";
    term_t allbut = w.sum(d); allbut.name = "sum of selectors";
    term_t mix = world_t::comp(s, x); mix.name = "sum after selectors";
    const std::vector<std::size_t> on = n > 40 ? std::vector<std::size_t>{0, 6} : std::vector<std::size_t>{0, 1, 2, 3, 4, 5, 6, 7};
    for (std::size_t a : on)
    {
      for (const auto& t : {left, right, s, x, chain, allbut, mix, cond, deepite}) w.check(t, h[a], fam[a].second, fam[a].first);
      if (n < 40) w.check(s2, h[a], fam[a].second, fam[a].first);
    }
    // all but one operand
    for (unsigned skip = 0; skip < n; skip += 1 + n / 6)
    {
      auto r2 = r; r2.erase(r2.begin() + skip); auto d2 = d; d2.erase(d2.begin() + skip);
      if (r2.empty()) continue;
      w.check(w.sum(r2), h[0], fam[0].second, "all but " + std::to_string(skip));
      w.check(w.inter(d2), h[3], fam[3].second, "all but " + std::to_string(skip));
    }
  }
  sample("compositions, sums, intersections and conditionals of n operands, frames of kind " + std::string(1, kind));
}

// Rings, counters, ladders: fixpoints.
void
rings(bool rw, char kind, const std::vector<unsigned>& ns, const std::string& rn, const std::string& pn)
{
  use_policy(pn);
  auto m = sdd::init<C>(make_conf<C>(res(rn)));
  for (unsigned n : ns) for (const auto& f : frames(kind, n))
  {
    if (n < 2) continue;
    const world_t w(f, rw);
    std::vector<term_t> ts{world_t::id()};
    for (unsigned i = 0; i < n; ++i) ts.push_back(world_t::comp(w.fun((i + 1) % n, inc(1)), w.fun(i, dec)));
    const H ring = w.ready(sdd::fixpoint<C>(w.sum(ts).h));
    for (unsigned i = 0; i < n; i += 1 + n / 8)
    {
      where() = f.name + " ring, token at " + std::to_string(i);
      word s(n, 0); s[i] = 1;
      S::expect(ring(w.o, S::single(f, s)), f, one_hot(n), where());
      ++st().states;
    }
    // several tokens
    for (unsigned t : {2u, 3u})
    {
      if (t >= n || (n > 12 && t > 2) || n > 33) continue;
      word s(n, 0); for (unsigned i = 0; i < t; ++i) s[i] = 1;
      lang want;
      for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < i; ++j)
      {
        word x(n, 0); x[i] = x[j] = 1;
        if (t == 2) want.insert(x); else for (unsigned k = 0; k < j; ++k) { word y(x); y[k] = 1; want.insert(y); }
      }
      S::expect(ring(w.o, S::single(f, s)), f, want, "ring with " + std::to_string(t) + " tokens");
      ++st().states;
    }
    // a ring cut at each place: the token stops there
    for (unsigned cut = 0; cut < n; cut += 1 + n / 5)
    {
      auto t2 = ts; t2.erase(t2.begin() + 1 + cut);
      const H h = w.ready(sdd::fixpoint<C>(w.sum(t2).h));
      word s(n, 0); s[0] = 1;
      lang want; for (unsigned i = 0; i <= cut; ++i) { word x(n, 0); x[i] = 1; want.insert(x); }
      S::expect(h(w.o, S::single(f, s)), f, want, "ring cut at " + std::to_string(cut));
      ++st().states;
    }
    // independent counters: the product
    {
      std::vector<term_t> cs{world_t::id()};
      for (unsigned i = 0; i < n; ++i) cs.push_back(w.fun(i, inc(2)));
      const H h = w.ready(sdd::fixpoint<C>(w.sum(cs).h));
      where() = f.name + " counters";
      if (rw || n <= 24)
      {
        const SDD y = h(w.o, S::single(f, word(n, 0)));
        MC_CHECK(y == S::product(f, std::vector<std::vector<unsigned>>(n, {0, 1, 2})), "counters: " << y.size() << " words instead of 3^" << n);
        ++st().validated; ++st().transitions; ++st().states;
      }
    }
    // steps: level i can only be set once level i-1 is
    {
      std::vector<term_t> cs{world_t::id(), world_t::comp(w.fun(0, inc(1)), world_t::id())};
      for (unsigned i = 1; i < n; ++i) cs.push_back(world_t::comp(w.fun(i, inc(1)), w.fun(i - 1, keep1)));
      const H h = w.ready(sdd::fixpoint<C>(w.sum(cs).h));
      S::expect(h(w.o, S::single(f, word(n, 0))), f, steps(n), "steps");
      ++st().states;
    }
    // a fixpoint which removes: words with a 1 lose it
    {
      std::vector<term_t> cs;
      for (unsigned i = 0; i < n; ++i) cs.push_back(world_t::ite(w.fun(i, keep1), w.fun(i, dec), world_t::id()));
      term_t all = world_t::id(); for (const auto& c : cs) all = world_t::comp(c, all);
      const H h = w.ready(sdd::fixpoint<C>(all.h));
      S::expect(h(w.o, S::build(f, steps(n), 0)), f, {word(n, 0)}, "removal of all the ones");
      ++st().states;
    }
  }
  sample("fixpoints on rings, counters and steps of n levels, frames of kind " + std::string(1, kind));
}

// One level with many values: as many iterations.
void
counter(bool rw, const std::vector<unsigned>& ns, const std::string& rn, const std::string& pn)
{
  use_policy(pn);
  auto m = sdd::init<C>(make_conf<C>(res(rn)));
  for (unsigned n : ns) for (const auto& f : {make_frame('f', 1), make_frame('g', 1, 1), make_frame('m', 3), make_frame('d', 4, 4)})
  {
    const world_t w(f, rw);
    const unsigned i = f.n - 1;
    const H h = w.ready(sdd::fixpoint<C>(w.sum({world_t::id(), w.fun(i, inc(n))}).h));
    for (unsigned from : {0u, 1u, n / 2, n})
    {
      lang want; for (unsigned v = std::min(from, n); v <= n; ++v) { word x(f.n, 0); x[i] = static_cast<unsigned short>(v); want.insert(x); }
      word s(f.n, 0); s[i] = static_cast<unsigned short>(std::min(from, n));
      S::expect(h(w.o, S::single(f, s)), f, want, "counter up to " + std::to_string(n));
      ++st().states;
    }
    // relation between two levels: v -> (v, v+1), node with n arcs
    if (f.n < 2) continue;
    lang rel; for (unsigned v = 0; v <= n; ++v) { word x(f.n, 0); x[0] = static_cast<unsigned short>(v); x[i] = static_cast<unsigned short>((v * 7 + 1) % (n + 1)); rel.insert(x); }
    const SDD d = S::build(f, rel, 0);
    for (const auto& t : {w.fun(0, rot(n + 1)), w.fun(i, rot(n + 1)), w.fun(0, drop2), w.fun(i, drop0u), w.fun(0, dec), w.fun(i, set1), w.fun(0, set1), w.fun(0, any2)})
      w.check(t, d, rel, "relation over " + std::to_string(n + 1));
  }
  sample("fixpoints of as many iterations as values, functions on nodes with as many arcs");
}

void
inductives(bool rw, char kind, const std::string& which, const std::string& rn, const std::string& pn)
{
  use_policy(pn);
  auto m = sdd::init<C>(make_conf<C>(res(rn)));
  // a nested application per residue and level of nesting: the cost is exponential in the depth when the cache is small
  for (unsigned n : sizes(which)) for (const auto& f : kind == 'd' ? std::vector<frame>{make_frame('d', n, 2), make_frame('d', n, 3)} : frames(kind, n))
  {
    const world_t w(f, rw);
    const auto fam = families(n);
    for (std::size_t a = 0; a < fam.size(); ++a) for (unsigned mod : {2u, 3u, 5u})
    {
      if (n > 20 && (a + mod) % 3) continue;
      for (unsigned q = 0; q < mod; ++q)
      {
        const term_t t{sdd::inductive<C>(summod{q, mod}), [=](const word& x) { unsigned s = 0; for (auto v : x) s += v; return s % mod == q ? lang{x} : lang{}; }
                      , "sum mod " + std::to_string(mod) + " = " + std::to_string(q)};
        w.check(t, S::build(f, fam[a].second, 0), fam[a].second, fam[a].first);
        if (q == 0 && n <= 20)
        {
          w.check(w.inter({t, w.fun(n - 1, drop2), w.fun(0, drop1)}), S::build(f, fam[a].second, 1), fam[a].second, fam[a].first + " with selectors");
          w.check(world_t::ite(t, w.fun(n / 2, set1), w.fun(n / 2, any2)), S::build(f, fam[a].second, 1), fam[a].second, fam[a].first + " conditional");
          w.check(w.sum({t, w.fun(n / 2, set1)}), S::build(f, fam[a].second, 1), fam[a].second, fam[a].first + " sum");
        }
      }
    }
    // prefixing all the levels one by one
    {
      H c = sdd::id<C>();
      std::vector<O> os; O o = w.o; for (std::size_t i = 0; i < f.levels.size(); ++i) { os.push_back(o); o = o.next(); }
      std::size_t at = f.n; std::vector<std::vector<unsigned>> vs(f.n);
      for (unsigned i = 0; i < f.n; ++i) vs[i] = {i % 5, i % 5 + 1, 7};
      for (std::size_t i = f.levels.size(); i-- > 0;)
      {
        const unsigned k = leaves(f.levels[i]); at -= k;
        std::vector<std::vector<unsigned>> sub(vs.begin() + static_cast<long>(at), vs.begin() + static_cast<long>(at + k));
        if (f.levels[i].nested.empty()) c = sdd::cons<C>(os[i], vb::make(sub[0]), c);
        else { std::size_t z = 0; c = sdd::cons<C>(os[i], S::product(f.levels[i].nested, sub, z), c); }
      }
      where() = f.name + " prefixing";
      MC_CHECK(c(w.o, sdd::one<C>()) == S::product(f, vs), "prefixing |1| with all the levels: " << f.name);
      ++st().states; ++st().transitions; ++st().validated;
    }
  }
  sample("inductive homomorphisms and prefixing over n levels, frames of kind " + std::string(1, kind));
}

// C03: a list of applications, first with plenty of resources, then with few, with resets and in reverse.
void
applications(char kind, unsigned n, const std::string& pn)
{
  use_policy(pn);
  for (const auto& rn : {"tiny", "small", "evict", "page", "big"})
  {
    auto m = sdd::init<C>(make_conf<C>(res(rn)));
    for (const auto& f : frames(kind, n)) for (unsigned round = 0; round < 3; ++round)
    {
      const world_t w(f, round == 1);
      const auto fam = families(n);
      std::vector<SDD> h; for (const auto& x : fam) h.push_back(S::build(f, x.second, 0));
      std::vector<term_t> r, d;
      for (unsigned i = 0; i < n; ++i) { r.push_back(w.fun(i, rot(dom_of(n)))); d.push_back(w.fun(i, drop2)); }
      std::vector<term_t> ts{w.sum(r), w.inter(d), world_t::comp(r[0], r[n - 1]), world_t::ite(d[n / 2], r[0], r[n / 2]), world_t::comp(w.sum(d), r[n / 3])};
      if (round == 2) std::reverse(ts.begin(), ts.end());
      for (const auto& t : ts) for (std::size_t a = 0; a < fam.size(); ++a)
      {
        w.check(t, h[a], fam[a].second, std::string(rn) + " round " + std::to_string(round) + " " + fam[a].first);
        if (a % 3 == round) m.reset_hom_cache();
      }
    }
  }
  sample("applications under five resource configurations, with resets of the cache");
}

// C09: sums and intersections of n operands.
void
same_homs(char kind, const std::vector<unsigned>& ns, const std::string& rn, const std::string& pn)
{
  use_policy(pn);
  auto m = sdd::init<C>(make_conf<C>(res(rn)));
  for (unsigned n : ns) for (const auto& f : frames(kind, n))
  {
    const O o(S::builder(f.levels));
    const auto mk = [&](unsigned i, unsigned v) { return sdd::function<C>(o, f.leaf[i], gfun{gfun::keep, v, 0, true, false}); };
    std::vector<H> hs; for (unsigned i = 0; i < n; ++i) hs.push_back(mk(i, 0));
    const auto sum = [&](const std::vector<H>& v) { return sdd::sum<C>(o, v.begin(), v.end()); };
    const auto inter = [&](const std::vector<H>& v) { return sdd::intersection<C>(o, v.begin(), v.end()); };
    const auto same = [&](const H& a, const H& b, const char* what)
    {
      MC_CHECK(a == b && std::hash<H>()(a) == std::hash<H>()(b), f.name << ": different handles: " << what);
      ++st().validated; ++st().transitions;
    };
    where() = f.name;
    const H s = sum(hs), x = inter(hs);
    if (n > 1) MC_CHECK(s != x, "sum and intersection unified");
    std::vector<H> rev(hs.rbegin(), hs.rend()), dup(hs), rot_(hs), odd;
    dup.insert(dup.end(), hs.begin(), hs.end()); std::rotate(rot_.begin(), rot_.begin() + n / 2, rot_.end());
    for (unsigned i = 1; i < n; i += 2) odd.push_back(hs[i]); for (unsigned i = 0; i < n; i += 2) odd.push_back(hs[i]);
    for (const auto* v : {&rev, &dup, &rot_, &odd}) { same(sum(*v), s, "sum in another order"); same(inter(*v), x, "intersection in another order"); }
    H l = hs[0], r = hs[n - 1], li_ = hs[0];
    for (unsigned i = 1; i < n; ++i) { l = sum({l, hs[i]}); li_ = inter({li_, hs[i]}); }
    for (unsigned i = n - 1; i-- > 0;) r = sum({hs[i], r});
    same(l, s, "sum one by one"); same(r, s, "sum one by one, from the right"); same(li_, x, "intersection one by one");
    const std::function<H(unsigned, unsigned)> half = [&](unsigned lo, unsigned hi) -> H { return hi - lo == 1 ? hs[lo] : sum({half(lo, (lo + hi) / 2), half((lo + hi) / 2, hi)}); };
    same(half(0, n), s, "balanced sum");
    same(sum({s, s}), s, "sum twice"); same(sum({s, hs[n / 2]}), s, "sum and an operand");
    // one operand replaced or removed, at each place: pairwise different
    std::unordered_map<H, unsigned> seen; seen.emplace(s, n); seen.emplace(x, n);
    for (unsigned i = 0; i < n && n > 1; i += 1 + n / 40)
    {
      auto v = hs; v[i] = mk(i, 1);
      where() = f.name + " place " + std::to_string(i);
      MC_CHECK(seen.emplace(sum(v), i).second, "sums which differ at one place are unified: " << where());
      MC_CHECK(seen.emplace(inter(v), i).second, "intersections which differ at one place are unified: " << where());
      if (n > 3)
      {
        v.erase(v.begin() + i);
        MC_CHECK(seen.emplace(sum(v), i).second, "a sum with an operand less is unified: " << where());
        MC_CHECK(seen.emplace(inter(v), i).second, "an intersection with an operand less is unified: " << where());
      }
      ++st().states;
    }
    // nested fixpoints, conditionals and compositions n deep: the same built twice, another one is different
    const auto tower = [&](unsigned odd_one)
    {
      H t = hs[0]; const H other = mk(0, 2);
      for (unsigned i = 1; i < n; ++i)
      {
        const H g = mk(i, i == odd_one);
        t = i % 3 == 0 ? sdd::fixpoint<C>(sdd::composition<C>(g, t)) : i % 3 == 1 ? sdd::if_then_else<C>(g, t, other) : sdd::composition<C>(t, g);
      }
      return t;
    };
    const H t0 = tower(n + 1);
    same(tower(n + 1), t0, "tower");
    for (unsigned i = 1; i < n; i += 1 + n / 40) { if (n > 3) MC_CHECK(tower(i) != t0, "towers which differ at " << i << " are unified"); ++st().transitions; }
  }
  sample("sums and intersections of n operands in several orders and groupings");
}

void
cells_()
{
  const std::string c = std::string(conf_name<C>::get()) + "/";
  struct K { char kind; const char* which; const char* res; const char* pol; bool th; };
  const std::vector<K> ks = {
    {'f', "low", "evict", "alt-lifo", false}, {'g', "low", "small", "down-lifo", false}, {'d', "low", "evict", "up-lifo", false},
    {'b', "low", "tiny", "alt-lifo", false}, {'m', "low", "small", "up-fifo", false},
    {'f', "mid", "small", "down-lifo", false}, {'b', "mid", "small", "alt-lifo", false}, {'m', "mid", "page", "alt-lifo", false},
    {'g', "mid", "page", "up-lifo", true}, {'d', "mid", "page", "up-lifo", true}, {'f', "high", "big", "alt-lifo", true}, {'m', "high", "page", "down-lifo", true},
  };
  for (bool rw : {false, true})
  {
    const std::string p = c + (rw ? "C08/" : "C07/");
    for (const auto& k : ks)
    {
      const std::string t = std::string(1, k.kind) + "/" + k.which + "/" + k.res + "/" + k.pol;
      add_cell(p + "levels/" + t, [=]{ levels(rw, k.kind, k.which, k.res, k.pol); }, k.th);
      add_cell(p + "chains/" + t, [=]{ chains(rw, k.kind, k.which, k.res, k.pol); }, k.th);
      add_cell(p + "inductives/" + t, [=]{ inductives(rw, k.kind, k.which, k.res, k.pol); }, k.th || rw);
    }
    for (char k : {'f', 'g', 'd', 'b', 'm'})
    {
      add_cell(p + "rings/low/" + k, [=]{ rings(rw, k, {2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}, k == 'd' ? "page" : "small", "alt-lifo"); });
      add_cell(p + "rings/mid/" + k, [=]{ rings(rw, k, {17, 33}, "page", "down-lifo"); }, k == 'g' || k == 'd');
      add_cell(p + "rings/high/" + k, [=]{ rings(rw, k, {65, 129}, "big", "down-lifo"); }, true);
    }
    std::vector<unsigned> ns; for (unsigned i = 1; i <= 20; ++i) ns.push_back(i);
    add_cell(p + "counter/low", [=]{ counter(rw, ns, "evict", "alt-lifo"); });
    if (vb::is_bitset) add_cell(p + "counter/high", [=]{ counter(rw, {31, 32, 33, 62, 63}, "small", "down-lifo"); });
    else add_cell(p + "counter/high", [=]{ counter(rw, {31, 32, 33, 63, 64, 65, 129, 257}, "small", "down-lifo"); });
  }
  for (char k : {'f', 'g', 'd', 'm'})
  {
    add_cell(c + "C03/applications/5/" + k, [=]{ applications(k, 5, "alt-lifo"); });
    add_cell(c + "C03/applications/14/" + k, [=]{ applications(k, 14, "down-lifo"); });
    add_cell(c + "C03/applications/33/" + k, [=]{ applications(k, 33, "down-lifo"); }, true);
    std::vector<unsigned> ns; for (unsigned i = 1; i <= 24; ++i) ns.push_back(i);
    add_cell(c + "C09/low/" + k, [=]{ same_homs(k, ns, "tiny", "alt-lifo"); });
    add_cell(c + "C09/high/" + k, [=]{ same_homs(k, {31, 32, 33, 63, 64, 65, 100, 128, 129}, "small", "down-lifo"); });
    add_cell(c + "C09/257/" + k, [=]{ same_homs(k, {255, 256, 257}, "page", "up-lifo"); }, true);
  }
}
const registrar reg(cells_);

} // namespace
