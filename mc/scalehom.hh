// Homomorphisms over frames and the functions on words they denote. Included once by an explorer, after its aliases.
#pragma once

namespace {

// User function on values.
struct gfun
{
  enum kind { keep, drop, add, inc, dec, set, any } k; unsigned a, b; bool sel, shift;
  std::vector<unsigned>
  on(unsigned v) const
  {
    switch (k)
    {
      case keep: return v == a ? std::vector<unsigned>{v} : std::vector<unsigned>{};
      case drop: return v != a ? std::vector<unsigned>{v} : std::vector<unsigned>{};
      case add: return {(v + a) % b};
      case inc: return v < a ? std::vector<unsigned>{v + 1} : std::vector<unsigned>{};
      case dec: return v > 0 ? std::vector<unsigned>{v - 1} : std::vector<unsigned>{};
      case set: return {a};
      default: return {v, a};
    }
  }
  C::Values
  operator()(const C::Values& v) const
  {
    tick();
    std::vector<unsigned> r;
    for (unsigned x : vb::get(v)) for (unsigned y : on(x)) r.push_back(y);
    return vb::make(r);
  }
  bool selector() const noexcept { return sel; }
  bool shifter() const noexcept { return shift; }
  friend bool operator==(const gfun& l, const gfun& r) noexcept
  { return l.k == r.k && l.a == r.a && l.b == r.b && l.sel == r.sel && l.shift == r.shift; }
};
const gfun keep0{gfun::keep, 0, 0, true, false}, keep1{gfun::keep, 1, 0, true, false}, drop1{gfun::drop, 1, 0, true, false}, drop2{gfun::drop, 2, 0, true, false}
         , drop0u{gfun::drop, 0, 0, false, false}, dec{gfun::dec, 0, 0, false, true}, any2{gfun::any, 2, 0, false, false}, set1{gfun::set, 1, 0, false, false};
gfun rot(unsigned d) { return {gfun::add, 1, d, false, true}; }
gfun inc(unsigned m) { return {gfun::inc, m, 0, false, true}; }

// User inductive: keeps the words whose sum of values is q modulo m.
struct summod
{
  unsigned q, m;
  H rest(unsigned r) const { return sdd::inductive<C>(summod{r, m}); }
  H
  operator()(const O& o, const C::Values& v) const
  {
    tick();
    std::map<unsigned, std::vector<unsigned>> by;
    for (unsigned x : vb::get(v)) by[(q + m * 64 - x) % m].push_back(x);
    std::vector<H> ops;
    for (const auto& kv : by) ops.push_back(sdd::cons<C>(o, vb::make(kv.second), rest(kv.first)));
    return sdd::sum<C>(o, ops.begin(), ops.end());
  }
  H
  operator()(const O& o, const SDD& x) const
  {
    tick();
    std::vector<H> ops;
    for (unsigned s = 0; s < m; ++s)
    {
      const SDD part = sdd::inductive<C>(summod{s, m})(o.nested(), x);
      if (!part.empty()) ops.push_back(sdd::cons<C>(o, part, rest((q + m - s) % m)));
    }
    return sdd::sum<C>(o, ops.begin(), ops.end());
  }
  SDD operator()() const { return q == 0 ? sdd::one<C>() : sdd::zero<C>(); }
  bool selector() const noexcept { return true; }
  friend bool operator==(const summod& l, const summod& r) noexcept { return l.q == r.q && l.m == r.m; }
};

} // namespace

namespace std {
template <> struct hash<gfun> { std::size_t operator()(const gfun& f) const noexcept { return static_cast<std::size_t>(f.k) * 3 + (f.a & 1); } };
template <> struct hash<summod> { std::size_t operator()(const summod& f) const noexcept { return f.q; } };
}

namespace {

using fn = std::function<lang(const word&)>;
struct term_t { H h; fn f; std::string name; };

lang img(const fn& f, const lang& l) { lang r; for (const auto& w : l) { const auto x = f(w); r.insert(x.begin(), x.end()); } return r; }

struct world_t
{
  frame f; O o; bool rewritten;
  world_t(const frame& fr, bool rw) : f(fr), o(S::builder(fr.levels)), rewritten(rw) {}

  fn at(unsigned i, const gfun& g) const
  { return [i, g](const word& w) { lang r; for (unsigned v : g.on(w[i])) { word x(w); x[i] = static_cast<unsigned short>(v); r.insert(x); } return r; }; }
  term_t fun(unsigned i, const gfun& g) const
  { return {sdd::function<C>(o, f.leaf[i], gfun(g)), at(i, g), f.leaf[i] + ":" + std::to_string(g.k) + "/" + std::to_string(g.a)}; }
  static term_t comp(const term_t& l, const term_t& r)
  { const fn a = l.f, b = r.f; return {sdd::composition<C>(l.h, r.h), [a, b](const word& w) { return img(a, b(w)); }, "comp"}; }
  term_t sum(const std::vector<term_t>& ts) const
  {
    std::vector<H> hs; std::vector<fn> fs; for (const auto& t : ts) { hs.push_back(t.h); fs.push_back(t.f); }
    return {sdd::sum<C>(o, hs.begin(), hs.end()), [fs](const word& w) { lang r; for (const auto& g : fs) { const auto x = g(w); r.insert(x.begin(), x.end()); } return r; }, "sum"};
  }
  term_t inter(const std::vector<term_t>& ts) const
  {
    std::vector<H> hs; std::vector<fn> fs; for (const auto& t : ts) { hs.push_back(t.h); fs.push_back(t.f); }
    return {sdd::intersection<C>(o, hs.begin(), hs.end()), [fs](const word& w) { lang r{w}; for (const auto& g : fs) if (g(w).empty()) r.clear(); return r; }, "inter"};
  }
  static term_t ite(const term_t& i, const term_t& t, const term_t& e)
  { const fn a = i.f, b = t.f, c = e.f; return {sdd::if_then_else<C>(i.h, t.h, e.h), [a, b, c](const word& w) { return a(w).empty() ? c(w) : b(w); }, "ite"}; }
  static term_t id() { return {sdd::id<C>(), [](const word& w) { return lang{w}; }, "id"}; }

  H ready(const H& h) const { return rewritten ? sdd::rewrite<C>(o, h) : h; }

  void
  check(const term_t& t, const SDD& x, const lang& l, const std::string& what) const
  {
    where() = f.name + " " + what + " " + t.name;
    const H h = ready(t.h);
    S::expect(h(o, x), f, img(t.f, l), what + " " + t.name);
    ++st().states;
  }
};

} // namespace
