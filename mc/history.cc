// C03: results depend neither on the sizes of tables, caches and arena, nor on the history of the manager, nor on the
// placement of blocks in memory.
//
// The explored space is a set of programs over two registers. Each step of each program is compared with the model.
#include "homs.hh"

using namespace mc;
using C = sdd::CONF;
using SDD = sdd::SDD<C>;
using W = world<C>;
using T = term<C>;

namespace {

/*------------------------------------------------------------------------------------------------*/

struct machine
{
  sdd::manager<C>& m;
  const W& w;
  std::vector<mask> init;            // contents of registers at the beginning of a program
  unsigned nb_homs;
  std::vector<std::vector<mask>> hf; // what homomorphisms denote
  std::vector<std::string> hname;

  machine(sdd::manager<C>& m_, const W& w_, std::vector<mask> i)
    : m(m_), w(w_), init(std::move(i)), nb_homs(0)
  {
    for (unsigned k = 0; k < max_homs; ++k) { const T t = hom(k); hf.push_back(t.f); hname.push_back(t.name); ++nb_homs; }
  }

  static constexpr unsigned max_homs = 6;

  // Homomorphisms are built at each use and forgotten at once: their addresses are used again.
  T
  hom(unsigned k) const
  {
    const auto& v0 = w.vars.front(); const auto& v1 = w.vars.back();
    const auto t0 = W::tables(v0.dom); const auto t1 = W::tables(v1.dom);
    switch (k)
    {
      case 0: return w.function(v0, t0[v0.dom + 1].first, 2);  // rotation
      case 1: return w.function(v1, t1[v1.dom + 6].first, 0);  // non-deterministic
      case 2: return W::fix(w.sum({w.id(), w.function(v0, t0[v0.dom + 3].first, 2), w.function(v1, t1[v1.dom + 4].first, 0)}));
      case 3: return w.automaton(2, 1, 1, false);
      case 4: return w.ite(w.function(v0, t0[0].first, 1), w.function(v1, t1[v1.dom + 1].first, 2), w.function(v1, t1[1].first, 1));
      default:
      {
        T t = W::fix(w.sum({w.id(), w.function(v1, t1[v1.dom + 1].first, 2), W::comp(w.function(v0, t0[v0.dom + 1].first, 2), w.function(v1, t1[0].first, 1))}));
        t.h = sdd::rewrite<C>(w.o, t.h); t.name = "rewritten " + t.name;
        return t;
      }
    }
  }

  struct state { SDD a, b; mask ma, mb; };

  state start() const { return {w.b.nary(*w.s, init[0]), w.b.incremental(*w.s, init[1]), init[0], init[1]}; }

  static constexpr unsigned nb_ops = 15;

  std::string
  op_name(unsigned op) const
  {
    static const char* n[] = {"a=a+b", "b=a+b", "a=a&b", "a=a-b", "b=b-a", "a=x", "b=y", "swap"};
    if (op < 8) return n[op];
    if (op < 14) { const unsigned k = op - 8; return std::string(k % 2 ? "b=h" : "a=h") + std::to_string(k) + (k % 3 == 2 ? "(b)" : "(a)"); }
    return "reset";
  }

  void
  step(state& s, unsigned op) const
  {
    switch (op)
    {
      case 0: s.a = s.a + s.b; s.ma |= s.mb; break;
      case 1: s.b += s.a; s.mb |= s.ma; break;
      case 2: s.a = s.a & s.b; s.ma &= s.mb; break;
      case 3: s.a = s.a - s.b; s.ma &= ~s.mb; break;
      case 4: s.b -= s.a; s.mb &= ~s.ma; break;
      case 5: s.ma = init[2]; s.a = w.b.decremental(*w.s, s.ma); break;
      case 6: s.mb = init[3]; s.b = w.b.grouped(*w.s, s.mb); break;
      case 7: swap(s.a, s.b); std::swap(s.ma, s.mb); break;
      case 14: m.reset_hom_cache(); break;
      default:
      {
        const unsigned k = op - 8;
        const auto& src = k % 3 == 2 ? s.b : s.a;
        const mask ms = k % 3 == 2 ? s.mb : s.ma;
        const SDD r = hom(k).h(w.o, src);
        const mask mr = image(hf[k], ms);
        if (k % 2) { s.b = r; s.mb = mr; } else { s.a = r; s.ma = mr; }
      }
    }
    ++st().transitions;
  }

  void
  check(const state& s) const
  {
    const mask ga = w.b.extract(s.a, *w.s), gb = w.b.extract(s.b, *w.s);
    MC_CHECK(ga == s.ma && gb == s.mb, "expected " << hex(s.ma) << "," << hex(s.mb) << " got " << hex(ga) << "," << hex(gb));
    MC_CHECK((s.a == s.b) == (s.ma == s.mb), "equality of registers");
    ++st().validated;
  }

  void
  program(const std::vector<unsigned>& p, const std::string& ctx) const
  {
    const auto name = [&](std::size_t upto) { std::string r = ctx; for (std::size_t i = 0; i <= upto; ++i) r += " " + op_name(p[i]); return r; };
    state s = start();
    for (std::size_t i = 0; i < p.size(); ++i)
    {
      where() = name(i);
      step(s, p[i]);
      check(s);
    }
    ++st().states;
  }
};

template <typename F>
void
for_programs(unsigned len, unsigned first, const F& f)
{
  std::vector<unsigned> p(len, 0);
  if (first != ~0u) p[0] = first;
  const std::size_t stop = first != ~0u ? 1 : 0;
  while (true)
  {
    f(p);
    std::size_t i = len;
    while (i > stop && ++p[i - 1] == machine::nb_ops) p[--i] = 0;
    if (i == stop) break;
  }
}

std::vector<mask> contents(const W& w) { const mask n = w.all(); return {n & 0x5a6b9cd3, n & 0x9335ac66, n & 0x33cc0ff1, n & 0x0f5ac3a5}; }

// One manager for all the programs of a length: the history of a program is everything before it.
void
long_lived(const std::string& sn, const resources& r, const std::string& pn, unsigned len, unsigned first)
{
  use_policy(pn);
  auto m = sdd::init<C>(make_conf<C>(r));
  const W w(make_shape(sn), "v", 0, false);
  const machine mc_(m, w, contents(w));
  for_programs(len, first, [&](const std::vector<unsigned>& p) { mc_.program(p, sn); });
  sample(std::to_string(st().states) + " programs of length " + std::to_string(len) + " one after another over shape " + sn + ", resources " + r.name + "; last: " + where());
}

// A fresh manager for each program; then all the resources must be given back.
void
fresh(const std::string& sn, const resources& r, const std::string& pn, unsigned len)
{
  use_policy(pn);
  for_programs(len, ~0u, [&](const std::vector<unsigned>& p)
  {
    auto m = sdd::init<C>(make_conf<C>(r));
    const W w(make_shape(sn), "v", 0, false);
    const machine mc_(m, w, contents(w));
    mc_.program(p, sn);
  });
  sample(std::to_string(st().states) + " programs of length " + std::to_string(len) + " on fresh managers over shape " + sn + ", resources " + r.name);
}

// Each size of the configuration varied on its own.
void
sizes(const std::string& sn, unsigned which, const std::string& pn, unsigned len)
{
  static const std::vector<std::vector<std::size_t>> values = {
    {0, 1, 2, 3, 4, 7, 8, 9, 31, 32, 33, 100},                            // unique table of SDD
    {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 31},                       // caches of SDD operations
    {0, 1, 7, 8, 15, 16, 17, 24, 32, 40, 48, 56, 64, 72, 80, 96, 104, 112, 128, 144, 160, 192, 200, 224, 256, 320, 384, 512, 777, 1024, 2048}, // arena
    {0, 1, 2, 3, 5, 8, 9, 16, 33},                                        // unique table of homomorphisms
    {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 31},                       // cache of homomorphisms
    {0, 1, 2, 3, 5, 8, 9, 16, 33},                                        // unique table of values
  };
  for (std::size_t v : values[which])
  {
    use_policy(pn);
    resources r = res("page"); r.name = "varied";
    std::size_t* f[] = {&r.unique, &r.cache, &r.arena, &r.hom_unique, &r.hom_cache, &r.flat_unique};
    *f[which] = v;
    auto m = sdd::init<C>(make_conf<C>(r));
    const W w(make_shape(sn), "v", 0, false);
    const machine mc_(m, w, contents(w));
    for_programs(len, ~0u, [&](const std::vector<unsigned>& p) { mc_.program(p, sn + " size " + std::to_string(v)); });
  }
  sample("all programs of length " + std::to_string(len) + " over shape " + sn + " with parameter " + std::to_string(which) + " varied");
}

// One program under every placement of at most `bound` blocks at the other end of memory.
void
placement(const std::string& sn, const std::vector<unsigned>& p, const resources& r, const std::string& pn, unsigned bound)
{
  std::vector<std::set<std::uint64_t>> todo{{}};
  std::uint64_t n = 0;
  for (std::size_t i = 0; i < todo.size(); ++i)
  {
    const auto dev = todo[i];
    std::ostringstream os; os << sn << " deviations"; for (auto d : dev) os << " " << d;
    use_policy(pn);
    {
      auto m = sdd::init<C>(make_conf<C>(r));
      const W w(make_shape(sn), "v", 0, false);
      const machine mc_(m, w, contents(w));
      arm_deviations(dev);
      mc_.program(p, os.str());
      disarm_deviations();
      n = allocations_since_arm();
    }
    if (dev.size() < bound)
    {
      const std::uint64_t from = dev.empty() ? 0 : *dev.rbegin() + 1;
      for (std::uint64_t d = from; d < n; ++d) { auto e = dev; e.insert(d); todo.push_back(std::move(e)); }
    }
  }
  st().extra["placements"] += todo.size();
  sample("one program over shape " + sn + " under " + std::to_string(todo.size()) + " placements");
}

/*------------------------------------------------------------------------------------------------*/
// Interference: an application X, then any other application Y (or nothing), then X again, for all pairs, in one manager.
// With small caches X is sometimes stored, sometimes evicted.

void
interference(const std::string& sn, const resources& r, const std::string& pn)
{
  use_policy(pn);
  auto m = sdd::init<C>(make_conf<C>(r));
  const W w(make_shape(sn), "v", 0, false);
  auto exprs = [&]{ auto v = w.small_base(); return v; }();
  // expressions as factories, so that each use builds them again
  const std::size_t ne = exprs.size();
  std::vector<std::vector<mask>> fs; for (const auto& e : exprs) fs.push_back(e.f);
  exprs.clear();
  const auto make = [&](std::size_t i, std::size_t j) -> T
  {
    const auto bs = w.small_base();
    switch ((i + 2 * j) % 4)
    {
      case 0: return w.sum({bs[i], bs[j]});
      case 1: return W::comp(bs[i], bs[j]);
      case 2: return W::fix(w.sum({w.id(), bs[i], bs[j]}));
      default: { T t = W::fix(w.sum({w.id(), bs[j], W::comp(bs[j], bs[i])})); t.h = sdd::rewrite<C>(w.o, t.h); return t; }
    }
  };
  const auto sets = w.basis();
  for (std::size_t i = 0; i < ne; ++i) for (std::size_t j = 0; j < ne; ++j)
  {
    if (i == j) continue;
    const T x = make(i, j);
    std::vector<SDD> results;
    for (std::size_t k = 0; k < ne; ++k)
    {
      where() = sn + " " + x.name + " around " + std::to_string(k);
      const T y = make((i + 1 + k) % ne, (j + 2 * k) % ne == (i + 1 + k) % ne ? (j + 2 * k + 1) % ne : (j + 2 * k) % ne);
      for (mask s : sets)
      {
        w.b.expect(y.h(w.o, w.set(s)), *w.s, image(y.f, s), "other application");
        w.b.expect(x.h(w.o, w.set(s)), *w.s, image(x.f, s), "application");
        st().transitions += 2;
      }
      if (k % 3 == 0) m.reset_hom_cache();
    }
    ++st().states;
  }
  sample("all pairs of applications over shape " + sn + ", each repeated around others");
}

void
cells_()
{
  const std::string c = std::string(conf_name<C>::get()) + "/";
  const auto& pols = all_policies();
  unsigned k = 0;
  for (const char* sn : {"2,2", "(2),2", "(2,2),2", "3,3"})
    for (const auto& r : all_resources())
    {
      const std::string pn = pols[k++ % pols.size()].name;
      add_cell(c + "long/3/" + sn + "/" + r.name + "/" + pn, [=]{ long_lived(sn, r, pn, 3, ~0u); });
    }
  for (const char* sn : {"2,2", "(2),2"})
    for (const char* rn : {"tiny", "evict", "small"})
    {
      const std::string pn = pols[k++ % pols.size()].name;
      add_cell(c + "long/4/" + sn + "/" + rn + "/" + pn, [=]{ long_lived(sn, res(rn), pn, 4, ~0u); });
    }
  for (const char* sn : {"(2,2),2", "2,(3)", "3,3"})
    for (const char* rn : {"tiny", "evict", "small", "page"})
    {
      const std::string pn = pols[k++ % pols.size()].name;
      add_cell(c + "long/4/" + sn + "/" + rn + "/" + pn, [=]{ long_lived(sn, res(rn), pn, 4, ~0u); }, true);
    }
  for (const char* sn : {"2,2", "(2),2"})
    for (const char* rn : {"tiny", "evict"})
      for (unsigned f = 0; f < machine::nb_ops; ++f)
        add_cell(c + "long/5/" + sn + "/" + rn + "/" + std::to_string(f), [=]{ long_lived(sn, res(rn), pols[f % pols.size()].name, 5, f); }, true);
  for (const char* sn : {"2,2", "(2),2", "(2,2),2"})
    for (const char* rn : {"tiny", "small", "evict"})
    {
      const std::string pn = pols[k++ % pols.size()].name;
      add_cell(c + "fresh/2/" + sn + "/" + rn + "/" + pn, [=]{ fresh(sn, res(rn), pn, 2); });
      add_cell(c + "fresh/3/" + sn + "/" + rn + "/" + pn, [=]{ fresh(sn, res(rn), pn, 3); }, std::string(sn) == "(2,2),2");
    }
  for (unsigned w = 0; w < 6; ++w) for (const char* sn : {"2,2", "(2,2),2", "3,3"})
  {
    const std::string pn = pols[k++ % pols.size()].name;
    add_cell(c + "sizes/" + std::to_string(w) + "/" + sn + "/2", [=]{ sizes(sn, w, pn, 2); });
    add_cell(c + "sizes/" + std::to_string(w) + "/" + sn + "/3", [=]{ sizes(sn, w, pn, 3); }, true);
  }
  // programs with every kind of step
  const std::vector<std::vector<unsigned>> progs = {{10, 0, 13, 4}, {13, 2, 11, 1}, {12, 1, 10, 3}, {8, 0, 9, 13}};
  for (const char* sn : {"2,2", "(2),2", "(2,2),2"}) for (std::size_t p = 0; p < progs.size(); ++p)
  {
    const auto pr = progs[p];
    add_cell(c + "placement/1/" + sn + "/" + std::to_string(p), [=]{ placement(sn, pr, res(p % 2 ? "small" : "evict"), pols[p % pols.size()].name, 1); });
    if (std::string(sn) != "(2,2),2")
      add_cell(c + "placement/2/" + sn + "/" + std::to_string(p), [=]{ placement(sn, {pr[0], pr[1]}, res(p % 2 ? "tiny" : "evict"), pols[(p + 2) % pols.size()].name, 2); }, true);
  }
  for (const char* sn : {"2,2", "(2),2", "(2,2),2", "2,(2),2"}) for (const char* rn : {"tiny", "evict", "small", "big"})
  {
    const std::string pn = pols[k++ % pols.size()].name;
    add_cell(c + "interference/" + sn + "/" + rn, [=]{ interference(sn, res(rn), pn); }, std::string(sn) == "2,(2),2");
  }
}
const registrar reg(cells_);

} // namespace
