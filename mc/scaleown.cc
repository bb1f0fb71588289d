// C04 and C10 on larger instances (AddressSanitizer).
#include "flush.hh"
#include "scale.hh"

using namespace mc;
using C = sdd::CONF;
using SDD = sdd::SDD<C>;
using H = sdd::homomorphism<C>;
using O = sdd::order<C>;
using S = scale<C>;
using vb = values_bridge<C::Values>;

#include "scalehom.hh"

namespace {

std::vector<frame>
frames(char kind, unsigned n)
{
  if (kind == 'g') return {make_frame('g', n, 1), make_frame('g', n, 3), make_frame('g', n, n)};
  if (kind == 'd') return {make_frame('d', n, std::min(n, 12u)), make_frame('d', n, 2)};
  return {make_frame(kind, n)};
}

/*------------------------------------------------------------------------------------------------*/
// C04

// Many copies of a handle, released in several ways.
void
copies(unsigned k)
{
  use_policy("alt-lifo");
  balance bal;
  {
    auto m = sdd::init<C>(make_conf<C>(small(16, 16)));
    flusher<C> fl(m);
    const auto base = fl.now();
    for (const auto& f : {make_frame('f', 3), make_frame('g', 4, 2)})
    {
      const lang l = one_hot(f.n);
      const world_t w(f, false);
      where() = f.name + " " + std::to_string(k) + " copies";
      for (unsigned way = 0; way < 4; ++way)
      {
        std::vector<SDD> v; std::vector<H> hv;
        {
          const SDD x = S::build(f, l, way);
          const H h = w.sum({w.fun(0, rot(3)), w.fun(f.n - 1, dec)}).h;
          if (way == 0) { v.assign(k, x); hv.assign(k, h); }
          else { v.reserve(way == 1 ? k : 0); for (unsigned i = 0; i < k; ++i) { v.push_back(i ? v.back() : x); hv.push_back(i ? hv.back() : h); } }
        }
        const auto garbage = [&]{ for (unsigned g = 0; g < 40; ++g) S::build(f, constants(f.n, 3 + g % 3), g % 4); };
        garbage();
        S::expect(v[k / 2], f, l, "a copy");
        const lang im = img(w.sum({w.fun(0, rot(3)), w.fun(f.n - 1, dec)}).f, l);
        S::expect(hv[k / 2](w.o, v[k - 1]), f, im, "application of a copy");
        // release all but one
        const SDD z = sdd::zero<C>();
        if (way == 0) { while (v.size() > 1) { v.pop_back(); hv.pop_back(); } }
        else if (way == 1) { v.erase(v.begin(), v.end() - 1); hv.erase(hv.begin(), hv.end() - 1); }
        else if (way == 2) { for (unsigned i = 1; i < k; ++i) { v[i] = z; hv[i] = sdd::id<C>(); } }
        else { std::vector<SDD> t{v[k - 1]}; v.swap(t); std::vector<H> ht{std::move(hv[0])}; hv.swap(ht); }
        garbage();
        S::expect(v[0], f, l, "the last copy");
        S::expect(hv[0](w.o, v[0]), f, im, "application of the last copy");
        v.clear(); hv.clear();
        fl.expect(base, "after the last copy");
        st().states += k; st().transitions += 4 * k;
      }
    }
  }
  bal.check("copies");
  sample(std::to_string(k) + " copies of a handle, released in four ways");
}

// Large diagrams and homomorphisms dropped in several orders.
void
dropped(char kind, const std::vector<unsigned>& ns, const std::string& pn)
{
  use_policy(pn);
  st().extra["faults_hit"] += 0;
  balance bal;
  {
    auto m = sdd::init<C>(make_conf<C>(small(20, 4)));
    flusher<C> fl(m);
    const auto base = fl.now();
    for (unsigned n : ns) for (const auto& f : frames(kind, n)) for (unsigned order = 0; order < 3; ++order)
    {
      where() = f.name + " order " + std::to_string(order);
      {
        const auto fam = families(n);
        std::vector<SDD> h; std::vector<lang> l;
        for (const auto& x : fam) { h.push_back(S::build(f, x.second, order)); l.push_back(x.second); }
        for (std::size_t i = 0; i + 1 < fam.size(); ++i)
        {
          h.push_back(h[i] + h[i + 1]); l.push_back(lu(l[i], l[i + 1]));
          h.push_back(h[i] - h[i + 1]); l.push_back(ld(l[i], l[i + 1]));
          h.push_back(h[i] & h[i + 1]); l.push_back(li(l[i], l[i + 1]));
        }
        // drop two thirds, the others are intact
        for (std::size_t i = 0; i < h.size(); ++i)
        {
          const std::size_t k = order == 1 ? h.size() - 1 - i : i;
          if (k % 3 != order) h[k] = sdd::zero<C>();
        }
        fl.flush();
        for (unsigned g = 0; g < 3; ++g) S::build(f, rotations(n, 3 + g), g);
        for (std::size_t i = order; i < h.size(); i += 3) S::expect(h[i], f, l[i], "survivor " + std::to_string(i));
        // and still unified with their reconstruction
        for (std::size_t i = order; i < h.size(); i += 3) MC_CHECK(S::build(f, l[i], (order + 1) % 4) == h[i] || l[i].empty(), "survivor " << i << " is not unified any more");
        // homomorphisms
        const world_t w(f, order == 1);
        std::vector<term_t> ts{world_t::id()};
        for (unsigned i = 0; i < n; ++i) ts.push_back(world_t::comp(w.fun((i + 1) % n, inc(1)), w.fun(i, dec)));
        if (n > 1 && n <= 20)
        {
          const H ring = w.ready(sdd::fixpoint<C>(w.sum(ts).h));
          ts.clear();
          S::expect(ring(w.o, S::single(f, *one_hot(n).begin())), f, one_hot(n), "ring");
        }
        ++st().states;
      }
      fl.expect(base, "after everything has been dropped");
    }
  }
  bal.check("large diagrams");
  sample("families over n levels built, combined and dropped in three orders");
}

// A wide node: every arc is a reference.
void
wide(const std::vector<unsigned>& ks, const std::string& pn)
{
  use_policy(pn);
  st().extra["faults_hit"] += 0;
  balance bal;
  {
    auto m = sdd::init<C>(make_conf<C>(small(20, 4)));
    flusher<C> fl(m);
    const auto base = fl.now();
    for (unsigned k : ks) for (unsigned hier = 0; hier < 2; ++hier)
    {
      where() = std::to_string(k) + " arcs";
      const SDD one = sdd::one<C>();
      const auto val = [&](unsigned v) { return SDD(0u, vb::make({v}), one); };
      const auto arc = [&](unsigned i) { return hier ? SDD(1u, val(i), val((i * 3 + 1) % k)) : SDD(1u, vb::make({i}), val((i * 3 + 1) % k)); };
      std::vector<SDD> subs;
      {
        std::vector<SDD> arcs; for (unsigned i = 0; i < k; ++i) arcs.push_back(arc(i));
        SDD all = sdd::sum<C>(arcs.begin(), arcs.end());
        arcs.clear();
        fl.flush();
        MC_CHECK(all.size() == k, "number of words of the node");
        for (unsigned i = 0; i < k; ++i) MC_CHECK((all & arc(i)) == arc(i), "arc " << i);
        // copies without an arc, keeping only them
        for (unsigned i = 0; i < k; i += 1 + k / 12) subs.push_back(all - arc(i));
        all = one;
        fl.flush();
        for (std::size_t s = 0; s < subs.size(); ++s)
        {
          const unsigned i = static_cast<unsigned>(s) * (1 + k / 12);
          MC_CHECK(subs[s].size() == k - 1 && (subs[s] & arc(i)).empty(), "node without the arc " << i);
          const SDD again = subs[s] + arc(i);
          MC_CHECK(again.size() == k, "the arc added again");
          ++st().transitions; ++st().validated;
        }
      }
      subs.clear();
      fl.expect(base, "after the wide nodes");
      ++st().states;
    }
  }
  bal.check("wide nodes");
  sample("nodes of k arcs");
}

/*------------------------------------------------------------------------------------------------*/
// C10

struct scenario { std::string name; H h; SDD x; lang in, out; };

void
faulty(char kind, unsigned n, bool rw, const resources& r, const std::string& pn)
{
  use_policy(pn);
  st().extra["faults_hit"] += 0;
  balance bal;
  {
    auto m = sdd::init<C>(make_conf<C>(r));
    flusher<C> fl(m);
    const auto base0 = fl.now();
    for (const auto& f : frames(kind, n))
    {
      {
        const world_t w(f, rw);
        const auto fam = families(n);
        std::vector<scenario> ss;
        const auto put = [&](const std::string& nm, const H& h, const lang& in, const lang& out) { ss.push_back({nm, w.ready(h), S::build(f, in, 0), in, out}); };
        std::vector<term_t> ring{world_t::id()}, rs, ds;
        for (unsigned i = 0; i < n; ++i)
        {
          ring.push_back(world_t::comp(w.fun((i + 1) % n, inc(1)), w.fun(i, dec)));
          rs.push_back(w.fun(i, rot(dom_of(n)))); ds.push_back(w.fun(i, drop2));
        }
        put("ring", sdd::fixpoint<C>(w.sum(ring).h), {*one_hot(n).begin()}, one_hot(n));
        put("sum", w.sum(rs).h, fam[0].second, img(w.sum(rs).f, fam[0].second));
        put("selectors", w.inter(ds).h, fam[3].second, img(w.inter(ds).f, fam[3].second));
        term_t c = world_t::id(); for (const auto& t : rs) c = world_t::comp(t, c);
        put("composition", c.h, fam[6].second, img(c.f, fam[6].second));
        const term_t it = world_t::ite(ds[n - 1], rs[0], rs[n / 2]);
        put("conditional", it.h, fam[3].second, img(it.f, fam[3].second));
        const fn odd = [](const word& x) { unsigned s = 0; for (auto v : x) s += v; return s % 2 ? lang{x} : lang{}; };
        put("inductive", sdd::inductive<C>(summod{1, 2}), fam[6].second, img(odd, fam[6].second));
        const lang held_l = fam[1].second; const SDD held = S::build(f, held_l, 1);
        for (auto& s : ss)
        {
          const auto before = fl.now();
          for (long long at = 0;; ++at)
          {
            where() = f.name + (rw ? " rewritten " : " ") + s.name + " fault at " + std::to_string(at);
            m.reset_hom_cache();
            bool done = false;
            fault_countdown() = at;
            try
            {
              const SDD y = s.h(w.o, s.x);
              fault_countdown() = -1;
              S::expect(y, f, s.out, s.name);
              done = true;
            }
            catch (const fault&) { MC_CHECK(fault_countdown() == -1, "exception of unknown origin"); ++st().extra["faults_hit"]; }
            ++st().transitions; ++st().states;
            if (done) break;
            S::expect(s.x, f, s.in, "operand after the exception");
            S::expect(held + s.x, f, lu(held_l, s.in), "union after the exception");
            S::expect(s.h(w.o, s.x), f, s.out, s.name + ", retried");
            if (at % 8 == 0) fl.expect(before, "after the retry");
          }
          fl.expect(before, "at the end of the scenario");
        }
      }
      fl.expect(base0, "at the end of the frame");
    }
  }
  bal.check("faults");
  sample("every callback of applications over " + std::to_string(n) + " levels fails once, then the retry");
}

// a fault at each arc of a wide node
void
faulty_wide(unsigned k, bool rw, const resources& r, const std::string& pn)
{
  use_policy(pn);
  st().extra["faults_hit"] += 0;
  balance bal;
  {
    auto m = sdd::init<C>(make_conf<C>(r));
    flusher<C> fl(m);
    const auto base0 = fl.now();
    for (const auto& f : {make_frame('f', 2), make_frame('g', 2, 1), make_frame('m', 3)})
    {
      {
        const world_t w(f, rw);
        const unsigned i = f.n - 1;
        lang rel; for (unsigned v = 0; v < k; ++v) { word x(f.n, 0); x[0] = static_cast<unsigned short>(v); x[i] = static_cast<unsigned short>((v * 7 + 1) % k); rel.insert(x); }
        const SDD d = S::build(f, rel, 0);
        const auto before = fl.now();
        std::vector<term_t> ts{w.fun(0, rot(k)), w.fun(i, rot(k)), w.fun(0, drop2), w.fun(i, drop0u), w.fun(0, any2)
                              , w.sum({w.fun(0, rot(k)), w.fun(i, dec), world_t::id()}), world_t::comp(w.fun(i, set1), w.fun(0, dec))};
        const auto b2 = fl.now();
        for (const auto& t : ts)
        {
          const lang out = img(t.f, rel);
          const H h = w.ready(t.h);
          const auto b3 = fl.now();
          for (long long at = 0;; ++at)
          {
            where() = f.name + " " + t.name + " fault at " + std::to_string(at);
            m.reset_hom_cache();
            fault_countdown() = at;
            bool done = false;
            try { const SDD y = h(w.o, d); fault_countdown() = -1; S::expect(y, f, out, t.name); done = true; }
            catch (const fault&) { ++st().extra["faults_hit"]; }
            ++st().transitions; ++st().states;
            if (done) break;
            S::expect(d, f, rel, "operand after the exception");
            S::expect(h(w.o, d), f, out, t.name + ", retried");
          }
          fl.expect(b3, "after the faults");
        }
        (void)b2; (void)before;
      }
      fl.expect(base0, "at the end of the frame");
    }
  }
  bal.check("faults in wide nodes");
  sample("every callback of applications on nodes of " + std::to_string(k) + " arcs fails once, then the retry");
}

void
cells_()
{
  const std::string c = std::string(conf_name<C>::get()) + "/";
  for (unsigned k : {255u, 256u, 257u, 32768u, 65535u, 65536u, 70000u}) add_cell(c + "C04/copies/" + std::to_string(k), [=]{ copies(k); });
  for (char k : {'f', 'g', 'd', 'b', 'm'})
  {
    add_cell(c + "C04/dropped/low/" + k, [=]{ dropped(k, {1, 2, 3, 4, 5, 6, 7, 8, 9, 10}, "alt-lifo"); });
    add_cell(c + "C04/dropped/mid/" + k, [=]{ dropped(k, {16, 17, 33}, "down-lifo"); }, k == 'd' || k == 'g');
    add_cell(c + "C04/dropped/high/" + k, [=]{ dropped(k, {64, 65}, "up-fifo"); }, true);
    for (bool rw : {false, true})
    {
      const std::string t = std::string(1, k) + (rw ? "/rewritten" : "");
      add_cell(c + "C10/faulty/5/" + t, [=]{ faulty(k, 5, rw, small(12, 8), "alt-lifo"); });
      add_cell(c + "C10/faulty/9/" + t, [=]{ faulty(k, 9, rw, small(20, 4), "down-lifo"); }, k == 'd' || k == 'g');
      add_cell(c + "C10/faulty/16/" + t, [=]{ faulty(k, 16, rw, small(25, 16), "down-lifo"); }, true);
    }
  }
  std::vector<unsigned> ks; for (unsigned i = 2; i <= 40; ++i) ks.push_back(i);
  add_cell(c + "C04/wide/2-40", [=]{ wide(ks, "alt-lifo"); });
  add_cell(c + "C04/wide/64", [=]{ wide({41, 63, 64}, "down-lifo"); });
  if (!vb::is_bitset) add_cell(c + "C04/wide/257", [=]{ wide({65, 128, 255, 256, 257}, "up-lifo"); });
  for (bool rw : {false, true})
    for (unsigned k : {8u, 40u, 60u})
      add_cell(c + "C10/wide/" + std::to_string(k) + (rw ? "/rewritten" : ""), [=]{ faulty_wide(k, rw, small(16, 8), "alt-lifo"); });
}
const registrar reg(cells_);

} // namespace
