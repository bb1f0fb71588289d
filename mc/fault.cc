// C10: an exception at any point of a computation leaves the library exact.
//
// For each computation of a grammar, the n-th call of user code throws, for every n; the computation is then run again, possibly failing
// again at every n', until it completes. Operands, retries, other computations and the numbers of unified elements are checked.
#include "flush.hh"

using namespace mc;
using C = sdd::CONF;
using SDD = sdd::SDD<C>;
using H = sdd::homomorphism<C>;
using W = world<C>;
using T = term<C>;

namespace {

/*------------------------------------------------------------------------------------------------*/

std::vector<T>
leaves(const W& w)
{
  auto r = w.small_base();
  r.push_back(w.automaton(3, 1, 2, true));
  const auto& v = w.vars.back();
  r.push_back(w.targeted_inductive(v, W::tables(v.dom)[v.dom + 1].first, false));
  return r;
}

constexpr unsigned nb_combs = 10;

// false when the combination does not exist
bool
scenario(const W& w, const std::vector<T>& bs, std::size_t i, std::size_t j, unsigned comb, T& t)
{
  const bool sel = bs[i].h.selector() && is_selector(bs[i].f);
  switch (comb)
  {
    case 0: if (j) return false; t = bs[i]; return true;
    case 1: t = W::comp(bs[i], bs[j]); return true;
    case 2: t = w.sum({bs[i], bs[j], w.id()}); return true;
    case 3: t = w.sum({w.id(), bs[i], W::comp(bs[j], bs[i])}); if (!W::can_fix(t)) return false; t = W::fix(t); return true;
    case 4: if (!sel) return false; t = w.ite(bs[i], bs[j], W::comp(bs[j], bs[j])); return true;
    case 5:
    {
      if (w.hiers.empty()) return false;
      const W n(w.hiers[0].nested, w.hiers[0].prefix, 0, false);
      const auto ns = leaves(n);
      if (i >= ns.size()) return false;
      t = W::comp(w.local(w.hiers[0], ns[i]), bs[j]);
      return true;
    }
    case 6: if (!sel || !bs[j].h.selector() || !is_selector(bs[j].f)) return false; t = w.inter({bs[i], bs[j]}); return true;
    case 7: t = w.sum({bs[j], w.id()}); if (!W::can_fix(t)) return false; t = W::comp(w.sum({bs[i], w.id()}), W::fix(t)); return true;
    case 8:
    {
      if (w.hiers.empty()) return false;
      const W n(w.hiers[0].nested, w.hiers[0].prefix, 0, false);
      const auto ns = leaves(n);
      if (i >= ns.size()) return false;
      const T f = n.sum({n.id(), ns[i]});
      if (!W::can_fix(f)) return false;
      t = w.sum({w.id(), w.local(w.hiers[0], W::fix(f)), bs[j]});
      if (!W::can_fix(t)) return false;
      t = W::fix(t);
      return true;
    }
    default: t = w.sum({w.constant(w.all() / 3), bs[i], bs[j]}); return true;
  }
}

// What user code may throw.
constexpr unsigned nb_kinds = 6;

void
throw_kind(const W& w, unsigned kind)
{
  switch (kind)
  {
    case 1: // incompatible operands in an operation of its own
    {
      const unsigned top = static_cast<unsigned>(w.s->levels.size() + 6);
      (void)(SDD(top, w.b.values(1), sdd::one<C>()) + SDD(top + 1, w.b.values(1), sdd::one<C>()));
      MC_FAIL("incompatible operands accepted");
    }
    case 2: throw std::out_of_range("fault");
    case 3: throw std::bad_alloc();
    case 4: throw 42;
    case 5: w.o.node("nowhere"); MC_FAIL("unknown identifier accepted");
    default: break;
  }
}

// Applies with a fault at the n-th callback. True: completed; the result has been compared.
bool
attempt(const W& w, const H& h, const std::vector<mask>& f, const SDD& x, mask mx, long long n, unsigned kind = 0)
{
  ++st().transitions;
  if (kind) thrower() = [&w, kind]{ throw_kind(w, kind); }; else thrower() = nullptr;
  fault_countdown() = n;
  unsigned got = 0;
  try
  {
    const SDD y = h(w.o, x);
    MC_CHECK(n < 0 || fault_countdown() >= 0, "the exception is lost");
    fault_countdown() = -1;
    w.b.expect(y, *w.s, image(f, mx), "application");
    return true;
  }
  catch (const fault&) { got = 0; }
  catch (const sdd::top<C>&) { got = 1; }
  catch (const sdd::identifier_not_found_error<C>&) { got = 5; }
  catch (const std::out_of_range& e) { MC_CHECK(std::string(e.what()) == "fault", "another exception"); got = 2; }
  catch (const std::bad_alloc&) { got = 3; }
  catch (int k) { MC_CHECK(k == 42, "another exception"); got = 4; }
  MC_CHECK(fault_countdown() == -1, "exception of unknown origin");
  MC_CHECK(got == kind, "exception of kind " << got << " instead of " << kind);
  thrower() = nullptr;
  ++st().extra["faults_hit"];
  return false;
}

struct bench
{
  const W& w;
  T other; // another computation
  SDD held; mask mheld;
  bench(const W& w_)
    : w(w_), other(W::fix(w.sum({w.id(), leaves(w)[1], leaves(w)[3]}))), held(w.b.nary(*w.s, w.all() & 0x9335ac66)), mheld(w.all() & 0x9335ac66) {}

  void
  unchanged(const SDD& x, mask mx)
  {
    w.b.expect(x, *w.s, mx, "operand after the exception");
    w.b.expect(held, *w.s, mheld, "other handle after the exception");
    w.b.expect(x + held, *w.s, mx | mheld, "union after the exception");
    w.b.expect(held - x, *w.s, mheld & ~mx, "difference after the exception");
    w.b.expect(x & held, *w.s, mheld & mx, "intersection after the exception");
  }
  void others() { w.b.expect(other.h(w.o, held), *w.s, image(other.f, mheld), "other computation after the exception"); }
};

void
faults(const std::string& sn, unsigned comb, bool rewritten, bool pairs, const resources& r, const std::string& pn)
{
  use_policy(pn);
  const auto run = [&](std::size_t only)
  {
    std::size_t done = 0;
    auto m = sdd::init<C>(make_conf<C>(r));
    const W w(make_shape(sn), "v", 0, false);
    flusher<C> fl(m);
    const auto base = fl.now();
    std::string name;
    {
      const std::size_t nl = leaves(w).size();
      for (std::size_t i = 0; i < nl; ++i) for (std::size_t j = 0; j < nl; ++j)
      {
        if (done >= only) break;
        bool exists = false;
        {
          bench bn(w);
          T t{sdd::id<C>(), {}, ""};
          exists = scenario(w, leaves(w), i, j, comb, t);
          if (!exists) continue;
          ++done;
          const H h = rewritten ? sdd::rewrite<C>(w.o, t.h) : t.h;
          for (mask mx : {w.all(), w.all() & 0x5a6b9cd3})
          {
            const SDD x = w.b.grouped(*w.s, mx);
            for (long long n = 0; ; ++n)
            {
              where() = sn + (rewritten ? " rewritten " : " ") + t.name + " on " + hex(mx) + " fault at call " + std::to_string(n);
              m.reset_hom_cache();
              const unsigned kind = mx == w.all() ? 1 : static_cast<unsigned>((n + i + 2 * j) % nb_kinds);
              if (attempt(w, h, t.f, x, mx, n, kind)) break;
              bn.unchanged(x, mx);
              if (n % 2) bn.others(); // sometimes the retry comes first
              MC_CHECK(attempt(w, h, t.f, x, mx, -1), "retry throws");
              bn.others();
              ++st().states;
              if (pairs) for (long long n2 = 0; ; ++n2)
              {
                where() = sn + (rewritten ? " rewritten " : " ") + t.name + " on " + hex(mx) + " faults at calls " + std::to_string(n) + ", " + std::to_string(n2);
                m.reset_hom_cache();
                if (attempt(w, h, t.f, x, mx, n)) break; // the number of calls depends on what is cached
                if (attempt(w, h, t.f, x, mx, n2)) break;
                MC_CHECK(attempt(w, h, t.f, x, mx, -1), "retry throws");
                bn.unchanged(x, mx);
                ++st().states;
              }
            }
          }
          name = t.name;
        }
        where() = sn + " after faults in " + name;
        fl.expect(base, "after the faults");
      }
    }
    return done;
  };
  run(1); // what is allocated once
  balance bal;
  run(~std::size_t(0));
  bal.check("faults");
  MC_CHECK(st().extra["faults_hit"] || comb == 9, "no fault happened");
  sample("a fault at each of the calls of user code of applications over shape " + sn + "; last: " + where());
}

/*------------------------------------------------------------------------------------------------*/
// Incompatible intermediate results. A term comes with the assignments on which it unavoidably meets one.

struct bad_term { T t; std::vector<bool> thr; };

void
incompatible(const std::string& sn, unsigned kind, bool rewritten, const resources& r, const std::string& pn)
{
  use_policy(pn);
  const auto run = [&](bool once)
  {
    auto m = sdd::init<C>(make_conf<C>(r));
    const W w(make_shape(sn), "v", 0, false);
    flusher<C> fl(m);
    const auto base = fl.now();
    const unsigned n = w.n();
    {
      const std::size_t nl = leaves(w).size();
      for (std::size_t i = 0; i < nl; ++i) for (std::size_t j = 0; j < nl; ++j)
      {
        {
          bench bn(w);
          const auto bs = leaves(w);
          // a diagram which no diagram over the order is compatible with
          const unsigned top = static_cast<unsigned>(w.s->levels.size() - 1);
          const bool flat_top = !w.s->levels[0].nested;
          const SDD wrong = kind == 0 ? SDD(top + 1, w.b.values(1), sdd::one<C>())
                          : flat_top ? SDD(top, SDD(0, w.b.values(1), sdd::one<C>()), sdd::one<C>()) : SDD(top, w.b.values(1), sdd::one<C>());
          const T bad{sdd::sum<C>(w.o, {sdd::constant<C>(wrong), sdd::id<C>()}), w.f_id(), "bad"};
          std::vector<std::pair<T, std::vector<bool>>> ts;
          const auto guard = [&](const std::vector<mask>& f) { std::vector<bool> v(n); for (unsigned e = 0; e < n; ++e) v[e] = f[e] != 0; return v; };
          ts.emplace_back(W::comp(bad, bs[i]), guard(bs[i].f));
          ts.emplace_back(w.sum({W::comp(bad, bs[i]), bs[j]}), guard(bs[i].f));
          ts.emplace_back(W::comp(bs[j], W::comp(bad, bs[i])), guard(bs[i].f));
          ts.emplace_back(W::comp(W::comp(bad, bs[i]), bs[j]), guard(W::comp(bs[i], bs[j]).f));
          if (bs[i].h.selector() && is_selector(bs[i].f))
          {
            std::vector<bool> no = guard(bs[i].f), yes = no; for (unsigned e = 0; e < n; ++e) no[e] = !no[e];
            ts.emplace_back(w.ite(bs[i], bad, bs[j]), yes);
            ts.emplace_back(w.ite(bs[i], bs[j], bad), no);
          }
          const T step = w.sum({w.id(), bs[j]});
          if (W::can_fix(step))
          {
            const T fx = W::fix(step);
            const T all = w.sum({w.id(), bs[j], W::comp(bad, bs[i])});
            std::vector<bool> v(n, true); // never claimed: only what happens afterwards is checked
            if (W::can_fix(all)) ts.emplace_back(W::fix(all), v);
            ts.emplace_back(W::comp(W::comp(bad, bs[i]), fx), guard(W::comp(bs[i], fx).f));
          }
          for (const auto& tv : ts)
          {
            const H h = rewritten ? sdd::rewrite<C>(w.o, tv.first.h) : tv.first.h;
            for (mask mx : w.basis())
            {
              where() = sn + (rewritten ? " rewritten " : " ") + tv.first.name + " on " + hex(mx);
              bool must_not = true;
              for (unsigned e = 0; e < n; ++e) if (mx >> e & 1 && tv.second[e]) must_not = false;
              const SDD x = w.b.grouped(*w.s, mx);
              for (unsigned k = 0; k < 2; ++k)
              {
                try
                {
                  const SDD y = h(w.o, x);
                  if (must_not) w.b.expect(y, *w.s, image(tv.first.f, mx), "application");
                }
                catch (const sdd::top<C>&)
                {
                  MC_CHECK(!must_not, "refused");
                  ++st().extra["faults_hit"];
                }
                ++st().transitions;
                bn.unchanged(x, mx);
                bn.others();
              }
              ++st().states;
            }
          }
        }
        fl.expect(base, "after incompatible results");
        if (once) return;
      }
    }
  };
  run(true);
  balance bal;
  run(false);
  bal.check("incompatible results");
  MC_CHECK(st().extra["faults_hit"], "nothing was refused");
  sample("incompatible intermediate results over shape " + sn + ", each twice, followed by other computations");
}

/*------------------------------------------------------------------------------------------------*/
// Initializers which throw.

void
initializers(const std::string& sn, const resources& r, const std::string& pn)
{
  use_policy(pn);
  const auto run = [&]
  {
    auto m = sdd::init<C>(make_conf<C>(r));
    const W w(make_shape(sn), "v", 0, false);
    flusher<C> fl(m);
    const auto base = fl.now();
    const auto init = [&](const std::string&) { tick(); return w.b.values(3); };
    fault_countdown() = -1;
    { const SDD ref(w.o, init); }
    fl.expect(base, "after a construction");
    for (long long n = 0; ; ++n)
    {
      where() = sn + " initializer, fault at call " + std::to_string(n);
      bool thrown = false;
      {
        fault_countdown() = n;
        SDD held = w.b.nary(*w.s, 5);
        try { held = SDD(w.o, init); } catch (const fault&) { thrown = true; ++st().extra["faults_hit"]; }
        fault_countdown() = -1;
        if (thrown) w.b.expect(held, *w.s, 5, "assigned handle after the exception");
        ++st().states; ++st().transitions;
      }
      fl.expect(base, "after the initializer");
      if (!thrown) break;
    }
  };
  run();
  balance bal;
  run();
  bal.check("initializers");
  sample("initializers which throw at each call over shape " + sn);
}

void
cells_()
{
  const std::string c = std::string(conf_name<C>::get()) + "/";
  const auto& pols = all_policies();
  unsigned k = 0;
  for (const char* sn : {"2,2", "(2),2", "(2,2),2", "2,(2)", "2,2,2", "2,(2,2),2"}) for (unsigned comb = 0; comb < nb_combs; ++comb) for (bool rw : {false, true})
  {
    if ((comb == 5 || comb == 8) && std::string(sn).find('(') == std::string::npos) continue;
    const std::string pn = pols[k % pols.size()].name;
    const std::size_t cap = k % 3 == 0 ? 4 : k % 3 == 1 ? 16 : 8;
    ++k;
    const std::string s(sn);
    const bool big = s == "2,2,2" || s == "2,(2,2),2";
    const std::string nm = s + "/" + std::to_string(comb) + (rw ? "/rewritten" : "");
    add_cell(c + "one/" + nm, [=]{ faults(sn, comb, rw, false, small(cap, 4), pn); }, big);
    if (s == "2,(2,2),2") continue;
    add_cell(c + "two/" + nm, [=]{ faults(sn, comb, rw, true, small(cap, 4), pn); }, s != "2,2" && !(s == "(2),2" && (comb == 5 || comb == 8 || comb == 0)));
  }
  for (const char* sn : {"2,2", "(2),2", "(2,2),2", "2,2,2"}) for (unsigned kind : {0, 1}) for (bool rw : {false, true})
  {
    const std::string pn = pols[k++ % pols.size()].name;
    add_cell(c + "incompatible/" + sn + "/" + std::to_string(kind) + (rw ? "/rewritten" : ""), [=]{ incompatible(sn, kind, rw, small(8, 4), pn); }, std::string(sn) == "2,2,2");
  }
  for (const char* sn : {"2,2", "(2),2", "(2,2),2", "2,(2,(2),2),2", "2,2,2,2,2"}) { const std::string pn = pols[k++ % pols.size()].name; add_cell(c + "initializer/" + sn, [=]{ initializers(sn, small(8, 4), pn); }); }
}
const registrar reg(cells_);

} // namespace
