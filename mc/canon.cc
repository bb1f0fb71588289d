// C02: equality and hash of diagrams coincide with the equality of the sets they denote.
#include "model.hh"
#include <unordered_set>

using namespace mc;
using C = sdd::CONF;
using SDD = sdd::SDD<C>;
using B = bridge<C>;
using vb = values_bridge<C::Values>;

namespace {

std::size_t h_(const SDD& x) { return std::hash<SDD>()(x); }

void
same(const SDD& a, const SDD& b, const std::string& what)
{
  MC_CHECK(a == b && b == a && !(a != b) && !(a < b) && !(b < a), "equal sets, different diagrams: " << what << ": " << a << " / " << b);
  MC_CHECK(h_(a) == h_(b), "equal sets, different hashes: " << what);
  MC_CHECK(a.empty() == b.empty() && bool(a) == bool(b), what);
  ++st().validated;
}
void
differ(const SDD& a, const SDD& b, const std::string& what)
{
  MC_CHECK(a != b && b != a && !(a == b), "different sets, equal diagrams: " << what << ": " << a);
  MC_CHECK((a < b) != (b < a), "order isn't total: " << what);
  ++st().validated;
}

// Every set, every way to build it, all alive.
void
builders(const std::string& sn, const std::string& rn, const std::string& pn, unsigned renaming, bool keep)
{
  use_policy(pn);
  const auto sp = make_shape(sn); const shape& s = *sp;
  auto m = sdd::init<C>(make_conf<C>(res(rn)));
  B b; b.renaming = renaming;
  const mask n = full(s.count());
  std::vector<SDD> h;
  std::unordered_set<SDD> us; std::set<SDD> os;
  for (mask x = 0; x <= n; ++x)
  {
    where() = s.name + " set " + hex(x);
    const SDD a = b.build(s, x, 0);
    MC_CHECK(a.empty() == (x == 0), "emptiness of " << where());
    MC_CHECK(bool(a) == (x != 0), "emptiness of " << where());
    b.expect(a, s, x, "construction");
    for (unsigned k = 1; k < B::nb_builders; ++k)
    {
      same(a, b.build(s, x, k), where() + " builder " + std::to_string(k));
      ++st().transitions;
    }
    // x = (x u y) - (y - x), x = (x u y) & (x u z) with complementary y, z
    for (mask y : {n, n / 3, x >> 1, (x << 1) & n})
    {
      const SDD dy = b.build(s, y, static_cast<unsigned>(y % B::nb_builders));
      same(a, (a + dy) - (dy - a), where() + " (x+y)-(y-x), y=" + hex(y));
      same(a, (a - dy) + (a & dy), where() + " (x-y)+(x&y), y=" + hex(y));
      same(a, (a + dy) & (a + b.build(s, n & ~y, 3)), where() + " (x+y)&(x+!y), y=" + hex(y));
      st().transitions += 7;
    }
    if (keep) { h.push_back(a); us.insert(a); os.insert(a); }
    ++st().states;
  }
  if (keep)
  {
    MC_CHECK(us.size() == n + 1 && os.size() == n + 1, "containers of diagrams: " << us.size() << " " << os.size());
    for (mask x = 0; x <= n; ++x) for (mask y = 0; y < x; ++y) differ(h[x], h[y], s.name + " " + hex(x) + " " + hex(y));
    // drop one set out of two, build everything again
    for (mask x = 0; x <= n; x += 2) { us.erase(h[x]); os.erase(h[x]); h[x] = sdd::zero<C>(); }
    for (mask x = 0; x <= n; ++x)
    {
      const SDD a = b.build(s, x, static_cast<unsigned>(x % B::nb_builders));
      if (x & 1) same(a, h[x], s.name + " " + hex(x) + " rebuilt");
      b.expect(a, s, x, "rebuilt");
    }
  }
  sample("every set of shape " + sn + " by " + std::to_string(B::nb_builders) + " constructions and 12 identities");
}

// The graph of all sets under single insertions/removals/restrictions: every edge leads to the one
// diagram of its target.
void
graph(const std::string& sn, const std::string& rn, const std::string& pn)
{
  use_policy(pn);
  const auto sp = make_shape(sn); const shape& s = *sp;
  auto m = sdd::init<C>(make_conf<C>(res(rn)));
  B b;
  const unsigned k = s.count();
  const mask n = full(k);
  std::map<mask, SDD> seen; // breadth-first from the empty set: each set is built by its first path
  std::vector<mask> queue{0};
  seen.emplace(0, sdd::zero<C>());
  for (std::size_t q = 0; q < queue.size(); ++q)
  {
    const mask x = queue[q];
    for (unsigned e = 0; e < k; ++e) for (unsigned op = 0; op < 3; ++op)
    {
      where() = s.name + " " + hex(x) + " op " + std::to_string(op) + " " + std::to_string(e);
      const SDD one = b.single(s, e);
      SDD y = sdd::zero<C>(); mask t = 0;
      if (op == 0) { y = seen.at(x) + one; t = x | mask(1) << e; }
      if (op == 1) { y = seen.at(x) - one; t = x & ~(mask(1) << e); }
      if (op == 2) { y = seen.at(x) & b.grouped(s, n & ~(mask(1) << e)); t = x & ~(mask(1) << e); }
      ++st().transitions;
      const auto it = seen.find(t);
      if (it == seen.end()) { b.expect(y, s, t, "edge"); seen.emplace(t, y); queue.push_back(t); }
      else same(y, it->second, where());
    }
    ++st().states;
  }
  MC_CHECK(seen.size() == n + 1, "not all sets reached");
  sample("all edges of the graph of the sets of shape " + sn);
}

// All the orders of insertion of all the sets of k assignments.
void
permutations(const std::string& sn, unsigned k, const std::string& rn, const std::string& pn)
{
  use_policy(pn);
  const auto sp = make_shape(sn); const shape& s = *sp;
  auto m = sdd::init<C>(make_conf<C>(res(rn)));
  B b;
  for (mask x = 0; x <= full(s.count()); ++x)
  {
    if (popcount(x) != k) continue;
    std::vector<unsigned> p;
    for (unsigned e = 0; e < s.count(); ++e) if (x >> e & 1) p.push_back(e);
    const SDD ref = b.grouped(s, x);
    b.expect(ref, s, x, "grouped");
    do
    {
      where() = s.name + " " + hex(x) + " order";
      for (unsigned e : p) where() += " " + std::to_string(e);
      SDD l = sdd::zero<C>();
      for (unsigned e : p) l += b.single(s, e);
      same(ref, l, "left to right: " + where());
      SDD bal1 = b.single(s, p[0]), bal2 = sdd::zero<C>();
      for (std::size_t i = 1; i < p.size(); ++i) (i * 2 < p.size() ? bal1 : bal2) += b.single(s, p[i]);
      same(ref, bal1 + bal2, "halves: " + where());
      std::vector<SDD> ops;
      for (unsigned e : p) ops.push_back(b.single(s, e));
      same(ref, sdd::sum<C>(ops.begin(), ops.end()), "n-ary: " + where());
      st().transitions += 2 * p.size() + 1; ++st().states;
    } while (std::next_permutation(p.begin(), p.end()));
  }
  sample("all orders of insertion of all sets of " + std::to_string(k) + " assignments of shape " + sn);
}

// Diagrams of different shapes, all alive, are pairwise different.
void
shapes(const std::string& rn, const std::string& pn)
{
  use_policy(pn);
  auto m = sdd::init<C>(make_conf<C>(res(rn)));
  B b;
  std::vector<std::pair<std::string, SDD>> all;
  for (const char* sn : {"2", "3", "(2)", "((2))", "2,2", "(2),2", "2,(2)", "(2),(2)", "(2,2)", "((2),2)", "2,2,2", "(2,2),2", "2,(2,2)", "(2),2,2"})
  {
    const auto sp = make_shape(sn); const shape& s = *sp;
    // "2" and "3" overlap on purpose: skip what was already built
    for (mask x = 1; x <= full(s.count()); ++x)
    {
      if (s.name == "3" && x < 4) continue;
      if (s.count() == 8 && x % 7 > 2) continue;
      all.emplace_back(s.name + " " + hex(x), b.build(s, x, static_cast<unsigned>(x % B::nb_builders)));
      b.expect(all.back().second, s, x, "construction");
      ++st().states;
    }
  }
  all.emplace_back("|0|", sdd::zero<C>()); all.emplace_back("|1|", sdd::one<C>());
  for (std::size_t i = 0; i < all.size(); ++i) for (std::size_t j = 0; j < i; ++j)
  { differ(all[i].second, all[j].second, all[i].first + " / " + all[j].first); ++st().transitions; }
  // same level contents on other variables
  std::vector<SDD> vars;
  for (unsigned v = 0; v < 40; ++v)
  {
    vars.emplace_back(v, b.values(1), sdd::one<C>());
    vars.emplace_back(v, SDD(0u, b.values(1), sdd::one<C>()), sdd::one<C>());
  }
  for (std::size_t i = 0; i < vars.size(); ++i) for (std::size_t j = 0; j < i; ++j) differ(vars[i], vars[j], "variables");
  for (unsigned v = 0; v < 40; ++v)
  {
    same(vars[2 * v], SDD(v, b.values(1), sdd::one<C>()), "variable rebuilt");
    same(vars[2 * v + 1], SDD(v, SDD(0u, b.values(1), sdd::one<C>()), sdd::one<C>()), "variable rebuilt");
  }
  // constructors which give the empty set
  for (const SDD& e : { SDD(0u, b.values(0), sdd::one<C>()), SDD(3u, b.values(1), sdd::zero<C>()), SDD(1u, sdd::zero<C>(), sdd::one<C>())
                      , SDD(1u, vars[0], sdd::zero<C>()), SDD(), sdd::sum<C>({}), sdd::intersection<C>({}) })
    same(e, sdd::zero<C>(), "empty set");
  // value sets by copy and by move, in any order of values
  for (mask x = 1; x < 16; ++x)
  {
    auto v = b.values(x); const auto w = v;
    const SDD a(2u, w, sdd::one<C>());
    same(a, SDD(2u, std::move(v), sdd::one<C>()), "by copy / by move");
    std::vector<unsigned> vs; for (unsigned k = 0; k < 4; ++k) if (x >> k & 1) vs.push_back(b.val(k));
    std::vector<unsigned> idx(vs.size()); for (unsigned k = 0; k < idx.size(); ++k) idx[k] = k;
    do
    {
      C::Values u;
      for (unsigned k : idx) u.insert(vs[k]);
      same(a, SDD(2u, u, sdd::one<C>()), "order of values");
      for (unsigned k : idx) u.insert(vs[k]); // again
      same(a, SDD(2u, u, sdd::one<C>()), "values inserted twice");
    } while (std::next_permutation(idx.begin(), idx.end()));
    st().transitions += 2;
  }
  sample("all pairs of " + std::to_string(all.size()) + " diagrams of 14 shapes and of 80 single-level diagrams");
}

// Nodes with n arcs, for all n up to a bound, inserted in several orders (which decide the addresses
// of the successors, hence the order of arcs).
void
arity(unsigned hi, const std::string& rn, const std::string& pn, bool hierarchical)
{
  use_policy(pn);
  auto m = sdd::init<C>(make_conf<C>(res(rn)));
  std::vector<SDD> keep;
  const auto arc = [&](unsigned i)
  {
    const SDD succ(0u, vb::make({i}), sdd::one<C>());
    return hierarchical ? SDD(1u, SDD(0u, vb::make({i}), sdd::one<C>()), succ) : SDD(1u, vb::make({i}), succ);
  };
  for (unsigned n = 1; n <= hi; ++n)
  {
    where() = std::to_string(n) + " arcs";
    std::vector<SDD> r;
    SDD up = sdd::zero<C>(), down = sdd::zero<C>(), mid = sdd::zero<C>();
    std::vector<SDD> ops;
    for (unsigned i = 0; i < n; ++i) { up += arc(i); ops.push_back(arc(i)); }
    for (unsigned i = n; i-- > 0;) down += arc(i);
    for (unsigned i = 0; i < n; ++i) mid += arc((i * 7 + 3) % n == i ? i : (i % 2 ? n - 1 - i / 2 : i / 2));
    same(up, down, where());
    same(up, sdd::sum<C>(ops.begin(), ops.end()), where());
    same(up, sdd::sum<C>(ops.rbegin(), ops.rend()), where());
    same(up & down, up, where());
    same(up - (up - mid), mid & up, where());
    for (const auto& k : keep) differ(k, up, where());
    MC_CHECK(sdd::mem::is<sdd::hierarchical_node<C>>(up) == hierarchical, "kind of node");
    keep.push_back(up);
    st().transitions += 3 * n + 6; ++st().states;
    if (keep.size() > 16) keep.erase(keep.begin()); // old nodes are collected
  }
  sample("nodes with 1.." + std::to_string(hi) + " arcs, four orders of construction");
}

// Deviation-bounded exploration of the placement of nodes: the scenario is executed once per set of
// at most two allocations placed at the other end of the memory.
void
placement(const std::string& sn, mask x, mask y, const std::string& rn, const std::string& pn, unsigned bound)
{
  const auto sp = make_shape(sn); const shape& s = *sp;
  std::vector<std::set<std::uint64_t>> todo{{}};
  std::uint64_t n = 0;
  for (std::size_t i = 0; i < todo.size(); ++i)
  {
    const auto dev = todo[i];
    std::ostringstream os; os << s.name << " " << hex(x) << " " << hex(y) << " deviations";
    for (auto d : dev) os << " " << d;
    where() = os.str();
    {
      use_policy(pn);
      auto m = sdd::init<C>(make_conf<C>(res(rn)));
      B b;
      arm_deviations(dev);
      {
        SDD a = b.incremental(s, x), c = b.nary(s, y);
        const SDD u = a + c, k = a & c, d = a - c;
        a = sdd::zero<C>();
        const SDD a2 = b.decremental(s, x);
        disarm_deviations();
        n = allocations_since_arm();
        b.expect(u, s, x | y, "+"); b.expect(k, s, x & y, "&"); b.expect(d, s, x & ~y, "-"); b.expect(a2, s, x, "rebuilt");
        same(u, b.grouped(s, x | y), where()); same(k, b.grouped(s, x & y), where());
        same(d, b.grouped(s, x & ~y), where()); same(a2, b.grouped(s, x), where());
        same(d + k, a2, where()); same(u - d, c, where());
      }
    }
    st().transitions += 10; ++st().states;
    if (dev.size() < bound)
    {
      const std::uint64_t from = dev.empty() ? 0 : *dev.rbegin() + 1;
      for (std::uint64_t d = from; d < n; ++d) { auto e = dev; e.insert(d); todo.push_back(std::move(e)); }
    }
  }
  st().extra["placements"] += todo.size();
  sample(s.name + ": " + std::to_string(todo.size()) + " placements of the blocks of one scenario (<= " + std::to_string(bound) + " deviations)");
}

void
cells_()
{
  const std::string c = std::string(conf_name<C>::get()) + "/";
  struct P { const char* shape; const char* res; const char* pol; unsigned ren; bool keep; bool th; };
  for (const auto& p : std::vector<P>{
         {"4", "tiny", "down-lifo", 1, true, false}, {"2,2", "evict", "alt-lifo", 0, true, false}, {"2,3", "tiny", "alt-lifo", 1, true, false},
         {"3,2", "small", "up-lifo", 0, true, false}, {"(2),2", "tiny", "down-fifo", 0, true, false}, {"2,2,2", "evict", "alt-lifo", 1, true, false},
         {"(2,2),2", "tiny", "down-lifo", 0, true, false}, {"((2),2),2", "small", "alt-lifo", 0, true, false}, {"(2),(2),2", "evict", "up-lifo", 0, true, false},
         {"3,3", "evict", "alt-lifo", 1, true, false}, {"(3),3", "small", "down-lifo", 0, true, false}, {"8", "small", "alt-lifo", 1, true, false},
         {"2,5", "evict", "alt-lifo", 0, false, false}, {"(2),5", "evict", "down-lifo", 0, false, false}, {"5,2", "small", "alt-lifo", 0, false, false},
         {"2,2,3", "page", "alt-lifo", 0, false, false}, {"(2,2),3", "page", "up-lifo", 0, false, false}, {"4,3", "small", "up-lifo", 0, false, false},
         {"2,(2,3)", "page", "down-lifo", 0, false, false} })
    add_cell(c + "builders/" + p.shape + "/" + p.res + "/" + p.pol, [=]{ builders(p.shape, p.res, p.pol, p.ren, p.keep); }, p.th);
  struct G { const char* shape; const char* res; const char* pol; bool th; };
  for (const auto& p : std::vector<G>{
         {"3,3", "tiny", "alt-lifo", false}, {"(2,2),2", "evict", "down-lifo", false}, {"2,2,2", "small", "alt-lifo", false},
         {"(3),3", "evict", "up-fifo", false}, {"2,(2),2", "tiny", "up-lifo", false},
         {"3,4", "page", "alt-lifo", false}, {"(3),4", "page", "down-lifo", false}, {"2,2,3", "small", "alt-lifo", false} })
    add_cell(c + "graph/" + p.shape + "/" + p.res + "/" + p.pol, [=]{ graph(p.shape, p.res, p.pol); }, p.th);
  struct K { const char* shape; unsigned k; const char* res; const char* pol; bool th; };
  for (const auto& p : std::vector<K>{
         {"2,2", 4, "tiny", "up-lifo", false}, {"3,2", 4, "evict", "alt-lifo", false}, {"3,2", 5, "small", "up-fifo", false},
         {"(2),3", 5, "evict", "down-lifo", false}, {"2,2,2", 4, "small", "alt-lifo", false}, {"(2,2),2", 4, "tiny", "down-lifo", false},
         {"3,3", 3, "small", "up-lifo", false},
         {"3,2", 6, "small", "down-lifo", false}, {"2,2,2", 5, "evict", "alt-lifo", false}, {"(2,2),2", 5, "small", "up-lifo", false} })
    add_cell(c + "permutations/" + p.shape + "/k" + std::to_string(p.k), [=]{ permutations(p.shape, p.k, p.res, p.pol); }, p.th);
  add_cell(c + "shapes/tiny", []{ shapes("tiny", "alt-lifo"); });
  add_cell(c + "shapes/big", []{ shapes("big", "down-lifo"); });
  const bool bits = vb::is_bitset;
  add_cell(c + "arity/flat", [=]{ arity(bits ? 64 : 80, "small", "alt-lifo", false); });
  add_cell(c + "arity/hier", [=]{ arity(32, "small", "down-lifo", true); });
  if (!bits) add_cell(c + "arity/flat/260", [=]{ arity(260, "big", "up-lifo", false); });
  struct D { const char* shape; mask x, y; const char* res; const char* pol; unsigned bound; bool th; };
  for (const auto& d : std::vector<D>{
         {"2,2", 0x9, 0xe, "small", "up-lifo", 2, false}, {"2,2", 0x6, 0x7, "tiny", "alt-lifo", 2, false},
         {"3,2", 0x36, 0x1b, "small", "down-lifo", 1, false}, {"(2),2", 0x9, 0x7, "evict", "up-lifo", 2, false},
         {"(2,2),2", 0x96, 0x3c, "small", "alt-lifo", 1, false}, {"3,3", 0x155, 0x0f3, "evict", "alt-lifo", 1, false},
         {"3,2", 0x36, 0x1b, "small", "up-lifo", 2, false}, {"2,2,2", 0x96, 0x5a, "evict", "alt-lifo", 2, true},
         {"(2),(2)", 0x6, 0xb, "small", "down-lifo", 2, true},
         {"2,2", 0x9, 0xe, "small", "up-lifo", 3, true}, {"(2),2", 0x9, 0x7, "tiny", "alt-lifo", 3, true}, {"3,3", 0x155, 0x0f3, "evict", "down-lifo", 2, true}, {"(2,2),2", 0x96, 0x3c, "tiny", "down-lifo", 2, true} })
    add_cell(c + "placement/" + d.shape + "/" + hex(d.x) + "/" + d.res + "/" + d.pol + "/" + std::to_string(d.bound)
              , [=]{ placement(d.shape, d.x, d.y, d.res, d.pol, d.bound); }, d.th);
}
const registrar reg(cells_);

} // namespace
