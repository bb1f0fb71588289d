// C01: union, intersection and difference denote the set operations.
#include "model.hh"

using namespace mc;
using C = sdd::CONF;
using SDD = sdd::SDD<C>;
using B = bridge<C>;

namespace {

std::string
desc(const shape& s, const char* op, mask a, mask b)
{
  return s.name + ": " + hex(a) + " " + op + " " + hex(b);
}

// All pairs of sets of a shape, with all the operands and all the possible results alive.
void
pairs_alive(const std::string& sn, const std::string& rn, const std::string& pn, unsigned renaming)
{
  use_policy(pn);
  const auto sp = make_shape(sn); const shape& s = *sp;
  auto m = sdd::init<C>(make_conf<C>(res(rn)));
  B b; b.renaming = renaming;
  const mask n = full(s.count());
  std::vector<SDD> h;
  for (mask x = 0; x <= n; ++x)
  {
    h.push_back(b.build(s, x, static_cast<unsigned>(x % B::nb_builders)));
    b.expect(h.back(), s, x, "construction");
    ++st().states;
  }
  for (mask x = 0; x <= n; ++x) for (mask y = 0; y <= n; ++y)
  {
    where() = desc(s, "op", x, y);
    MC_CHECK((h[x] + h[y]) == h[x | y], desc(s, "+", x, y) << " gives " << (h[x] + h[y]));
    MC_CHECK((h[x] & h[y]) == h[x & y], desc(s, "&", x, y) << " gives " << (h[x] & h[y]));
    MC_CHECK((h[x] - h[y]) == h[x & ~y], desc(s, "-", x, y) << " gives " << (h[x] - h[y]));
    st().transitions += 3; st().validated += 3;
    ++st().states;
  }
  // the operands have not been altered
  for (mask x = 0; x <= n; ++x) b.expect(h[x], s, x, "operand after all operations");
  sample("all pairs of the " + std::to_string(h.size()) + " sets of shape " + sn + " with +,&,-; e.g. "
         + desc(s, "-", n, n / 3));
}

// All pairs, operands built again for each pair and results released immediately: every operation
// has to create and collect its nodes. Also the compound assignments.
void
pairs_fresh(const std::string& sn, const std::string& rn, const std::string& pn, unsigned renaming)
{
  use_policy(pn);
  const auto sp = make_shape(sn); const shape& s = *sp;
  auto m = sdd::init<C>(make_conf<C>(res(rn)));
  B b; b.renaming = renaming;
  const mask n = full(s.count());
  for (mask x = 0; x <= n; ++x) for (mask y = 0; y <= n; ++y)
  {
    where() = desc(s, "op", x, y);
    const unsigned bx = static_cast<unsigned>((x + y) % B::nb_builders), by = static_cast<unsigned>(y % B::nb_builders);
    const SDD a = b.build(s, x, bx), c = b.build(s, y, by);
    b.expect(a + c, s, x | y, "+");
    b.expect(a & c, s, x & y, "&");
    b.expect(a - c, s, x & ~y, "-");
    SDD t = a; t += c; b.expect(t, s, x | y, "+=");
    t = a; t &= c; b.expect(t, s, x & y, "&=");
    t = a; t -= c; b.expect(t, s, x & ~y, "-=");
    b.expect(a, s, x, "left operand afterwards");
    b.expect(c, s, y, "right operand afterwards");
    if (x == y)
    {
      t = a; t += t; b.expect(t, s, x, "x += x");
      t = a; t &= t; b.expect(t, s, x, "x &= x");
      t = a; t -= t; b.expect(t, s, 0, "x -= x");
      st().transitions += 3;
    }
    st().transitions += 6; ++st().states;
  }
  sample("all pairs of sets of shape " + sn + ", operands rebuilt and results dropped at each step");
}

// All sequences of k operands for the n-ary operations.
void
tuples(const std::string& sn, unsigned k, const std::string& rn, const std::string& pn)
{
  use_policy(pn);
  const auto sp = make_shape(sn); const shape& s = *sp;
  auto m = sdd::init<C>(make_conf<C>(res(rn)));
  B b;
  const mask n = full(s.count());
  std::vector<SDD> h;
  for (mask x = 0; x <= n; ++x) h.push_back(b.build(s, x, static_cast<unsigned>(x % B::nb_builders)));
  for (mask x = 0; x <= n; ++x) b.expect(h[x], s, x, "construction");
  std::vector<mask> t(k, 0);
  std::vector<SDD> ops(k, sdd::zero<C>());
  while (true)
  {
    mask u = 0, i = n;
    for (unsigned j = 0; j < k; ++j) { u |= t[j]; i &= t[j]; ops[j] = h[t[j]]; }
    if (k == 0) i = 0;
    const auto text = [&](const char* op)
    { std::string r = sn + ": " + op + "("; for (mask x : t) r += hex(x) + " "; return r + ")"; };
    MC_CHECK(sdd::sum<C>(ops.begin(), ops.end()) == h[u], text("sum"));
    MC_CHECK(sdd::intersection<C>(ops.begin(), ops.end()) == h[i], text("intersection"));
    if (k == 3)
    {
      MC_CHECK(sdd::sum<C>({ops[2], ops[0], ops[1]}) == h[u], text("sum{}"));
      MC_CHECK(sdd::intersection<C>({ops[2], ops[0], ops[1]}) == h[i], text("intersection{}"));
      // mixed expressions
      MC_CHECK((ops[0] - (ops[1] + ops[2])) == h[t[0] & ~(t[1] | t[2])], text("a-(b+c)"));
      MC_CHECK(((ops[0] + ops[1]) & ops[2]) == h[(t[0] | t[1]) & t[2]], text("(a+b)&c"));
      st().transitions += 4; st().validated += 4;
    }
    st().transitions += 2; st().validated += 2; ++st().states;
    unsigned j = 0;
    while (j < k && t[j] == n) t[j++] = 0;
    if (j == k) break;
    ++t[j];
  }
  sample("all sequences of " + std::to_string(k) + " operands of shape " + sn);
}

/*------------------------------------------------------------------------------------------------*/
// Wide diagrams: binary relations over [0,n), one parameter n, all pairs of a set of relations.

using relation = std::vector<std::vector<bool>>;

relation
make_rel(unsigned kind, unsigned n)
{
  relation r(n, std::vector<bool>(n));
  for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j)
  {
    bool v = false;
    switch (kind)
    {
      case 0: v = i == j; break;
      case 1: v = i < j; break;
      case 2: v = (i + 1) % n == j; break;
      case 3: v = (i * i) % n == j; break;
      case 4: v = i % 3 != 0 && (j % 2 == 0); break;
      case 5: v = true; break;
      case 6: v = j <= n - 1 - i; break;
      default: v = (i / 7) == (j / 7); break;
    }
    r[i][j] = v;
  }
  return r;
}
constexpr unsigned nb_rels = 8;

SDD
wide(const relation& r, bool hierarchical)
{
  using vb = values_bridge<C::Values>;
  std::vector<SDD> rows;
  for (unsigned i = 0; i < r.size(); ++i)
  {
    std::vector<unsigned> vs;
    for (unsigned j = 0; j < r.size(); ++j) if (r[i][j]) vs.push_back(j);
    if (vs.empty()) continue;
    const SDD succ(0u, vb::make(vs), sdd::one<C>());
    rows.push_back(hierarchical ? SDD(1u, SDD(0u, vb::make({i}), sdd::one<C>()), succ)
                                : SDD(1u, vb::make({i}), succ));
  }
  return sdd::sum<C>(rows.begin(), rows.end());
}

relation
unwide(const SDD& x, unsigned n, bool hierarchical)
{
  using vb = values_bridge<C::Values>;
  relation r(n, std::vector<bool>(n));
  if (x == sdd::zero<C>()) return r;
  const auto arc = [&](const std::vector<unsigned>& is, const SDD& succ)
  {
    const auto& m = sdd::mem::variant_cast<sdd::flat_node<C>>(*succ);
    for (const auto& a : m) for (unsigned j : vb::get(a.valuation())) for (unsigned i : is)
    {
      MC_CHECK(i < n && j < n, "foreign value");
      MC_CHECK(!r[i][j], "a pair is represented twice");
      r[i][j] = true;
    }
  };
  if (hierarchical)
  {
    for (const auto& a : sdd::mem::variant_cast<sdd::hierarchical_node<C>>(*x))
    {
      std::vector<unsigned> is;
      for (const auto& b : sdd::mem::variant_cast<sdd::flat_node<C>>(*a.valuation()))
        for (unsigned i : vb::get(b.valuation())) is.push_back(i);
      arc(is, a.successor());
    }
  }
  else
  {
    for (const auto& a : sdd::mem::variant_cast<sdd::flat_node<C>>(*x)) arc(vb::get(a.valuation()), a.successor());
  }
  return r;
}

void
wide_family(bool hierarchical, unsigned lo, unsigned hi, unsigned step, const std::string& rn, const std::string& pn)
{
  use_policy(pn);
  auto m = sdd::init<C>(make_conf<C>(res(rn)));
  for (unsigned n = lo; n <= hi; n += step)
  {
    std::vector<SDD> h; std::vector<relation> r;
    for (unsigned k = 0; k < nb_rels; ++k)
    {
      r.push_back(make_rel(k, n)); h.push_back(wide(r[k], hierarchical));
      MC_CHECK(unwide(h[k], n, hierarchical) == r[k], "relation " << k << " over " << n << " values");
      ++st().states;
    }
    for (unsigned a = 0; a < nb_rels; ++a) for (unsigned b = 0; b < nb_rels; ++b)
    {
      where() = "relations " + std::to_string(a) + "," + std::to_string(b) + " over " + std::to_string(n);
      relation u(r[a]), i(r[a]), d(r[a]);
      for (unsigned x = 0; x < n; ++x) for (unsigned y = 0; y < n; ++y)
      {
        u[x][y] = r[a][x][y] || r[b][x][y]; i[x][y] = r[a][x][y] && r[b][x][y]; d[x][y] = r[a][x][y] && !r[b][x][y];
      }
      MC_CHECK(unwide(h[a] + h[b], n, hierarchical) == u, "+ : " << where());
      MC_CHECK(unwide(h[a] & h[b], n, hierarchical) == i, "& : " << where());
      MC_CHECK(unwide(h[a] - h[b], n, hierarchical) == d, "- : " << where());
      st().transitions += 3; st().validated += 3; ++st().states;
    }
    relation all_u(n, std::vector<bool>(n));
    for (const auto& x : r) for (unsigned p = 0; p < n; ++p) for (unsigned q = 0; q < n; ++q) if (x[p][q]) all_u[p][q] = true;
    MC_CHECK(unwide(sdd::sum<C>(h.begin(), h.end()), n, hierarchical) == all_u, "sum of all relations over " << n);
    ++st().transitions;
  }
  sample("relations over [0,n) for n in " + std::to_string(lo) + ".." + std::to_string(hi) + " step " + std::to_string(step));
}

/*------------------------------------------------------------------------------------------------*/
// Tall diagrams: sets recognised by a small automaton over n levels; the operations are compared
// with the diagram of the product automaton, built bottom-up without any operation on diagrams of
// more than one level.

SDD
tall(unsigned n, const std::function<int(int, unsigned)>& delta, const std::function<bool(int)>& accept
    , int states, int initial, unsigned dom, bool hierarchical)
{
  using vb = values_bridge<C::Values>;
  std::vector<SDD> cur;
  for (int q = 0; q < states; ++q) cur.push_back(accept(q) ? sdd::one<C>() : sdd::zero<C>());
  for (unsigned l = 0; l < n; ++l)
  {
    std::vector<SDD> nxt;
    for (int q = 0; q < states; ++q)
    {
      std::vector<SDD> ops;
      for (unsigned v = 0; v < dom; ++v)
      {
        const SDD& succ = cur[delta(q, v)];
        ops.push_back(hierarchical && l % 2 ? SDD(l, SDD(0u, vb::make({v}), sdd::one<C>()), succ)
                                            : SDD(l, vb::make({v}), succ));
      }
      nxt.push_back(sdd::sum<C>(ops.begin(), ops.end()));
    }
    cur = nxt;
  }
  return cur[initial];
}

void
tall_family(bool hierarchical, unsigned lo, unsigned hi, unsigned step, const std::string& rn, const std::string& pn)
{
  use_policy(pn);
  auto m = sdd::init<C>(make_conf<C>(res(rn)));
  // automata over {0,1,2}: state spaces of size 3
  struct aut { std::function<int(int, unsigned)> d; std::function<bool(int)> f; };
  const std::vector<aut> as = {
    {[](int q, unsigned v){ return int((q + v) % 3); }, [](int q){ return q == 0; }},   // sum = 0 mod 3
    {[](int q, unsigned v){ return int((q + v) % 3); }, [](int q){ return q != 0; }},
    {[](int q, unsigned v){ return v == 2 ? std::min(q + 1, 2) : q; }, [](int q){ return q == 1; }}, // exactly one 2
    {[](int q, unsigned v){ return q == 2 ? 2 : (v == 0 ? 2 : 0); }, [](int q){ return q != 2; }},   // no 0
    {[](int, unsigned){ return 0; }, [](int){ return true; }},
    {[](int q, unsigned v){ return q == 1 && v == 1 ? 2 : (q == 2 ? 2 : (v == 1 ? 1 : 0)); }, [](int q){ return q == 2; }},
  };
  for (unsigned n = lo; n <= hi; n += step)
  {
    std::vector<SDD> h;
    for (const auto& a : as) h.push_back(tall(n, a.d, a.f, 3, 0, 3, hierarchical));
    for (std::size_t i = 0; i < as.size(); ++i) for (std::size_t j = 0; j < as.size(); ++j)
    {
      where() = "automata " + std::to_string(i) + "," + std::to_string(j) + " over " + std::to_string(n) + " levels";
      const auto d = [&](int q, unsigned v){ return as[i].d(q / 3, v) * 3 + as[j].d(q % 3, v); };
      const auto un = tall(n, d, [&](int q){ return as[i].f(q / 3) || as[j].f(q % 3); }, 9, 0, 3, hierarchical);
      const auto in = tall(n, d, [&](int q){ return as[i].f(q / 3) && as[j].f(q % 3); }, 9, 0, 3, hierarchical);
      const auto di = tall(n, d, [&](int q){ return as[i].f(q / 3) && !as[j].f(q % 3); }, 9, 0, 3, hierarchical);
      MC_CHECK((h[i] + h[j]) == un, "+ : " << where());
      MC_CHECK((h[i] & h[j]) == in, "& : " << where());
      MC_CHECK((h[i] - h[j]) == di, "- : " << where());
      st().transitions += 3; st().validated += 3; ++st().states;
    }
  }
  sample("products of 6 automata over n levels, n in " + std::to_string(lo) + ".." + std::to_string(hi));
}

void
cells_()
{
  const std::string c = std::string(conf_name<C>::get()) + "/";
  struct P { const char* shape; const char* res; const char* pol; unsigned ren; bool th; };
  const std::vector<P> alive = {
    {"4", "tiny", "up-lifo", 1, false}, {"2,2", "tiny", "down-lifo", 0, false}, {"3,2", "evict", "alt-lifo", 1, false},
    {"2,3", "small", "up-fifo", 0, false}, {"2,2,2", "evict", "down-lifo", 0, false}, {"(2),2", "tiny", "up-lifo", 1, false},
    {"(2,2),2", "evict", "alt-lifo", 0, false}, {"(2),(2),2", "small", "down-fifo", 0, false},
    {"((2),2),2", "evict", "up-lifo", 0, false}, {"2,(2),2", "tiny", "alt-lifo", 1, false},
    {"3,3", "page", "down-lifo", 0, false}, {"(3),3", "small", "alt-lifo", 0, false}, {"(3),(3)", "page", "up-lifo", 0, false},
    {"8", "small", "up-lifo", 1, false}, {"(8)", "small", "down-lifo", 1, false},
    {"(2),4", "big", "down-lifo", 0, true}, {"4,2", "big", "alt-lifo", 0, true}, {"2,4", "evict", "up-lifo", 0, true},
    {"5,2", "evict", "up-lifo", 0, true}, {"2,5", "small", "down-lifo", 0, true}, {"(5),2", "page", "alt-lifo", 0, true},
  };
  for (const auto& p : alive)
    add_cell(c + "pairs/" + p.shape + "/" + p.res + "/" + p.pol, [=]{ pairs_alive(p.shape, p.res, p.pol, p.ren); }, p.th);
  const std::vector<P> fresh = {
    {"4", "evict", "down-lifo", 0, false}, {"2,2", "evict", "up-lifo", 1, false}, {"3,2", "tiny", "up-lifo", 0, false},
    {"2,3", "tiny", "alt-lifo", 1, false}, {"(2),2", "evict", "alt-lifo", 0, false}, {"(2),3", "tiny", "down-lifo", 0, false},
    {"(3),2", "small", "up-lifo", 0, false}, {"(2,2),2", "tiny", "alt-lifo", 1, true}, {"2,2,2", "tiny", "up-lifo", 1, true},
    {"(2),(2),2", "tiny", "up-lifo", 0, true}, {"((2),2),2", "tiny", "down-lifo", 0, true},
  };
  for (const auto& p : fresh)
    add_cell(c + "fresh/" + p.shape + "/" + p.res + "/" + p.pol, [=]{ pairs_fresh(p.shape, p.res, p.pol, p.ren); }, p.th);
  struct T { const char* shape; unsigned k; const char* res; const char* pol; bool th; };
  const std::vector<T> ts = {
    {"2,2", 0, "big", "up-lifo", false}, {"2,2", 1, "big", "up-lifo", false},
    {"2,2", 4, "evict", "alt-lifo", false}, {"(2),2", 4, "small", "down-lifo", false}, {"4", 4, "tiny", "up-lifo", false},
    {"3,2", 3, "evict", "down-lifo", false}, {"(3),2", 3, "evict", "up-lifo", false}, {"2,(3)", 3, "tiny", "alt-lifo", false},
    {"2,2", 5, "evict", "down-lifo", true}, {"(2),2", 5, "tiny", "alt-lifo", true}, {"2,(2)", 5, "small", "alt-lifo", true},
    {"2,3", 3, "tiny", "alt-lifo", true}, {"(2),3", 3, "page", "down-lifo", true},
  };
  for (const auto& t : ts)
    add_cell(c + "tuples/" + t.shape + "/k" + std::to_string(t.k) + "/" + t.res + "/" + t.pol, [=]{ tuples(t.shape, t.k, t.res, t.pol); }, t.th);
  const bool bits = values_bridge<C::Values>::is_bitset;
  add_cell(c + "wide/flat/1-64", [=]{ wide_family(false, 1, bits ? 64 : 40, 1, "evict", "alt-lifo"); });
  add_cell(c + "wide/hier/1-24", [=]{ wide_family(true, 1, 24, 1, "small", "down-lifo"); });
  if (!bits)
  {
    add_cell(c + "wide/flat/255-258", [=]{ wide_family(false, 255, 258, 3, "page", "up-lifo"); });
    add_cell(c + "wide/hier/64", [=]{ wide_family(true, 33, 64, 31, "big", "up-lifo"); });
  }
  else add_cell(c + "wide/hier/33-64", [=]{ wide_family(true, 33, 64, 31, "big", "alt-lifo"); });
  add_cell(c + "tall/flat/1-12", [=]{ tall_family(false, 1, 12, 1, "small", "down-lifo"); });
  add_cell(c + "tall/hier/1-12", [=]{ tall_family(true, 1, 12, 1, "small", "alt-lifo"); });
  add_cell(c + "tall/flat/100", [=]{ tall_family(false, 100, 100, 1, "page", "up-lifo"); });
}
const registrar reg(cells_);

} // namespace
