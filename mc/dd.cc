// C05: incompatible operands; C06: counting and enumeration of paths; C18: tools which describe a diagram.
#include "model.hh"
#include "sdd/order/strategies/force_hypergraph.hh"
#include "sdd/tools/arcs.hh"
#include "sdd/tools/dot/force_hypergraph.hh"
#include "sdd/tools/dot/sdd.hh"
#include "sdd/tools/nodes.hh"
#include "sdd/tools/sdd_statistics.hh"
#include "sdd/tools/size.hh"
#ifdef WITH_FLAT_SET
#include "sdd/tools/manager_statistics.hh"
#endif

using namespace mc;
using C = sdd::CONF;
using SDD = sdd::SDD<C>;
using B = bridge<C>;
using vb = values_bridge<C::Values>;
using big = boost::multiprecision::cpp_int;

namespace {

/*------------------------------------------------------------------------------------------------*/
// C06

void
flat_levels(const shape& s, std::vector<unsigned>& doms)
{
  for (const auto& l : s.levels) { if (l.nested) flat_levels(*l.nested, doms); else doms.push_back(l.dom); }
}

// The product denoted by a path.
mask
path_mask(const B& b, const std::vector<unsigned>& doms, const sdd::path<C>& p)
{
  MC_CHECK(p.size() == doms.size(), "path of " << p.size() << " values instead of " << doms.size());
  std::vector<unsigned> es{0};
  for (std::size_t i = 0; i < p.size(); ++i)
  {
    const mask v = b.unvalues(p[i], doms[i]);
    MC_CHECK(v != 0, "empty set of values in a path");
    std::vector<unsigned> next;
    for (unsigned e : es) for (unsigned k = 0; k < doms[i]; ++k) if (v >> k & 1) next.push_back(e * doms[i] + k);
    es.swap(next);
  }
  mask r = 0;
  for (unsigned e : es) r |= mask(1) << e;
  return r;
}

void
check_count(const SDD& x, mask m)
{
  const big n = x.size();
  MC_CHECK(n == popcount(m), "size() is " << n << " instead of " << popcount(m) << " for " << x);
  ++st().transitions;
}

void
check_paths(const B& b, const SDD& x, const std::vector<unsigned>& doms, mask m)
{
  auto gen = x.paths();
  mask seen = 0; unsigned nb = 0;
  for (const auto& p : gen)
  {
    if (m == 0) { MC_CHECK(p.empty() && nb == 0, "paths of the empty set"); ++nb; continue; }
    const mask q = path_mask(b, doms, p);
    MC_CHECK((q & seen) == 0, "paths overlap in " << x);
    seen |= q; ++nb;
  }
  MC_CHECK(seen == m, "paths of " << x << " denote " << hex(seen) << " instead of " << hex(m));
  st().transitions += nb; ++st().validated;
}

void
count_all(const std::string& sn, const std::string& rn, const std::string& pn, unsigned renaming)
{
  use_policy(pn);
  const auto sp = make_shape(sn); const shape& s = *sp;
  auto m = sdd::init<C>(make_conf<C>(res(rn)));
  B b; b.renaming = renaming;
  std::vector<unsigned> doms; flat_levels(s, doms);
  for (mask x = 0; x <= full(s.count()); ++x)
  {
    where() = s.name + " set " + hex(x);
    const SDD d = b.build(s, x, static_cast<unsigned>(x % B::nb_builders));
    check_count(d, x);
    check_paths(b, d, doms, x);
    ++st().states;
  }
  sample("size() and paths() of every set of shape " + sn);
}

// Enumerations stopped after each prefix, interleaved with other enumerations and with operations, or
// surviving the handle they were created from.
void
interleave(const std::string& sn, const std::string& rn, const std::string& pn)
{
  use_policy(pn);
  const auto sp = make_shape(sn); const shape& s = *sp;
  auto m = sdd::init<C>(make_conf<C>(res(rn)));
  B b;
  std::vector<unsigned> doms; flat_levels(s, doms);
  const mask n = full(s.count());
  for (mask x = 1; x <= n; ++x)
  {
    where() = s.name + " set " + hex(x);
    SDD d = b.grouped(s, x);
    // reference sequence
    std::vector<mask> ref;
    { auto g = d.paths(); for (const auto& p : g) ref.push_back(path_mask(b, doms, p)); }
    for (std::size_t stop = 0; stop <= ref.size(); ++stop)
    {
      const auto before = m.sdd_stats().size;
      {
        auto g = d.paths();
        auto it = begin(g); auto e = end(g);
        for (std::size_t i = 0; i < stop && it != e; ++i, ++it)
          MC_CHECK(path_mask(b, doms, *it) == ref[i], "two enumerations of " << d << " differ");
      } // abandoned
      MC_CHECK(m.sdd_stats().size == before, "an abandoned enumeration changed the number of nodes");
      check_count(d, x);
      ++st().transitions;
    }
    for (mask y = 1; y <= n; ++y)
    {
      where() = s.name + " sets " + hex(x) + " " + hex(y);
      const SDD dy = b.nary(s, y);
      SDD tmp = b.incremental(s, x);
      auto g1 = tmp.paths(); auto g2 = dy.paths();
      tmp = sdd::zero<C>(); // the first enumeration keeps its diagram alive
      auto i1 = begin(g1); auto i2 = begin(g2); auto e1 = end(g1); auto e2 = end(g2);
      mask s1 = 0, s2 = 0;
      while (i1 != e1 || i2 != e2)
      {
        if (i1 != e1) { s1 |= path_mask(b, doms, *i1); ++i1; }
        b.expect(dy + b.nary(s, (x + y) & n), s, y | ((x + y) & n), "sum between two paths");
        if (i2 != e2) { const mask q = path_mask(b, doms, *i2); MC_CHECK(!(s2 & q), "paths overlap"); s2 |= q; ++i2; }
        b.expect(dy - b.nary(s, (x * 5) & n), s, y & ~((x * 5) & n), "difference between two paths");
        st().transitions += 4;
      }
      MC_CHECK(s1 == x && s2 == y, "interleaved enumerations: " << hex(s1) << " " << hex(s2));
      ++st().validated;
    }
    ++st().states;
  }
  sample("every prefix of every enumeration of shape " + sn + ", every pair of interleaved enumerations");
}

// Counts of any magnitude.
void
magnitude(const std::string& rn, const std::string& pn)
{
  use_policy(pn);
  auto m = sdd::init<C>(make_conf<C>(res(rn)));
  B b;
  // product of n levels of d values; all assignments but one; union of two products
  for (unsigned d : {1u, 2u, 3u, 5u, 16u, 64u}) for (unsigned n : {1u, 2u, 3u, 10u, 31u, 32u, 33u, 63u, 64u, 65u, 128u, 200u})
  {
    where() = "product of " + std::to_string(n) + " levels of " + std::to_string(d) + " values";
    const mask all = full(d);
    SDD x = sdd::one<C>(), one = sdd::one<C>(), half = sdd::one<C>();
    big nx = 1, nh = 1;
    for (unsigned i = 0; i < n; ++i)
    {
      std::vector<unsigned> vs; for (unsigned k = 0; k < d; ++k) vs.push_back(k);
      std::vector<unsigned> hs; for (unsigned k = i % 2; k < d; k += 2) hs.push_back(k);
      x = SDD(i, vb::make(vs), x); nx *= d;
      one = SDD(i, vb::make({d - 1}), one);
      half = SDD(i, vb::make(hs), half); nh *= hs.size();
      MC_CHECK(x.size() == nx, where() << " at level " << i << ": " << x.size());
      ++st().transitions;
    }
    MC_CHECK(one.size() == 1, where());
    MC_CHECK((x - one).size() == nx - 1, where() << ": all but one: " << (x - one).size());
    MC_CHECK(half.size() == nh, where() << ": half");
    MC_CHECK((x - half).size() == nx - nh, where() << ": without half: " << (x - half).size());
    MC_CHECK(((x - half) + (x & half)).size() == nx, where());
    st().transitions += 6; st().validated += 6; ++st().states;
    (void)all;
  }
  // arcs of very many values
  if (!vb::is_bitset) for (unsigned d : {255u, 256u, 257u, 1000u, 65535u, 65536u, 65537u, 70000u})
  {
    std::vector<unsigned> vs, ev; for (unsigned k = 0; k < d; ++k) { vs.push_back(k); if (k % 2 == 0) ev.push_back(k); }
    SDD x = sdd::one<C>(), y = sdd::one<C>(), h = sdd::one<C>(); big nx = 1, ny = 1;
    for (unsigned i = 0; i < 3; ++i)
    {
      where() = "product of " + std::to_string(i + 1) + " levels of " + std::to_string(d) + " values";
      x = SDD(i, vb::make(vs), x); nx *= d;
      y = SDD(i, vb::make(ev), y); ny *= ev.size();
      h = SDD(i, SDD(0u, vb::make(vs), sdd::one<C>()), h);
      MC_CHECK(x.size() == nx && h.size() == nx, where() << ": " << x.size() << ", " << h.size());
      MC_CHECK(y.size() == ny && (x - y).size() == nx - ny && (x & y).size() == ny && (x + y).size() == nx, where() << ": even values " << y.size());
      unsigned paths = 0;
      auto gen = x.paths();
      for (const auto& p : gen) { ++paths; MC_CHECK(p.size() == i + 1, where() << ": path of " << p.size()); for (const auto& v : p) MC_CHECK(v == vb::make(vs), where()); }
      MC_CHECK(paths == 1, where() << ": " << paths << " paths");
      st().transitions += 5; st().validated += 5; ++st().states;
    }
  }
  // squares: each level of hierarchy squares the count
  for (unsigned base : {2u, 3u, 7u})
  {
    std::vector<unsigned> vs; for (unsigned k = 0; k < base; ++k) vs.push_back(k);
    SDD x(0u, vb::make(vs), sdd::one<C>()); big n = base;
    SDD lone(0u, vb::make({0}), sdd::one<C>());
    for (unsigned i = 0; i < 9; ++i)
    {
      where() = "square " + std::to_string(i) + " of " + std::to_string(base);
      x = SDD(1u, x, SDD(0u, x, sdd::one<C>())); n *= n;
      lone = SDD(1u, lone, SDD(0u, lone, sdd::one<C>()));
      MC_CHECK(x.size() == n, where() << ": " << x.size());
      MC_CHECK((x - lone).size() == n - 1, where() << ": all but one: " << (x - lone).size());
      st().transitions += 2; st().validated += 2; ++st().states;
    }
  }
  // many arcs to one shared node, and chains where each node is reached in many ways
  for (unsigned n = 1; n <= 60; ++n)
  {
    where() = "staircase " + std::to_string(n);
    // the set of words of length n over {0,1,2} without 2 after the first 1: counted by recurrence
    SDD a = sdd::one<C>(), z = sdd::one<C>(); big na = 1, nz = 1;
    for (unsigned i = 0; i < n; ++i)
    {
      const SDD a2 = SDD(i, vb::make({0, 2}), a) + SDD(i, vb::make({1}), z);
      z = SDD(i, vb::make({0, 1}), z);
      const big t = 2 * na + nz; nz *= 2; na = t; a = a2;
    }
    MC_CHECK(a.size() == na && z.size() == nz, where() << ": " << a.size() << " instead of " << na);
    st().transitions += 2; st().validated += 2; ++st().states;
  }
  sample("products d^n up to 64^200, minus one, minus a half; repeated squares up to 7^512; staircases");
}

/*------------------------------------------------------------------------------------------------*/
// C18

// Order of a shape; the identifier of a level gives its place ("a", "b", nested: "ba", "bb"...).
sdd::order_builder<C>
shape_builder(const shape& s, const std::string& prefix)
{
  sdd::order_builder<C> ob;
  for (std::size_t i = s.levels.size(); i-- > 0;)
  {
    const std::string id = prefix + static_cast<char>('a' + i);
    if (s.levels[i].nested) ob.push(id, shape_builder(*s.levels[i].nested, id)); else ob.push(id);
  }
  return ob;
}

// identifiers of the levels where a node can occur -> (shape, level)
void
places(const shape& s, const std::string& prefix, std::map<std::string, std::pair<const shape*, std::size_t>>& r)
{
  for (std::size_t i = 0; i < s.levels.size(); ++i)
  {
    const std::string id = prefix + static_cast<char>('a' + i);
    r[id] = {&s, i};
    if (s.levels[i].nested) places(*s.levels[i].nested, id, r);
  }
}

mask
parse_values(const B& b, const std::string& t, std::size_t& i, unsigned dom)
{
  mask r = 0;
  MC_CHECK(t[i] == '{', "set of values expected: " << t.substr(i));
  ++i;
  const auto number = [&]
  {
    MC_CHECK(i < t.size() && isdigit(static_cast<unsigned char>(t[i])), "number expected: " << t.substr(i));
    std::uint64_t v = 0;
    while (i < t.size() && isdigit(static_cast<unsigned char>(t[i]))) v = v * 10 + static_cast<std::uint64_t>(t[i++] - '0');
    return v;
  };
  while (true)
  {
    const std::uint64_t lo = number();
    std::uint64_t hi = lo;
    if (t.compare(i, 2, "..") == 0) { i += 2; hi = number(); MC_CHECK(hi > lo, "range " << t); }
    MC_CHECK(hi - lo <= dom, "range too large in " << t);
    for (std::uint64_t v = lo; v <= hi; ++v)
    {
      unsigned k = 0; while (k < dom && b.val(k) != v) ++k;
      MC_CHECK(k < dom, "foreign value " << v << " in " << t);
      MC_CHECK(!(r >> k & 1), "value " << v << " twice in " << t);
      r |= mask(1) << k;
    }
    if (t[i] == ',') { ++i; continue; }
    MC_CHECK(t[i] == '}', "end of a set of values expected: " << t.substr(i));
    ++i;
    return r;
  }
}

// Text -> set. Grammar: |0|, |1|, var[val --> succ || ...].
mask
parse_text(const B& b, const std::string& t, std::size_t& i, const shape& s, std::size_t l)
{
  if (t.compare(i, 3, "|0|") == 0) { i += 3; return 0; }
  if (t.compare(i, 3, "|1|") == 0) { MC_CHECK(l == s.levels.size(), "|1| too early in " << t); i += 3; return 1; }
  MC_CHECK(l < s.levels.size(), "too deep: " << t);
  const std::string head = std::to_string(B::var(s, l)) + "[";
  MC_CHECK(t.compare(i, head.size(), head) == 0, head << " expected in " << t << " at " << i);
  i += head.size();
  const unsigned rest = s.count(l + 1);
  mask r = 0;
  while (true)
  {
    const mask v = s.levels[l].nested ? parse_text(b, t, i, *s.levels[l].nested, 0) : parse_values(b, t, i, s.levels[l].dom);
    MC_CHECK(t.compare(i, 5, " --> ") == 0, "--> expected in " << t << " at " << i);
    i += 5;
    const mask sub = parse_text(b, t, i, s, l + 1);
    for (unsigned k = 0; k < s.levels[l].size(); ++k)
      if (v >> k & 1) { MC_CHECK(!(r >> (k * rest) & full(rest)), "two arcs for a value in " << t); r |= sub << (k * rest); }
    if (t.compare(i, 4, " || ") == 0) { i += 4; continue; }
    MC_CHECK(i < t.size() && t[i] == ']', "] expected in " << t << " at " << i);
    ++i;
    return r;
  }
}

struct dot_graph
{
  struct edge { std::string to, attr; };
  std::map<std::string, std::string> nodes; // name -> attributes
  std::map<std::string, std::vector<edge>> edges;
  std::vector<std::string> declared;
};

dot_graph
parse_dot(const std::string& text)
{
  dot_graph g;
  std::istringstream is(text);
  std::string l;
  MC_CHECK(std::getline(is, l) && l.find("digraph") == 0 && l.find('{') != std::string::npos, "header of dot output: " << l);
  bool closed = false;
  while (std::getline(is, l))
  {
    if (l.empty()) continue;
    MC_CHECK(!closed, "text after the end of the graph: " << l);
    if (l == "}") { closed = true; continue; }
    if (l.back() == ';') l.pop_back();
    std::string attr;
    const auto br = l.find('[');
    if (br != std::string::npos) { attr = l.substr(br + 1, l.rfind(']') - br - 1); l = l.substr(0, br); }
    while (!l.empty() && l.back() == ' ') l.pop_back();
    const auto arrow = l.find(" -> ");
    if (arrow == std::string::npos)
    {
      MC_CHECK(g.nodes.emplace(l, attr).second, "node " << l << " declared twice");
      g.declared.push_back(l);
    }
    else g.edges[l.substr(0, arrow)].push_back({l.substr(arrow + 4), attr});
  }
  MC_CHECK(closed, "dot output isn't closed");
  return g;
}

std::string
label(const std::string& attr)
{
  const auto i = attr.find("label=\"");
  MC_CHECK(i != std::string::npos, "no label in [" << attr << "]");
  const auto j = attr.find('"', i + 7);
  return attr.substr(i + 7, j - i - 7);
}

struct dot_reader
{
  const B& b;
  const dot_graph& g;
  std::map<std::string, std::set<std::string>> labels_seen; // node -> identifiers of the places where it occurs
  std::set<std::string> reached;

  mask
  read(const std::string& n, const shape& s, std::size_t l, const std::string& prefix)
  {
    const auto it = g.nodes.find(n);
    MC_CHECK(it != g.nodes.end(), "undeclared node " << n);
    reached.insert(n);
    const auto es = g.edges.find(n);
    if (it->second.find("shape=square") != std::string::npos)
    {
      MC_CHECK(es == g.edges.end(), "edges out of a terminal");
      const auto v = label(it->second);
      if (v == "0") return 0;
      MC_CHECK(v == "1" && l == s.levels.size(), "terminal " << v);
      return 1;
    }
    MC_CHECK(l < s.levels.size(), "dot output too deep");
    labels_seen[n].insert(prefix + static_cast<char>('a' + l));
    MC_CHECK(es != g.edges.end(), "node without edges");
    const unsigned rest = s.count(l + 1);
    mask r = 0;
    std::set<std::string> targets;
    for (const auto& e : es->second)
    {
      mask v = 0, sub = 0;
      MC_CHECK(targets.insert(e.to).second, "two edges between the same nodes");
      if (s.levels[l].nested)
      {
        const auto ghost = g.nodes.find(e.to);
        MC_CHECK(ghost != g.nodes.end() && ghost->second.find("shape=point") != std::string::npos, "ghost node expected");
        reached.insert(e.to);
        const auto ge = g.edges.find(e.to);
        MC_CHECK(ge != g.edges.end() && ge->second.size() == 2, "a ghost node has two edges");
        std::string succ, nested;
        for (const auto& x : ge->second) (x.attr.find("dotted") != std::string::npos ? nested : succ) = x.to;
        MC_CHECK(!succ.empty() && !nested.empty(), "a ghost node has a solid and a dotted edge");
        v = read(nested, *s.levels[l].nested, 0, prefix + static_cast<char>('a' + l));
        sub = read(succ, s, l + 1, prefix);
      }
      else
      {
        const auto t = label(e.attr); std::size_t i = 0;
        v = parse_values(b, t, i, s.levels[l].dom);
        sub = read(e.to, s, l + 1, prefix);
      }
      for (unsigned k = 0; k < s.levels[l].size(); ++k)
        if (v >> k & 1) { MC_CHECK(!(r >> (k * rest) & full(rest)), "two edges for a value"); r |= sub << (k * rest); }
    }
    return r;
  }
};

std::string str(const SDD& x) { std::ostringstream os; os << x; return os.str(); }

void
tools_all(const std::string& sn, const std::string& rn, const std::string& pn, unsigned renaming)
{
  use_policy(pn);
  const auto sp = make_shape(sn); const shape& s = *sp;
  auto m = sdd::init<C>(make_conf<C>(res(rn)));
  B b; b.renaming = renaming;
  canonical can;
  const sdd::order<C> o(shape_builder(s, ""));
  std::map<std::string, std::pair<const shape*, std::size_t>> where_;
  places(s, "", where_);
  namespace t = sdd::tools;

  // cost of a node of k arcs, learned on nodes of one and two arcs
  const std::size_t t1 = t::size(sdd::one<C>()), t0 = t::size(sdd::zero<C>());
  const auto two = make_shape("2,2"), one = make_shape("2"), htwo = make_shape("(2),2");
  const std::size_t f1 = t::size(b.grouped(*one, 1)) - t1;
  const std::size_t f2 = t::size(b.grouped(*two, 0x6)) - t1 - 2 * f1;
  const std::size_t h1 = t::size(b.grouped(*htwo, 0x1)) - t1 - f1;  // nested and successor are the same node
  const std::size_t h2 = t::size(b.grouped(*htwo, 0x6)) - t1 - 2 * f1;
  MC_CHECK(f1 > 0 && h1 > 0 && f2 >= f1 + sizeof(void*) && h2 >= h1 + sizeof(void*), "sizes " << f1 << " " << f2 << " " << h1 << " " << h2);
  MC_CHECK(t0 == t::size(SDD()), "size of |0|");

  for (mask x = 0; x <= full(s.count()); ++x)
  {
    where() = s.name + " set " + hex(x);
    const SDD d = b.build(s, x, static_cast<unsigned>(x % B::nb_builders));
    const int root = can.make(s, x);
    std::set<int> r; can.reach(root, r);
    std::pair<unsigned, unsigned> nodes{0, 0}, arcs{0, 0};
    t::arcs_frequency_type freq;
    std::size_t bytes = 0;
    for (int id : r)
    {
      if (id < 2) { bytes += id ? t1 : t0; continue; }
      const auto& nd = can.nodes[static_cast<std::size_t>(id)];
      const unsigned k = static_cast<unsigned>(nd.arcs.size());
      (nd.hier ? nodes.second : nodes.first) += 1;
      (nd.hier ? arcs.second : arcs.first) += k;
      (nd.hier ? freq[k].second : freq[k].first) += 1;
      bytes += nd.hier ? h1 + (k - 1) * (h2 - h1) : f1 + (k - 1) * (f2 - f1);
    }
    const auto got = t::nodes(d);
    MC_CHECK(got == nodes, "number of nodes " << got.first << "," << got.second << " instead of " << nodes.first << "," << nodes.second << " for " << d);
    MC_CHECK(t::arcs(d) == freq, "frequency of arcs of " << d);
    const auto ga = t::number_of_arcs(t::arcs(d));
    MC_CHECK(ga == arcs, "number of arcs " << ga.first << "," << ga.second << " for " << d);
    MC_CHECK(t::size(d) == bytes, "memory size " << t::size(d) << " instead of " << bytes << " for " << d);
    const auto stats = t::statistics(d);
    MC_CHECK(stats.bytes() == bytes && stats.arcs_frequency() == freq && stats.all_nodes() == nodes && stats.all_arcs() == arcs, "statistics of " << d);

    const std::string text = str(d);
    std::size_t i = 0;
    const mask back = parse_text(b, text, i, s, 0);
    MC_CHECK(back == x && i == text.size(), "text " << text << " denotes " << hex(back));
    MC_CHECK(str(b.build(s, x, static_cast<unsigned>((x + 1) % B::nb_builders))) == text, "equal sets, different texts");

    std::ostringstream os; os << t::dot(d, o);
    const dot_graph g = parse_dot(os.str());
    dot_reader rd{b, g, {}, {}};
    // the root is the node without incoming edge
    std::set<std::string> targets;
    for (const auto& e : g.edges) for (const auto& x_ : e.second) targets.insert(x_.to);
    std::string rootn; unsigned nroots = 0, real = 0;
    for (const auto& n_ : g.nodes)
    {
      if (!targets.count(n_.first)) { rootn = n_.first; ++nroots; }
      if (n_.second.find("shape=point") == std::string::npos) ++real;
    }
    MC_CHECK(nroots == 1, nroots << " roots in " << os.str());
    const mask dm = rd.read(rootn, s, 0, "");
    MC_CHECK(dm == x, "dot output denotes " << hex(dm) << "\n" << os.str());
    MC_CHECK(rd.reached.size() == g.nodes.size(), "useless nodes in\n" << os.str());
    MC_CHECK(real == r.size(), real << " nodes in the dot output instead of " << r.size() << "\n" << os.str());
    for (const auto& kv : rd.labels_seen)
      MC_CHECK(kv.second.count(label(g.nodes.at(kv.first))), "label " << label(g.nodes.at(kv.first)) << " in\n" << os.str());
    std::ostringstream os2; os2 << t::dot(d, o);
    MC_CHECK(os.str() == os2.str(), "two dot outputs of a diagram differ");
    st().transitions += 8; ++st().states; ++st().validated;
  }
  sample("every set of shape " + sn + ": nodes, arcs, bytes, text and dot output");
}

// Hypergraph output: every hypergraph over n vertices with up to k hyperedges.
void
hypergraphs(unsigned n, unsigned k)
{
  use_policy("up-lifo");
  std::vector<std::string> ids; for (unsigned i = 0; i < n; ++i) ids.push_back(std::string(1, static_cast<char>('p' + i)));
  const unsigned e = (1u << n) - 1;
  std::vector<unsigned> pick;
  std::function<void()> rec = [&]
  {
    sdd::force::hypergraph<C> g(ids.begin(), ids.end());
    for (unsigned m : pick)
    {
      std::vector<std::string> v; for (unsigned i = 0; i < n; ++i) if (m >> i & 1) v.push_back(ids[i]);
      g.add_hyperedge(v.begin(), v.end());
    }
    std::ostringstream os; os << sdd::tools::dot(g);
    std::istringstream is(os.str()); std::string l;
    std::multiset<std::string> vs; std::map<std::string, unsigned> hs; bool open = false, closed = false;
    while (std::getline(is, l))
    {
      if (l.find("graph ") == 0) { open = true; continue; }
      if (l == "}") { closed = true; continue; }
      const auto link = l.find(" -- v");
      if (link != std::string::npos)
      {
        const auto h = l.substr(0, link); const auto v = l.substr(link + 5, 1);
        MC_CHECK(hs.count(h), "link of an undeclared hyperedge: " << l);
        MC_CHECK(!(hs[h] >> (v[0] - 'p') & 1), "link twice: " << l);
        hs[h] |= 1u << (v[0] - 'p');
      }
      else if (l[0] == 'v') { MC_CHECK(label(l) == l.substr(1, 1), "label: " << l); vs.insert(l.substr(1, 1)); }
      else if (l[0] == 'h') { MC_CHECK(hs.emplace(l.substr(0, l.find(' ')), 0).second, "hyperedge declared twice"); }
    }
    MC_CHECK(open && closed, "unreadable output: " << os.str());
    MC_CHECK(vs == std::multiset<std::string>(ids.begin(), ids.end()), "vertices: " << os.str());
    std::multiset<unsigned> got, want(pick.begin(), pick.end());
    for (const auto& h : hs) got.insert(h.second);
    MC_CHECK(got == want, "hyperedges: " << os.str());
    ++st().states; ++st().transitions; ++st().validated;
    if (pick.size() < k) for (unsigned m = pick.empty() ? 1 : pick.back(); m <= e; ++m) { pick.push_back(m); rec(); pick.pop_back(); }
  };
  rec();
  sample("every hypergraph of " + std::to_string(n) + " vertices and at most " + std::to_string(k) + " hyperedges");
}

#ifdef WITH_FLAT_SET
// The statistics object of a manager reports what each accessor of the manager reports.
void
manager_stats()
{
  use_policy("up-lifo");
  const auto sp = make_shape("3,2"); const shape& s = *sp;
  auto m = sdd::init<C>(make_conf<C>(res("small")));
  B b;
  const sdd::order<C> o(shape_builder(s, ""));
  std::vector<SDD> keep;
  std::vector<sdd::homomorphism<C>> hs;
  const auto ut = [](const sdd::mem::unique_table_statistics& a, const sdd::mem::unique_table_statistics& c, const char* w)
  {
    MC_CHECK(a.size == c.size && a.peak == c.peak && a.access == c.access && a.hits == c.hits && a.misses == c.misses && a.rehash == c.rehash
             && a.buckets == c.buckets && a.empty == c.empty && a.alone == c.alone && a.collisions == c.collisions, "statistics of " << w);
  };
  const auto ca = [](const sdd::mem::cache_statistics& a, const sdd::mem::cache_statistics& c, const char* w)
  {
    MC_CHECK(a.size == c.size && a.hits == c.hits && a.misses == c.misses && a.filtered == c.filtered && a.discarded == c.discarded
             && a.buckets == c.buckets, "statistics of " << w);
  };
  for (mask x = 0; x < 64; ++x)
  {
    where() = "manager statistics " + hex(x);
    keep.push_back(b.build(s, x, static_cast<unsigned>(x % B::nb_builders)));
    if (x % 3) keep.back() = keep.back() + keep[x / 2];
    if (x % 5 == 0) keep.back() = keep.back() & keep[x / 3];
    if (x % 7 == 0) keep.back() = keep.back() - keep[x / 4];
    hs.push_back(sdd::sum<C>(o, {sdd::id<C>(), sdd::constant<C>(keep.back())}));
    hs.back()(o, keep[x / 2]);
    const auto t = sdd::tools::statistics(m);
    ut(t.sdd_ut(), m.sdd_stats(), "the unique table of SDD"); ut(t.hom_ut(), m.hom_stats(), "the unique table of homomorphisms");
    ut(t.values_ut(), m.values_stats(), "the unique table of values");
    ca(t.diff_cache(), m.sdd_difference_cache_stats(), "the difference cache"); ca(t.inter_cache(), m.sdd_intersection_cache_stats(), "the intersection cache");
    ca(t.sum_cache(), m.sdd_sum_cache_stats(), "the sum cache"); ca(t.hom_cache(), m.hom_cache_stats(), "the homomorphism cache");
    ++st().states; st().transitions += 7; ++st().validated;
  }
  sample("statistics after each of 64 computations");
}
#endif

/*------------------------------------------------------------------------------------------------*/
// C05

using words = std::set<std::string>;

// The words of a diagram of any shape.
words
denote(const SDD& x, const std::vector<unsigned>& vals)
{
  if (x == sdd::zero<C>()) return {};
  if (x == sdd::one<C>()) return {""};
  words r;
  if (sdd::mem::is<B::flat>(x))
  {
    const auto& n = sdd::mem::variant_cast<B::flat>(*x);
    for (const auto& a : n)
    {
      const auto vs = vb::get(a.valuation());
      MC_CHECK(!vs.empty(), "empty valuation in " << x);
      for (const auto& w : denote(a.successor(), vals)) for (unsigned v : vs)
        MC_CHECK(r.insert("v" + std::to_string(n.variable()) + "=" + std::to_string(v) + ";" + w).second, "a word twice in " << x);
    }
  }
  else
  {
    const auto& n = sdd::mem::variant_cast<B::hier>(*x);
    for (const auto& a : n)
    {
      const auto ns = denote(a.valuation(), vals);
      MC_CHECK(!ns.empty(), "empty valuation in " << x);
      for (const auto& w : denote(a.successor(), vals)) for (const auto& v : ns)
        MC_CHECK(r.insert("v" + std::to_string(n.variable()) + "(" + v + ")" + w).second, "a word twice in " << x);
    }
  }
  MC_CHECK(!r.empty(), "a node without words");
  return r;
}

struct item { SDD x; words w; std::string root; std::string cls; std::string text; };

// terminal, or kind and variable of the root
std::string
root_of(const SDD& x)
{
  if (x == sdd::zero<C>()) return "0";
  if (x == sdd::one<C>()) return "1";
  if (sdd::mem::is<B::flat>(x)) return "f" + std::to_string(sdd::mem::variant_cast<B::flat>(*x).variable());
  return "h" + std::to_string(sdd::mem::variant_cast<B::hier>(*x).variable());
}

struct universe
{
  B b;
  std::vector<item> items;
  std::vector<unsigned> vals{0, 1, 2};

  void
  add(const SDD& x, const std::string& cls)
  {
    for (const auto& i : items) if (i.x == x) return;
    items.push_back({x, denote(x, vals), root_of(x), cls, str(x)});
  }

  void add_shape(const std::string& sn, std::initializer_list<mask> ms)
  { const auto s = make_shape(sn); for (mask m : ms) add(b.grouped(*s, m), sn); }
};

universe
make_universe(unsigned size)
{
  universe u;
  u.add(sdd::zero<C>(), "0");
  u.add(sdd::one<C>(), "1");
  u.add_shape("2", {1, 2, 3});
  u.add_shape("(2)", {1, 3});
  u.add_shape("2,2", {1, 6, 9, 15});
  u.add_shape("(2),2", {1, 6, 15});
  u.add_shape("2,(2)", {2, 9, 15});
  u.add_shape("(2),(2)", {1, 6});
  // other variables
  u.add(SDD(5u, u.b.values(1), sdd::one<C>()), "v5");
  u.add(SDD(5u, u.b.values(1), SDD(0u, u.b.values(3), sdd::one<C>())), "v5,2");
  if (size > 0)
  {
    u.add_shape("((2))", {1, 3});
    u.add_shape("(2,2)", {1, 6, 15});
    u.add_shape("2,2,2", {1, 0x96, 0xff});
    u.add_shape("(2,2),2", {1, 0x96, 0x3c});
    u.add_shape("2,(2,2)", {8, 0x96});
    u.add_shape("3", {4, 5, 7});
    u.add_shape("3,2", {0x24, 0x31});
    // same top level, deeper variables which do not match
    const SDD one = sdd::one<C>();
    const auto v = [&](mask m) { return u.b.values(m); };
    u.add(SDD(1u, v(1), SDD(3u, v(1), one)), "2,v3");
    u.add(SDD(1u, v(2), SDD(3u, v(1), one)), "2,v3");
    u.add(SDD(1u, v(2), one), "2,1");
    u.add(SDD(1u, v(3), one), "2,1");
    u.add(SDD(1u, SDD(4u, v(1), one), one), "h(v4)");
    u.add(SDD(1u, SDD(4u, v(1), one), SDD(0u, v(1), one)), "h(v4),2");
    u.add(SDD(1u, SDD(0u, v(3), one), SDD(3u, v(1), one)), "h(2),v3");
    u.add(SDD(1u, SDD(0u, v(1), one), SDD(0u, v(1), SDD(7u, v(1), one))), "h(2),2,v7");
  }
  return u;
}

struct outcome_t { bool threw; SDD r; };

template <typename F>
outcome_t
attempt(const F& f, bool check_roots)
{
  try { return {false, f()}; }
  catch (const sdd::top<C>& t)
  {
    MC_CHECK(t.lhs() != t.rhs() && root_of(t.lhs()) != root_of(t.rhs()), "the exception reports two compatible diagrams: " << t.lhs() << " / " << t.rhs());
    const std::string w = t.what();
    MC_CHECK(w.find(str(t.lhs())) != std::string::npos && w.find(str(t.rhs())) != std::string::npos, "text of the exception: " << w);
    (void)check_roots;
    return {true, sdd::zero<C>()};
  }
}

// -1: must not throw; 1: must throw; 0: may throw
void
judge(const universe& u, const outcome_t& o, int must, const words& want, const std::string& what)
{
  if (o.threw)
  {
    MC_CHECK(must != -1, "compatible operands refused: " << what);
    ++st().extra["refused"];
  }
  else
  {
    MC_CHECK(must != 1, "incompatible operands accepted: " << what << " gives " << o.r);
    const auto got = denote(o.r, u.vals);
    if (got != want)
    {
      std::ostringstream os; os << what << " gives " << o.r << " instead of {";
      for (const auto& w : want) os << " " << w;
      MC_FAIL(os.str() << " }");
    }
    ++st().validated;
  }
  ++st().transitions;
}

words unite(const words& a, const words& b) { words r(a); r.insert(b.begin(), b.end()); return r; }
words meet(const words& a, const words& b) { words r; for (const auto& x : a) if (b.count(x)) r.insert(x); return r; }
words minus(const words& a, const words& b) { words r; for (const auto& x : a) if (!b.count(x)) r.insert(x); return r; }

void
unchanged(const universe& u)
{
  for (const auto& i : u.items) MC_CHECK(str(i.x) == i.text && denote(i.x, u.vals) == i.w, "operand altered: " << i.text << " is now " << i.x);
}

void
pairs(const std::string& rn, const std::string& pn, unsigned size)
{
  use_policy(pn);
  auto m = sdd::init<C>(make_conf<C>(res(rn)));
  universe u = make_universe(size);
  // mixed: two arcs to diagrams of different classes
  if (size > 1)
  {
    std::vector<item> base(u.items);
    for (std::size_t i = 2; i < base.size(); i += 2) for (std::size_t j = 2; j < i; j += 3)
    {
      u.add(SDD(8u, u.b.values(1), base[i].x) + SDD(8u, u.b.values(2), base[j].x), "m" + base[i].cls + "|" + base[j].cls);
      const outcome_t o = attempt([&]{ return SDD(8u, base[i].x, sdd::one<C>()) + SDD(8u, base[j].x, base[i].x); }, false);
      if (!o.threw) u.add(o.r, "n" + base[i].cls + "|" + base[j].cls);
    }
  }
  for (unsigned round = 0; round < 2; ++round)
  {
    for (const auto& a : u.items) for (const auto& b : u.items)
    {
      where() = a.text + " / " + b.text;
      const bool easy = a.root == "0" || b.root == "0" || a.x == b.x || a.cls == b.cls;
      const int must = easy ? -1 : (a.root != b.root ? 1 : 0);
      const auto w = where();
      const auto o1 = attempt([&]{ return a.x + b.x; }, must == 1); judge(u, o1, must, unite(a.w, b.w), "+ " + w);
      const auto o2 = attempt([&]{ return a.x & b.x; }, must == 1); judge(u, o2, must, meet(a.w, b.w), "& " + w);
      const auto o3 = attempt([&]{ return a.x - b.x; }, must == 1); judge(u, o3, must, minus(a.w, b.w), "- " + w);
      // compound assignments: when they throw, the left operand keeps its value
      SDD c = a.x;
      const auto o4 = attempt([&]{ c += b.x; return c; }, must == 1); judge(u, o4, must, unite(a.w, b.w), "+= " + w);
      if (o4.threw) MC_CHECK(c == a.x, "+= threw and changed its operand: " << w); else MC_CHECK(c == o1.r, w);
      c = a.x;
      const auto o5 = attempt([&]{ c &= b.x; return c; }, must == 1); judge(u, o5, must, meet(a.w, b.w), "&= " + w);
      if (o5.threw) MC_CHECK(c == a.x, "&= threw and changed its operand: " << w);
      c = a.x;
      const auto o6 = attempt([&]{ c -= b.x; return c; }, must == 1); judge(u, o6, must, minus(a.w, b.w), "-= " + w);
      if (o6.threw) MC_CHECK(c == a.x, "-= threw and changed its operand: " << w);
      // same outcome when asked again
      MC_CHECK(o1.threw == o4.threw && o2.threw == o5.threw && o3.threw == o6.threw, "the outcome changed when asked again: " << w);
      if (round == 0) ++st().states;
    }
    unchanged(u);
  }
  sample("all pairs of " + std::to_string(u.items.size()) + " diagrams of mixed shapes, asked four times");
}

void
tuples(const std::string& rn, const std::string& pn, unsigned size, unsigned n, unsigned step, unsigned first)
{
  use_policy(pn);
  auto m = sdd::init<C>(make_conf<C>(res(rn)));
  const universe u = make_universe(size);
  std::vector<const item*> sel;
  for (std::size_t i = 0; i < u.items.size(); i += (i < 2 ? 1 : step)) sel.push_back(&u.items[i]);
  std::vector<std::size_t> idx(n, 0);
  if (first != ~0u) { if (first >= sel.size()) return; idx[0] = first; }
  std::uint64_t k = 0;
  while (true)
  {
    std::vector<SDD> ops; bool zero = false; std::string text;
    std::vector<const item*> distinct;
    for (auto i : idx)
    {
      ops.push_back(sel[i]->x); text += " " + sel[i]->text;
      if (sel[i]->root == "0") zero = true;
      else if (std::find(distinct.begin(), distinct.end(), sel[i]) == distinct.end()) distinct.push_back(sel[i]);
    }
    where() = text;
    bool same_cls = true, same_root = true;
    for (const auto* d : distinct) { same_cls &= d->cls == distinct[0]->cls; same_root &= d->root == distinct[0]->root; }
    words us, is; bool fst = true;
    for (auto i : idx) { us = unite(us, sel[i]->w); is = fst ? sel[i]->w : meet(is, sel[i]->w); fst = false; }
    // an intersection may stop as soon as it is empty, before it meets the incompatible operand
    bool may_stop = zero;
    std::map<std::string, words> groups;
    for (const auto* d : distinct)
    {
      const auto g = groups.emplace(d->root, d->w);
      if (!g.second) g.first->second = meet(g.first->second, d->w);
      may_stop |= g.first->second.empty();
    }
    judge(u, attempt([&]{ return sdd::sum<C>(ops.begin(), ops.end()); }, false), same_cls ? -1 : (same_root ? 0 : 1), us, "sum" + text);
    judge(u, attempt([&]{ return sdd::intersection<C>(ops.begin(), ops.end()); }, false), same_cls ? -1 : (same_root || may_stop ? 0 : 1), is, "intersection" + text);
    ++st().states;
    if (++k % 4096 == 0) unchanged(u);
    std::size_t p = n;
    const std::size_t stop = first != ~0u ? 1 : 0;
    while (p > stop && ++idx[p - 1] == sel.size()) idx[--p] = 0;
    if (p == stop) break;
  }
  unchanged(u);
  sample("all sequences of " + std::to_string(n) + " operands out of " + std::to_string(sel.size()) + " diagrams of mixed shapes");
}

/*------------------------------------------------------------------------------------------------*/

void
cells_()
{
  const std::string c = std::string(conf_name<C>::get()) + "/";
  struct P { const char* shape; const char* res; const char* pol; unsigned ren; bool th; };
  for (const auto& p : std::vector<P>{
         {"8", "small", "up-lifo", 1, false}, {"2,2", "tiny", "alt-lifo", 1, false}, {"3,3", "evict", "alt-lifo", 1, false}, {"2,2,2", "small", "down-lifo", 0, false},
         {"(2,2),2", "tiny", "alt-lifo", 1, false}, {"2,(2,2)", "small", "up-lifo", 0, false}, {"((2),2),2", "evict", "down-lifo", 1, false},
         {"(2),(2),2", "small", "alt-lifo", 0, false}, {"(3),3", "tiny", "up-lifo", 1, false}, {"((2,2),2)", "small", "alt-lifo", 0, false},
         {"3,4", "page", "alt-lifo", 0, false}, {"(3,2),2", "page", "up-lifo", 0, false}, {"2,2,3", "page", "alt-lifo", 0, false}, {"((3)),(2,2)", "page", "down-lifo", 0, false},
         {"2,2,2,2", "page", "alt-lifo", 0, true}, {"(2,2),(2,2)", "page", "down-lifo", 0, true}, {"(4),4", "page", "alt-lifo", 0, true}, {"((2,2),2),2", "page", "up-lifo", 0, true} })
  {
    add_cell(c + "count/all/" + p.shape, [=]{ count_all(p.shape, p.res, p.pol, p.ren); }, p.th);
    add_cell(c + "tools/all/" + p.shape, [=]{ tools_all(p.shape, p.res, p.pol, p.ren); }, p.th);
  }
  add_cell(c + "count/interleave/2,2", []{ interleave("2,2", "tiny", "alt-lifo"); });
  add_cell(c + "count/interleave/(2),2", []{ interleave("(2),2", "evict", "down-lifo"); });
  add_cell(c + "count/interleave/(2,2),2", []{ interleave("(2,2),2", "small", "alt-lifo"); }, true);
  add_cell(c + "count/interleave/3,2", []{ interleave("3,2", "small", "up-lifo"); });
  add_cell(c + "count/interleave/((2)),3", []{ interleave("((2)),3", "small", "up-lifo"); });
  add_cell(c + "count/magnitude/big", []{ magnitude("big", "up-lifo"); });
  add_cell(c + "count/magnitude/small", []{ magnitude("small", "alt-lifo"); });
  add_cell(c + "tools/hypergraph/3", []{ hypergraphs(3, 3); });
  add_cell(c + "tools/hypergraph/4", []{ hypergraphs(4, 3); });
#ifdef WITH_FLAT_SET
  add_cell(c + "tools/manager", []{ manager_stats(); });
#endif
  for (const char* r : {"tiny", "small", "big", "evict"})
    for (unsigned size = 0; size < 2; ++size)
      add_cell(c + "top/pairs/" + r + "/" + std::to_string(size), [=]{ pairs(r, r[0] == 't' ? "alt-lifo" : "down-lifo", size); });
  add_cell(c + "top/pairs/small/2", []{ pairs("small", "alt-lifo", 2); });
  add_cell(c + "top/pairs/evict/2", []{ pairs("evict", "up-lifo", 2); }, true);
  add_cell(c + "top/triples/0/small", []{ tuples("small", "alt-lifo", 0, 3, 1, ~0u); });
  add_cell(c + "top/triples/0/evict", []{ tuples("evict", "down-lifo", 0, 3, 1, ~0u); });
  add_cell(c + "top/triples/1/tiny", []{ tuples("tiny", "up-lifo", 1, 3, 1, ~0u); });
  add_cell(c + "top/quadruples/0", []{ tuples("small", "alt-lifo", 0, 4, 2, ~0u); });
  add_cell(c + "top/quadruples/1", []{ tuples("small", "alt-lifo", 1, 4, 3, ~0u); });
  for (unsigned f = 0; f < 22; ++f)
    add_cell(c + "top/quadruples-all/" + std::to_string(f), [=]{ tuples("evict", "alt-lifo", 0, 4, 1, f); }, true);
}
const registrar reg(cells_);

} // namespace
