// C01, C02, C03, C05, C06, C18 on larger instances.
#include "scale.hh"
#include "sdd/tools/arcs.hh"
#include "sdd/tools/dot/sdd.hh"
#include "sdd/tools/nodes.hh"
#include "sdd/tools/sdd_statistics.hh"
#include "sdd/tools/size.hh"

using namespace mc;
using C = sdd::CONF;
using SDD = sdd::SDD<C>;
using S = scale<C>;
using vb = values_bridge<C::Values>;
using big = boost::multiprecision::cpp_int;

namespace {

std::vector<unsigned>
sizes(const std::string& which)
{
  if (which == "low") { std::vector<unsigned> r; for (unsigned i = 1; i <= 20; ++i) r.push_back(i); return r; }
  if (which == "mid") return {31, 32, 33, 34, 63, 64, 65, 66};
  if (which == "mid2") return {25, 33};
  if (which == "high2") return {129, 257};
  if (which == "high") return {127, 128, 129, 255, 256, 257};
  if (which == "all") { std::vector<unsigned> r; for (unsigned i = 1; i <= 80; ++i) r.push_back(i); return r; }
  abort();
}

std::vector<frame>
frames(char kind, unsigned n)
{
  if (kind == 'g') return {make_frame('g', n, 1), make_frame('g', n, 3), make_frame('g', n, n)};
  if (kind == 'd') return {make_frame('d', n, n), make_frame('d', n, 2)};
  return {make_frame(kind, n)};
}

// C01: pairs of families, n-ary operations with one operand per word.
void
operations(char kind, const std::string& which, const std::string& rn, const std::string& pn)
{
  use_policy(pn);
  auto m = sdd::init<C>(make_conf<C>(res(rn)));
  for (unsigned n : sizes(which)) for (const auto& f : frames(kind, n))
  {
    const auto fam = families(n);
    std::vector<SDD> h;
    for (std::size_t i = 0; i < fam.size(); ++i)
    {
      h.push_back(S::build(f, fam[i].second, static_cast<unsigned>((i + n) % 4)));
      S::expect(h.back(), f, fam[i].second, fam[i].first);
      ++st().states;
    }
    for (std::size_t i = 0; i < fam.size(); ++i) for (std::size_t j = 0; j < fam.size(); ++j)
    {
      const auto t = [&](const char* op){ return fam[i].first + op + fam[j].first; };
      if (j <= i || n < 8) S::expect(h[i] + h[j], f, lu(fam[i].second, fam[j].second), t(" + "));
      if (j <= i || n < 8) S::expect(h[i] & h[j], f, li(fam[i].second, fam[j].second), t(" & "));
      S::expect(h[i] - h[j], f, ld(fam[i].second, fam[j].second), t(" - "));
      ++st().states;
    }
    // all the operands at once
    lang u, x = fam[0].second;
    for (const auto& a : fam) u = lu(u, a.second);
    S::expect(sdd::sum<C>(h.begin(), h.end()), f, u, "sum of all the families");
    for (std::size_t k : {0, 1, 3, 4}) x = li(x, fam[k].second);
    S::expect(sdd::intersection<C>({h[0], h[1], h[3], h[4]}), f, x, "intersection of families");
    for (std::size_t i = 0; i < fam.size(); ++i) S::expect(h[i], f, fam[i].second, fam[i].first + " afterwards");
  }
  sample("unions, intersections and differences of 8 families over frames of kind " + std::string(1, kind) + " and " + which + " sizes");
}

// C01: n operands; what is left of a union when its words are removed one by one, and of an intersection of complements.
void
many(char kind, const std::vector<unsigned>& ks, const std::string& rn, const std::string& pn)
{
  use_policy(pn);
  auto m = sdd::init<C>(make_conf<C>(res(rn)));
  for (unsigned k : ks) for (const auto& f : frames(kind, 6))
  {
    // k words over six leaves
    std::vector<word> ws; lang all;
    for (unsigned i = 0; i < k; ++i)
    {
      ws.push_back({static_cast<unsigned short>(i % 7), static_cast<unsigned short>(i / 7 % 5), 0, static_cast<unsigned short>(i / 35)
                   , static_cast<unsigned short>(i % 3), static_cast<unsigned short>(i % 2)});
      all.insert(ws.back());
    }
    std::vector<SDD> ops; for (const auto& w : ws) ops.push_back(S::single(f, w));
    const SDD sum = sdd::sum<C>(ops.begin(), ops.end());
    S::expect(sum, f, all, "sum of " + std::to_string(k) + " words");
    std::vector<SDD> dup(ops); dup.insert(dup.end(), ops.rbegin(), ops.rend()); dup.push_back(sdd::zero<C>());
    S::expect(sdd::sum<C>(dup.begin(), dup.end()), f, all, "sum with duplicates");
    // complements
    std::vector<SDD> co; SDD one_by_one = sum; lang rest = all;
    for (unsigned i = 0; i < k; ++i)
    {
      co.push_back(sum - ops[i]);
      one_by_one -= ops[i]; rest.erase(ws[i]);
      if (k <= 40 || i % 16 == 0) S::expect(one_by_one, f, rest, "removal one by one");
    }
    MC_CHECK(one_by_one.empty(), "words are left");
    MC_CHECK(sdd::intersection<C>(co.begin(), co.end()).empty(), "intersection of all the complements of words");
    for (unsigned i = 0; i < k; i += k <= 40 ? 1 : 13)
    {
      std::vector<SDD> c2(co); c2.erase(c2.begin() + i);
      S::expect(k == 1 ? sum : sdd::intersection<C>(c2.begin(), c2.end()), f, lang{ws[i]}, "intersection of complements but one");
      std::vector<SDD> o2(ops); o2.erase(o2.begin() + i);
      lang l = all; l.erase(ws[i]);
      const SDD s2 = sdd::sum<C>(o2.begin(), o2.end());
      S::expect(s2, f, l, "sum of all but one");
      MC_CHECK(s2 == co[i] && s2 != sum, "sum of all but the word " << i);
      ++st().states;
    }
  }
  sample("n-ary operations with up to " + std::to_string(2 * ks.back() + 1) + " operands");
}

// one level, very many operands and values
void
huge(unsigned k)
{
  use_policy("up-lifo");
  auto m = sdd::init<C>(make_conf<C>(res("page")));
  std::vector<SDD> ops; std::vector<unsigned> vs;
  for (unsigned i = 0; i < k; ++i) { ops.push_back(SDD(0u, vb::make({i}), sdd::one<C>())); vs.push_back(i); }
  const SDD all(0u, vb::make(vs), sdd::one<C>());
  where() = std::to_string(k) + " operands";
  MC_CHECK(sdd::sum<C>(ops.begin(), ops.end()) == all, "sum of " << k << " values");
  MC_CHECK(all.size() == k, "number of values");
  MC_CHECK((all - ops[k / 2]).size() == k - 1, "all but one");
  MC_CHECK((all & ops[k - 1]) == ops[k - 1], "the last one");
  st().transitions += 3; st().validated += 3; st().states += k;
  ops.pop_back();
  MC_CHECK(sdd::sum<C>(ops.begin(), ops.end()) == all - SDD(0u, vb::make({k - 1}), sdd::one<C>()), "all but the last one");
  sample("sum of " + std::to_string(k) + " operands");
}

// C02: equality of all the constructions of each family; distinct families are different; hashes.
void
equalities(char kind, const std::string& which, const std::string& rn, const std::string& pn)
{
  use_policy(pn);
  auto m = sdd::init<C>(make_conf<C>(res(rn)));
  std::vector<SDD> old; // of the previous sizes: different levels, hence different diagrams
  for (unsigned n : sizes(which)) for (const auto& f : frames(kind, n))
  {
    const auto fam = families(n);
    std::vector<SDD> h;
    for (std::size_t i = 0; i < fam.size(); ++i)
    {
      where() = f.name + " " + fam[i].first;
      const SDD ref = S::build(f, fam[i].second, 0);
      for (unsigned b = 1; b < 4; ++b)
      {
        const SDD x = S::build(f, fam[i].second, b);
        MC_CHECK(x == ref && !(x != ref), "construction " << b << " differs: " << where());
        MC_CHECK(std::hash<SDD>()(x) == std::hash<SDD>()(ref), "hashes differ: " << where());
        ++st().transitions; ++st().validated;
      }
      for (std::size_t j = 0; j < i; ++j)
      {
        MC_CHECK((h[j] == ref) == (fam[j].second == fam[i].second), where() << " and " << fam[j].first << " compare " << (h[j] == ref));
        // (a - b) + (a & b) == a, and the symmetric difference is empty iff they are equal
        MC_CHECK((ref - h[j]) + (ref & h[j]) == ref, where() << ": parts with respect to " << fam[j].first);
        MC_CHECK((h[j] - ref) + (h[j] & ref) == h[j], fam[j].first << ": parts with respect to " << where());
        MC_CHECK(((ref - h[j]) + (h[j] - ref)).empty() == (fam[j].second == fam[i].second), "symmetric difference");
        st().transitions += 6; ++st().validated;
      }
      // remove and add again each word (of the shorter families)
      std::size_t k = 0;
      for (const auto& w : fam[i].second)
      {
        if (++k > 70) break;
        const SDD s = S::single(f, w), without = ref - s;
        MC_CHECK(without != ref, "a word less is the same diagram: " << where());
        MC_CHECK(without + s == ref, "a word removed and added again: " << where());
        st().transitions += 2; ++st().validated;
      }
      h.push_back(ref); ++st().states;
    }
    if (n <= 40 && kind != 'g' && kind != 'd')
    {
      for (const auto& o : old) for (const auto& x : h) MC_CHECK(o != x, "diagrams of different heights are equal");
      old.insert(old.end(), h.begin(), h.end());
      if (old.size() > 80) old.erase(old.begin(), old.begin() + 40);
    }
  }
  sample("equality of constructions of 8 families, frames of kind " + std::string(1, kind));
}

// C02: diagrams which differ in exactly one place, at every place: pairwise different, stable across the deletion of the others.
void
neighbours(char kind, unsigned n, const std::string& rn, const std::string& pn)
{
  use_policy(pn);
  auto m = sdd::init<C>(make_conf<C>(res(rn)));
  for (const auto& f : frames(kind, n))
  {
    std::vector<std::vector<unsigned>> base(n, {0, 1});
    std::vector<SDD> h;
    const auto at = [&](unsigned i, unsigned v)
    { auto vs = base; vs[i] = v == 0 ? std::vector<unsigned>{0} : v == 1 ? std::vector<unsigned>{1} : std::vector<unsigned>{0, 1, v}; return S::product(f, vs); };
    for (unsigned i = 0; i < n; ++i) for (unsigned v = 0; v < 4; ++v) h.push_back(at(i, v));
    for (std::size_t i = 0; i < h.size(); ++i) for (std::size_t j = 0; j < i; ++j) MC_CHECK(h[i] != h[j], "places " << i << ", " << j);
    for (unsigned drop = 0; drop < n; drop += 1 + n / 16)
    {
      for (unsigned v = 0; v < 4; ++v) h[4 * drop + v] = sdd::zero<C>();
      for (unsigned i = 0; i < n; ++i) for (unsigned v = 0; v < 4; ++v)
      {
        where() = f.name + " drop " + std::to_string(drop) + " place " + std::to_string(i);
        const SDD x = at(i, v);
        if (h[4 * i + v] != sdd::zero<C>()) MC_CHECK(x == h[4 * i + v], "rebuilt diagram differs: " << where());
        else h[4 * i + v] = x;
        ++st().transitions; ++st().validated;
      }
    }
    st().states += h.size();
  }
  sample("products differing at one place out of " + std::to_string(n));
}

// C03: the same computations, twice in the same order and once in reverse, with full and tiny resources, against kept results.
void
again(char kind, const std::vector<unsigned>& ns, const std::string& pn)
{
  use_policy(pn);
  for (const auto& rn : {"tiny", "small", "evict", "page", "big"})
  {
    auto m = sdd::init<C>(make_conf<C>(res(rn)));
    for (unsigned n : ns) for (const auto& f : frames(kind, n))
    {
      const auto fam = families(n);
      std::vector<SDD> h;
      for (std::size_t i = 0; i < fam.size(); ++i) h.push_back(S::build(f, fam[i].second, static_cast<unsigned>(i % 4)));
      for (unsigned round = 0; round < 3; ++round)
        for (std::size_t q = 0; q < h.size() * h.size(); ++q)
        {
          const std::size_t p = round == 2 ? h.size() * h.size() - 1 - q : q, i = p / h.size(), j = p % h.size();
          where() = std::string(rn) + " " + f.name + " round " + std::to_string(round) + " " + fam[i].first + " op " + fam[j].first;
          const auto both = [&](const SDD& x, const lang& l) { S::expect(x, f, l, where()); };
          if (round == 0)
          {
            both(h[i] + h[j], lu(fam[i].second, fam[j].second));
            both(h[i] & h[j], li(fam[i].second, fam[j].second));
            both(h[i] - h[j], ld(fam[i].second, fam[j].second));
          }
          else
          {
            const SDD u = h[i] + h[j], x = h[i] & h[j], d = h[i] - h[j];
            MC_CHECK(d + x == h[i] && u - d == h[j] && (u & h[i]) == h[i] && (d & h[j]).empty() && d + h[j] == u, "laws: " << where());
            st().transitions += 8; ++st().validated;
          }
          ++st().states;
        }
    }
  }
  sample("operations repeated in two orders under five resource configurations");
}

// C05: k operands, one of which is incompatible, at every position.
void
incompatible(const std::vector<unsigned>& ks, const std::string& rn, const std::string& pn)
{
  use_policy(pn);
  auto m = sdd::init<C>(make_conf<C>(res(rn)));
  const SDD one = sdd::one<C>();
  for (unsigned k : ks) for (unsigned good = 0; good < 2; ++good)
  {
    // pairwise distinct operands which all contain a common word
    std::vector<SDD> ops;
    for (unsigned i = 0; i + 1 < k; ++i)
    {
      const unsigned a = 1 + i % 50, b = 1 + i / 50;
      ops.push_back(good == 0 ? SDD(1u, vb::make({0, a}), SDD(0u, vb::make({0, b}), one))
                              : SDD(1u, SDD(0u, vb::make({0, a}), one), SDD(0u, vb::make({0, b}), one)));
    }
    const std::vector<SDD> bad = { one, SDD(2u, vb::make({0}), SDD(1u, vb::make({0}), SDD(0u, vb::make({0}), one))), SDD(0u, vb::make({0}), one)
                                 , good == 0 ? SDD(1u, SDD(0u, vb::make({0}), one), SDD(0u, vb::make({0}), one))
                                             : SDD(1u, vb::make({0}), SDD(0u, vb::make({0}), one)) };
    const SDD good_sum = sdd::sum<C>(ops.begin(), ops.end());
    for (std::size_t b = 0; b < bad.size(); ++b) for (unsigned p = 0; p < k; p += k <= 70 ? 1 : 7)
    {
      where() = std::to_string(k) + " operands, the incompatible one (" + std::to_string(b) + ") at " + std::to_string(p);
      std::vector<SDD> all_ops(ops); all_ops.insert(all_ops.begin() + p, bad[b]);
      const auto refused = [&](const char* what, const std::function<SDD()>& g)
      {
        try { const SDD r = g(); (void)r; MC_FAIL(what << ": incompatible operands accepted: " << where()); }
        catch (const sdd::top<C>&) {}
        ++st().transitions; ++st().validated;
      };
      refused("sum", [&]{ return sdd::sum<C>(all_ops.begin(), all_ops.end()); });
      refused("intersection", [&]{ return sdd::intersection<C>(all_ops.begin(), all_ops.end()); });
      refused("sum, binary", [&]{ return good_sum + bad[b]; });
      refused("difference", [&]{ return good_sum - bad[b]; });
      refused("difference", [&]{ return bad[b] - good_sum; });
      all_ops.insert(all_ops.begin() + k / 2, sdd::zero<C>()); // |0| is neutral for the union
      refused("sum with |0|", [&]{ return sdd::sum<C>(all_ops.begin(), all_ops.end()); });
      // afterwards
      MC_CHECK(sdd::sum<C>(ops.begin(), ops.end()) == good_sum, "the union of the compatible operands afterwards: " << where());
      const SDD x = sdd::intersection<C>(ops.begin(), ops.end());
      const bool a1 = k <= 2, b1 = k <= 51; // a single value besides 0
      const std::vector<unsigned> va = a1 ? std::vector<unsigned>{0, 1} : std::vector<unsigned>{0}, vbs = b1 ? std::vector<unsigned>{0, 1} : std::vector<unsigned>{0};
      const SDD below(0u, vb::make(vbs), one);
      MC_CHECK(x == (good == 0 ? SDD(1u, vb::make(va), below) : SDD(1u, SDD(0u, vb::make(va), one), below)), "their intersection afterwards: " << where() << " gives " << x);
      ++st().states;
    }
  }
  // operands which differ in variable: pairwise incompatible
  for (unsigned k : ks)
  {
    if (k < 2) continue;
    std::vector<SDD> ops;
    for (unsigned i = 0; i < k; ++i) ops.push_back(SDD(i, vb::make({0}), one));
    try { sdd::sum<C>(ops.begin(), ops.end()); MC_FAIL("sum over " << k << " different variables accepted"); } catch (const sdd::top<C>&) {}
    try { sdd::intersection<C>(ops.begin(), ops.end()); MC_FAIL("intersection over " << k << " different variables accepted"); } catch (const sdd::top<C>&) {}
    st().transitions += 2;
  }
  sample("up to " + std::to_string(ks.back()) + " operands, one of them incompatible, at every position");
}

// C05: an incompatibility which only shows at depth n, in operands that overlap down to it
void
deep_incompatible(const std::vector<unsigned>& ns, const std::string& rn, const std::string& pn)
{
  use_policy(pn);
  auto m = sdd::init<C>(make_conf<C>(res(rn)));
  for (unsigned n : ns)
  {
    // the same n levels, then a flat level, a hierarchical one, another variable, or nothing
    std::vector<SDD> h;
    const SDD one = sdd::one<C>();
    const SDD z(0u, vb::make({0}), one);
    for (SDD x : {z, SDD(0u, z, one), SDD(7u, vb::make({0}), one), one})
    {
      for (unsigned i = 0; i < n; ++i) x = i % 3 == 1 ? SDD(i + 100, SDD(0u, vb::make({0, 1}), one), x) : SDD(i + 100, vb::make({0, 1}), x);
      h.push_back(x);
    }
    for (std::size_t i = 0; i < h.size(); ++i) for (std::size_t j = 0; j < h.size(); ++j)
    {
      if (i == j) continue;
      where() = "depth " + std::to_string(n) + ", " + std::to_string(i) + " and " + std::to_string(j);
      const std::function<SDD()> fs[3] = {[&]{ return h[i] + h[j]; }, [&]{ return h[i] & h[j]; }, [&]{ return h[i] - h[j]; }};
      for (const auto& g : fs)
      {
        // nothing separates the operands above: the union of the successors (resp. their intersection, difference) is needed
        try { const SDD r = g(); MC_FAIL("accepted: " << where() << " gives " << r); } catch (const sdd::top<C>&) {}
        ++st().transitions; ++st().validated;
      }
      ++st().states;
    }
    for (const auto& x : h)
    {
      MC_CHECK(x + x == x && (x & x) == x && (x - x).empty(), "same operands");
      MC_CHECK(x + sdd::zero<C>() == x && (x - sdd::zero<C>()) == x && (x & sdd::zero<C>()).empty(), "operations with |0|");
    }
  }
  sample("incompatibilities below n identical levels");
}

// C06: numbers and paths
void
counting(char kind, const std::string& which, const std::string& rn, const std::string& pn)
{
  use_policy(pn);
  auto m = sdd::init<C>(make_conf<C>(res(rn)));
  for (unsigned n : sizes(which)) for (const auto& f : frames(kind, n))
  {
    for (const auto& fam : families(n))
    {
      where() = f.name + " " + fam.first;
      const SDD x = S::build(f, fam.second, n % 4);
      MC_CHECK(x.size() == fam.second.size(), where() << ": size() is " << x.size() << " instead of " << fam.second.size());
      lang seen;
      auto g = x.paths();
      for (const auto& p : g)
      {
        MC_CHECK(p.size() == n, "path of " << p.size() << " values instead of " << n);
        lang l{word()};
        for (const auto& v : p)
        {
          lang nx;
          for (const auto& w : l) for (unsigned y : vb::get(v)) { word z(w); z.push_back(static_cast<unsigned short>(y)); nx.insert(std::move(z)); }
          l.swap(nx);
        }
        MC_CHECK(!l.empty(), "empty path");
        for (const auto& w : l) MC_CHECK(seen.insert(w).second, "paths overlap: " << where());
        ++st().transitions;
      }
      MC_CHECK(seen == fam.second, where() << ": paths " << differ(seen, fam.second));
      ++st().states; ++st().validated;
    }
    // products: the number of paths is one, the number of words is exact
    for (unsigned d : {1u, 2u, 3u, 7u, 16u, 60u})
    {
      std::vector<std::vector<unsigned>> vs(n); big want = 1;
      for (unsigned i = 0; i < n; ++i) { const unsigned k = 1 + (d - 1 + i) % d; for (unsigned v = 0; v < k; ++v) vs[i].push_back(v); want *= k; }
      const SDD x = S::product(f, vs);
      where() = f.name + " product " + std::to_string(d);
      MC_CHECK(x.size() == want, where() << ": size() is " << x.size() << " instead of " << want);
      auto g = x.paths(); unsigned k = 0;
      for (const auto& p : g)
      {
        ++k;
        MC_CHECK(p.size() == n, "length of a path");
        for (unsigned i = 0; i < n; ++i) MC_CHECK(vb::get(p[i]) == vs[i], where() << ": values of level " << i);
      }
      MC_CHECK(k == 1, where() << ": " << k << " paths");
      // plus one word outside of it
      word w(n, 61); const SDD y = x + S::single(f, w);
      MC_CHECK(y.size() == want + 1, where() << " plus a word: size() is " << y.size());
      ++st().states; ++st().validated; st().transitions += 3;
    }
  }
  sample("size() and paths() of 8 families and of products, frames of kind " + std::string(1, kind));
}

// C18: numbers of nodes and arcs, and the graph, of large diagrams against a walk on the diagram itself.
struct census { std::set<std::size_t> nodes; unsigned flat = 0, hier = 0, arcs = 0; };

void
take(const SDD& x, census& c)
{
  if (x == sdd::one<C>() || x == sdd::zero<C>()) { c.nodes.insert(S::ident(x)); return; }
  if (!c.nodes.insert(S::ident(x)).second) return;
  if (sdd::mem::is<sdd::flat_node<C>>(x))
  {
    ++c.flat;
    for (const auto& a : sdd::mem::variant_cast<sdd::flat_node<C>>(*x)) { ++c.arcs; take(a.successor(), c); }
  }
  else
  {
    ++c.hier;
    for (const auto& a : sdd::mem::variant_cast<sdd::hierarchical_node<C>>(*x)) { ++c.arcs; take(a.valuation(), c); take(a.successor(), c); }
  }
}

void
tools(char kind, const std::string& which, const std::string& rn, const std::string& pn)
{
  use_policy(pn);
  auto m = sdd::init<C>(make_conf<C>(res(rn)));
  for (unsigned n : sizes(which)) for (const auto& f : frames(kind, n))
  {
    const sdd::order<C> o(S::builder(f.levels));
    for (const auto& fam : families(n))
    {
      where() = f.name + " " + fam.first;
      const SDD x = S::build(f, fam.second, n % 4);
      census c; take(x, c);
      const auto ns = sdd::tools::nodes(x);
      MC_CHECK(ns.first == c.flat && ns.second == c.hier, where() << ": nodes " << ns.first << "," << ns.second << " instead of " << c.flat << "," << c.hier);
      unsigned arcs = 0;
      for (const auto& kv : sdd::tools::arcs(x)) arcs += kv.first * (kv.second.first + kv.second.second);
      MC_CHECK(arcs == c.arcs, where() << ": " << arcs << " arcs instead of " << c.arcs);
      const std::string t1 = [&]{ std::ostringstream os; os << sdd::tools::dot(x, o); return os.str(); }();
      const std::string t2 = [&]{ std::ostringstream os; os << sdd::tools::dot(S::build(f, fam.second, (n + 1) % 4), o); return os.str(); }();
      MC_CHECK(t1 == t2, "two outputs of the same diagram differ: " << where());
      ++st().states; st().transitions += 4; ++st().validated;
    }
  }
  sample("nodes, arcs and graph of 8 families, frames of kind " + std::string(1, kind));
}

// Diagrams of tens of thousands of nodes: the words of n binary letters (or of n letters 0..2, nested) whose sum is r modulo k.
void
modular(char property, bool nested, unsigned k, unsigned n, unsigned unique, const std::string& pn)
{
  use_policy(pn);
  auto m = sdd::init<C>(make_conf<C>({"modular", unique, 1u << 18, 4096, 16, 16, 16}));
  where() = std::string(nested ? "nested" : "flat") + " sums of " + std::to_string(n) + " letters modulo " + std::to_string(k);
  const auto one = sdd::one<C>();
  std::vector<SDD> in; // nested diagrams of sum 0, 1, 2
  if (nested)
  {
    const auto l = [&](unsigned a, unsigned b){ return SDD(1u, vb::make({a}), SDD(0u, vb::make({b}), one)); };
    in = {l(0, 0), l(0, 1) + l(1, 0), l(1, 1)};
  }
  const unsigned letters = nested ? 3 : 2;
  const auto ways = [&](unsigned a) -> unsigned { return nested && a == 1 ? 2 : 1; };
  const auto letter = [&](unsigned v, unsigned a, const SDD& s){ return nested ? SDD(v, in[a], s) : SDD(v, vb::make({a}), s); };
  // model: for each level and residue, number of words, presence
  std::vector<std::vector<big>> num(n + 1, std::vector<big>(k, 0));
  num[n][0] = 1;
  for (unsigned l = n; l-- > 0;) for (unsigned r = 0; r < k; ++r) for (unsigned a = 0; a < letters; ++a) num[l][r] += ways(a) * num[l + 1][(r + k - a % k) % k];
  const auto build = [&](bool backwards)
  {
    std::vector<SDD> cur(k, sdd::zero<C>()); cur[0] = one;
    for (unsigned l = n; l-- > 0;)
    {
      std::vector<SDD> next;
      for (unsigned r = 0; r < k; ++r)
      {
        SDD x;
        for (unsigned i = 0; i < letters; ++i)
        {
          const unsigned a = backwards ? letters - 1 - i : i;
          x += letter(n - 1 - l, a, cur[(r + k - a) % k]);
          ++st().transitions;
        }
        next.push_back(x);
      }
      cur = next;
    }
    return cur;
  };
  const auto xs = build(false);
  ++st().states;
  if (property == '2')
  {
    const auto ys = build(true);
    for (unsigned r = 0; r < k; ++r)
    {
      MC_CHECK(xs[r] == ys[r] && std::hash<SDD>()(xs[r]) == std::hash<SDD>()(ys[r]), "residue " << r << " built twice");
      MC_CHECK(xs[r].empty() == (num[0][r] == 0), "residue " << r << " empty");
      for (unsigned q = 0; q < r; ++q) MC_CHECK(!(xs[r] == xs[q]) || xs[r].empty(), "residues " << r << " and " << q << " are equal");
      ++st().validated;
    }
  }
  if (property == '6')
  {
    for (unsigned r = 0; r < k; r += k < 32 ? 1 : k / 16)
    {
      MC_CHECK(xs[r].size() == num[0][r], "residue " << r << ": " << xs[r].size() << " words instead of " << num[0][r]);
      ++st().validated;
    }
  }
  if (property == '1')
  {
    SDD full = one;
    for (unsigned v = 0; v < n; ++v)
    {
      SDD x;
      for (unsigned a = 0; a < letters; ++a) x += letter(v, a, full);
      full = x;
    }
    MC_CHECK(sdd::sum<C>(xs.begin(), xs.end()) == full, "the sum of all residues");
    SDD all; for (const auto& x : xs) all += x;
    MC_CHECK(all == full, "the sum of all residues, one after the other");
    for (unsigned r : {0u, 1u, k / 2, k - 1})
    {
      MC_CHECK((xs[r] & xs[(r + 1) % k]).empty(), "residues " << r << " and the next one have common words");
      MC_CHECK((full & xs[r]) == xs[r] && (full - xs[r]) + xs[r] == full, "residue " << r << " and its complement");
      MC_CHECK((xs[r] - xs[(r + 1) % k]) == xs[r], "difference of disjoint sets, residue " << r);
      MC_CHECK(((full - xs[r]) & xs[r]).empty(), "residue " << r << " and its complement have common words");
      const SDD u = xs[r] + xs[(r + 1) % k];
      MC_CHECK(u - xs[r] == xs[(r + 1) % k], "union then difference, residue " << r);
      st().transitions += 8; ++st().validated;
    }
  }
  if (property == '8')
  {
    for (unsigned r : {0u, 1u, k / 2, k - 1})
    {
      // the states of the automaton which are on a word of the set
      std::vector<char> at(k, 0); at[r] = num[0][r] != 0;
      unsigned nodes = 0, arcs = 0; bool usedin[3] = {false, false, false};
      for (unsigned l = 0; l < n; ++l)
      {
        std::vector<char> nx(k, 0);
        for (unsigned q = 0; q < k; ++q) if (at[q])
        {
          ++nodes;
          for (unsigned a = 0; a < letters; ++a) if (num[l + 1][(q + k - a) % k] != 0) { ++arcs; nx[(q + k - a) % k] = 1; usedin[a] = true; }
        }
        at = nx;
      }
      census c; take(xs[r], c);
      const auto ns = sdd::tools::nodes(xs[r]);
      unsigned fa = 0, ha = 0;
      for (const auto& kv : sdd::tools::arcs(xs[r])) { fa += kv.first * kv.second.first; ha += kv.first * kv.second.second; }
      if (!nested)
      {
        MC_CHECK(ns.first == nodes && ns.second == 0, "residue " << r << ": " << ns.first << "," << ns.second << " nodes instead of " << nodes);
        MC_CHECK(fa == arcs && ha == 0, "residue " << r << ": " << fa << " arcs instead of " << arcs);
      }
      else
      {
        MC_CHECK(ns.second == nodes, "residue " << r << ": " << ns.second << " hierarchical nodes instead of " << nodes);
        MC_CHECK(ha == arcs, "residue " << r << ": " << ha << " hierarchical arcs instead of " << arcs);
        MC_CHECK(ns.first == c.flat, "residue " << r << ": " << ns.first << " flat nodes instead of " << c.flat);
      }
      const auto s = sdd::tools::statistics(xs[r]);
      MC_CHECK(s.all_nodes() == ns && s.all_arcs().first == fa && s.all_arcs().second == ha, "statistics of residue " << r);
      ++st().validated;
    }
  }
  sample(where());
}

void
cells_()
{
  const std::string c = std::string(conf_name<C>::get()) + "/";
  struct K { char kind; const char* which; const char* res; const char* pol; bool th; };
  const std::vector<K> ks = {
    {'f', "low", "evict", "alt-lifo", false}, {'g', "low", "small", "down-lifo", false}, {'d', "low", "evict", "up-lifo", false},
    {'b', "low", "tiny", "alt-lifo", false}, {'m', "low", "small", "up-fifo", false},
    {'f', "mid", "page", "down-lifo", false}, {'b', "mid", "small", "alt-lifo", false}, {'m', "mid", "page", "alt-lifo", false},
    {'d', "mid2", "page", "up-lifo", false}, {'f', "high2", "big", "alt-lifo", false},
    {'d', "mid", "page", "up-lifo", true}, {'f', "high", "big", "alt-lifo", true}, {'g', "mid", "small", "up-lifo", true},
    {'m', "high", "page", "down-lifo", true}, {'b', "high", "big", "down-lifo", true}, {'f', "all", "small", "up-lifo", true},
    {'b', "all", "evict", "down-lifo", true}, {'m', "all", "evict", "alt-lifo", true},
  };
  for (const auto& k : ks)
  {
    const std::string t = std::string(1, k.kind) + "/" + k.which + "/" + k.res + "/" + k.pol;
    add_cell(c + "C01/operations/" + t, [=]{ operations(k.kind, k.which, k.res, k.pol); }, k.th);
    add_cell(c + "C02/equalities/" + t, [=]{ equalities(k.kind, k.which, k.res, k.pol); }, k.th);
    add_cell(c + "C06/counting/" + t, [=]{ counting(k.kind, k.which, k.res, k.pol); }, k.th);
    add_cell(c + "C18/tools/" + t, [=]{ tools(k.kind, k.which, k.res, k.pol); }, k.th);
  }
  std::vector<unsigned> few, more{41, 63, 64, 65, 100, 127, 128, 129};
  for (unsigned i = 1; i <= 40; ++i) few.push_back(i);
  for (char k : {'f', 'g', 'd', 'm'})
  {
    add_cell(c + "C01/many/1-40/" + k, [=]{ many(k, few, k == 'f' ? "evict" : "small", k == 'm' ? "alt-lifo" : "down-lifo"); });
    add_cell(c + "C01/many/129/" + k, [=]{ many(k, more, "small", "up-lifo"); });
    add_cell(c + "C02/neighbours/" + k, [=]{ for (unsigned n : {1u, 2u, 5u, 16u, 17u, 33u}) neighbours(k, n, "small", "alt-lifo"); });
    add_cell(c + "C02/neighbours/" + k + "/tiny", [=]{ for (unsigned n : {3u, 9u, 65u}) neighbours(k, n, "tiny", "down-fifo"); });
    add_cell(c + "C03/again/" + k, [=]{ again(k, {2, 5, 9, 17}, "alt-lifo"); });
    add_cell(c + "C03/again/33/" + k, [=]{ again(k, {33}, "down-lifo"); });
    add_cell(c + "C03/again/65/" + k, [=]{ again(k, {65}, "down-lifo"); }, true);
  }
  for (char p : {'1', '2', '6', '8'})
  {
    const std::string q = c + (p == '8' ? "C18" : std::string("C0") + p) + "/modular/";
    add_cell(q + "flat/64", [=]{ modular(p, false, 64, 530, 64, "up-lifo"); });
    add_cell(q + "flat/256", [=]{ modular(p, false, 256, 530, 64, "up-lifo"); }, p == '1');
    add_cell(q + "flat/7", [=]{ modular(p, false, 7, 1000, 1, "down-lifo"); });
    add_cell(q + "nested/40", [=]{ modular(p, true, 40, 300, 16, "alt-lifo"); });
    add_cell(q + "nested/256", [=]{ modular(p, true, 256, 400, 100000, "up-fifo"); }, true);
  }
  if (!vb::is_bitset) for (unsigned k : {256u, 257u, 5000u, 65535u, 65536u, 70000u}) add_cell(c + "C01/huge/" + std::to_string(k), [=]{ huge(k); }, k > 66000);
  std::vector<unsigned> ops; for (unsigned i = 2; i <= 20; ++i) ops.push_back(i);
  add_cell(c + "C05/incompatible/2-20", [=]{ incompatible(ops, "small", "alt-lifo"); });
  add_cell(c + "C05/incompatible/2-20/evict", [=]{ incompatible(ops, "evict", "down-lifo"); });
  add_cell(c + "C05/incompatible/33-65", [=]{ incompatible({31, 32, 33, 63, 64, 65}, "page", "up-lifo"); });
  add_cell(c + "C05/incompatible/129-257", [=]{ incompatible({127, 128, 129, 257}, "page", "up-lifo"); });
  add_cell(c + "C05/deep", [=]{ deep_incompatible({0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 64, 100, 200}, "small", "alt-lifo"); });
}
const registrar reg(cells_);

} // namespace
