// C12: value sets against explicit finite sets.
#include <algorithm>
#include <list>

#include "mc.hh"
#include "sdd/values_manager.hh"
#include "sdd/values/bitset.hh"
#include "sdd/values/empty.hh"
#include "sdd/values/flat_set.hh"
#include "sdd/values/size.hh"

#define STR_(x) #x
#define STR(x) STR_(x)

using namespace mc;
using model_set = std::set<unsigned>;

namespace {

std::string
text(const model_set& s) { std::string r = "{"; for (auto v : s) r += std::to_string(v) + " "; return r + "}"; }

/*------------------------------------------------------------------------------------------------*/
// flat_set. The abstract values 0..n-1 stand for the extreme integers, or for strings.

template <typename Value> struct naming;
template <> struct naming<unsigned>
{
  static unsigned of(unsigned k)
  {
    static const unsigned t[12] = {0, 1, 2, 7, 255, 256, 65535, 65536, 2147483647u, 2147483648u, 4294967294u, 4294967295u};
    return t[k];
  }
};
template <> struct naming<int>
{
  static int of(unsigned k)
  { static const int t[12] = {-2147483647 - 1, -65536, -256, -2, -1, 0, 1, 2, 256, 65536, 2147483646, 2147483647}; return t[k]; }
};
template <> struct naming<std::string>
{
  static std::string of(unsigned k)
  { static const char* t[12] = {"", "A", "AA", "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA", "AB", "B", "C", "Z", "a", "aa", "b", "z"}; return t[k]; }
};
template <> struct naming<unsigned char>
{ static unsigned char of(unsigned k) { static const unsigned char t[12] = {0, 1, 2, 3, 64, 65, 127, 128, 129, 200, 254, 255}; return t[k]; } };

template <typename Value>
struct flat_env
{
  using FS = sdd::values::flat_set<Value>;
  struct conf { std::size_t flat_set_unique_table_size; } c;
  sdd::values_manager<FS> m;
  flat_env(std::size_t table) : c{table}, m(c) { *sdd::global_values_ptr<FS>() = &m; }
  ~flat_env() { *sdd::global_values_ptr<FS>() = nullptr; }

  static Value nm(unsigned k) { return naming<Value>::of(k); }

  static FS
  make(const model_set& s, unsigned how)
  {
    std::vector<Value> v;
    for (auto k : s) v.push_back(nm(k));
    if (how == 1) std::reverse(v.begin(), v.end());
    if (how == 2) { auto w = v; v.insert(v.end(), w.begin(), w.end()); } // duplicates
    if (how == 3) { FS r; for (auto& x : v) r.insert(x); return r; }
    if (how == 4) { FS r; for (unsigned k = 0; k < 12; ++k) r.insert(nm(k)); for (unsigned k = 0; k < 12; ++k) if (!s.count(k)) r.erase(nm(k)); return r; }
    if (how == 5) { typename FS::data_type d(v.begin(), v.end()); d.reserve(50); return FS(std::move(d)); }
    if (how == 6) { std::list<Value> l(v.rbegin(), v.rend()); return FS(l.begin(), l.end()); }
    return FS(v.begin(), v.end());
  }

  static void
  equal(const FS& f, const model_set& s, unsigned n)
  {
    MC_CHECK(f.size() == s.size(), "size " << f.size() << " for " << text(s));
    MC_CHECK(f.empty() == s.empty(), text(s));
    MC_CHECK(sdd::values::empty_values(f) == s.empty(), text(s));
    MC_CHECK(sdd::values::size(f) == s.size(), text(s));
    std::vector<Value> want; for (auto k : s) want.push_back(nm(k));
    MC_CHECK(std::vector<Value>(f.begin(), f.end()) == want, "iteration of " << text(s) << " gives " << f);
    MC_CHECK(std::vector<Value>(f.cbegin(), f.cend()) == want, "const iteration of " << text(s));
    const std::vector<Value> rev(want.rbegin(), want.rend());
    MC_CHECK(std::vector<Value>(f.rbegin(), f.rend()) == rev, "reverse iteration of " << text(s));
    MC_CHECK(std::vector<Value>(f.crbegin(), f.crend()) == rev, "reverse const iteration of " << text(s));
    for (unsigned k = 0; k < n; ++k)
    {
      const bool in = s.count(k) != 0;
      MC_CHECK(f.count(nm(k)) == (in ? 1u : 0u), "count of " << k << " in " << text(s));
      const auto it = f.find(nm(k));
      MC_CHECK((it != f.end()) == in, "find of " << k << " in " << text(s));
      if (in) MC_CHECK(*it == nm(k), "find of " << k << " in " << text(s));
      const auto lb = s.lower_bound(k), ub = s.upper_bound(k);
      MC_CHECK(f.lower_bound(nm(k)) - f.begin() == std::distance(s.begin(), lb), "lower_bound of " << k << " in " << text(s));
      MC_CHECK(f.upper_bound(nm(k)) - f.begin() == std::distance(s.begin(), ub), "upper_bound of " << k << " in " << text(s));
    }
    ++st().validated;
  }
};

model_set subset(unsigned m) { model_set r; for (unsigned k = 0; m >> k; ++k) if (m >> k & 1) r.insert(k); return r; }

template <typename Value>
void
flat_pairs(unsigned n, std::size_t table, const std::string& pol)
{
  use_policy(pol);
  const auto b0 = live_bytes();
  {
    flat_env<Value> e(table);
    using E = flat_env<Value>; using FS = typename E::FS;
    std::vector<FS> all;
    for (unsigned m = 0; m < 1u << n; ++m)
    {
      where() = text(subset(m));
      all.push_back(E::make(subset(m), 0));
      E::equal(all.back(), subset(m), 12);
      for (unsigned how = 1; how < 7; ++how)
      {
        const FS o = E::make(subset(m), how);
        MC_CHECK(o == all.back() && !(o != all.back()) && !(o < all.back()) && !(all.back() < o), "construction " << how << " of " << text(subset(m)));
        MC_CHECK(std::hash<FS>()(o) == std::hash<FS>()(all.back()), "hash of " << text(subset(m)));
        st().transitions += 2;
      }
      ++st().states;
    }
    if (1u << n <= 64) // initializer lists
    {
      MC_CHECK((FS{E::nm(0), E::nm(2)}) == all[5] && (FS{E::nm(2), E::nm(0), E::nm(2)}) == all[5], "initializer list");
      MC_CHECK(FS() == all[0] && FS{} == all[0], "default constructor");
    }
    for (unsigned a = 0; a < all.size(); ++a) for (unsigned b = 0; b < all.size(); ++b)
    {
      where() = text(subset(a)) + " and " + text(subset(b));
      MC_CHECK((all[a] == all[b]) == (a == b), "equality of " << where());
      MC_CHECK((all[a] != all[b]) == (a != b), "inequality of " << where());
      MC_CHECK((all[a] < all[b]) + (all[b] < all[a]) == (a != b ? 1 : 0), "order of " << where());
      // twice: results are unified
      for (int k = 0; k < 2; ++k)
      {
        MC_CHECK(sum(all[a], all[b]) == all[a | b], "sum of " << where());
        MC_CHECK(intersection(all[a], all[b]) == all[a & b], "intersection of " << where());
        MC_CHECK(difference(all[a], all[b]) == all[a & ~b], "difference of " << where());
      }
      FS c = all[a]; c = all[b];
      MC_CHECK(c == all[b], "assignment");
      st().transitions += 10; st().validated += 3;
    }
    // transitivity of <: positions in sorted order are consistent
    auto sorted = all; std::sort(sorted.begin(), sorted.end());
    for (std::size_t i = 0; i < sorted.size(); ++i) for (std::size_t j = i + 1; j < sorted.size(); ++j)
      MC_CHECK(sorted[i] < sorted[j], "< isn't a strict total order");
    // all survive what happened in between
    for (unsigned m = 0; m < all.size(); ++m) E::equal(all[m], subset(m), n);
    MC_CHECK(e.m.statistics().size == all.size(), "unique table has " << e.m.statistics().size << " sets, " << all.size() << " alive");
    where().clear(); where().shrink_to_fit();
  }
  MC_CHECK(live_bytes() == b0, "memory not given back: " << live_bytes() - b0 << " bytes");
  sample("all pairs of subsets of " + std::to_string(n) + " values, table of " + std::to_string(table));
}

// Every sequence of updates of two sets.
template <typename Value>
void
flat_sequences(unsigned n, unsigned depth, std::size_t table, const std::string& pol)
{
  use_policy(pol);
  flat_env<Value> e(table);
  using E = flat_env<Value>; using FS = typename E::FS;
  std::vector<int> seq;
  const unsigned alpha = 4 * n + 7;
  std::uint64_t total = 1; for (unsigned d = 0; d < depth; ++d) total *= alpha;
  for (std::uint64_t code = 0; code < total; ++code)
  {
    FS f[2]; model_set s[2];
    std::uint64_t c = code;
    where() = "sequence " + std::to_string(code);
    for (unsigned d = 0; d < depth; ++d, c /= alpha)
    {
      const unsigned op = c % alpha;
      if (op < 4 * n)
      {
        const unsigned w = op / (2 * n), k = op % n; const bool ins = op / n % 2;
        if (ins)
        {
          const auto r = f[w].insert(E::nm(k));
          MC_CHECK(r.second == s[w].insert(k).second, "result of insertion");
          MC_CHECK(r.first != f[w].end() && *r.first == E::nm(k) && r.first - f[w].begin() == std::distance(s[w].begin(), s[w].find(k)), "iterator of insertion");
        }
        else MC_CHECK(f[w].erase(E::nm(k)) == s[w].erase(k), "result of erasure");
      }
      else switch (op - 4 * n)
      {
        case 0: f[0] = f[1]; s[0] = s[1]; break;
        case 1: f[1] = f[0]; s[1] = s[0]; break;
        case 2: f[0] = sum(f[0], f[1]); s[0].insert(s[1].begin(), s[1].end()); break;
        case 3: f[0] = intersection(f[0], f[1]); { model_set r; for (auto k : s[0]) if (s[1].count(k)) r.insert(k); s[0] = r; } break;
        case 4: f[0] = difference(f[0], f[1]); for (auto k : s[1]) s[0].erase(k); break;
        case 5: f[1] = FS(); s[1].clear(); break;
        case 6: f[0] = f[0]; break;
      }
      for (int w = 0; w < 2; ++w)
      {
        MC_CHECK(f[w].size() == s[w].size(), "size after operation " << d);
        for (unsigned k = 0; k < n; ++k) MC_CHECK(f[w].count(E::nm(k)) == s[w].count(k), "value " << k << " after operation " << d);
      }
      MC_CHECK((f[0] == f[1]) == (s[0] == s[1]), "equality after operation " << d);
      ++st().transitions;
    }
    ++st().states; ++st().validated;
  }
  sample(std::to_string(total) + " sequences of " + std::to_string(depth) + " operations on two sets");
}

// Large sets: intervals, progressions and their complements over n values; insertions and erasures of each value.
template <typename Value> Value far(unsigned k);
template <> unsigned far(unsigned k) { return k * 16777213u; } // 256 * this fits
template <> int far(unsigned k) { return int(k) * 4001 - 512000; }
template <> std::string far(unsigned k) { std::string r = std::to_string(k); return std::string(5 - r.size(), '0') + (k % 3 ? "" : "________________________________") + r; }

template <typename Value>
void
flat_large(unsigned n)
{
  const auto b0 = live_bytes();
  {
    flat_env<Value> e(2);
    using FS = typename flat_env<Value>::FS;
    // the k-th smallest value
    std::vector<Value> vs; for (unsigned k = 0; k < n; ++k) vs.push_back(far<Value>(k));
    std::sort(vs.begin(), vs.end());
    const auto make = [&](const model_set& s){ std::vector<Value> v; for (auto k : s) v.push_back(vs[k]); return FS(v.begin(), v.end()); };
    const auto equal = [&](const FS& f, const model_set& s)
    {
      std::vector<Value> want; for (auto k : s) want.push_back(vs[k]);
      MC_CHECK(f.size() == s.size() && f.empty() == s.empty() && std::vector<Value>(f.begin(), f.end()) == want, "content");
      ++st().validated;
    };
    std::vector<model_set> sets;
    for (unsigned step : {1u, 2u, 3u, 8u}) for (unsigned from : {0u, 1u, n / 2, n - 1}) for (unsigned to : {n, n - 1, n / 2 + 1})
    {
      model_set s, c; for (unsigned k = 0; k < n; ++k) c.insert(k);
      for (unsigned k = from; k < to; k += step) { s.insert(k); c.erase(k); }
      sets.push_back(s); sets.push_back(c);
    }
    std::vector<FS> fs; for (const auto& s : sets) { fs.push_back(make(s)); equal(fs.back(), s); }
    for (std::size_t a = 0; a < sets.size(); ++a) for (std::size_t b = 0; b < sets.size(); ++b)
    {
      where() = "large sets " + std::to_string(a) + ", " + std::to_string(b) + " over " + std::to_string(n) + " values";
      model_set u = sets[a], i, d;
      u.insert(sets[b].begin(), sets[b].end());
      for (auto k : sets[a]) if (sets[b].count(k)) i.insert(k); else d.insert(k);
      const FS fu = sum(fs[a], fs[b]), fi = intersection(fs[a], fs[b]), fd = difference(fs[a], fs[b]);
      equal(fu, u); equal(fi, i); equal(fd, d);
      MC_CHECK(fu == make(u) && fi == make(i) && fd == make(d), "unicity");
      MC_CHECK((fs[a] == fs[b]) == (sets[a] == sets[b]) && (fs[a] < fs[b]) + (fs[b] < fs[a]) == (sets[a] != sets[b] ? 1 : 0), "comparison");
      if (sets[a] == sets[b]) MC_CHECK(std::hash<FS>()(fs[a]) == std::hash<FS>()(fs[b]), "hash");
      ++st().states; st().transitions += 3;
    }
    for (std::size_t a = 0; a < sets.size(); ++a) for (unsigned k = 0; k < n; ++k)
    {
      where() = "large set " + std::to_string(a) + " over " + std::to_string(n) + " values, value " + std::to_string(k);
      FS f = fs[a];
      MC_CHECK(f.count(vs[k]) == sets[a].count(k), "count");
      model_set s = sets[a];
      const auto r = f.insert(vs[k]);
      MC_CHECK(r.second == s.insert(k).second && *r.first == vs[k] && r.first - f.begin() == std::distance(s.begin(), s.find(k)), "insertion");
      equal(f, s);
      MC_CHECK(f.erase(vs[k]) == 1 && f.erase(vs[k]) == 0, "erasure");
      s.erase(k); equal(f, s); equal(fs[a], sets[a]);
      MC_CHECK(f.lower_bound(vs[k]) - f.begin() == std::distance(s.begin(), s.lower_bound(k)) && f.upper_bound(vs[k]) - f.begin() == std::distance(s.begin(), s.upper_bound(k)), "bounds");
      ++st().states; st().transitions += 3;
    }
    where().clear(); where().shrink_to_fit();
  }
  MC_CHECK(live_bytes() <= b0 + 64, "memory not given back: " << live_bytes() - b0 << " bytes");
  sample("large sets over " + std::to_string(n) + " values");
}

/*------------------------------------------------------------------------------------------------*/

template <std::size_t Size>
std::vector<unsigned>
positions(unsigned n)
{
  std::vector<unsigned> p;
  for (unsigned x : {0u, unsigned(Size - 1), 63u, 64u, 31u, 32u, 1u, unsigned(Size - 2), 127u, 128u, 5u, 33u})
    if (x < Size && std::find(p.begin(), p.end(), x) == p.end() && p.size() < n) p.push_back(x);
  std::sort(p.begin(), p.end());
  return p;
}

template <std::size_t Size>
void
bitsets(unsigned want)
{
  using B = sdd::values::bitset<Size>;
  const auto pos = positions<Size>(want);
  const unsigned n = pos.size();
  std::vector<B> all;
  const auto equal = [&](const B& b, const model_set& s)
  {
    MC_CHECK(b.size() == s.size() && b.empty() == s.empty(), "size of " << text(s));
    MC_CHECK(sdd::values::empty_values(b) == s.empty() && sdd::values::size(b) == s.size(), "size of " << text(s));
    for (unsigned k = 0; k < Size; ++k) MC_CHECK(b.test(k) == (s.count(k) != 0) && b.content().test(k) == (s.count(k) != 0), k << " in " << text(s));
    ++st().validated;
  };
  const auto set = [&](unsigned m) { model_set s; for (unsigned k = 0; k < n; ++k) if (m >> k & 1) s.insert(pos[k]); return s; };
  for (unsigned m = 0; m < 1u << n; ++m)
  {
    where() = text(set(m));
    B b; std::bitset<Size> sb;
    for (auto v : set(m)) { MC_CHECK(&b.insert(v) == &b, "insert returns the set"); sb.set(v); }
    equal(b, set(m));
    MC_CHECK(B(sb) == b && b.content() == sb, "from std::bitset");
    B r; const auto s = set(m);
    for (auto it = s.rbegin(); it != s.rend(); ++it) { r.insert(*it); r.insert(*it); }
    MC_CHECK(r == b && !(r != b) && !(r < b) && !(b < r) && std::hash<B>()(r) == std::hash<B>()(b), "insertion order");
    B cp(b); cp.insert(0); cp.insert(Size - 1);
    equal(b, set(m));
    all.push_back(b);
    for (unsigned k = 0; k < n; ++k)
    {
      model_set l, g;
      for (auto v : s) { if (v + pos[k] < Size) l.insert(v + pos[k]); if (v >= pos[k]) g.insert(v - pos[k]); }
      equal(b << pos[k], l); equal(b >> pos[k], g);
    }
    ++st().states;
  }
  MC_CHECK((B{pos[0], pos[1]}) == all[3] && B{} == all[0], "initializer list");
  for (unsigned a = 0; a < all.size(); ++a)
  {
    for (unsigned b = 0; b < all.size(); ++b)
    {
      where() = text(set(a)) + " and " + text(set(b));
      MC_CHECK((all[a] == all[b]) == (a == b) && (all[a] != all[b]) == (a != b), "equality");
      MC_CHECK((all[a] < all[b]) + (all[b] < all[a]) == (a != b ? 1 : 0), "order");
      MC_CHECK(sum(all[a], all[b]) == all[a | b] && intersection(all[a], all[b]) == all[a & b]
            && difference(all[a], all[b]) == all[a & ~b], "operations");
      B x = all[a], y = all[b]; swap(x, y);
      MC_CHECK(x == all[b] && y == all[a], "swap");
      st().transitions += 6; st().validated += 3;
    }
  }
  auto sorted = all; std::sort(sorted.begin(), sorted.end());
  for (std::size_t i = 0; i < sorted.size(); ++i) for (std::size_t j = i + 1; j < sorted.size(); ++j)
    MC_CHECK(sorted[i] < sorted[j], "< isn't a strict total order");
  for (unsigned v : {unsigned(Size), unsigned(Size + 1), unsigned(Size + 64)})
  {
    B b; bool thrown = false;
    try { b.insert(v); } catch (const std::out_of_range&) { thrown = true; }
    MC_CHECK(thrown && b.empty(), "insertion of " << v << " out of range");
  }
  sample("all pairs of subsets of " + std::to_string(n) + " positions of bitset<" + std::to_string(Size) + ">");
}

void
cells_()
{
#if defined(VT)
  const std::string ty = STR(VT_NAME);
  for (std::size_t t : {1, 2, 64}) for (const char* p : {"up-lifo", "alt-lifo"})
  {
    const std::string n = "/table" + std::to_string(t) + "/" + p;
    add_cell("flat_set/" + ty + "/pairs" + n, [=]{ flat_pairs<VT>(VT_N, t, p); });
    add_cell("flat_set/" + ty + "/pairs-deep" + n, [=]{ flat_pairs<VT>(VT_N + 3, t, p); }, true);
  }
  for (unsigned n : {16, 17, 32, 33, 64, 65, 100, 128, 129, 256})
    add_cell("flat_set/" + ty + "/large/" + std::to_string(n), [=]{ flat_large<VT>(n); });
  add_cell("flat_set/" + ty + "/sequences", []{ flat_sequences<VT>(3, 4, 2, "up-lifo"); });
  add_cell("flat_set/" + ty + "/sequences5", []{ flat_sequences<VT>(3, 5, 2, "up-lifo"); }, VT_N != 8);
  add_cell("flat_set/" + ty + "/sequences6", []{ flat_sequences<VT>(2, 6, 1, "down-lifo"); }, true);
#else
  add_cell("bitset/2", []{ bitsets<2>(2); });
  add_cell("bitset/8", []{ bitsets<8>(8); });
  add_cell("bitset/33", []{ bitsets<33>(8); });
  add_cell("bitset/63", []{ bitsets<63>(8); });
  add_cell("bitset/64", []{ bitsets<64>(8); });
  add_cell("bitset/65", []{ bitsets<65>(8); });
  add_cell("bitset/130", []{ bitsets<130>(8); });
  add_cell("bitset/200", []{ bitsets<200>(10); }, true);
#endif
}
const registrar reg(cells_);

} // namespace
