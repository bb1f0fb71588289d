// One configuration of the explorer of managers: -DMAKER=make_any_conf0 -DMCONF=sdd::conf0 ...
#include "flush.hh"
#include "mgr.hh"

using namespace mc;

namespace {

// Same values as conf0, other configuration.
struct conf_b : public sdd::default_configuration
{
  using Identifier = unsigned int;
  using Values = sdd::values::bitset<64>;
};

// Alone with its values.
struct conf_s : public sdd::flat_set_default_configuration
{
  using Identifier = std::string;
  using Values = sdd::values::flat_set<unsigned char>;
};

} // namespace

namespace mc {
template <>
struct values_bridge<sdd::values::flat_set<unsigned char>>
{
  using type = sdd::values::flat_set<unsigned char>;
  static constexpr bool is_bitset = true; // small values
  static type make(const std::vector<unsigned>& vs) { return type(vs.begin(), vs.end()); }
  static std::vector<unsigned> get(const type& v) { return std::vector<unsigned>(v.begin(), v.end()); }
};
}

namespace {

/*------------------------------------------------------------------------------------------------*/

// A function which keeps a set of values.
template <typename C>
struct holder
{
  typename C::Values keep;
  typename C::Values operator()(const typename C::Values& v) const { return intersection(v, keep); }
  bool selector() const noexcept { return true; }
  friend bool operator==(const holder& l, const holder& r) noexcept { return l.keep == r.keep; }
};

std::string ident(const std::string*, unsigned i) { return "x" + std::to_string(i); }
unsigned ident(const unsigned*, unsigned i) { return i; }

} // namespace

namespace std {
template <typename C> struct hash<holder<C>> { std::size_t operator()(const holder<C>& h) const noexcept { return std::hash<typename C::Values>()(h.keep); } };
}

namespace {

template <typename C>
struct one_conf : any_conf
{
  using SDD = sdd::SDD<C>;
  using H = sdd::homomorphism<C>;
  const char* nm; unsigned knd;
  std::vector<sdd::manager<C>> ms;
  std::vector<SDD> held; std::vector<H> heldh;
  shape_ptr s = make_shape("(2,2),3");
  bridge<C> b;

  one_conf(const char* n, unsigned k) : nm(n), knd(k) {}
  ~one_conf() { release(); ms.clear(); }
  const char* name() const override { return nm; }
  unsigned kind() const override { return knd; }
  std::size_t count() const override { return ms.size(); }
  bool
  init(const resources& r) override
  {
    try { ms.push_back(sdd::init<C>(make_conf<C>(r))); return true; }
    catch (const std::runtime_error&) { return false; }
  }
  void copy() override { const auto m = ms.back(); ms.push_back(m); }
  void move() override { auto m = std::move(ms.front()); ms.erase(ms.begin()); ms.push_back(std::move(m)); }
  void assign() override { const auto m = ms.back(); ms.front() = m; }
  void self_assign() override { for (auto& m : ms) { const auto& same = m; m = same; } }
  void drop(bool oldest) override { if (oldest) ms.erase(ms.begin()); else ms.pop_back(); }

  static constexpr mask X = 0x9a5, Y = 0x36c;

  static std::string to_id(const std::string& s) { return s; }

  sdd::order<C>
  order() const
  {
    using I = typename C::Identifier;
    const I* p = nullptr;
    sdd::order_builder<C> n, o;
    n.push(ident(p, 3)); n.push(ident(p, 2));
    o.push(ident(p, 1)); o.push(ident(p, 0), n);
    return sdd::order<C>(o);
  }

  void
  use() override
  {
    using I = typename C::Identifier;
    const I* p = nullptr;
    const SDD x = b.nary(*s, X), y = b.incremental(*s, Y);
    b.expect(x + y, *s, X | Y, "union");
    b.expect(x & y, *s, X & Y, "intersection");
    b.expect(x - y, *s, X & ~Y, "difference");
    const auto o = order();
    // selection of a value on the last level; rotation of a nested one
    const H f = sdd::function<C>(o, ident(p, 1), holder<C>{b.values(5)});
    mask keep = 0, swapped = 0;
    for (unsigned e = 0; e < 12; ++e) if (X >> e & 1 && (e % 3) != 1) keep |= mask(1) << e;
    b.expect(f(o, x), *s, keep, "selection");
    const H g = sdd::fixpoint<C>(sdd::sum<C>(o, {sdd::id<C>(), sdd::function<C>(o, ident(p, 3), vfun<C>{{2, 1}, false, true, 0})}));
    for (unsigned e = 0; e < 12; ++e) if (X >> e & 1) swapped |= mask(1) << e | mask(1) << (e / 3 % 2 ? e - 3 : e + 3);
    b.expect(g(o, x), *s, swapped, "fixpoint");
    b.expect(sdd::rewrite<C>(o, g)(o, x), *s, swapped, "rewritten fixpoint");
    MC_CHECK(x.size() == popcount(X), "count");
    ++st().transitions;
  }

  void
  hold() override
  {
    using I = typename C::Identifier;
    const I* p = nullptr;
    held.push_back(b.nary(*s, X)); held.push_back(b.decremental(*s, Y));
    heldh.push_back(sdd::function<C>(order(), ident(p, 1), holder<C>{b.values(6)}));
  }
  void
  check() override
  {
    if (held.empty()) return;
    using I = typename C::Identifier;
    const I* p = nullptr;
    b.expect(held[0], *s, X, "held diagram"); b.expect(held[1], *s, Y, "held diagram");
    MC_CHECK(held[0] == b.grouped(*s, X) && held[1] == b.incremental(*s, Y), "held diagrams are not unified");
    MC_CHECK(heldh[0] == sdd::function<C>(order(), ident(p, 1), holder<C>{b.values(6)}), "held homomorphism is not unified");
    mask keep = 0;
    for (unsigned e = 0; e < 12; ++e) if (X >> e & 1 && (e % 3) != 0) keep |= mask(1) << e;
    b.expect(heldh[0](order(), held[0]), *s, keep, "held selection");
  }
  void release() override { held.clear(); heldh.clear(); held.shrink_to_fit(); heldh.shrink_to_fit(); }
  bool holds() const override { return !held.empty(); }

  template <typename S>
  static void
  put_ut(std::ostream& os, const S& x)
  { os << x.size << " " << x.peak << " " << x.access << " " << x.hits << " " << x.misses << " " << x.rehash << " " << x.buckets << "; "; }
  template <typename S>
  static void
  put_cache(std::ostream& os, const S& x)
  { os << x.size << " " << x.hits << " " << x.misses << " " << x.filtered << " " << x.discarded << " " << x.buckets << "; "; }
  template <typename M> static auto put_values(std::ostream& os, const M& m, int) -> decltype(m.values_stats().size, void()) { put_ut(os, m.values_stats()); }
  template <typename M> static void put_values(std::ostream&, const M&, long) {}

  std::string
  stats() const override
  {
    std::ostringstream os;
    const auto& m = ms.back();
    put_ut(os, m.sdd_stats()); put_ut(os, m.hom_stats());
    put_cache(os, m.sdd_sum_cache_stats()); put_cache(os, m.sdd_intersection_cache_stats()); put_cache(os, m.sdd_difference_cache_stats());
    put_cache(os, m.hom_cache_stats());
    put_values(os, m, 0);
    return os.str();
  }
};

} // namespace

namespace mc {
std::unique_ptr<any_conf> MAKER(const char* name, unsigned kind) { return std::make_unique<one_conf<MCONF>>(name, kind); }
}
