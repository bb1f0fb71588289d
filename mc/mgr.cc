// C13: life of managers. Explored: all the sequences of initialisations, copies, moves, uses and destructions over several configurations.
#include "balance.hh"
#include "mgr.hh"

using namespace mc;

namespace {

using confs = std::vector<std::unique_ptr<any_conf>>;

// conf1 and conf2 exclude each other, as do conf0 and conf_b
confs
make_confs(unsigned which)
{
  confs r;
  if (which == 0 || which == 1)
  {
    r.push_back(make_any_conf0("conf0", 0));
    r.push_back(make_any_conf1("conf1", 1));
    if (which == 0) r.push_back(make_any_conf2("conf2", 1));
  }
  else if (which == 2)
  {
    r.push_back(make_any_conf0("conf0", 0));
    r.push_back(make_any_conf_b("conf_b", 0));
  }
  else if (which == 3)
  {
    r.push_back(make_any_conf1("conf1", 1));
    r.push_back(make_any_conf_s("conf_s", 2));
  }
  else if (which == 4) r.push_back(make_any_conf1("conf1", 1));
  else r.push_back(make_any_conf0("conf0", 0));
  return r;
}

const resources first_res{"first", 16, 8, 200, 16, 8, 16};
const resources second_res{"second", 64, 32, 4096, 64, 32, 64};

constexpr unsigned nb_ops = 10;
const char* op_names[nb_ops] = {"init", "init2", "copy", "drop oldest", "drop newest", "use", "hold", "release", "move", "assign"};

// statistics of the first manager of each configuration and sizes
std::map<std::string, std::string> reference;

bool
step(confs& cs, unsigned op, const std::string& text)
{
  any_conf& c = *cs[op / nb_ops];
  ++st().transitions;
  switch (op % nb_ops)
  {
    case 0: case 1:
    {
      const bool other = op % nb_ops == 1;
      bool busy = false;
      for (const auto& x : cs) busy |= x->kind() == c.kind() && x->count();
      where() = text;
      const bool ok = c.init(other ? second_res : first_res);
      MC_CHECK(ok == !busy, (busy ? "a second manager was accepted" : "the first manager was refused") << " for " << c.name());
      if (ok)
      {
        const std::string s = c.stats(), key = std::string(c.name()) + (other ? "2" : "1");
        const auto it = reference.emplace(key, s).first;
        MC_CHECK(it->second == s, "a new manager starts with statistics " << s << " instead of " << it->second);
      }
      break;
    }
    case 2: if (!c.count() || c.count() > 2) return false; c.copy(); break;
    case 3: if (!c.count() || (c.count() == 1 && c.holds())) return false; c.drop(true); break;
    case 4: if (c.count() < 2) return false; c.drop(false); break;
    case 5: if (!c.count()) return false; c.use(); break;
    case 6: if (!c.count() || c.holds()) return false; c.hold(); break;
    case 7: if (!c.holds()) return false; c.release(); break;
    case 8: if (!c.count()) return false; c.move(); break;
    case 9: if (c.count() < 2) return false; c.assign(); break;
  }
  return true;
}

void
after(confs& cs)
{
  for (auto& c : cs) if (c->count()) { c->self_assign(); c->check(); c->use(); }
  ++st().validated;
}

std::string
text(const confs& cs, const std::vector<unsigned>& p)
{
  std::string r;
  for (unsigned op : p) r += std::string(r.empty() ? "" : "; ") + cs[op / nb_ops]->name() + " " + op_names[op % nb_ops];
  return r;
}

void
explore(unsigned which, unsigned depth, std::vector<unsigned>& p)
{
  unsigned total;
  {
    bool enabled = true;
    balance bal;
    {
      confs cs = make_confs(which);
      total = static_cast<unsigned>(cs.size()) * nb_ops;
      for (std::size_t i = 0; enabled && i < p.size(); ++i)
      {
        where() = text(cs, {p.begin(), p.begin() + i + 1});
        enabled = step(cs, p[i], where());
      }
      if (enabled) { after(cs); ++st().states; }
    }
    static bool warm = false; // what is allocated once
    if (warm && !p.empty()) bal.check("managers");
    if (p.size() >= 1) warm = true;
    if (!enabled) return;
  }
  if (p.size() == depth) return;
  for (unsigned op = 0; op < total; ++op) { p.push_back(op); explore(which, depth, p); p.pop_back(); }
}

void
lives(unsigned which, unsigned depth, const std::string& pn, int first)
{
  use_policy(pn);
  {
    // what is allocated once: references of statistics, names
    confs cs = make_confs(which);
    for (unsigned c = 0; c < cs.size(); ++c) for (unsigned o : {0u, 1u})
    { step(cs, c * nb_ops + o, ""); after(cs); step(cs, c * nb_ops + 3, ""); }
    for (unsigned c = 0; c < cs.size(); ++c) step(cs, c * nb_ops, "");
    after(cs);
  }
  std::vector<unsigned> p;
  if (first >= 0) p.push_back(static_cast<unsigned>(first));
  explore(which, depth, p);
  sample(std::to_string(st().states) + " sequences of events of managers; last: " + where());
}

/*------------------------------------------------------------------------------------------------*/
// Initialisation which runs out of memory at each of its allocations: nothing stays and the next one succeeds.

void
exhausted(unsigned which, const std::string& pn)
{
  use_policy(pn);
  {
    confs cs = make_confs(which);
    for (auto& c : cs) { if (c->init(first_res)) c->use(); }
  }
  unsigned failures = 0;
  st().extra["faults_hit"] = 0;
  for (unsigned c = 0; ; ++c)
  {
    confs cs = make_confs(which);
    if (c >= cs.size()) break;
    for (unsigned other = 0; other < cs.size(); ++other) for (long long n = 0; ; ++n)
    {
      bool failed = false;
      if (other != c && cs[other]->kind() == cs[c]->kind()) break;
      balance bal;
      where() = std::string(cs[c]->name()) + " fails at allocation " + std::to_string(n) + (other != c ? std::string(" beside ") + cs[other]->name() : "");
      {
        confs ds = make_confs(which);
        if (other != c) { ds[other]->init(first_res); ds[other]->hold(); }
        fail_allocation(n);
        try { ds[c]->init(second_res); } catch (const std::bad_alloc&) { failed = true; ++failures; ++st().extra["faults_hit"]; }
        fail_allocation(-1);
        if (other != c) { ds[other]->check(); ds[other]->use(); }
        if (failed)
        {
          MC_CHECK(ds[c]->init(second_res), "refused after a failed initialisation");
          ds[c]->use(); ds[c]->hold(); ds[c]->check();
        }
        else MC_CHECK(ds[c]->count() == 1, "refused");
      }
      bal.check("failed initialisation");
      ++st().states; ++st().transitions;
      if (!failed) break;
    }
  }
  MC_CHECK(failures, "no allocation failed");
  sample("initialisation failing at each of its " + std::to_string(failures) + " allocations");
}

// Hundreds of successive managers, or of copies of one.
void
long_life(unsigned which, unsigned rounds, const std::string& pn)
{
  use_policy(pn);
  reference.clear();
  { confs cs = make_confs(which); for (auto& c : cs) if (c->init(first_res)) { c->stats(); after(cs); } }
  const auto one = [&](unsigned k)
  {
    confs cs = make_confs(which);
    const unsigned n = cs.size();
    for (unsigned i = 0; i < n; ++i)
    {
      any_conf& c = *cs[(i + k) % n];
      where() = "manager " + std::to_string(k) + " of " + c.name();
      bool busy = false;
      for (const auto& x : cs) busy |= x->kind() == c.kind() && x->count();
      const auto& r = k % 3 ? first_res : second_res;
      MC_CHECK(c.init(r) == !busy, (busy ? "a second manager was accepted" : "the manager was refused"));
      if (busy) continue;
      const std::string s = c.stats(), key = std::string(c.name()) + r.name;
      MC_CHECK(reference.emplace(key, s).first->second == s, "a new manager starts with other statistics");
      MC_CHECK(!c.init(r), "a second manager was accepted");
      if (k % 2) { c.hold(); c.check(); }
      if (k % 5 == 0) { c.copy(); c.drop(true); c.self_assign(); }
      ++st().transitions;
    }
    after(cs);
    ++st().states;
  };
  for (unsigned k = 0; k < 30; ++k) one(k);
  {
    balance bal;
    for (unsigned k = 0; k < rounds; ++k) one(k);
    where().clear(); where().shrink_to_fit();
    bal.check("successive managers");
  }
  for (bool oldest : {false, true})
  {
    balance bal;
    {
      confs cs = make_confs(which);
      any_conf& c = *cs[0];
      c.init(first_res); c.hold();
      for (unsigned k = 1; k < rounds; ++k)
      {
        c.copy();
        where() = std::to_string(k + 1) + " copies";
        MC_CHECK(!c.init(first_res), "a second manager was accepted");
        if (k % 50 == 0) after(cs);
      }
      for (unsigned k = 1; k < rounds; ++k)
      {
        c.drop(oldest);
        where() = std::to_string(rounds - k) + " copies are left";
        MC_CHECK(!c.init(first_res), "a second manager was accepted");
        if (k % 50 == 0 || rounds - k < 5) after(cs);
        ++st().transitions;
      }
      c.check(); c.release(); c.drop(oldest);
      MC_CHECK(c.init(first_res), "the manager was refused");
      after(cs);
    }
    where().clear(); where().shrink_to_fit();
    bal.check("copies");
    ++st().states;
  }
  sample(std::to_string(rounds) + " successive managers and copies");
}

void
cells_()
{
  const auto& pols = all_policies();
  const auto pn = [&](unsigned k) { return std::string(pols[k % pols.size()].name); };
  for (int f = 0; f < 30; ++f)
  {
    add_cell("lives/three/4/" + std::to_string(f), [=]{ lives(0, 4, pn(f), f); });
    add_cell("lives/three/5/" + std::to_string(f), [=]{ lives(0, 5, pn(f + 1), f); }, true);
  }
  for (unsigned w : {1u, 2u, 3u}) for (int f = 0; f < 20; ++f)
  {
    add_cell("lives/two-" + std::to_string(w) + "/4/" + std::to_string(f), [=]{ lives(w, 4, pn(f + w), f); });
    add_cell("lives/two-" + std::to_string(w) + "/5/" + std::to_string(f), [=]{ lives(w, 5, pn(f + w), f); }, w != 2);
    add_cell("lives/two-" + std::to_string(w) + "/6/" + std::to_string(f), [=]{ lives(w, 6, pn(f + w + 1), f); }, true);
  }
  for (unsigned w : {4u, 5u}) for (int f = 0; f < 10; ++f)
  {
    add_cell("lives/one-" + std::to_string(w) + "/6/" + std::to_string(f), [=]{ lives(w, 6, pn(w + f), f); });
    add_cell("lives/one-" + std::to_string(w) + "/7/" + std::to_string(f), [=]{ lives(w, 7, pn(w + f + 1), f); }, true);
  }
  for (unsigned w = 0; w < 6; ++w) add_cell("long/" + std::to_string(w), [=]{ long_life(w, 300, pn(w)); });
  for (unsigned w = 0; w < 6; ++w) add_cell("exhausted/" + std::to_string(w), [=]{ exhausted(w, pn(w)); });
}
const registrar reg(cells_);

} // namespace
