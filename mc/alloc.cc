// Deterministic allocator, crash reporting and main() of the explorers.
#include "mc.hh"

#include <new>
#include <cassert>
#include <csignal>
#include <exception>
#include <sys/mman.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define MC_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MC_ASAN 1
#endif
#endif
#ifdef MC_ASAN
#include <sanitizer/asan_interface.h>
#else
#define ASAN_POISON_MEMORY_REGION(a, s) ((void)(a), (void)(s))
#define ASAN_UNPOISON_MEMORY_REGION(a, s) ((void)(a), (void)(s))
#endif

namespace mc {

namespace {

// Region: [base, base+size). Small blocks are carved from both ends of the arena according to the
// policy, large blocks come from a second arena.
constexpr std::uintptr_t kBase = 0x200000000000ull;
constexpr std::size_t kSmall = 24ull << 30;   // virtual, lazily committed
constexpr std::size_t kLarge = 64ull << 30;
constexpr std::size_t kLimit = 2560ull << 20; // live memory: far beyond what any cell needs on a sound library
constexpr std::size_t kHeader = 16;
constexpr std::size_t kRed = 16;
constexpr std::size_t kMaxSmall = 1024;       // user size
constexpr std::size_t kClasses = kMaxSmall / 16 + 1;
constexpr std::uint32_t kAlive = 0xA11FEA11u, kDead = 0xDEADB10Cu;

struct header { std::uint32_t magic; std::uint32_t cls; std::uint64_t size; };
static_assert(sizeof(header) == kHeader, "");

struct free_ring
{
  void** data; std::size_t cap, head, count;
};

bool ready = false;
char* lo; char* hi; char* large;
free_ring rings[kClasses];
struct big_free { std::size_t size; char* p; };
big_free* bigs; std::size_t nbigs, capbigs;
grow pol_grow = grow::up; reuse pol_reuse = reuse::lifo;
bool flip = false;
std::size_t n_live = 0, b_live = 0;
std::uint64_t n_total = 0;
const std::set<std::uint64_t>* deviations = nullptr; std::set<std::uint64_t>* dev_store = nullptr;
std::uint64_t arm_base = 0; bool armed = false;
long long fail_at = -1;

// Blocks without header nor gap, one right after the other.
constexpr std::size_t kTight = 1 << 20, kMaxTight = 256;
struct tight_block { char* p; std::size_t n; bool live; };
bool tight_on = false; char* tight_base; char* tight_next; tight_block tights[kMaxTight]; std::size_t ntights = 0;

void
setup()
{
  void* p = mmap( reinterpret_cast<void*>(kBase), kSmall + kLarge + kTight, PROT_READ | PROT_WRITE
                , MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != reinterpret_cast<void*>(kBase)) { write(2, "mc: mmap failed\n", 16); _exit(77); }
  lo = static_cast<char*>(p); hi = lo + kSmall; large = hi; tight_base = tight_next = lo + kSmall + kLarge;
  ready = true;
}

void
push(free_ring& r, void* p)
{
  if (r.count == r.cap)
  {
    const std::size_t nc = r.cap ? r.cap * 2 : 64;
    void** nd = static_cast<void**>(malloc(nc * sizeof(void*)));
    for (std::size_t i = 0; i < r.count; ++i) nd[i] = r.data[(r.head + i) % r.cap];
    free(r.data);
    r.data = nd; r.cap = nc; r.head = 0;
  }
  r.data[(r.head + r.count++) % r.cap] = p;
}

void*
pop(free_ring& r)
{
  // fifo keeps a small quarantine so that a dangling access is seen before its block is reused
  if (pol_reuse == reuse::lifo)
  {
    return r.count == 0 ? nullptr : r.data[(r.head + --r.count) % r.cap];
  }
  if (r.count < 64) return nullptr;
  void* p = r.data[r.head];
  r.head = (r.head + 1) % r.cap; --r.count;
  return p;
}

char*
fresh(std::size_t total, bool deviate)
{
  bool down = pol_grow == grow::down;
  if (pol_grow == grow::alternate) { down = flip; flip = !flip; }
  if (deviate) down = !down;
  if (static_cast<std::size_t>(hi - lo) < total) { write(2, "mc: out of region\n", 18); _exit(77); }
  if (down) { hi -= total; return hi; }
  char* r = lo; lo += total; return r;
}

} // namespace

void set_policy(grow g, reuse r) { pol_grow = g; pol_reuse = r; }
std::size_t live_blocks() { return n_live; }
std::size_t live_bytes() { return b_live; }
std::uint64_t total_allocations() { return n_total; }

void
arm_deviations(const std::set<std::uint64_t>& d)
{
  if (!dev_store) dev_store = new std::set<std::uint64_t>;
  armed = false; *dev_store = d; deviations = dev_store; arm_base = n_total; armed = true;
}
void disarm_deviations() { armed = false; }
std::uint64_t allocations_since_arm() { return n_total - arm_base; }
void fail_allocation(long long n) { fail_at = n; }

void
tight_blocks(bool on)
{
  tight_on = on;
  if (on)
  {
    for (std::size_t i = 0; i < ntights; ++i) if (tights[i].live) fail("a block is in use at the beginning");
    ntights = 0; tight_next = tight_base;
  }
}

static void*
allocate(std::size_t n)
{
  if (!ready) setup();
  if (fail_at >= 0)
  {
    if (fail_at == 0) { fail_at = -1; throw std::bad_alloc{}; }
    --fail_at;
  }
  if (n > kLimit || b_live + n > kLimit)
  {
    fprintf(stderr, "MC-FAIL: more than %zu MB of memory in use\nMC-WHERE: %s\n", kLimit >> 20, where().c_str());
    fflush(stderr);
    _exit(1);
  }
  const std::uint64_t index = n_total++ - arm_base;
  if (tight_on && ntights < kMaxTight && n <= 256)
  {
    char* t = tight_next;
    tight_next += n == 0 ? 16 : (n + 15) / 16 * 16;
    tights[ntights++] = {t, n, true};
    ASAN_UNPOISON_MEMORY_REGION(t, n);
    memset(t, 0xCB, n);
    ++n_live; b_live += n;
    return t;
  }
  char* p;
  std::uint32_t cls;
  if (n <= kMaxSmall)
  {
    cls = static_cast<std::uint32_t>((n + 15) / 16);
    if (cls == 0) cls = 1;
    const std::size_t total = kHeader + cls * 16 + kRed;
    bool deviate = false;
    if (armed) { armed = false; deviate = deviations->count(index) != 0; armed = true; }
    p = deviate ? nullptr : static_cast<char*>(pop(rings[cls]));
#ifndef MC_ASAN
    if (p)
    {
      const header* oh = reinterpret_cast<const header*>(p);
      for (std::size_t i = 0; i < oh->size; ++i)
      {
        if (static_cast<unsigned char>(p[kHeader + i]) != 0xDD) fail("write to a freed heap block");
      }
    }
#endif
    if (!p) p = fresh(total, deviate);
  }
  else
  {
    cls = 0xFFFFFFFFu;
    const std::size_t user = (n + 4095) / 4096 * 4096;
    p = nullptr;
    for (std::size_t i = nbigs; i-- > 0;)
    {
      if (bigs[i].size == user) { p = bigs[i].p; bigs[i] = bigs[--nbigs]; break; }
    }
    if (!p) { p = large; large += kHeader + user + kRed; }
  }
  header* h = reinterpret_cast<header*>(p);
  ASAN_UNPOISON_MEMORY_REGION(h, kHeader);
  h->magic = kAlive; h->cls = cls; h->size = n;
  char* user = p + kHeader;
  const std::size_t room = cls == 0xFFFFFFFFu ? (n + 4095) / 4096 * 4096 : cls * 16;
  ASAN_UNPOISON_MEMORY_REGION(user, n);
  memset(user, 0xCB, n);
#ifdef MC_ASAN
  ASAN_POISON_MEMORY_REGION(user + (n + 7) / 8 * 8, room + kRed - (n + 7) / 8 * 8);
  ASAN_POISON_MEMORY_REGION(h, kHeader);
#else
  memset(user + n, 0xAB, room + kRed - n);
#endif
  ++n_live; b_live += n;
  return user;
}

static void
deallocate(void* q)
{
  if (!q) return;
  char* user = static_cast<char*>(q);
  if (user >= tight_base && user < tight_base + kTight)
  {
    for (std::size_t i = 0; i < ntights; ++i) if (tights[i].p == user)
    {
      if (!tights[i].live) fail("double free of a block");
      tights[i].live = false; --n_live; b_live -= tights[i].n;
      memset(user, 0xDD, tights[i].n);
      ASAN_POISON_MEMORY_REGION(user, tights[i].n);
      return;
    }
    fail("free of an address that was not allocated");
  }
  header* h = reinterpret_cast<header*>(user - kHeader);
  ASAN_UNPOISON_MEMORY_REGION(h, kHeader);
  if (h->magic != kAlive)
  {
    fail(h->magic == kDead ? "double free of a block" : "free of an address that was not allocated");
  }
  const std::size_t n = h->size;
  const std::size_t room = h->cls == 0xFFFFFFFFu ? (n + 4095) / 4096 * 4096 : h->cls * 16;
#ifndef MC_ASAN
  for (std::size_t i = n; i < room + kRed; ++i)
  {
    if (static_cast<unsigned char>(user[i]) != 0xAB) fail("write past the end of a heap block");
  }
#endif
  h->magic = kDead;
  --n_live; b_live -= n;
  memset(user, 0xDD, n);
  char* p = user - kHeader;
  if (h->cls == 0xFFFFFFFFu)
  {
    if (nbigs == capbigs)
    {
      capbigs = capbigs ? 2 * capbigs : 64;
      bigs = static_cast<big_free*>(realloc(bigs, capbigs * sizeof(big_free)));
    }
    bigs[nbigs++] = {room, p};
  }
  else
  {
    push(rings[h->cls], p);
  }
  ASAN_POISON_MEMORY_REGION(p, kHeader + room + kRed);
}

/*------------------------------------------------------------------------------------------------*/

static void
print_json_string(FILE* f, const std::string& s)
{
  fputc('"', f);
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); }
    else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
    else fputc(c, f);
  }
  fputc('"', f);
}

void
fail(const std::string& msg)
{
  fflush(stdout);
  fprintf(stderr, "MC-FAIL: %s\nMC-WHERE: %s\n", msg.c_str(), where().c_str());
  fflush(stderr);
  _exit(1);
}

static void
on_signal(int s)
{
  fprintf(stderr, "MC-FAIL: signal %d (%s)\nMC-WHERE: %s\n", s, strsignal(s), where().c_str());
  fflush(stderr);
  _exit(1);
}

} // namespace mc

#ifdef MC_ASAN
extern "C" const char* __asan_default_options()
{
  return "detect_leaks=0:detect_stack_use_after_return=0:exitcode=1:abort_on_error=0:handle_abort=0:"
         "allocator_may_return_null=1:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0";
}
extern "C" void __asan_on_error()
{
  fprintf(stderr, "MC-FAIL: invalid memory access (AddressSanitizer)\nMC-WHERE: %s\n", mc::where().c_str());
  fflush(stderr);
}
#endif

void* operator new(std::size_t n) { return mc::allocate(n); }
void* operator new[](std::size_t n) { return mc::allocate(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept
{ try { return mc::allocate(n); } catch (...) { return nullptr; } }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept
{ try { return mc::allocate(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { mc::deallocate(p); }
void operator delete[](void* p) noexcept { mc::deallocate(p); }
void operator delete(void* p, std::size_t) noexcept { mc::deallocate(p); }
void operator delete[](void* p, std::size_t) noexcept { mc::deallocate(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { mc::deallocate(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { mc::deallocate(p); }

int
main(int argc, char** argv)
{
  using namespace mc;
  static char altstack[1 << 16];
  stack_t ss{}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack;
  sigaltstack(&ss, nullptr);
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT})
  {
    struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK; sigaction(s, &sa, nullptr);
  }
  if (argc == 3 && !strcmp(argv[1], "--list"))
  {
    const bool th = !strcmp(argv[2], "thorough");
    for (const auto& c : cells()) if (th || !c.thorough_only) printf("%s\n", c.name.c_str());
    return 0;
  }
  if (argc == 3 && !strcmp(argv[1], "--cell"))
  {
    for (const auto& c : cells())
    {
      if (c.name != argv[2]) continue;
      try { c.run(); }
      catch (const std::exception& e) { fail(std::string("unexpected exception: ") + e.what()); }
      catch (...) { fail("unexpected exception of unknown type"); }
      auto& s = st();
      printf("{\"cell\":"); print_json_string(stdout, c.name);
      printf(",\"states\":%llu,\"transitions\":%llu,\"validated\":%llu,\"outcomes\":%zu"
            , (unsigned long long)s.states, (unsigned long long)s.transitions
            , (unsigned long long)s.validated, s.outcomes.size());
      printf(",\"extra\":{"); bool first = true;
      for (auto& kv : s.extra)
      { if (!first) printf(","); first = false; print_json_string(stdout, kv.first); printf(":%llu", (unsigned long long)kv.second); }
      printf("},\"samples\":["); first = true;
      for (auto& x : s.samples) { if (!first) printf(","); first = false; print_json_string(stdout, x); }
      printf("],\"known\":["); first = true;
      for (auto& x : s.known) { if (!first) printf(","); first = false; print_json_string(stdout, x); }
      printf("]}\n");
      fflush(stdout);
      _exit(0);
    }
    fprintf(stderr, "unknown cell %s\n", argv[2]);
    return 78;
  }
  fprintf(stderr, "usage: %s --list quick|thorough | --cell NAME\n", argv[0]);
  return 79;
}
