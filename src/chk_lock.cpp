// C25: every interleaving of users of the database lock. Db/dblock.c is compiled with -fsanitize=thread
// and linked with the runtime below instead of TSan's: each access to the lock area is a scheduling point.
// The users are coroutines; a state is the lock area plus their stacks, so that the real code is explored
// as an explicit-state system: all reachable states, no bound on preemptions.
#include "db.hpp"
#include <linux/futex.h>
#include <stdarg.h>

namespace {
typedef uint32_t u32;
constexpr int MAXT = 4;
constexpr size_t STK = 64 * 1024;
enum St : int { READY, SPIN, FUTEX, DONE };
enum Act : int { STEP, TIME, INTR };  // INTR: an interrupted or spurious wake-up
struct Thr {
  char *rsp;
  int st, hold, op, timed, fres, last0;
  uintptr_t pc[4], ad[4];
  int nset, hits, kind, mutex;  // mutex: holds the lock of the queue
  uintptr_t paddr;  // the pending access
};
Thr T[MAXT];
char *stk[MAXT];
char *sched_rsp;
int cur = -1, nthr;
bool tmode;
u64 tcount;
uintptr_t lo1, hi1, lo2, hi2;  // the lock variables in the header; the lock storage
// Reduction for the queued lock: an access made while holding the lock of the queue is not a scheduling
// point, as long as nobody accesses the same address without holding it (found on the way: then the
// address joins `open` and the exploration starts again) and the lock of the queue excludes (else: full).
uintptr_t qlock;
std::set<uintptr_t> open_, prot;
bool full, restart;
// Second reduction, for three and more users only: nobody tries to take the lock of the queue while
// another one holds it (the failing attempts are explored with two users).
bool coarse;
void *DB;
string script[MAXT];
string bad;

extern "C" void gkv_switch(char **save, char *to);
asm(R"(
.globl gkv_switch
gkv_switch:
  push %rbp
  push %rbx
  push %r12
  push %r13
  push %r14
  push %r15
  mov %rsp,(%rdi)
  mov %rsi,%rsp
  pop %r15
  pop %r14
  pop %r13
  pop %r12
  pop %rbx
  pop %rbp
  ret
)");

inline bool shared_addr(uintptr_t a) { return (a >= lo1 && a < hi1) || (a >= lo2 && a < hi2); }
void pause_thr() { gkv_switch(&T[cur].rsp, sched_rsp); }

void clear_set(Thr &t) { t.nset = t.hits = 0; memset(t.pc, 0, sizeof t.pc); memset(t.ad, 0, sizeof t.ad); }

// kinds: 'r' read, 'w' write, 'a' atomic update, 'f' futex wait, 'k' futex wake, 'c' holding the lock
void access_point(char kind, uintptr_t a, uintptr_t pc) {
  if (cur < 0) return;
  Thr &t = T[cur];
  if (kind != 'c' && !shared_addr(a)) {
    uintptr_t b = (uintptr_t)dbmemseg(DB);
    if (a >= b && a < b + (uintptr_t)dbmemsegh(DB)->size && kind != 'r' && bad.empty()) bad = "the lock code writes outside the lock area, at offset " + std::to_string(a - b);
    return;
  }
  if (qlock && kind != 'c' && kind != 'f' && kind != 'k' && a != qlock && !full) {
    if (!t.mutex) {
      if (open_.insert(a).second && prot.count(a)) restart = true;
    } else if (!open_.count(a)) {
      prot.insert(a);
      return;
    }
  }
  t.kind = kind;
  t.paddr = a;
  if (kind == 'f' || kind == 'k' || kind == 'c') clear_set(t);
  if (kind == 'r' || kind == 'a') {
    bool in = false;
    for (int i = 0; i < t.nset; i++) in |= t.pc[i] == pc && t.ad[i] == a;
    if (in) t.hits = std::min(t.hits + 1, 2);
    else {
      if (tmode && kind == 'a') { pause_thr(); }
      int i = t.nset < 4 ? t.nset++ : (memmove(t.pc, t.pc + 1, sizeof t.pc[0] * 3), memmove(t.ad, t.ad + 1, sizeof t.ad[0] * 3), 3);
      t.pc[i] = pc;
      t.ad[i] = a;
      if (tmode && kind == 'a') return;
    }
    if (tmode) {
      if (++tcount > 400000) pause_thr();
      return;
    }
    t.st = in ? SPIN : READY;
  } else
    t.st = READY;
  pause_thr();
}
void mutex_taken(uintptr_t a) {
  if (cur < 0 || a != qlock) return;
  for (int i = 0; i < nthr; i++)
    if (T[i].mutex && !full) full = restart = true;
  T[cur].mutex = 1;
}
void mutex_left(uintptr_t a) {
  if (cur < 0 || a != qlock) return;
  if (!T[cur].mutex && !full) full = restart = true;
  T[cur].mutex = 0;
}
void wrote(uintptr_t a) {
  if (cur < 0 || !shared_addr(a)) return;
  clear_set(T[cur]);
  for (int i = 0; i < nthr; i++) {
    if (i == cur) continue;
    bool in = false;
    for (int k = 0; k < T[i].nset; k++) in |= T[i].ad[k] == a;
    if (in) {
      clear_set(T[i]);
      if (T[i].st == SPIN) T[i].st = READY;
    }
  }
}
}  // namespace

// ------------------------------------------------ the runtime the instrumented code calls
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define PC ((uintptr_t)__builtin_return_address(0))
#define RW(n) \
  void __tsan_read##n(void *a) { access_point('r', (uintptr_t)a, PC); } \
  void __tsan_unaligned_read##n(void *a) { access_point('r', (uintptr_t)a, PC); } \
  void __tsan_volatile_read##n(void *a) { access_point('r', (uintptr_t)a, PC); } \
  void __tsan_write##n(void *a) { access_point('w', (uintptr_t)a, PC); mutex_left((uintptr_t)a); wrote((uintptr_t)a); } \
  void __tsan_unaligned_write##n(void *a) { access_point('w', (uintptr_t)a, PC); mutex_left((uintptr_t)a); wrote((uintptr_t)a); } \
  void __tsan_volatile_write##n(void *a) { access_point('w', (uintptr_t)a, PC); mutex_left((uintptr_t)a); wrote((uintptr_t)a); } \
  void __tsan_read_write##n(void *a) { access_point('w', (uintptr_t)a, PC); mutex_left((uintptr_t)a); wrote((uintptr_t)a); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, long) { access_point('r', (uintptr_t)a, PC); }
void __tsan_write_range(void *a, long) { access_point('w', (uintptr_t)a, PC); mutex_left((uintptr_t)a); wrote((uintptr_t)a); }
#define AT(bits, ty) \
  ty __tsan_atomic##bits##_load(const volatile ty *a, int) { access_point('r', (uintptr_t)a, PC); return *a; } \
  void __tsan_atomic##bits##_store(volatile ty *a, ty v, int) { access_point('w', (uintptr_t)a, PC); *a = v; if (v) mutex_taken((uintptr_t)a); else mutex_left((uintptr_t)a); wrote((uintptr_t)a); } \
  ty __tsan_atomic##bits##_exchange(volatile ty *a, ty v, int) { access_point('a', (uintptr_t)a, PC); ty o = *a; *a = v; if (v) { if (!o) mutex_taken((uintptr_t)a); } else mutex_left((uintptr_t)a); if (o != v) wrote((uintptr_t)a); return o; } \
  ty __tsan_atomic##bits##_fetch_add(volatile ty *a, ty v, int) { access_point('a', (uintptr_t)a, PC); ty o = *a; *a = o + v; wrote((uintptr_t)a); return o; } \
  ty __tsan_atomic##bits##_fetch_sub(volatile ty *a, ty v, int) { access_point('a', (uintptr_t)a, PC); ty o = *a; *a = o - v; wrote((uintptr_t)a); return o; } \
  ty __tsan_atomic##bits##_fetch_and(volatile ty *a, ty v, int) { access_point('a', (uintptr_t)a, PC); ty o = *a; *a = o & v; wrote((uintptr_t)a); return o; } \
  ty __tsan_atomic##bits##_fetch_or(volatile ty *a, ty v, int) { access_point('a', (uintptr_t)a, PC); ty o = *a; *a = o | v; wrote((uintptr_t)a); return o; } \
  ty __tsan_atomic##bits##_fetch_xor(volatile ty *a, ty v, int) { access_point('a', (uintptr_t)a, PC); ty o = *a; *a = o ^ v; wrote((uintptr_t)a); return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile ty *a, ty *c, ty v, int, int) { access_point('a', (uintptr_t)a, PC); if (*a == *c) { *a = v; if (v) mutex_taken((uintptr_t)a); else mutex_left((uintptr_t)a); wrote((uintptr_t)a); return 1; } *c = *a; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile ty *a, ty *c, ty v, int, int) { access_point('a', (uintptr_t)a, PC); if (*a == *c) { *a = v; if (v) mutex_taken((uintptr_t)a); else mutex_left((uintptr_t)a); wrote((uintptr_t)a); return 1; } *c = *a; return 0; } \
  ty __tsan_atomic##bits##_compare_exchange_val(volatile ty *a, ty c, ty v, int, int) { access_point('a', (uintptr_t)a, PC); ty o = *a; if (o == c) { *a = v; if (v) mutex_taken((uintptr_t)a); else mutex_left((uintptr_t)a); wrote((uintptr_t)a); } return o; }
AT(8, char) AT(16, short) AT(32, int) AT(64, long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

int __real_nanosleep(const struct timespec *, struct timespec *);
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { return cur < 0 ? __real_nanosleep(a, b) : 0; }
long __real_syscall(long n, ...);
long __wrap_syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), op = va_arg(ap, long), val = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n != SYS_futex || cur < 0) return __real_syscall(n, a, op, val, d, e, f);
  op &= FUTEX_CMD_MASK;
  if (op == FUTEX_WAIT) {
    access_point('f', (uintptr_t)a, 0);
    if (*(volatile int *)a != (int)val) { errno = EAGAIN; return -1; }
    Thr &t = T[cur];
    t.st = FUTEX;
    t.kind = d ? 't' : 'F';
    t.fres = 0;
    pause_thr();
    if (T[cur].fres == 0) return 0;
    errno = T[cur].fres;
    return -1;
  }
  if (op == FUTEX_WAKE) {
    access_point('k', (uintptr_t)a, 0);
    int w = 0;
    for (int i = 0; i < nthr && w < (int)val; i++)
      if (T[i].st == FUTEX && T[i].paddr == (uintptr_t)a) { T[i].st = READY; T[i].kind = 'u'; T[i].fres = 0; w++; }
    return w;
  }
  if (bad.empty()) bad = "unexpected futex operation " + std::to_string(op);
  return -1;
}
}

namespace {
int want_fail;  // an attempt may fail without a timeout (queue nodes can run out)
void check_enter(int me, char what) {
  for (int i = 0; i < nthr; i++)
    if (i != me && T[i].hold && (what == 'W' || T[i].hold == 'W') && bad.empty())
      bad = string("user ") + char('1' + me) + (what == 'W' ? " gets the write lock" : " gets a read lock") + " while user " + char('1' + i) + (T[i].hold == 'W' ? " holds the write lock" : " holds a read lock");
}
void body() {
  int me = cur;
  for (;;) {
    Thr &t = T[me];
    if (t.op >= (int)script[me].size()) break;
    char what = script[me][t.op];
    t.timed = 0;
    gint l = what == 'W' ? wg_start_write(DB) : wg_start_read(DB);
    tmode = false;
    clear_set(t);
    if (l) {
      check_enter(me, what);
      t.hold = what;
      access_point('c', 0, 0);
      t.hold = 0;
      gint r = what == 'W' ? wg_end_write(DB, l) : wg_end_read(DB, l);
      if (!r && bad.empty()) bad = string("user ") + char('1' + me) + " cannot release the lock it holds";
    } else if (!t.timed && !want_fail && bad.empty())
      bad = string("user ") + char('1' + me) + " is refused the lock without having waited for it";
    t.op++;
  }
  T[me].st = DONE;
  T[me].kind = 'd';
  T[me].nset = T[me].hits = 0;
  for (;;) pause_thr();
}

struct Expl {
  DbImage &im;
  u64 states = 0, transitions = 0, terminals = 0;
  vector<char> init1, init2;
  struct H { u64 a, b; bool operator==(const H &o) const { return a == o.a && b == o.b; } };
  struct HH { size_t operator()(const H &h) const { return h.a; } };
  std::unordered_map<H, u32, HH> ids;
  vector<u32> parent;
  vector<unsigned char> pact;
  vector<std::pair<u32, u32>> edges;  // progress edges
  vector<u32> done;
  std::set<uintptr_t> never;  // spins that never give up, by the pending program point
  Expl(DbImage &i) : im(i) {}
  size_t n1() { return hi1 - lo1; }
  size_t n2() { return hi2 - lo2; }
  void save(vector<char> &o) {
    o.clear();
    o.insert(o.end(), (char *)lo1, (char *)hi1);
    o.insert(o.end(), (char *)lo2, (char *)hi2);
    o.insert(o.end(), (char *)T, (char *)(T + nthr));
    for (int i = 0; i < nthr; i++)
      if (T[i].st != DONE) o.insert(o.end(), T[i].rsp, stk[i] + STK);
  }
  void load(const vector<char> &o) {
    const char *p = o.data();
    memcpy((char *)lo1, p, n1()); p += n1();
    memcpy((char *)lo2, p, n2()); p += n2();
    memcpy((char *)T, p, sizeof(Thr) * nthr); p += sizeof(Thr) * nthr;
    for (int i = 0; i < nthr; i++)
      if (T[i].st != DONE) {
        size_t n = stk[i] + STK - T[i].rsp;
        memcpy(T[i].rsp, p, n);
        p += n;
      }
  }
  static H hash(const vector<char> &o) {
    u64 a = 0x9E3779B97F4A7C15ull, b = 0xC2B2AE3D27D4EB4Full;
    size_t i = 0, n = o.size();
    for (; i + 8 <= n; i += 8) {
      u64 w;
      memcpy(&w, o.data() + i, 8);
      a = (a ^ w) * 0xff51afd7ed558ccdull; a ^= a >> 32;
      b = (b + w) * 0xc4ceb9fe1a85ec53ull; b ^= b >> 29;
    }
    for (; i < n; i++) { a = (a ^ (unsigned char)o[i]) * 0xff51afd7ed558ccdull; b = (b + (unsigned char)o[i]) * 0xc4ceb9fe1a85ec53ull; a ^= a >> 32; b ^= b >> 29; }
    return {a, b};
  }
  void run(int t) {
    cur = t;
    gkv_switch(&sched_rsp, T[t].rsp);
    cur = -1;
  }
  // false: the transition does not exist in this state
  bool apply(int t, int act) {
    Thr &x = T[t];
    tmode = false;
    if (x.st == DONE) return false;
    if (act == STEP) {
      if (x.st != READY) return false;
      if (coarse && !full && x.paddr == qlock && (x.kind == 'r' || x.kind == 'a'))
        for (int i = 0; i < nthr; i++)
          if (i != t && T[i].mutex) return false;
      run(t);
      return true;
    }
    if (act == INTR) {
      if (x.st != FUTEX) return false;
      x.fres = EINTR;
      x.st = READY;
      x.kind = 'u';
      return true;
    }
    if (x.st == FUTEX && x.kind == 't') {
      x.fres = ETIMEDOUT;
      x.timed = 1;
      x.st = READY;
      x.kind = 'u';
      return true;
    }
    if (x.st == SPIN) {
      uintptr_t key = x.pc[0] * 31 + x.pc[1] * 7 + x.pc[2] * 3 + x.pc[3];
      if (never.count(key)) return false;
      tmode = true;
      tcount = 0;
      x.timed = 1;
      run(t);
      tmode = false;
      if (tcount > 400000) { never.insert(key); return false; }
      return true;
    }
    return false;
  }
  string trace(u32 s, int t, int act) {
    vector<std::pair<int, int>> v;
    if (t >= 0) v.push_back({t, act});
    for (u32 i = s; i != 0; i = parent[i]) v.push_back({pact[i] >> 2, pact[i] & 3});
    std::reverse(v.begin(), v.end());
    // replay to label the steps
    load(blob0);
    string o;
    uintptr_t seg = (uintptr_t)dbmemseg(DB);
    for (auto &e : v) {
      Thr &x = T[e.first];
      char b[200];
      const char *w = x.kind == 'r' ? "reads" : x.kind == 'w' ? "writes" : x.kind == 'a' ? "atomically updates" : x.kind == 'f' ? "futex wait on" : x.kind == 'k' ? "futex wake of" :
                      x.kind == 'c' ? "releases" : x.kind == 'u' ? "returns from the wait on" : x.kind == 's' ? "starts" : "waits on";
      snprintf(b, sizeof b, "%suser %d %s%s", o.empty() ? "" : "; ", e.first + 1, e.second == TIME ? "runs out of time: " : e.second == INTR ? "is interrupted: " : "", w);
      o += b;
      if (x.kind != 'c' && x.kind != 's') { snprintf(b, sizeof b, " %ld", (long)(x.paddr - seg)); o += b; }
      apply(e.first, e.second);
    }
    return o;
  }
  vector<char> blob0;
  string quiescent_bad() {
    db_memsegment_header *h = im.h();
#if (LOCK_PROTO == TFQUEUE)
    if (h->locks.tail) return "the queue of the lock is not empty though nobody uses it";
    if (dbfetch(DB, h->locks.queue_lock)) return "the lock of the queue stays taken";
    std::set<gint> f;
    for (gint p = h->locks.freelist; p; p = ((lock_queue_node *)offsettoptr(DB, p))->next_cell) {
      if (p < h->locks.storage || p >= h->locks.storage + h->locks.max_nodes * SYN_VAR_PADDING) return "the free list of the lock leaves its storage";
      if (!f.insert(p).second) return "a lock node is free twice";
    }
    if ((gint)f.size() != h->locks.max_nodes) return "a lock node is lost: " + std::to_string(f.size()) + " of " + std::to_string(h->locks.max_nodes) + " are free";
#else
    if (dbfetch(DB, h->locks.global_lock)) return "the lock variable is " + std::to_string(dbfetch(DB, h->locks.global_lock)) + " though nobody uses it";
#if (LOCK_PROTO == WPSPIN)
    if (dbfetch(DB, h->locks.writers)) return "the number of writers is " + std::to_string(dbfetch(DB, h->locks.writers)) + " though nobody uses the lock";
#endif
#endif
    return "";
  }
  bool explore(const vector<string> &sc, int nodes, Ctx &c, const std::function<bool()> &over, bool &capped) {
    nthr = sc.size();
    im.reset();
    DB = im.db;
#if (LOCK_PROTO == TFQUEUE)
    im.h()->locks.max_nodes = nodes;
    wg_init_locks(DB);
    lo2 = qlock = (uintptr_t)offsettoptr(DB, im.h()->locks.queue_lock);
    hi2 = lo2 + SYN_VAR_PADDING * (nodes + 1);
    want_fail = nodes < nthr;
    coarse = nthr > 2;
#else
    lo2 = (uintptr_t)im.h()->locks._storage;
    hi2 = lo2 + sizeof(im.h()->locks._storage);
    want_fail = 0;
#endif
    lo1 = (uintptr_t)&im.h()->locks;
    hi1 = lo1 + sizeof(im.h()->locks);
#if (LOCK_PROTO != TFQUEUE)
    hi1 = lo2;
#endif
    string nm;
    for (int i = 0; i < nthr; i++) {
      script[i] = sc[i];
      nm += (i ? " | " : "") + sc[i];
      memset(&T[i], 0, sizeof(Thr));
      memset(stk[i], 0, STK);
      char *sp = stk[i] + STK - 16;
      *(void **)sp = nullptr;
      sp -= 8;
      *(void **)sp = (void *)body;
      sp -= 48;
      T[i].rsp = sp;
      T[i].kind = 's';
    }
#if (LOCK_PROTO == TFQUEUE)
    nm += " with " + std::to_string(nodes) + " nodes";
#endif
    Trace::set("lock users " + nm);
    // DFS
    struct Fr { vector<char> b; u32 id; };
    vector<Fr> st;
    bad.clear();
    save(blob0);
    ids[hash(blob0)] = 0;
    parent.push_back(0);
    pact.push_back(0);
    st.push_back({blob0, 0});
    vector<char> nb;
    bool stop = false;
    while (!st.empty() && !stop) {
      if ((transitions & 0xfff) == 0 && over()) { capped = true; break; }
      Fr f = std::move(st.back());
      st.pop_back();
      load(f.b);
      bool alldone = true, idle = true;
      for (int i = 0; i < nthr; i++) { alldone &= T[i].st == DONE; }
      if (alldone) {
        terminals++;
        done.push_back(f.id);
        string q = quiescent_bad();
        if (!q.empty()) {
          violation(c, "left " + nm + ": " + q, "after all users (" + nm + ") are done " + q, {nm}, trace(f.id, -1, 0));
          break;
        }
        continue;
      }
      bool first = true;
      for (int t = 0; t < nthr && !stop; t++)
        for (int a = 0; a < 3; a++) {
          if (!first) load(f.b);
          if (!apply(t, a)) { if (a != STEP) load(f.b); continue; }
          first = false;
          transitions++;
          if (restart) { restart = false; return false; }
          if (!bad.empty()) {
            string b = bad;
            bad.clear();
            violation(c, "excl " + nm + ": " + b, b + " (users: " + nm + ")", {nm}, trace(f.id, t, a));
            stop = true;
            break;
          }
          save(nb);
          H h = hash(nb);
          auto it = ids.find(h);
          u32 to;
          if (it == ids.end()) {
            to = parent.size();
            ids[h] = to;
            parent.push_back(f.id);
            pact.push_back(t << 2 | a);
            st.push_back({nb, to});
          } else
            to = it->second;
          if (a == STEP) edges.push_back({f.id, to});
        }
      if (parent.size() > 30000000) { capped = true; break; }
    }
    states = parent.size();
    if (!stop && st.empty()) {
      // every state must be able to reach the end without anybody's patience running out
      u32 n = parent.size();
      vector<u32> off(n + 1, 0), rev(edges.size());
      for (auto &e : edges) off[e.second + 1]++;
      for (u32 i = 0; i < n; i++) off[i + 1] += off[i];
      vector<u32> pos(off.begin(), off.end() - 1);
      for (auto &e : edges) rev[pos[e.second]++] = e.first;
      vector<char> ok(n, 0);
      vector<u32> wk = done;
      for (u32 x : wk) ok[x] = 1;
      while (!wk.empty()) {
        u32 x = wk.back();
        wk.pop_back();
        for (u32 k = off[x]; k < off[x + 1]; k++)
          if (!ok[rev[k]]) { ok[rev[k]] = 1; wk.push_back(rev[k]); }
      }
      // report the state with the shortest history
      u32 best = ~0u;
      int bl = 1 << 30;
      u64 stuck = 0;
      for (u32 i = 0; i < n; i++)
        if (!ok[i]) {
          stuck++;
          int l = 0;
          for (u32 k = i; k && l < bl; k = parent[k]) l++;
          if (l < bl) { bl = l; best = i; }
        }
      if (best != ~0u)
        violation(c, "stuck " + nm, "the users " + nm + " reach a state from which a user waits for ever unless it gives up, though everybody releases (" + std::to_string(stuck) + " such states)", {nm}, trace(best, -1, 0));
    }
    c.add("states", states);
    if (full) c.add("configurations_without_reduction");
    c.add("transitions", transitions);
    c.add("terminal_states", terminals);
    c.add("configurations");
    c.cnt["max:states_of_one_configuration"] = std::max<u64>(c.cnt["max:states_of_one_configuration"], states);
    if (c.samples.size() < 2 && nthr > 1) c.sample(nm + ": " + std::to_string(states) + " states, " + std::to_string(transitions) + " transitions, " + std::to_string(terminals) + " end states");
    return true;
  }
};

void c25(Driver &d) {
  quiet_stderr();
  struct Cfg { vector<string> s; int nodes; };
  vector<Cfg> cf;
  bool q = d.quick();
  auto words = [](int n) {
    vector<string> o = {""};
    for (int i = 0; i < n; i++) {
      vector<string> p;
      for (auto &s : o) for (char ch : {'R', 'W'}) p.push_back(s + ch);
      o = p;
    }
    return o;
  };
  string lim = getenv("GKV_C25") ? getenv("GKV_C25") : "";
  auto addall = [&](vector<int> lens, int nodes) {
    std::function<void(vector<string>)> rec = [&](vector<string> v) {
      if (v.size() == lens.size()) {
        cf.push_back({v, nodes});
        return;
      }
      for (auto &w : words(lens[v.size()])) {
        if (!v.empty() && lens[v.size()] == lens[v.size() - 1] && w < v.back()) continue;  // users are alike
        auto x = v;
        x.push_back(w);
        rec(x);
      }
    };
    rec({});
  };
#if (LOCK_PROTO == TFQUEUE)
  addall({1}, 3); addall({1, 1}, 3); addall({2, 1}, 3); addall({2, 2}, 3); addall({1, 1, 1}, 3); addall({1, 1, 1}, 2); addall({2, 1}, 1);
  if (!q) { addall({2, 1, 1}, 3); addall({3, 2}, 2); addall({2, 1, 1}, 2); addall({1, 1, 1, 1}, 4); addall({2, 2, 1}, 3); }
#else
  addall({1}, 3); addall({1, 1}, 3); addall({2, 1}, 3); addall({2, 2}, 3); addall({1, 1, 1}, 3); addall({2, 1, 1}, 3);
  if (!q) { addall({3, 3}, 3); addall({2, 2, 1}, 3); addall({2, 2, 2}, 3); addall({1, 1, 1, 1}, 4); addall({2, 1, 1, 1}, 4); }
#endif
  std::stable_sort(cf.begin(), cf.end(), [](const Cfg &a, const Cfg &b) {
    size_t x = a.s.size() * 10, y = b.s.size() * 10;
    for (auto &s : a.s) x += s.size();
    for (auto &s : b.s) y += s.size();
    return x < y;
  });
  for (int i = 0; i < MAXT; i++) stk[i] = (char *)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  DbImage im(1000000);
  im.mark();
  d.pfor(cf.size(), [&](u64 i, Ctx &c) {
    double t0 = now_s();
    bool capped = false;
    open_.clear();
    full = restart = false;
    Expl *e;
    for (;;) {
      prot.clear();
      e = new Expl(im);
      if (e->explore(cf[i].s, cf[i].nodes, c, [&] { return d.over(); }, capped)) break;
      c.add("restarts_of_the_reduction");
      delete e;
    }
    if (capped) c.cnt["~capped"] = 1;
    if (getenv("GKV_V")) { FILE *g = fopen(getenv("GKV_V"), "a"); fprintf(g, "%d %s | %s | %s: %llu states %.1f s\n", LOCK_PROTO, cf[i].s[0].c_str(), cf[i].s.size() > 1 ? cf[i].s[1].c_str() : "", cf[i].s.size() > 2 ? cf[i].s[2].c_str() : "", (unsigned long long)e->states, now_s() - t0); fclose(g); }
    delete e;
  }, 1);
  d.cnt["traces_validated_against_impl"] = 0;
  d.texts[string("lock_protocol_") + char('0' + LOCK_PROTO)] = "users with scripts of reads and writes; all interleavings of the accesses to the lock area, time-outs and interruptions at every waiting point";
}
}  // namespace
static CheckReg r25("C25", c25);
