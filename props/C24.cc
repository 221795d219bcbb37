// C24: parallel primitives execute every index exactly once.
// pbt-build: flavor=tsan
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <mutex>
#include <thread>

#include "ceres/concurrent_queue.h"
#include "ceres/context_impl.h"
#include "ceres/covariance.h"
#include "ceres/eigen_vector_ops.h"
#include "ceres/parallel_for.h"
#include "ceres/parallel_utils.h"
#include "ceres/parallel_vector_ops.h"
#include "ceres/partition_range_for_parallel_for.h"
#include "ceres/thread_pool.h"
#include "ceres/thread_token_provider.h"
#include "problem_gen.h"

using namespace ceres;
using namespace ceres::internal;

// Delays derived from the case, so that schedules vary.
struct Jitter {
  uint64_t seed = 0;
  int level = 0;
  void At(uint64_t what) const {
    if (level == 0) return;
    uint64_t h = (seed ^ (what * 0x9e3779b97f4a7c15ull));
    h ^= h >> 31; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 27;
    switch (h % 16) {
      case 0: case 1: case 2: std::this_thread::yield(); break;
      case 3: if (level > 1) std::this_thread::sleep_for(std::chrono::microseconds(h / 16 % 60)); break;
      case 4: { volatile int x = 0; for (int i = 0; i < (int)(h / 16 % 2000); ++i) x = x + 1; break; }
      default: break;
    }
  }
};
static Jitter GenJitter(pbt::Case& c) {
  Jitter j;
  j.level = c.pick({1, 2, 0});
  j.seed = c.draw(1 << 20);
  return j;
}

// What a parallel loop did.
struct Trace {
  int start, end, threads, min_block = 1;
  int margin = 3;
  std::vector<int> hits;                     // plain ints: unsynchronised access is a race
  std::vector<std::atomic<int>> used;        // thread ids in use
  std::vector<int> scratch;                  // per thread id, plain: sharing an id is a race
  std::atomic<int> live{0}, peak{0}, bad_id{0}, shared_id{0}, outside{0}, bad_block{0}, late{0};
  std::atomic<bool> closed{false};
  Jitter jitter;
  Trace(int s, int e, int t) : start(s), end(e), threads(t), hits(std::max(0, e - s), 0), used(t), scratch(t, 0) {}
  void Enter(int tid, bool has_tid) {
    if (closed) ++late;
    const int l = ++live;
    int p = peak;
    while (l > p && !peak.compare_exchange_weak(p, l)) {}
    if (has_tid) {
      if (tid < 0 || tid >= threads) { ++bad_id; return; }
      if (used[tid].exchange(1)) ++shared_id;
      ++scratch[tid];
    }
  }
  void Leave(int tid, bool has_tid) {
    if (has_tid && tid >= 0 && tid < threads) used[tid] = 0;
    --live;
  }
  void Hit(int i) {
    if (i < start || i >= end) { ++outside; return; }
    ++hits[i - start];
  }
  void Block(int a, int b) {
    if (a >= b) ++bad_block;
    if (b - a < std::min(min_block, end - start)) ++bad_block;
    for (int i = a; i < b; ++i) Hit(i);
  }
  void Check(pbt::Case& c, const char* what) {
    REQUIRE("running_after_return", live == 0, what, " ", live.load());
    for (int i = start; i < end; ++i) REQUIRE("executions", hits[i - start] == 1, what, " index ", i, " of [", start, ", ", end, ") ran ", hits[i - start], " times");
    REQUIRE("outside_range", outside == 0, what);
    REQUIRE("thread_id_range", bad_id == 0, what);
    REQUIRE("thread_id_shared", shared_id == 0, what);
    REQUIRE("block_size", bad_block == 0, what);
    REQUIRE("too_many_threads", peak <= threads, what, " ", peak.load(), " of ", threads);
    closed = true;
  }
};

struct LoopSpec {
  int start, size, threads, min_block = 1, variant = 0, schedule = 0;
  std::vector<int> partitions, cumulative;
  int inner_every = 0;
  LoopSpec* inner = nullptr;
  std::string Str() const {
    static const char* v[] = {"(i)", "(id,i)", "(range)", "(id,range)"};
    static const char* s[] = {"", " partitions", " costs"};
    return pbt::Str("[", start, ",", start + size, ") threads ", threads, " min_block ", min_block, " ", v[variant], s[schedule],
                    inner_every ? pbt::Str(" {every ", inner_every, ": ", inner->Str(), "}") : "");
  }
};

static LoopSpec GenLoop(pbt::Case& c, int max_size) {
  LoopSpec l;
  l.start = c.pick({0, 0, 1, 7, 1000});
  l.size = c.pick({c.size(0, max_size), c.range(0, 12), c.range(0, max_size)});
  l.threads = c.pick({2, 4, 3, 8, 1, 5});
  l.variant = c.range(0, 3);
  l.schedule = c.pick({0, 0, 1, 2});
  if (l.schedule == 0 && c.coin()) l.min_block = c.pick({2, 1, 5, 20, 100000});
  if (l.schedule == 1) {
    l.partitions.push_back(l.start);
    for (int i = l.start + 1; i < l.start + l.size; ++i) if (c.chance(1, 4)) l.partitions.push_back(i);
    if (l.size > 0) l.partitions.push_back(l.start + l.size);
  }
  if (l.schedule == 2) {
    const int kind = c.range(0, 3);
    int sum = 0;
    for (int i = 0; i < l.start + l.size; ++i) {
      sum += kind == 0 ? 1 : kind == 1 ? c.range(0, 3) : kind == 2 ? (i % 7 == 0 ? 50 : 0) : i;
      l.cumulative.push_back(sum);
    }
  }
  return l;
}

static void RunLoop(ContextImpl* ctx, const LoopSpec& l, Trace* t, std::vector<std::unique_ptr<Trace>>* inner_traces, const std::function<void(int)>& inner) {
  auto indices = [&](int a, int b) { if (inner) for (int i = a; i < b; ++i) inner(i); };
  auto by_index = [&](int i) { t->Enter(0, false); t->jitter.At(i); t->Hit(i); indices(i, i + 1); t->Leave(0, false); };
  auto by_id_index = [&](int id, int i) { t->Enter(id, true); t->jitter.At(i); t->Hit(i); indices(i, i + 1); t->Leave(id, true); };
  auto by_range = [&](std::tuple<int, int> r) { t->Enter(0, false); t->jitter.At(std::get<0>(r)); t->Block(std::get<0>(r), std::get<1>(r)); indices(std::get<0>(r), std::get<1>(r)); t->Leave(0, false); };
  auto by_id_range = [&](int id, std::tuple<int, int> r) { t->Enter(id, true); t->jitter.At(std::get<0>(r)); t->Block(std::get<0>(r), std::get<1>(r)); indices(std::get<0>(r), std::get<1>(r)); t->Leave(id, true); };
  (void)inner_traces;
  auto go = [&](auto& f) {
    if (l.schedule == 0) ParallelFor(ctx, l.start, l.start + l.size, l.threads, f, l.min_block);
    else if (l.schedule == 1) ParallelFor(ctx, l.start, l.start + l.size, l.threads, f, l.partitions);
    else ParallelFor(ctx, l.start, l.start + l.size, l.threads, f, l.cumulative.data(), [](int v) { return v; });
  };
  switch (l.variant) {
    case 0: go(by_index); break;
    case 1: go(by_id_index); break;
    case 2: go(by_range); break;
    case 3: go(by_id_range); break;
  }
}

static ContextImpl* PooledContext(pbt::Case& c, std::unique_ptr<ContextImpl>* own) {
  // A context whose pool has been in use, or a new one with any number of threads.
  static ContextImpl* shared = [] { auto* x = new ContextImpl; x->EnsureMinimumThreads(4); return x; }();
  if (!c.chance(1, 4)) return shared;
  own->reset(new ContextImpl);
  (*own)->EnsureMinimumThreads(c.pick({1, 2, 3, 6, 0}));
  return own->get();
}

PBT_SCHEDULE_PROP(parallel_for, 12000, 400000) {
  std::unique_ptr<ContextImpl> own;
  LoopSpec l = GenLoop(c, 200), in;
  const bool nested = c.chance(1, 3);
  if (nested) {
    in = GenLoop(c, 40);
    l.inner = &in;
    l.inner_every = c.pick({1, 2, 5});
  }
  const Jitter j = GenJitter(c);
  ContextImpl* ctx = PooledContext(c, &own);
  c.note() << l.Str() << " pool " << ctx->thread_pool.Size() << " jitter " << j.level;
  Trace t(l.start, l.start + l.size, l.threads);
  t.jitter = j;
  t.min_block = l.schedule == 0 ? l.min_block : 1;
  std::mutex m;
  std::vector<std::unique_ptr<Trace>> inner;
  std::function<void(int)> body;
  if (nested)
    body = [&](int i) {
      if (i % l.inner_every) return;
      auto it = std::make_unique<Trace>(in.start, in.start + in.size, in.threads);
      it->jitter = j;
      it->min_block = in.schedule == 0 ? in.min_block : 1;
      RunLoop(ctx, in, it.get(), nullptr, nullptr);
      std::lock_guard<std::mutex> g(m);
      inner.push_back(std::move(it));
    };
  RunLoop(ctx, l, &t, nullptr, body);
  t.Check(c, "outer");
  for (auto& k : inner) k->Check(c, "inner");
  if (nested) {
    size_t want = 0;
    for (int i = l.start; i < l.start + l.size; ++i) want += i % l.inner_every == 0;
    REQUIRE("inner_loops", inner.size() == want, inner.size(), " ", want);
  }
  own.reset();
  REQUIRE("ran_after_return", t.late == 0, t.late.load());
  for (auto& k : inner) REQUIRE("ran_after_return", k->late == 0, "inner ", k->late.load());
  c.label(pbt::Str("peak concurrency ", std::min(4, t.peak.load())));
  if (nested) c.label("nested");
  c.nontrivial(t.peak > 1 || (nested && l.size > 1));
}

// Several threads use the same pool.
PBT_SCHEDULE_PROP(concurrent_loops, 1500, 60000) {
  std::unique_ptr<ContextImpl> own;
  const int n = c.range(2, 4);
  std::vector<LoopSpec> specs;
  for (int i = 0; i < n; ++i) specs.push_back(GenLoop(c, 100));
  const Jitter j = GenJitter(c);
  ContextImpl* ctx = PooledContext(c, &own);
  for (auto& s : specs) c.note() << s.Str() << "; ";
  std::vector<std::unique_ptr<Trace>> traces;
  for (auto& s : specs) {
    traces.push_back(std::make_unique<Trace>(s.start, s.start + s.size, s.threads));
    traces.back()->jitter = j;
    traces.back()->min_block = s.schedule == 0 ? s.min_block : 1;
  }
  const int repeat = c.range(1, 3);
  (void)repeat;
  std::vector<std::thread> th;
  for (int i = 0; i < n; ++i) th.emplace_back([&, i] { j.At(i); RunLoop(ctx, specs[i], traces[i].get(), nullptr, nullptr); });
  for (auto& t : th) t.join();
  int peak = 0;
  for (auto& t : traces) { t->Check(c, "concurrent"); peak = std::max(peak, t->peak.load()); }
  own.reset();
  for (auto& t : traces) REQUIRE("ran_after_return", t->late == 0, "");
  c.nontrivial(peak > 1);
}

PBT_PROP(partition, 60000, 2000000) {
  const int start = c.pick({0, 0, 1, 5}), n = c.size(1, 40), parts = c.range(1, 12);
  std::vector<int> cum;
  int s = 0;
  const int kind = c.range(0, 3);
  for (int i = 0; i < start + n; ++i) {
    s += kind == 0 ? 1 : kind == 1 ? c.range(0, 5) : kind == 2 ? (c.chance(1, 5) ? c.range(1, 100) : 0) : c.range(0, 1000000 / (n + start));
    cum.push_back(s);
  }
  c.note() << "[" << start << "," << start + n << ") parts " << parts << " kind " << kind << " total " << s;
  const std::vector<int> p = PartitionRangeForParallelFor(start, start + n, parts, cum.data(), [](int v) { return v; });
  REQUIRE("ends", p.size() >= 2 && p.front() == start && p.back() == start + n, p.size());
  REQUIRE("too_many", (int)p.size() - 1 <= parts, p.size() - 1);
  auto cost = [&](int a, int b) { return cum[b - 1] - (a ? cum[a - 1] : 0); };
  int worst = 0;
  for (size_t i = 1; i < p.size(); ++i) {
    REQUIRE("not_increasing", p[i] > p[i - 1], i);
    worst = std::max(worst, cost(p[i - 1], p[i]));
  }
  // The least possible largest cost, by dynamic programming.
  std::vector<int> best(n + 1, 1 << 30);
  best[0] = 0;
  for (int k = 0; k < parts; ++k) {
    std::vector<int> next(best);
    for (int e = 1; e <= n; ++e)
      for (int b = 0; b < e; ++b) if (best[b] < (1 << 30)) next[e] = std::min(next[e], std::max(best[b], cost(start + b, start + e)));
    best = next;
  }
  REQUIRE("not_optimal", worst == best[n], "largest cost ", worst, ", possible ", best[n]);
  c.nontrivial(p.size() > 2);
}

// ---- the queue, against a deque ---------------------------------------------------
PBT_PROP(queue_model, 20000, 600000) {
  ConcurrentQueue<int> q;
  std::deque<int> m;
  bool waiting = true;
  int next = 0, pops = 0;
  for (int k = c.size(1, 60); k > 0; --k) {
    int v = -7;
    switch (c.range(0, 4)) {
      case 0: case 1: q.Push(next); m.push_back(next++); c.note() << "+"; break;
      case 2: {
        const bool ok = q.Pop(&v);
        c.note() << "-";
        REQUIRE("pop", ok == !m.empty(), ok);
        if (ok) { REQUIRE("order", v == m.front(), v, " expected ", m.front()); m.pop_front(); ++pops; }
        else REQUIRE("value_touched", v == -7, v);
        break;
      }
      case 3:
        if (m.empty() && waiting) break;  // would block
        c.note() << "w";
        {
          const bool ok = q.Wait(&v);
          REQUIRE("wait", ok == !m.empty(), ok);
          if (ok) { REQUIRE("order", v == m.front(), v, " expected ", m.front()); m.pop_front(); ++pops; }
        }
        break;
      case 4:
        if (c.coin()) { q.StopWaiters(); waiting = false; c.note() << "s"; }
        else { q.EnableWaiters(); waiting = true; c.note() << "e"; }
        break;
    }
  }
  c.nontrivial(pops > 1);
}

PBT_SCHEDULE_PROP(queue_stress, 3000, 100000) {
  ConcurrentQueue<int> q;
  const int producers = c.range(1, 4), consumers = c.range(1, 4), each = c.size(1, 80);
  const bool pop = c.chance(1, 4);
  const Jitter j = GenJitter(c);
  const int stop = c.range(0, 2);  // stop after the producers, in the middle, or before anything
  c.note() << producers << " producers x " << each << ", " << consumers << (pop ? " polling" : " waiting") << " consumers, jitter " << j.level << " stop " << stop;
  std::vector<std::vector<int>> got(consumers);
  std::atomic<int> active{producers};
  std::vector<std::thread> th;
  for (int i = 0; i < consumers; ++i)
    th.emplace_back([&, i] {
      int v;
      while (true) {
        if (pop) {
          const bool done = active == 0;
          if (q.Pop(&v)) got[i].push_back(v);
          else if (done) break;
          else std::this_thread::yield();
        } else {
          if (!q.Wait(&v)) break;
          got[i].push_back(v);
        }
        j.At(1000 + v);
      }
    });
  if (!pop && stop == 2) q.StopWaiters();
  std::vector<std::thread> ph;
  for (int p = 0; p < producers; ++p)
    ph.emplace_back([&, p] {
      for (int k = 0; k < each; ++k) {
        q.Push(p * 10000 + k);
        j.At(p * 10000 + k);
        if (!pop && stop == 1 && p == 0 && k == each / 2) q.StopWaiters();
      }
      --active;
    });
  for (auto& t : ph) t.join();
  q.StopWaiters();
  for (auto& t : th) t.join();  // all waiters wake up
  // Stopped consumers may have left items behind.
  std::vector<int> rest;
  int v;
  while (q.Pop(&v)) rest.push_back(v);
  REQUIRE("left_behind", rest.empty() || (!pop && stop > 0), rest.size());
  std::vector<int> count(producers * each, 0);
  got.push_back(rest);
  int busy = 0;
  for (auto& g : got) {
    std::vector<int> last(producers, -1);
    for (int x : g) {
      const int p = x / 10000, k = x % 10000;
      REQUIRE("unknown_item", p >= 0 && p < producers && k < each, x);
      REQUIRE("reordered", k > last[p], "producer ", p, ": ", k, " after ", last[p]);
      last[p] = k;
      ++count[p * each + k];
    }
    busy += !g.empty();
  }
  for (size_t i = 0; i < count.size(); ++i) REQUIRE("delivered", count[i] == 1, "item ", i, " delivered ", count[i], " times");
  c.label(pbt::Str(busy, " consumers got items"));
  c.nontrivial(busy > 1 || producers > 1);
}

// ---- the pool ----------------------------------------------------------------------
PBT_SCHEDULE_PROP(pool, 3000, 100000) {
  const int initial = c.range(0, 4), tasks = c.size(0, 80), submitters = c.range(1, 3);
  const bool respawn = c.chance(1, 3);
  const Jitter j = GenJitter(c);
  std::vector<int> resizes;
  for (int k = c.range(0, 4); k > 0; --k) resizes.push_back(c.range(0, 10));
  const bool late_resize = initial == 0 && resizes.empty();
  c.note() << "threads " << initial << " tasks " << submitters << "x" << tasks << (respawn ? " respawning" : "") << " resizes";
  for (int r : resizes) c.note() << " " << r;
  c.note() << " jitter " << j.level;
  std::vector<std::atomic<int>> runs(2 * submitters * tasks + 1);
  std::vector<int> plain(2 * submitters * tasks + 1, 0);  // written by the tasks, read after the end
  std::atomic<int> peak{0}, live{0}, total{0};
  int size = 0;
  const int cap = ThreadPool::MaxNumThreadsAvailable();
  {
    std::unique_ptr<ThreadPool> pool(c.coin() ? new ThreadPool(initial) : new ThreadPool());
    if (pool->Size() != std::min(initial, cap)) { REQUIRE("initial_size", pool->Size() == 0, pool->Size()); pool->Resize(initial); }
    REQUIRE("size", pool->Size() == std::min(initial, cap), pool->Size(), " of ", initial);
    size = pool->Size();
    ThreadPool* p = pool.get();
    auto run = [&](int id) {
      const int l = ++live;
      int pk = peak;
      while (l > pk && !peak.compare_exchange_weak(pk, l)) {}
      j.At(id);
      ++runs[id];
      plain[id] = id;
      --live;
      ++total;
    };
    std::vector<std::thread> th;
    for (int s = 0; s < submitters; ++s)
      th.emplace_back([&, s] {
        for (int k = 0; k < tasks; ++k) {
          const int id = s * tasks + k;
          p->AddTask([&, id, p] {
            run(id);
            if (respawn && id % 3 == 0) p->AddTask([&, id] { run(submitters * tasks + id); });
          });
          j.At(id + 7);
        }
      });
    int max_size = initial;
    for (int r : resizes) {
      const int before = p->Size();
      p->Resize(r);
      max_size = std::max(max_size, r);
      REQUIRE("resize", p->Size() == std::max(before, std::min(r, cap)), before, " to ", r, ": ", p->Size());
    }
    size = std::min(std::max(max_size, initial), cap);
    for (auto& t : th) t.join();
    if (late_resize || size == 0) { p->Resize(1); size = 1; }
    if (respawn) {  // everything must have been submitted before the pool stops
      int want = 0;
      for (int i = 0; i < submitters * tasks; ++i) want += 1 + (i % 3 == 0);
      for (int spin = 0; total < want && spin < 200000; ++spin) std::this_thread::sleep_for(std::chrono::microseconds(100));
    }
    pool.reset();  // runs what is left
  }
  for (int i = 0; i < submitters * tasks; ++i) {
    REQUIRE("runs", runs[i] == 1, "task ", i, " ran ", runs[i].load(), " times");
    REQUIRE("effects_visible", plain[i] == i, i);
    if (respawn) REQUIRE("runs", runs[submitters * tasks + i] == (i % 3 == 0), "second task ", i, " ran ", runs[submitters * tasks + i].load(), " times");
  }
  REQUIRE("too_many_threads", peak <= std::max(size, 1), peak.load(), " of ", size);
  c.label(pbt::Str("peak ", std::min(4, peak.load())));
  c.nontrivial(peak > 1);
}

PBT_SCHEDULE_PROP(tokens, 2000, 60000) {
  const int n = c.range(1, 5), users = c.range(1, 6), each = c.size(1, 40);
  const Jitter j = GenJitter(c);
  c.note() << n << " tokens, " << users << " threads x " << each;
  ThreadTokenProvider tp(n);
  std::vector<std::atomic<int>> used(n);
  std::vector<int> plain(n, 0);
  std::atomic<int> bad{0}, shared{0}, busy{0}, peak{0};
  std::vector<std::thread> th;
  for (int u = 0; u < users; ++u)
    th.emplace_back([&, u] {
      for (int k = 0; k < each; ++k) {
        const int id = tp.Acquire();
        if (id < 0 || id >= n) { ++bad; tp.Release(id); continue; }
        if (used[id].exchange(1)) ++shared;
        const int l = ++busy;
        int p = peak;
        while (l > p && !peak.compare_exchange_weak(p, l)) {}
        ++plain[id];
        j.At(u * 1000 + k);
        --busy;
        used[id] = 0;
        tp.Release(id);
      }
    });
  for (auto& t : th) t.join();
  REQUIRE("token_range", bad == 0, bad.load());
  REQUIRE("token_shared", shared == 0, shared.load());
  int sum = 0;
  for (int p : plain) sum += p;
  REQUIRE("acquisitions", sum == users * each, sum);
  std::vector<int> seen(n, 0);
  for (int i = 0; i < n; ++i) { const int id = tp.Acquire(); REQUIRE("token_lost", id >= 0 && id < n && !seen[id]++, id); }
  c.nontrivial(peak > 1);
}

PBT_PROP(triangle, 200, 3000) {
  const int n = c.range(1, c.thorough_ ? 1500 : 300);
  c.note() << "n " << n;
  std::vector<char> seen((size_t)n * n, 0);
  for (int k = 0; k < n * (n + 1) / 2; ++k) {
    int i = -1, j = -1;
    LinearIndexToUpperTriangularIndex(k, n, &i, &j);
    REQUIRE("range", 0 <= i && i <= j && j < n, k, " -> ", i, " ", j);
    REQUIRE("repeated", !seen[(size_t)i * n + j]++, k, " -> ", i, " ", j);
  }
  c.nontrivial(n > 2);
}

// ---- vector operations above the threshold for parallel execution ----------------------
PBT_SCHEDULE_PROP(vector_ops, 60, 2000) {
  const int block = kMinBlockSizeParallelVectorOps;
  const int n = c.pick({c.range(0, 40), 2 * block + c.range(-3, 3), 3 * block + c.range(-2, 5), 5 * block + c.range(0, 1000), block});
  const int threads = c.range(1, 6);
  static ContextImpl* ctx = [] { auto* x = new ContextImpl; x->EnsureMinimumThreads(6); return x; }();
  c.note() << "n " << n << " threads " << threads;
  const double a = c.sym(2.0), b = c.sym(2.0);
  uint64_t s = c.draw(1 << 30);
  Vector x(n), y(n), z = Vector::Constant(n, 5.0), w(n);
  for (int i = 0; i < n; ++i) { s = s * 6364136223846793005ull + 1442695040888963407ull; x[i] = (double)(int64_t)s / 9.3e18; y[i] = (double)(int32_t)(s >> 20) / 2.1e9; }
  Axpby(a, x, b, y, z, ctx, threads);
  Copy(x, w, ctx, threads);
  long double norm = 0, dot = 0, mag = 0;
  for (int i = 0; i < n; ++i) {
    REQUIRE("axpby", std::fabs(z[i] - (a * x[i] + b * y[i])) <= 1e-14, i, " ", z[i]);
    REQUIRE("copy", w[i] == x[i], i);
    norm += (long double)x[i] * x[i];
    dot += (long double)x[i] * y[i];
    mag += fabsl((long double)x[i] * y[i]);
  }
  const double gn = Norm(x, ctx, threads), gd = Dot(x, y, ctx, threads);
  REQUIRE("norm", std::fabs(gn - (double)sqrtl(norm)) <= 1e-12 * (1 + gn), gn, " ", (double)sqrtl(norm));
  REQUIRE("dot", std::fabs(gd - (double)dot) <= 1e-12 * (1 + (double)mag), gd, " ", (double)dot);
  SetZero(w, ctx, threads);
  ParallelSetZero(ctx, threads, z.data(), n);
  for (int i = 0; i < n; ++i) REQUIRE("set_zero", w[i] == 0 && z[i] == 0, i);
  c.nontrivial(threads > 1 && n >= 2 * block);
}

// ---- whole solves, evaluations and covariances, watched for data races -------------------
PBT_SCHEDULE_PROP(races, 700, 30000) {
  pg::GenOptions go;
  go.max_res = 24;
  go.max_blocks = 10;
  go.bounds = c.chance(1, 4);
  go.full_rank = c.chance(1, 3);
  if (c.coin()) go.bipartite = 1;
  pg::Spec spec = pg::Gen(c, go);
  pg::ConfigOptions co;
  pg::Config cfg = pg::GenConfig(c, spec, co);
  pg::BuildOptions bo;
  pg::Instance in(spec, bo);
  const int threads = c.range(2, 4), what = c.pick({0, 0, 1, 2});
  c.note() << "threads " << threads << " ";
  if (what == 0) {
    Solver::Options o = cfg.Make(in);
    o.num_threads = threads;
    o.max_num_iterations = std::min(o.max_num_iterations, 8);
    c.note() << "solve " << LinearSolverTypeToString(o.linear_solver_type) << " " << spec.Str();
    Solver::Summary s;
    Solve(o, in.problem.get(), &s);
    c.label(LinearSolverTypeToString(s.linear_solver_type_used));
    c.nontrivial(s.num_threads_used > 1 && s.iterations.size() > 1);
  } else if (what == 1) {
    Problem::EvaluateOptions o;
    o.num_threads = threads;
    o.apply_loss_function = c.coin();
    c.note() << "evaluate " << spec.Str();
    double cost;
    std::vector<double> r, g;
    CRSMatrix j;
    in.problem->Evaluate(o, &cost, c.coin() ? &r : nullptr, c.coin() ? &g : nullptr, c.coin() ? &j : nullptr);
    c.label("evaluate");
    c.nontrivial(spec.res.size() > 4);
  } else {
    Covariance::Options o;
    o.num_threads = threads;
    o.algorithm_type = c.coin() ? SPARSE_QR : DENSE_SVD;
    o.null_space_rank = o.algorithm_type == DENSE_SVD ? -1 : 0;
    c.note() << "covariance " << spec.Str();
    Covariance cov(o);
    std::vector<const double*> blocks;
    for (size_t i = 0; i < spec.blocks.size(); ++i) if (in.problem->HasParameterBlock(in.x[i].get())) blocks.push_back(in.x[i].get());
    cov.Compute(blocks, in.problem.get());
    c.label("covariance");
    c.nontrivial(blocks.size() > 1);
  }
}

PBT_MAIN("C24", "bodies, tasks or threads really overlapped (or, for models, more than one element was involved)")
