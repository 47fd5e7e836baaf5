/* A small OpenMP runtime on plain pthreads, linked into the ThreadSanitizer
 * build so that the sanitizer sees every synchronisation. Each region gets
 * fresh threads; starts are delayed and reordered at random. */
#include <pthread.h>
#include <stdbool.h>
#include <stdlib.h>
#include <unistd.h>

typedef struct team {
  int n;
  pthread_barrier_t bar;
  pthread_mutex_t mtx;
  long next, end, incr, chunk;
  bool guided, init;
  int single_count, loops_done;
} team_t;

typedef struct {
  team_t *team;
  int id, singles, started;
  void (*fn)(void *);
  void *data;
  unsigned seed;
} self_t;

static __thread self_t *me;
static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER;
static pthread_mutex_t named = PTHREAD_MUTEX_INITIALIZER;
static pthread_mutex_t atom = PTHREAD_MUTEX_INITIALIZER;
static volatile unsigned counter;
long dwv_regions, dwv_team_regions, dwv_threads;

static int delay_us(void) {
  static int d = -1;
  if (d < 0) {
    char const *e = getenv("DWV_DELAY_US");
    d = e ? atoi(e) : 0;
  }
  return d;
}

static void *entry(void *p) {
  self_t *s = (self_t *)p;
  me = s;
  int d = delay_us();
  if (d > 0) usleep(rand_r(&s->seed) % (unsigned)d);
  s->fn(s->data);
  me = NULL;
  return NULL;
}

void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) {
  (void)flags;
  if (n == 0) {
    char const *e = getenv("OMP_NUM_THREADS");
    n = e ? (unsigned)atoi(e) : 1;
    if (n < 1) n = 1;
  }
  __atomic_add_fetch(&dwv_regions, 1, __ATOMIC_RELAXED);
  if (n > 1) __atomic_add_fetch(&dwv_team_regions, 1, __ATOMIC_RELAXED);
  __atomic_add_fetch(&dwv_threads, n, __ATOMIC_RELAXED);
  team_t t = {0};
  t.n = (int)n;
  pthread_barrier_init(&t.bar, NULL, n);
  pthread_mutex_init(&t.mtx, NULL);
  self_t *saved = me;
  self_t *s = calloc(n, sizeof(self_t));
  pthread_t *th = calloc(n, sizeof(pthread_t));
  unsigned base = __atomic_add_fetch(&counter, 7919, __ATOMIC_RELAXED);
  /* the calling thread only waits: its accesses before and after the region
   * are ordered, and every member of the team is a separate thread */
  for (unsigned k = 0; k < n; ++k) {
    unsigned i = (base % 2) ? n - 1 - k : k;
    s[i].team = &t;
    s[i].id = (int)i;
    s[i].fn = fn;
    s[i].data = data;
    s[i].seed = base * 31u + i;
    pthread_create(&th[i], NULL, entry, &s[i]);
  }
  for (unsigned i = 0; i < n; ++i) pthread_join(th[i], NULL);
  me = saved;
  pthread_barrier_destroy(&t.bar);
  pthread_mutex_destroy(&t.mtx);
  free(s);
  free(th);
}

int omp_get_thread_num(void) { return me ? me->id : 0; }
int omp_get_num_threads(void) { return me ? me->team->n : 1; }
int omp_in_parallel(void) { return me && me->team->n > 1; }
int omp_get_max_threads(void) {
  char const *e = getenv("OMP_NUM_THREADS");
  return e ? atoi(e) : 1;
}
int omp_get_num_procs(void) { return omp_get_max_threads(); }

void GOMP_barrier(void) {
  if (me) pthread_barrier_wait(&me->team->bar);
}
void GOMP_critical_start(void) { pthread_mutex_lock(&crit); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&crit); }
void GOMP_critical_name_start(void **p) { (void)p; pthread_mutex_lock(&named); }
void GOMP_critical_name_end(void **p) { (void)p; pthread_mutex_unlock(&named); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&atom); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&atom); }

bool GOMP_single_start(void) {
  if (!me) return true;
  team_t *t = me->team;
  bool first = false;
  pthread_mutex_lock(&t->mtx);
  if (me->singles == t->single_count) {
    t->single_count++;
    first = true;
  }
  me->singles++;
  pthread_mutex_unlock(&t->mtx);
  return first;
}

/* dynamic and guided loops */
static bool next_chunk(long *is, long *ie) {
  team_t *t = me->team;
  bool ok = false;
  pthread_mutex_lock(&t->mtx);
  bool left = t->incr > 0 ? t->next < t->end : t->next > t->end;
  if (left) {
    long c = t->chunk < 1 ? 1 : t->chunk;
    *is = t->next;
    t->next += c * t->incr;
    if (t->incr > 0 ? t->next > t->end : t->next < t->end) t->next = t->end;
    *ie = t->next;
    ok = true;
  }
  pthread_mutex_unlock(&t->mtx);
  return ok;
}
static void loop_init(long s, long e, long i, long c) {
  team_t *t = me->team;
  pthread_mutex_lock(&t->mtx);
  if (!t->init) {
    t->init = true;
    t->next = s;
    t->end = e;
    t->incr = i;
    t->chunk = c;
  }
  pthread_mutex_unlock(&t->mtx);
}
#define START(name)                                                            \
  bool name(long s, long e, long i, long c, long *is, long *ie) {              \
    loop_init(s, e, i, c);                                                     \
    return next_chunk(is, ie);                                                 \
  }
#define NEXT(name) bool name(long *is, long *ie) { return next_chunk(is, ie); }
START(GOMP_loop_dynamic_start)
START(GOMP_loop_guided_start)
START(GOMP_loop_static_start)
START(GOMP_loop_nonmonotonic_dynamic_start)
START(GOMP_loop_nonmonotonic_guided_start)
NEXT(GOMP_loop_dynamic_next)
NEXT(GOMP_loop_guided_next)
NEXT(GOMP_loop_static_next)
NEXT(GOMP_loop_nonmonotonic_dynamic_next)
NEXT(GOMP_loop_nonmonotonic_guided_next)
bool GOMP_loop_runtime_start(long s, long e, long i, long *is, long *ie) {
  loop_init(s, e, i, 1);
  return next_chunk(is, ie);
}
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *is, long *ie) {
  loop_init(s, e, i, 1);
  return next_chunk(is, ie);
}
NEXT(GOMP_loop_runtime_next)
NEXT(GOMP_loop_maybe_nonmonotonic_runtime_next)
void GOMP_loop_end_nowait(void) {}
void GOMP_loop_end(void) {
  GOMP_barrier();
  pthread_mutex_lock(&me->team->mtx);
  me->team->init = false;
  pthread_mutex_unlock(&me->team->mtx);
  GOMP_barrier();
}
struct pl { long s, e, i, c; void (*fn)(void *); void *d; };
static void pl_entry(void *p) {
  struct pl *q = (struct pl *)p;
  loop_init(q->s, q->e, q->i, q->c);
  q->fn(q->d);
}
#define PL(name)                                                               \
  void name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i,   \
            long c, unsigned f) {                                              \
    struct pl q = {s, e, i, c, fn, d};                                         \
    GOMP_parallel(pl_entry, &q, n, f);                                         \
  }
PL(GOMP_parallel_loop_dynamic)
PL(GOMP_parallel_loop_guided)
PL(GOMP_parallel_loop_static)
PL(GOMP_parallel_loop_nonmonotonic_dynamic)
PL(GOMP_parallel_loop_nonmonotonic_guided)
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) {
  struct pl q = {s, e, i, 1, fn, d};
  GOMP_parallel(pl_entry, &q, n, f);
}
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) {
  struct pl q = {s, e, i, 1, fn, d};
  GOMP_parallel(pl_entry, &q, n, f);
}
