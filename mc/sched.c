/* Controlled scheduler for native code compiled with -fsanitize-coverage=trace-loads,trace-stores.
 * An event is a memory access made by a registered thread while it does not hold the GIL. */
#include <errno.h>
#include <semaphore.h>
#include <stddef.h>
#include <stdint.h>
#include <time.h>

extern int PyGILState_Check(void);

static sem_t to_g, to_f, f_done;
static __thread int role;      /* 0: not explored, 1: f, 2: g */
static __thread long armed, n;
static volatile long timeouts;

static void wait_for(sem_t *s, double seconds) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    /* a thread that waits for something the other one holds has to be let go */
    long ns = t.tv_nsec + (long)((timeouts < 3 ? seconds : 0.02) * 1e9);
    t.tv_sec += ns / 1000000000L;
    t.tv_nsec = ns % 1000000000L;
    while (sem_timedwait(s, &t)) {
        if (errno == EINTR) continue;
        __sync_fetch_and_add(&timeouts, 1);
        return;
    }
}

static void tick(void) {
    if (!role || PyGILState_Check()) return;
    if (n++ != armed) return;
    if (role == 1) { sem_post(&to_g); wait_for(&to_f, 2); }
    else { sem_post(&to_f); wait_for(&f_done, 2); }
}

void mc_reset(void) { sem_init(&to_g, 0, 0); sem_init(&to_f, 0, 0); sem_init(&f_done, 0, 0); }
void mc_arm(int r, long at) { role = r; armed = at; n = 0; }
long mc_disarm(void) { role = 0; return n; }
void mc_g_wait(void) { while (sem_wait(&to_g) && errno == EINTR) {} }
void mc_g_end(void) { sem_post(&to_f); }
void mc_f_end(void) { sem_post(&f_done); sem_post(&to_g); }
long mc_timeouts(void) { return timeouts; }

void __sanitizer_cov_trace_pc(void) {}

#define L(k) void __sanitizer_cov_load##k(void *p) { tick(); } void __sanitizer_cov_store##k(void *p) { tick(); }
L(1) L(2) L(4) L(8) L(16)
