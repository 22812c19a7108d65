// Self tests of the model checker.
#include "mc.h"
#include <pthread.h>
#include <unistd.h>
static int plainctr; static volatile int vctr; static pthread_mutex_t m; static pthread_cond_t c; static bool ready;
static void *inc_plain(void *) { plainctr++; return 0; }
static void *inc_vol(void *) { vctr = vctr + 1; return 0; }
static void *inc_lock(void *) { pthread_mutex_lock(&m); plainctr++; pthread_mutex_unlock(&m); return 0; }
static void *inc_at(void *) { __sync_add_and_fetch(&plainctr, 1); return 0; }
static void run(void *(*f)(void *)) { pthread_t a, b; pthread_mutex_init(&m, 0); pthread_create(&a, 0, f, 0); pthread_create(&b, 0, f, 0); pthread_join(a, 0); pthread_join(b, 0); }
MC_SCENARIO(self_plain) { run(inc_plain); MC_CHECK(plainctr == 2, "lost update %d", plainctr); }
MC_SCENARIO(self_vol) { run(inc_vol); MC_CHECK(vctr == 2, "lost update %d", vctr); }
MC_SCENARIO(self_lock) { run(inc_lock); mc::outcome(std::to_string(plainctr)); MC_CHECK(plainctr == 2, "lost update %d", plainctr); }
MC_SCENARIO(self_atomic) { run(inc_at); MC_CHECK(plainctr == 2, "lost update %d", plainctr); }
static void *wait_bad(void *) { pthread_mutex_lock(&m); pthread_cond_wait(&c, &m); pthread_mutex_unlock(&m); return 0; }
static void *wait_good(void *) { pthread_mutex_lock(&m); while (!ready) pthread_cond_wait(&c, &m); pthread_mutex_unlock(&m); return 0; }
static void cv(void *(*f)(void *)) { pthread_t a; pthread_mutex_init(&m, 0); pthread_cond_init(&c, 0); pthread_create(&a, 0, f, 0); pthread_mutex_lock(&m); ready = true; pthread_cond_signal(&c); pthread_mutex_unlock(&m); pthread_join(a, 0); }
MC_SCENARIO(self_cv_bad) { cv(wait_bad); }
MC_SCENARIO(self_cv_good) { cv(wait_good); }
static int *hp; static void *user(void *) { hp[1] = 3; return 0; }
MC_SCENARIO(self_uaf) { hp = new int[4]; pthread_t a; pthread_create(&a, 0, user, 0); delete[] hp; pthread_join(a, 0); }
MC_SCENARIO(self_oob) { hp = new int[1]; pthread_t a; pthread_create(&a, 0, user, 0); pthread_join(a, 0); }
static volatile bool fl; static void *poll(void *) { while (!fl) usleep(100); return 0; }
MC_SCENARIO(self_live_bad) { pthread_t a; pthread_create(&a, 0, poll, 0); pthread_join(a, 0); }
MC_SCENARIO(self_live_good) { pthread_t a; pthread_create(&a, 0, poll, 0); usleep(1000); fl = true; pthread_join(a, 0); }
// three writers/readers over several variables: cache on and off must agree
static volatile int X[3]; static int seen[3];
static void *rot(void *p) { int i = (int)(long)p; for (int k = 0; k < 2; k++) { int v = X[i]; X[(i + 1) % 3] = v + 1; } seen[i] = X[i]; return 0; }
MC_SCENARIO(self_rot) { pthread_t t[3]; for (long i = 0; i < 3; i++) pthread_create(&t[i], 0, rot, (void *)i); for (int i = 0; i < 3; i++) pthread_join(t[i], 0);
	char b[99]; snprintf(b, 99, "%d%d%d %d%d%d", X[0], X[1], X[2], seen[0], seen[1], seen[2]); mc::outcome(b); mc::note("%s", b); }
