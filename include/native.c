/*
	Native side of the harnesses: replays the verifier's counterexample on the real
	code, or searches for a failing input with a seeded generator.

	usage: prog replay FILE | prog search SEED SECONDS SAVE
	exit: 0 nothing failed, 3 a check failed, 4 hang, anything else: crash/sanitizer
*/
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "verif.h"
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <stdarg.h>

struct loc_ctx;
int loc_new(struct loc_ctx** ctx);
void loc_set_log_priority(struct loc_ctx* ctx, int priority);
void loc_set_log_callback(struct loc_ctx* ctx, void (*cb)(struct loc_ctx*, void*, int, const char*, int, const char*, const char*, va_list), void* data);
extern void HARNESS(void);

#define MAXIN 65536
static struct { char name[48]; uint64_t value; int used; } in[MAXIN], out[MAXIN];
static unsigned int nin, nout;
static int replaying;
static uint64_t rng = 88172645463325252ull;
static jmp_buf env;
static const char* save;
static unsigned long reached, runs;

static uint64_t rnd(void) {
	rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
	return rng * 2685821657736338717ull;
}

static void record(const char* name, uint64_t value) {
	if (nout < MAXIN) {
		snprintf(out[nout].name, sizeof(out[nout].name), "%s", name);
		out[nout++].value = value;
	}
}

static int lookup(const char* name, uint64_t* value) {
	for (unsigned int i = 0; i < nin; i++) {
		if (!in[i].used && strcmp(in[i].name, name) == 0) {
			in[i].used = 1;
			*value = in[i].value;
			return 1;
		}
	}
	return 0;
}

static void dump(void) {
	FILE* f = save ? fopen(save, "w") : NULL;
	if (!f)
		return;
	for (unsigned int i = 0; i < nout; i++)
		fprintf(f, "%s 0x%llx\n", out[i].name, (unsigned long long)out[i].value);
	fclose(f);
}

/* Values that have been handed out recently, to make inputs that are related */
static uint64_t pool[64];
static unsigned int npool;

static uint64_t generate(unsigned int bits) {
	uint64_t max = bits >= 64 ? ~0ull : (1ull << bits) - 1;
	uint64_t v;
	switch (rnd() % 10) {
		case 0: v = 0; break;
		case 1: v = 1; break;
		case 2: v = max; break;
		case 3: v = rnd() % 8; break;
		case 4: v = 1ull << (rnd() % bits); break;
		case 5: v = ~(1ull << (rnd() % bits)); break;
		case 6: case 7: v = npool ? pool[rnd() % npool] + (rnd() % 3) - 1 : rnd(); break;
		default: v = rnd(); break;
	}
	v &= max;
	if (npool < 64)
		pool[npool++] = v;
	return v;
}

uint64_t vin(const char* name, unsigned int bits) {
	uint64_t v;
	if (!replaying)
		v = generate(bits);
	else if (!lookup(name, &v))
		v = 0;
	record(name, v);
	return v;
}

uint64_t vin_range(const char* name, uint64_t lo, uint64_t hi) {
	uint64_t v;
	if (!replaying)
		v = lo + rnd() % (hi - lo + 1);
	else if (!lookup(name, &v))
		v = lo;
	record(name, v);
	return v;
}

uint64_t vin_prefix(const char* name) {
	static const uint8_t some[] = { 0, 1, 2, 8, 16, 24, 30, 31, 32, 33, 64, 80, 95, 96, 97, 104, 120, 126, 127, 128, 129 };
	uint64_t v;
	if (!replaying) {
		switch (rnd() % 4) {
			case 0: v = some[rnd() % sizeof(some)]; break;
			case 1: v = rnd() % 130; break;
			default: v = rnd() % 33; break;
		}
	} else if (!lookup(name, &v))
		v = 0;
	record(name, v);
	return v;
}

static u128 apool[16];
static unsigned int napool;
static int amode;

void vin_addr(const char* hi_name, const char* lo_name, uint64_t* hi, uint64_t* lo) {
	if (!replaying) {
		u128 v;
		unsigned int what = rnd() % 12;
		if (napool && what < 5) {
			v = apool[rnd() % napool];
			switch (rnd() % 6) {
				case 0: break;
				case 1: v ^= (u128)1 << (rnd() % (v_is4(v) ? 32 : 128)); break;
				case 2: v += 1; break;
				case 3: v -= 1; break;
				case 4: v |= (((u128)1 << (rnd() % (v_is4(v) ? 33 : 127))) - 1); break;
				case 5: v &= ~(((u128)1 << (rnd() % (v_is4(v) ? 33 : 127))) - 1); break;
			}
		} else if (amode == 1 || (amode == 0 && what < 9)) {
			uint32_t v4 = rnd();
			switch (rnd() % 5) {
				case 0: v4 = 0; break;
				case 1: v4 = 0xffffffff; break;
				case 2: v4 &= 0xff000000; break;
				case 3: v4 &= 0xffffff00; break;
			}
			v = V_FIRST4 | v4;
		} else {
			v = ((u128)rnd() << 64) | rnd();
			switch (rnd() % 7) {
				case 0: v = 0; break;
				case 1: v = V_ONES; break;
				case 2: v &= v_mask(rnd() % 129); break;
				case 3: v &= ~v_mask(rnd() % 129); break;
				case 4: v = (u128)1 << (rnd() % 128); break;
				case 5: v = ((u128)0xff00 << 32) + (rnd() % 3 - 1); break;
			}
		}
		if (napool < 16)
			apool[napool++] = v;
		*hi = v >> 64;
		*lo = v;
	} else {
		if (!lookup(hi_name, hi))
			*hi = 0;
		if (!lookup(lo_name, lo))
			*lo = 0;
	}
	record(hi_name, *hi);
	record(lo_name, *lo);
}

void v_assume_failed(void) { longjmp(env, 1); }

void v_check_failed(const char* id, const char* file, int line) {
	dump();
	printf("CHECK-FAILED %s (%s:%d)\n", id, file, line);
	for (unsigned int i = 0; i < nout && i < 400; i++)
		printf("  %s = 0x%llx\n", out[i].name, (unsigned long long)out[i].value);
	fflush(stdout);
	_exit(3);
}

void v_reached(const char* id) { reached++; }

static void on_alarm(int sig) {
	(void)sig;
	dump();
	static const char msg[] = "CHECK-FAILED the call does not return\n";
	if (write(1, msg, sizeof(msg) - 1)) {}
	_exit(4);
}

static void on_crash(int sig) {
	dump();
	printf("CHECK-FAILED crashed with signal %d\n", sig);
	fflush(stdout);
	_exit(5);
}

/* Count what the code allocates and releases (gcc --wrap) */
long v_outstanding;
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t);
void* __real_reallocarray(void*, size_t, size_t); char* __real_strdup(const char*); void __real_free(void*);
int __real_vasprintf(char**, const char*, va_list);
void* __wrap_malloc(size_t n) { v_outstanding++; return __real_malloc(n); }
void* __wrap_calloc(size_t n, size_t s) { v_outstanding++; return __real_calloc(n, s); }
void* __wrap_realloc(void* p, size_t n) { if (!p) v_outstanding++; return __real_realloc(p, n); }
void* __wrap_reallocarray(void* p, size_t n, size_t s) { if (!p) v_outstanding++; return __real_reallocarray(p, n, s); }
char* __wrap_strdup(const char* s) { v_outstanding++; return __real_strdup(s); }
int __wrap_asprintf(char** p, const char* format, ...) {
	va_list ap;
	va_start(ap, format);
	int r = vasprintf(p, format, ap);
	va_end(ap);
	if (r >= 0)
		v_outstanding++;
	return r;
}
void __wrap_free(void* p) { if (p) v_outstanding--; __real_free(p); }

static void no_log(struct loc_ctx* c, void* d, int p, const char* f, int l, const char* fn, const char* fmt, va_list a) {}

struct loc_ctx* v_ctx(void) {
	static struct loc_ctx* ctx;
	if (!ctx) {
		loc_new(&ctx);
		loc_set_log_callback(ctx, no_log, NULL);
	}
	return ctx;
}

#if defined(__SANITIZE_ADDRESS__)
void __sanitizer_set_death_callback(void (*)(void));
static void on_death(void) { dump(); }
#endif

int main(int argc, char** argv) {
	setvbuf(stdout, NULL, _IOLBF, 0);
#if defined(__SANITIZE_ADDRESS__)
	__sanitizer_set_death_callback(on_death);
#else
	signal(SIGSEGV, on_crash);
#endif
	(void)on_crash;
	signal(SIGABRT, on_crash);
	signal(SIGALRM, on_alarm);
	v_ctx();
	if (argc >= 3 && strcmp(argv[1], "replay") == 0) {
		replaying = 1;
		FILE* f = fopen(argv[2], "r");
		if (!f)
			return 2;
		while (nin < MAXIN && fscanf(f, "%47s %llx", in[nin].name, (unsigned long long*)&in[nin].value) == 2)
			nin++;
		fclose(f);
		alarm(8);
		if (setjmp(env) == 0) {
			HARNESS();
			printf("PASSED (%lu)\n", reached);
		} else
			printf("ASSUMPTION (the input does not meet the preconditions)\n");
		return 0;
	}
	if (argc < 5)
		return 2;
	rng ^= strtoull(argv[2], NULL, 10) * 0x9E3779B97F4A7C15ull;
	save = argv[4];
	time_t end = time(NULL) + atoi(argv[3]);
	while (time(NULL) < end) {
		for (unsigned int k = 0; k < 64; k++) {
			nout = npool = napool = 0;
			amode = rnd() % 3;
			alarm(8);
			runs++;
			if (setjmp(env) == 0)
				HARNESS();
			alarm(0);
		}
	}
	printf("PASSED %lu runs, %lu complete\n", runs, reached);
	return 0;
}
