/*
	Models of what the verifier cannot see (symbolic mode only). Each of these is
	an assumption about a dependency and is listed in the evidence.
*/
#ifndef VERIF_MODELS_H
#define VERIF_MODELS_H
#include "verif.h"

#ifdef __CPROVER__
#include <stdarg.h>
#include <stdio.h>
#include <arpa/inet.h>

/* errno is an ordinary variable */
int verif_errno;
int* __errno_location(void) { return &verif_errno; }

/* The context is a reference counter; the log callback does nothing */
struct loc_ctx { int refcount; };
#ifndef MODEL_NO_CTX
struct loc_ctx* loc_ref(struct loc_ctx* ctx) {
	if (!ctx)
		return NULL;
	ctx->refcount++;
	return ctx;
}
struct loc_ctx* loc_unref(struct loc_ctx* ctx) {
	--ctx->refcount;
	return NULL;
}
static int v_log_priority;
int loc_get_log_priority(struct loc_ctx* ctx) { return v_log_priority; }
void loc_log(struct loc_ctx* ctx, int priority, const char* file, int line,
	const char* fn, const char* format, ...) {}
#endif

#ifndef MODEL_NO_ADDRESS_STR
/* Proved on its own in units/u_text.c */
const char* loc_address_str(const struct in6_addr* address) { return address ? "::" : NULL; }
#endif

#ifndef MODEL_NO_INET_NTOP
/* Writes some string that fits */
const char* inet_ntop(int af, const void* src, char* dst, socklen_t size) {
	__CPROVER_assert(af == AF_INET || af == AF_INET6, "inet_ntop: family");
	__CPROVER_assert(__CPROVER_r_ok(src, af == AF_INET ? 4 : 16), "inet_ntop: source is readable");
	__CPROVER_assert(size >= (af == AF_INET ? 16 : 46) && __CPROVER_w_ok(dst, size), "inet_ntop: buffer is large enough");
	dst[0] = '0'; dst[1] = '\0';
	return dst;
}
#endif

#ifndef MODEL_NO_SNPRINTF
int snprintf(char* s, size_t n, const char* format, ...) {
	__CPROVER_assert(n == 0 || __CPROVER_w_ok(s, n), "snprintf: buffer is writable");
	if (n > 1) {
		s[0] = '0';
		s[1] = '\0';
	} else if (n == 1)
		s[0] = '\0';
	return 1;
}
#endif

__CPROVER_bool v_calloc_may_fail;
#ifdef V_ELEMENTS
/*
	Arrays of pointers: hands out less than what has been asked for (V_ELEMENTS
	elements), and nothing else, so that whatever has been proved to stay within
	these is within what would have been allocated.
*/
void* reallocarray(void* p, size_t n, size_t s) {
	__CPROVER_assert(s == sizeof(void*), "reallocarray: an array of pointers");
	if (v_calloc_may_fail) {
		__CPROVER_bool fail;
		if (fail)
			return NULL;
	}
	void** q = n >= V_ELEMENTS ? __CPROVER_allocate(V_ELEMENTS * sizeof(void*), 0) : __CPROVER_allocate(n * sizeof(void*), 0);
	__CPROVER_bool may_leak;
	__CPROVER_deallocated = (q == __CPROVER_deallocated) ? 0 : __CPROVER_deallocated;
	__CPROVER_memory_leak = may_leak ? q : __CPROVER_memory_leak;
	if (p) {
		size_t length = __CPROVER_OBJECT_SIZE(p) / sizeof(void*);
		for (size_t i = 0; i < length; i++)
			q[i] = ((void**)p)[i];
		free(p);
	}
	return q;
}
#elif !defined(MODEL_NO_REALLOCARRAY)
void* reallocarray(void* p, size_t n, size_t s) {
	size_t bytes;
	if (__builtin_mul_overflow(n, s, &bytes))
		return NULL;
	return realloc(p, bytes);
}
#endif

/* Processor time never goes backwards */
static long v_clock;
long clock(void) {
	long now;
	__CPROVER_assume(now >= v_clock && now < 1L << 50);
	v_clock = now;
	return now;
}

#ifdef V_TYPED_CALLOC
/* As the verifier's own model, but objects keep the type they are allocated for */
void* calloc(size_t n, size_t s) {
	__CPROVER_HIDE:;
	if (v_calloc_may_fail) {
		__CPROVER_bool fail;
		if (fail)
			return NULL;
	}
	void* p;
	if (n == 1)
		p = __CPROVER_allocate(s, 1);
	else
		p = __CPROVER_allocate(n * s, 1);
	__CPROVER_bool may_leak;
	__CPROVER_deallocated = (p == __CPROVER_deallocated) ? 0 : __CPROVER_deallocated;
	__CPROVER_memory_leak = may_leak ? p : __CPROVER_memory_leak;
	return p;
}
#endif

struct loc_ctx v_ctx_object;
static struct loc_ctx* v_ctx(void) {
	int priority;
	v_log_priority = priority;
	v_ctx_object.refcount = 1;
	return &v_ctx_object;
}
#define V_CTX_BALANCED() (v_ctx_object.refcount == 1)
#else
#include <stdio.h>
struct loc_ctx;
struct loc_ctx* v_ctx(void);
#define V_CTX_BALANCED() 1
#endif
#endif
