//@ unit prop=C17 unwind=10 cost=20 defs=V_TYPED_CALLOC
#include "models.h"
#include <stdio.h>
#ifndef V_BYTES
#define V_BYTES 16
#endif
#if defined(__CPROVER__) && !defined(GROW)
/* Hands out less than what has been asked for, see reallocarray() in models.h */
void* realloc(void* p, size_t n) {
	CHECK(n >= V_BYTES, "realloc: more than the strings in this harness");
	char* q = malloc(V_BYTES);
	if (p) {
		for (size_t i = 0; i < V_BYTES; i++)
			q[i] = ((char*)p)[i];
		free(p);
	}
	return q;
}
#endif
#include "stringpool.c"

#ifndef GROW
/* Strings of up to three characters */
#define IN_SHORT(s) IN_U8(s##0); IN_U8(s##1); IN_U8(s##2); char s[4] = { s##0, s##1, s##2, 0 }
static bool v_equal(const char* a, const char* b) {
	for (int i = 0; i < 4; i++) {
		if (a[i] != b[i])
			return false;
		if (!a[i])
			return true;
	}
	return true;
}
static size_t v_length(const char* s) { return !s[0] ? 0 : !s[1] ? 1 : !s[2] ? 2 : 3; }

//@ target h_strings fn=loc_stringpool_add,loc_stringpool_get,loc_stringpool_get_size,loc_stringpool_find level=bounded bound="three strings of up to three characters"
void h_strings(void) {
	struct loc_stringpool* pool = NULL;
	CHECK(loc_stringpool_new(v_ctx(), &pool) == 0 && pool, "loc_stringpool_new.post");
	CHECK(loc_stringpool_get_size(pool) == 0, "loc_stringpool_new.empty");
	CHECK(loc_stringpool_get(pool, 0) == NULL, "loc_stringpool_get.empty");
	IN_SHORT(a); IN_SHORT(b); IN_SHORT(c);
	size_t la = v_length(a) + 1, lb = v_length(b) + 1, lc = v_length(c) + 1;
	off_t oa = loc_stringpool_add(pool, a);
	CHECK(oa == 0 && loc_stringpool_get_size(pool) == la, "loc_stringpool_add.first");
	off_t ob = loc_stringpool_add(pool, b);
	bool known = la > 1 && v_equal(a, b);
	CHECK(ob == (known ? 0 : la), "loc_stringpool_add.second");
	size_t size = known ? la : la + lb;
	CHECK(loc_stringpool_get_size(pool) == size, "loc_stringpool_add.size");
	off_t oc = loc_stringpool_add(pool, c);
	if (lc > 1 && v_equal(a, c))
		CHECK(oc == oa && loc_stringpool_get_size(pool) == size, "loc_stringpool_add.known");
	else if (lc > 1 && v_equal(b, c))
		CHECK(oc == ob && loc_stringpool_get_size(pool) == size, "loc_stringpool_add.known");
	else
		CHECK(oc >= 0 && oc + lc <= loc_stringpool_get_size(pool), "loc_stringpool_add.new");
	const char *ra = loc_stringpool_get(pool, oa), *rb = loc_stringpool_get(pool, ob), *rc = loc_stringpool_get(pool, oc);
	CHECK(ra && v_equal(ra, a), "loc_stringpool_get.first");
	CHECK(rb && v_equal(rb, b), "loc_stringpool_get.second");
	CHECK(rc && v_equal(rc, c), "loc_stringpool_get.third");
	CHECK(!loc_stringpool_get(pool, loc_stringpool_get_size(pool)) && !loc_stringpool_get(pool, -1), "loc_stringpool_get.out-of-range");
	CHECK(loc_stringpool_add(pool, NULL) < 0, "loc_stringpool_add.null");
	loc_stringpool_unref(pool);
	CHECK(V_CTX_BALANCED(), "loc_stringpool.releases-the-context");
	REACH("end");
}
#else
/*
	The invariant of the pool, for pools of any size and strings of any length (of up to a
	number of blocks): there is as much memory as the pool thinks there is, which is
	no less than the length of all strings. Adding a string that is not in the pool
	puts it at the end and keeps everything else.
*/
#ifdef __CPROVER__
static size_t v_any, v_any_char, v_strlen;
static const char* v_string;
size_t v_strlen_contract(const char* s) {
	CHECK(s == v_string, "loc_stringpool_append.string");
	REACH("USED strlen");
	return v_strlen;
}
/* Everything is copied, of which one byte is looked at */
void* v_memcpy(void* d, const void* s, size_t n) {
	CHECK(__CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n), "memcpy: in bounds");
	REACH("USED memcpy");
	__CPROVER_havoc_slice(d, n);
	if (v_any_char < n)
		ASSUME(((char*)d)[v_any_char] == ((const char*)s)[v_any_char]);
	return d;
}
void* v_realloc(void* p, size_t n) {
	char* q = malloc(n);
	if (p) {
		if (v_any < __CPROVER_OBJECT_SIZE(p) && v_any < n)
			q[v_any] = ((char*)p)[v_any];
		free(p);
	}
	return q;
}
off_t v_not_there(struct loc_stringpool* pool, const char* s) { errno = ENOENT; return -1; }
#endif
void w_strings(void) {
#ifndef __CPROVER__
	struct loc_stringpool* pool = NULL;
	loc_stringpool_new(v_ctx(), &pool);
	static char s[12][1 << 21];
	off_t o[12];
	size_t l[12], total = 0;
	for (int i = 0; i < 12; i++) {
		IN_RANGE(length, 1, 100);
		IN_RANGE(large, 0, 3);
		IN_RANGE(off, 0, 4);
		length = large == 3 ? (length % 3 + 1) * 512 * 1024 - 2 + off : large == 2 ? length * 5000 : large == 1 && total % (512 * 1024) ? 512 * 1024 - total % (512 * 1024) - 2 + off : length;
		if (length < 1) length = 1;
		memset(s[i], 'a' + i, length);
		s[i][length] = 0;
		l[i] = length;
		o[i] = loc_stringpool_add(pool, s[i]);
		CHECK(o[i] == total, "loc_stringpool_add.at-the-end");
		total += length + 1;
		CHECK(loc_stringpool_get_size(pool) == total, "loc_stringpool_get_size.post");
	}
	for (int i = 0; i < 12; i++) {
		const char* r = loc_stringpool_get(pool, o[i]);
		CHECK(r && strcmp(r, s[i]) == 0, "loc_stringpool_get.post");
		CHECK(loc_stringpool_add(pool, s[i]) == o[i], "loc_stringpool_add.known");
	}
	loc_stringpool_unref(pool);
#endif
}
//@ target h_grow fn=loc_stringpool_append,loc_stringpool_grow defs=GROW,V_TYPED_CALLOC stub=realloc:v_realloc,memcpy:v_memcpy,strlen:v_strlen_contract,loc_stringpool_find:v_not_there unwind=6 native=0 witness=w_strings cost=40 assume="strings of less than 2 MiB (4 blocks)"
void h_grow(void) {
	IN_U64(length); IN_U64(space); IN_U64(string_length); IN_U64(any); IN_U64(any_char);
	ASSUME(length <= space && space < (size_t)1 << 32);
	ASSUME(string_length > 0 && string_length < (size_t)1 << 21);
	struct loc_stringpool* pool = NULL;
	CHECK(loc_stringpool_new(v_ctx(), &pool) == 0 && pool, "loc_stringpool_new.post");
	pool->size = space;
	pool->blocks = space ? malloc(space) : NULL;
	pool->data = pool->blocks;
	pool->length = length;
	char* string = malloc(string_length + 1);
#ifdef __CPROVER__
	v_any = any; v_any_char = any_char; v_string = string; v_strlen = string_length;
#endif
	char before = any < length ? pool->blocks[any] : 0;
	off_t offset = loc_stringpool_add(pool, string);
	CHECK(offset == length, "loc_stringpool_append.at-the-end");
	CHECK(loc_stringpool_get_size(pool) == length + string_length + 1, "loc_stringpool_append.size");
	const char* r = loc_stringpool_get(pool, offset);
	CHECK(r == pool->blocks + length, "loc_stringpool_get.post");
	if (any_char <= string_length)
		CHECK(r[any_char] == string[any_char], "loc_stringpool_append.copies-the-string");
	if (any < length)
		CHECK(pool->data[any] == before, "loc_stringpool_append.keeps-the-others");
	CHECK(pool->length <= pool->size, "loc_stringpool_append.invariant");
#ifdef __CPROVER__
	CHECK(pool->size <= __CPROVER_OBJECT_SIZE(pool->blocks), "loc_stringpool_append.invariant");
#endif
	REACH("end");
}
#endif
