//@ unit prop=C24 unwind=8 cost=20 deps=loc_as_cmp,loc_country_cmp
/*
	Lists of ASes and countries against the contracts of loc_as_cmp() and
	loc_country_cmp() (total orders, enforced in u_country.c and u_as.c). Elements are
	opaque: element k of a total order, in two copies.
*/
#include "models.h"
#include <libloc/as.h>
#include <libloc/as-list.h>
#include <libloc/country.h>
#include <libloc/country-list.h>
#ifndef V_KEYS
#define V_KEYS 4
#endif
#ifdef AS
#define T struct loc_as
#define LIST struct loc_as_list
#define F(x) loc_as_##x
#define L(x) loc_as_list_##x
#define NAME "loc_as_list"
#else
#define T struct loc_country
#define LIST struct loc_country_list
#define F(x) loc_country_##x
#define L(x) loc_country_list_##x
#define NAME "loc_country_list"
#endif

#ifdef __CPROVER__
char v_keys[2 * V_KEYS];
static size_t v_watched;
static int v_count, v_made;
static size_t v_id(T* n) {
	CHECK(__CPROVER_POINTER_OBJECT(n) == __CPROVER_POINTER_OBJECT(v_keys), NAME ".only-uses-elements");
	return __CPROVER_POINTER_OFFSET(n);
}
static int v_key_of(T* n) { return v_id(n) >> 1; }
int F(cmp)(T* a, T* b) {
	int x = v_key_of(a), y = v_key_of(b);
	return (x > y) - (x < y);
}
T* F(ref)(T* n) { if (v_id(n) == v_watched) v_count++; return n; }
T* F(unref)(T* n) {
	if (v_id(n) == v_watched) v_count--;
	CHECK(v_count >= 0, NAME ".only-releases-what-it-has-referenced");
	return n;
}
static T* v_element(int copy, int key) { return (T*)(v_keys + 2 * key + copy); }
static void v_setup(void) {
	V_ND(size_t, any);
	ASSUME(any < 2 * V_KEYS);
	v_watched = any;
	v_count = 0;
}
#ifdef AS
int loc_as_new(struct loc_ctx* ctx, struct loc_as** as, uint32_t number) {
	*as = loc_as_ref(v_element(1, number % V_KEYS));
	return 0;
}
static uint32_t v_number(int key) { return key; }
#else
static const char* const v_codes[] = { "AT", "BG", "DE", "FR" };
int loc_country_new(struct loc_ctx* ctx, struct loc_country** country, const char* code) {
	if (code[0] == 'X') {
		errno = EINVAL;
		return 1;
	}
	*country = loc_country_ref(v_element(1, code[0] == 'A' ? 0 : code[0] == 'B' ? 1 : code[0] == 'D' ? 2 : 3));
	return 0;
}
#endif
/* The contract of qsort(): sorts (so few elements) */
void v_qsort(void* base, size_t n, size_t size, int (*cmp)(const void*, const void*)) {
	CHECK(base && size == sizeof(void*), NAME "_sort.precondition");
	void** p = base;
	for (size_t i = 1; i < n; i++) {
		for (size_t j = i; j > 0; j--) {
			void *x = p[j - 1], *y = p[j];
			bool swap = cmp(&p[j - 1], &p[j]) > 0;
			p[j - 1] = swap ? y : x;
			p[j] = swap ? x : y;
		}
	}
}
#else
static T* v_elements[2 * V_KEYS];
static int v_count;
static const char* const v_codes[] = { "AT", "BG", "DE", "FR" };
static uint32_t v_number(int key) { return 0x7ffffffe + key; }
static void v_setup(void) {
	for (int i = 0; i < 2 * V_KEYS; i++) {
#ifdef AS
		loc_as_new(v_ctx(), &v_elements[i], v_number(i % V_KEYS));
#else
		loc_country_new(v_ctx(), &v_elements[i], v_codes[i % V_KEYS]);
#endif
	}
}
static T* v_element(int copy, int key) { return v_elements[copy * V_KEYS + key]; }
static int v_key_of(T* n) {
	for (int i = 0; i < 2 * V_KEYS; i++)
		if (v_elements[i] == n) return i % V_KEYS;
	return -1;
}
#endif
#ifdef AS
#include "as-list.c"
#else
#include "country-list.c"
#endif

static int v_at(LIST* list, unsigned int i) {
	T* n = L(get)(list, i);
	if (!n)
		return -1;
	int key = v_key_of(n);
	F(unref)(n);
	return key;
}

static uint32_t v_set;
static unsigned int v_n;
static int v_sequence[4];

static void v_append(LIST* list, int copy, int key) {
	CHECK(L(append)(list, v_element(copy, key)) == 0, NAME "_append.succeeds");
	if (!(v_set >> key & 1)) {
		v_set |= 1 << key;
		if (v_n == 0) v_sequence[0] = key;
		else if (v_n == 1) v_sequence[1] = key;
		else if (v_n == 2) v_sequence[2] = key;
		else v_sequence[3] = key;
		v_n++;
	}
}

static void v_compare(LIST* list) {
	CHECK(L(size)(list) == v_n, NAME "_size.post");
	CHECK(!!L(empty)(list) == !v_n, NAME "_empty.post");
	for (int k = 0; k < V_KEYS; k++) {
		CHECK(!!L(contains)(list, v_element(0, k)) == (v_set >> k & 1), NAME "_contains.post");
		CHECK(v_at(list, k) == (k < v_n ? v_sequence[k] : -1), NAME "_get.in-order");
	}
}

#define HISTORY() \
	v_setup(); \
	LIST* list = NULL; \
	CHECK(L(new)(v_ctx(), &list) == 0 && list, NAME "_new.post"); \
	v_set = 0; v_n = 0; v_sequence[0] = v_sequence[1] = v_sequence[2] = v_sequence[3] = -1; \
	IN_RANGE(c1, 0, 1); IN_RANGE(k1, 0, V_KEYS - 1); v_append(list, c1, k1); \
	IN_RANGE(c2, 0, 1); IN_RANGE(k2, 0, V_KEYS - 1); v_append(list, c2, k2); \
	IN_RANGE(c3, 0, 1); IN_RANGE(k3, 0, V_KEYS - 1); v_append(list, c3, k3); \
	IN_RANGE(c4, 0, 1); IN_RANGE(k4, 0, V_KEYS - 1); v_append(list, c4, k4)

static void append(void) {
	HISTORY();
	v_compare(list);
	IN_RANGE(k, 0, V_KEYS - 1);
#ifdef AS
	CHECK(!!loc_as_list_contains_number(list, v_number(k)) == (v_set >> k & 1), "loc_as_list_contains_number.post");
#else
	CHECK(!!loc_country_list_contains_code(list, v_codes[k]) == (v_set >> k & 1), "loc_country_list_contains_code.post");
	CHECK(!loc_country_list_contains_code(list, "XX"), "loc_country_list_contains_code.invalid");
#endif
	L(clear)(list);
	v_set = 0; v_n = 0;
	v_compare(list);
	v_append(list, 0, 1);
	v_compare(list);
	L(unref)(list);
	CHECK(v_count == 0, NAME ".releases-everything");
	CHECK(V_CTX_BALANCED(), NAME ".releases-the-context");
	REACH("end");
}

static void sort(void) {
	HISTORY();
	L(sort)(list);
	unsigned int n = 0;
	for (int k = 0; k < V_KEYS; k++) {
		bool there = v_set >> k & 1;
		if (there)
			v_sequence[n++] = k;
	}
	v_compare(list);
	L(clear)(list);
	L(sort)(list);
	CHECK(L(size)(list) == 0, NAME "_sort.empty");
	REACH("end");
}

//@ target h_as_append prop=C24 fn=loc_as_list_append,loc_as_list_contains,loc_as_list_contains_number,loc_as_list_get,loc_as_list_clear defs=AS,V_TYPED_CALLOC,V_ELEMENTS=16 level=bounded bound="up to 4 elements"
//@ target h_as_sort prop=C24 fn=loc_as_list_sort defs=AS,V_TYPED_CALLOC,V_ELEMENTS=16 stub=qsort:v_qsort level=bounded bound="up to 4 elements"
//@ target h_country_append prop=C24 fn=loc_country_list_append,loc_country_list_contains,loc_country_list_contains_code,loc_country_list_get,loc_country_list_clear defs=V_TYPED_CALLOC,V_ELEMENTS=16 level=bounded bound="up to 4 elements"
//@ target h_country_sort prop=C24 fn=loc_country_list_sort defs=V_TYPED_CALLOC,V_ELEMENTS=16 stub=qsort:v_qsort level=bounded bound="up to 4 elements"
#ifdef AS
void h_as_append(void) { append(); }
void h_as_sort(void) { sort(); }
#else
void h_country_append(void) { append(); }
void h_country_sort(void) { sort(); }
#endif

#ifdef GROW
/* The invariant for lists of any size, see u_netlist.c */
#ifdef __CPROVER__
static size_t v_any;
void* v_reallocarray(void* p, size_t n, size_t s) {
	CHECK(s == sizeof(void*) && n < (size_t)1 << 40, "reallocarray: an array of pointers");
	T** q = malloc(n * sizeof(*q));
	if (p) {
		size_t length = __CPROVER_OBJECT_SIZE(p) / sizeof(void*);
		if (v_any < length && v_any < n)
			q[v_any] = ((T**)p)[v_any];
		free(p);
	}
	return q;
}
#endif
/* The contract of contains() for an element that is not there */
int v_not_there(LIST* list, T* element) { REACH("USED contains"); return 0; }
void w_grow(void) {
#ifndef __CPROVER__
	LIST* list = NULL;
	L(new)(v_ctx(), &list);
	unsigned int n = 3500, m = 0;
	for (unsigned int i = 0; i < n; i++) {
		T* e = NULL;
#ifdef AS
		loc_as_new(v_ctx(), &e, i);
#else
		char code[3] = { 'A' + i % 23, 'A' + i / 23 % 26, 0 };
		loc_country_new(v_ctx(), &e, code);
#endif
		if (!e) continue;
		CHECK(L(append)(list, e) == 0, NAME "_append.succeeds");
		F(unref)(e);
	}
	L(unref)(list);
#endif
}
static void grow(void) {
	v_setup();
	IN_U64(size); IN_U64(space); IN_U64(any);
	ASSUME(size <= space && space < (size_t)1 << 36);
#ifdef __CPROVER__
	v_any = any;
#endif
	LIST* list = NULL;
	CHECK(L(new)(v_ctx(), &list) == 0 && list, NAME "_new.post");
	list->elements_size = space;
	list->elements = space ? malloc(space * sizeof(*list->elements)) : NULL;
	list->size = size;
	T* before = any < size ? list->elements[any] : NULL;
	CHECK(L(append)(list, v_element(0, 2)) == 0, NAME "_append.succeeds");
	CHECK(list->size == size + 1, NAME "_append.adds-it");
	CHECK(list->size <= list->elements_size, NAME "_append.invariant");
#ifdef __CPROVER__
	CHECK(list->elements_size <= __CPROVER_OBJECT_SIZE(list->elements) / sizeof(*list->elements), NAME "_append.invariant");
#endif
	CHECK(list->elements[size] == v_element(0, 2), NAME "_append.at-the-end");
	if (any < size)
		CHECK(list->elements[any] == before, NAME "_append.keeps-the-others");
	REACH("end");
}
//@ target h_as_grow prop=C24 fn=loc_as_list_grow defs=AS,GROW,V_TYPED_CALLOC stub=reallocarray:v_reallocarray,loc_as_list_contains:v_not_there unwind=8 native=0 witness=w_grow
//@ target h_country_grow prop=C24 fn=loc_country_list_grow defs=GROW,V_TYPED_CALLOC stub=reallocarray:v_reallocarray,loc_country_list_contains:v_not_there unwind=8 native=0 witness=w_grow
#ifdef AS
void h_as_grow(void) { grow(); }
#else
void h_country_grow(void) { grow(); }
#endif
#endif
