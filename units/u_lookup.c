//@ unit prop=C09 stub=loc_network_str:v_network_str,hexdump:v_hexdump,loc_prefix_to_bitmask:v_prefix_to_bitmask,loc_address_cmp:v_address_cmp
#include "models.h"
#include "../contracts/address_spec.h"
#include "../contracts/network.h"
#ifdef D
#define V_FILE_WORDS 1050
#endif
#include "db_inputs.h"
#include "country.c"
#include "network.c"
#include "stringpool.c"
#include "database.c"
#include "net_inputs.h"

#ifdef D
/*
	The whole of loc_database_lookup() on a file in which all edges down to level D lead to
	the next node, whose edges lead to two different nodes on level D + 1. There
	might be networks on any of these two nodes, and on two levels above. The
	address, and the contents of the networks are arbitrary.
*/
#define TREE F_SIG1
#define DATA (TREE + 12 * (D + 3))
#define M (D / 2)
//@ target h_chain_0 defs=D=0,V_TYPED_CALLOC unwind=9,18 cost=20 flags="--max-field-sensitivity-array-size 5000" level=bounded bound="one path of the given length, all addresses"
//@ target h_chain_1 defs=D=1,V_TYPED_CALLOC unwind=9,18 cost=20 flags="--max-field-sensitivity-array-size 5000" level=bounded bound="one path of the given length, all addresses"
//@ target h_chain_7 defs=D=7,V_TYPED_CALLOC unwind=11,18 cost=20 flags="--max-field-sensitivity-array-size 5000" level=bounded bound="one path of the given length, all addresses"
//@ target h_chain_32 defs=D=32,V_TYPED_CALLOC unwind=36 cost=20 flags="--max-field-sensitivity-array-size 5000" level=bounded bound="one path of the given length, all addresses"
//@ target h_chain_95 defs=D=95,V_TYPED_CALLOC unwind=99 cost=30 flags="--max-field-sensitivity-array-size 5000" level=bounded bound="one path of the given length, all addresses"
//@ target h_chain_96 defs=D=96,V_TYPED_CALLOC unwind=100 cost=30 flags="--max-field-sensitivity-array-size 5000" level=bounded bound="one path of the given length, all addresses"
//@ target h_chain_119 defs=D=119,V_TYPED_CALLOC unwind=123 cost=30 flags="--max-field-sensitivity-array-size 5000" level=bounded bound="one path of the given length, all addresses"
//@ target h_chain_126 defs=D=126,V_TYPED_CALLOC unwind=130 cost=30 flags="--max-field-sensitivity-array-size 5000" level=bounded bound="one path of the given length, all addresses"
//@ target h_chain_127 defs=D=127,V_TYPED_CALLOC unwind=131 cost=30 flags="--max-field-sensitivity-array-size 5000" level=bounded bound="one path of the given length, all addresses"
static void chain(void) {
	IN_ADDR(a);
	IN_RANGE(leaf0, 0, 1);
	IN_RANGE(leaf1, 0, 1);
	IN_RANGE(above, 0, 1);
	IN_RANGE(root, 0, 1);
	IN_U32(asn0); IN_U32(asn1); IN_U32(asn2); IN_U32(asn3);
	IN_U16(flags0); IN_U16(flags1); IN_U16(flags2); IN_U16(flags3);
	v_file_new(F_END, 0);
	v_put32(0, 0x4c4f4344);		/* LOCDBXX, version 1 */
	v_put32(4, 0x42585801);
	v_put32(F_AS_OFFSET, 0);      v_put32(F_AS_LENGTH, 0);
	v_put32(F_COUNTRY_OFFSET, 0); v_put32(F_COUNTRY_LENGTH, 0);
	v_put32(F_POOL_OFFSET, 0);    v_put32(F_POOL_LENGTH, 0);
	v_put32(F_SIG1_LENGTH, 0);
	v_put32(F_TREE_OFFSET, TREE); v_put32(F_TREE_LENGTH, 12 * (D + 3));
	v_put32(F_NETWORK_OFFSET, DATA); v_put32(F_NETWORK_LENGTH, 12 * 4);
	for (unsigned int i = 0; i <= D; i++)
		v_put_node(TREE, i, i + 1, i == D ? D + 2 : i + 1,
			i == M && above ? 2 : i == 0 && root ? 3 : 0xffffffff);
	v_put_node(TREE, D + 1, 0, 0, leaf0 ? 0 : 0xffffffff);
	v_put_node(TREE, D + 2, 0, 0, leaf1 ? 1 : 0xffffffff);
	v_put_network(DATA, 0, 'D' << 8 | 'E', asn0, flags0);
	v_put_network(DATA, 1, 'F' << 8 | 'R', asn1, flags1);
	v_put_network(DATA, 2, 'A' << 8 | 'T', asn2, flags2);
	v_put_network(DATA, 3, 0, asn3, flags3);

	struct loc_database* db = NULL;
	int r = loc_database_new(v_ctx(), &db, v_file_handle());
	CHECK(r == 0 && db, "loc_database_new.post");
	struct in6_addr copy = a;
	struct loc_network* n = NULL;
	r = loc_database_lookup(db, &a, &n);
	CHECK(r == 0, "loc_database_lookup.no-error");
	CHECK(v_num(&copy) == v_num(&a), "loc_database_lookup.address-unchanged");

	int bit = v_num(&a) >> (127 - D) & 1;
	struct v_net expected = { 0 };
	if (bit ? leaf1 : leaf0) {
		expected.raw = D + 1;
		expected.cc = bit ? 'F' << 8 | 'R' : 'D' << 8 | 'E';
		expected.asn = bit ? asn1 : asn0;
		expected.flags = bit ? flags1 : flags0;
	} else if (above) {
		expected.raw = M;
		expected.cc = 'A' << 8 | 'T';
		expected.asn = asn2;
		expected.flags = flags2;
	} else if (root) {
		expected.asn = asn3;
		expected.flags = flags3;
	} else {
		CHECK(n == NULL, "loc_database_lookup.nothing-found");
		REACH("nothing");
		return;
	}
	CHECK(n != NULL, "loc_database_lookup.found");
	struct v_net v = v_view(n);
	CHECK(v_canonical(v) && v.raw == expected.raw && v.first == (v_num(&a) & v_mask(expected.raw)), "loc_database_lookup.longest-match");
	CHECK(v_same_properties(v, expected), "loc_database_lookup.properties");
	REACH("end");
	loc_network_unref(n);
	loc_database_unref(db);
}
void h_chain_0(void) { chain(); }
void h_chain_1(void) { chain(); }
void h_chain_7(void) { chain(); }
void h_chain_32(void) { chain(); }
void h_chain_95(void) { chain(); }
void h_chain_96(void) { chain(); }
void h_chain_119(void) { chain(); }
void h_chain_126(void) { chain(); }
void h_chain_127(void) { chain(); }
#endif

#ifdef STEP
/*
	The induction step, for all files: given that the recursive call has looked up
	everything below the child node (v_below, which checks what it is called with), a
	call on any node on any level returns what has been found below, or the network of
	this node.
*/
static struct {
	const struct in6_addr* address;
	uint32_t child;
	unsigned int level;
	bool called, allowed;
	int r;
	struct loc_network* result;
} below;

int v_below(struct loc_database* db, const struct in6_addr* address, struct loc_network** network,
		struct in6_addr* network_address, off_t node_index, unsigned int level) {
	CHECK(below.allowed && !below.called, "__loc_database_lookup.one-recursive-call");
	below.called = true;
	CHECK(node_index == below.child, "__loc_database_lookup.follows-the-bit");
	CHECK(level == below.level + 1 && level <= 128, "__loc_database_lookup.one-level-down");
	CHECK(v_num(address) == v_num(below.address), "__loc_database_lookup.same-address");
	CHECK(v_num(network_address) == (v_num(address) & v_mask(level)), "__loc_database_lookup.path");
	CHECK(*network == NULL, "__loc_database_lookup.nothing-found-yet");
	/* The bits below are set to those of the address */
	V_ND(unsigned int, deeper);
	ASSUME(deeper >= level && deeper <= 128);
	*network_address = v_addr(v_num(address) & v_mask(deeper));
	*network = below.result;
	return below.r;
}

/* The check makes this a call of the function itself */
int v_lookup(struct loc_database* db, const struct in6_addr* address, struct loc_network** network,
		struct in6_addr* network_address, off_t node_index, unsigned int level) {
	return __loc_database_lookup(db, address, network, network_address, node_index, level);
}

//@ target h_step fn=__loc_database_lookup prop=C09,C10 cost=60 defs=STEP,V_TYPED_CALLOC stub=loc_network_str:v_network_str,hexdump:v_hexdump,loc_prefix_to_bitmask:v_prefix_to_bitmask,loc_address_cmp:v_address_cmp,__loc_database_lookup:v_below unwind=9,18,34 native=0 entry=v_lookup:__loc_database_lookup
void h_step(void) {
	IN_ADDR(a);
	IN_U64(length);
	IN_U64(seed);
	IN_RANGE(level, 0, 128);
	IN_U32(index);
	ASSUME(length < (uint64_t)1 << 40);
	v_file_new(length, seed);
	struct loc_database* db = NULL;
	int r = loc_database_new(v_ctx(), &db, v_file_handle());
	if (r) {
		REACH("not a database");
		return;
	}
	size_t tree = v_get32(F_TREE_OFFSET), nodes = v_get32(F_TREE_LENGTH) / 12;
	size_t data = v_get32(F_NETWORK_OFFSET), networks = v_get32(F_NETWORK_LENGTH) / 12;

	struct in6_addr path = v_addr(v_num(&a) & v_mask(level));
	struct loc_network* n = NULL;

	/* What there is below this node */
	IN_RANGE(below_error, 0, 1);
	IN_RANGE(below_found, 0, 1);
	below.r = below_error;
	below.address = &a;
	below.level = level;
	IN_RANGE(below_prefix, 0, 128);
	struct in6_addr b = a;
	if (!below.r && below_found) {
		unsigned int p = below_prefix;
		ASSUME(p > level && p <= 128);
		b = v_addr(v_num(&a) & v_mask(p));
		ASSUME(loc_network_new(v_ctx(), &below.result, &b, v_is4(v_num(&b)) ? p - 96 : p) == 0);
	}
	if (index < nodes) {
		int bit = level < 128 ? (int)(v_num(&a) >> (127 - level) & 1) : 0;
		below.child = v_get32(tree + 12 * (size_t)index + (bit ? 4 : 0));
		below.allowed = level < 128 && below.child > 0;
	}

	struct loc_network* previous = below.result;
	r = v_lookup(db, &a, &n, &path, index, level);

	if (index >= nodes) {
		CHECK(r != 0 && !n, "__loc_database_lookup.node-out-of-range");
		REACH("out of range");
		return;
	}
	CHECK(below.called == below.allowed, "__loc_database_lookup.descends");
	if (below.called && below.r) {
		CHECK(r != 0, "__loc_database_lookup.error");
		REACH("error");
		return;
	}
	if (below.called && previous) {
		CHECK(r == 0 && n == previous, "__loc_database_lookup.result-from-below");
		REACH("below");
		return;
	}
	uint32_t id = v_get32(tree + 12 * (size_t)index + 8);
	if (id == 0xffffffff) {
		CHECK(r == 0 && !n, "__loc_database_lookup.no-network");
		REACH("none");
		return;
	}
	size_t record = data + 12 * (size_t)id;
	uint16_t cc = id < networks ? v_get16(record) : 0;
	if (id >= networks || (cc >> 8 && !v_cc_valid(cc))) {
		CHECK(r != 0 && !n, "__loc_database_lookup.invalid-network");
		REACH("invalid");
		return;
	}
	CHECK(r == 0 && n, "__loc_database_lookup.found");
	struct v_net v = v_view(n);
	CHECK(v_canonical(v) && v.raw == level && v.first == (v_num(&a) & v_mask(level)), "__loc_database_lookup.network");
	CHECK(v.cc == (cc >> 8 ? cc : 0) && v.asn == v_get32(record + 4) && v.flags == v_get16(record + 8), "__loc_database_lookup.properties");
	REACH("end");
}
#endif
