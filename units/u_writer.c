//@ unit prop=C19 defs=V_TYPED_CALLOC unwind=6,20 stub=hexdump:v_hexdump cost=20 native=0 witness=h_faults witness_defs=NATIVE_FAULTS
/*
	Writing a database. The file is modelled by the position of the stream, its length and
	the byte at any one position (v_x). Every write, seek and flush can fail, and once one has
	(v_failed), the error indicator of the stream stays set.
*/
#include "models.h"
#define MODEL_NO_STDIO
#include "db_inputs.h"
#include "writer.c"
#ifdef __CPROVER__
static uint64_t v_pos, v_size, v_x;
static bool v_written;			/* has the byte been written? */
static uint8_t v_byte;
static bool v_failed, v_sticky, v_flushed;
static struct loc_writer v_writer;
static FILE v_output;

static void v_advance(uint64_t length) {
	v_pos += length;
	if (v_pos > v_size)
		v_size = v_pos;
	v_flushed = false;
}
static bool v_fail(void) {
	__CPROVER_bool fail;
	if (fail)
		v_failed = true;
	return fail;
}
int ferror(FILE* f) { return v_sticky; }
int fflush(FILE* f) {
	if (v_fail()) {
		v_sticky = true;
		return -1;
	}
	v_flushed = true;
	return 0;
}
int fseek(FILE* f, long offset, int whence) {
	if (v_fail())
		return -1;
	v_pos = whence == SEEK_SET ? offset : whence == SEEK_CUR ? v_pos + offset : v_size + offset;
	return 0;
}
#endif

#if defined(ALIGN)
/*
	Writing zeroes up to the next page. The loop is cut by induction: after two bytes, the position
	and the offset are moved forward within the page.
*/
#ifdef __CPROVER__
static off_t v_offset;
static uint64_t v_start;
static unsigned int v_calls;
size_t fwrite(const void* p, size_t size, size_t n, FILE* f) {
	__CPROVER_assert(size == 1 && n == 1 && f == &v_output && __CPROVER_r_ok(p, 1), "fwrite: one byte");
	CHECK(*(const char*)p == 0, "align_page_boundary.zeroes");
	CHECK(!v_failed, "align_page_boundary.stops-at-errors");
	if (v_calls == 2) {
		SHAPE(v_offset == v_pos && v_pos / 4096 == (v_start - 1) / 4096, "one byte at a time");
		uint64_t pos;
		__CPROVER_assume(pos >= v_pos && pos < v_size);
		v_offset = v_pos = pos;
	} else if (v_calls > 3)
		__CPROVER_assume(0);
	v_calls++;
	if (v_fail())
		return 0;
	v_pos++;
	return 1;
}
#endif
#elif defined(SECTIONS)
/*
	The sections one after another, against the contract of align_page_boundary() (in u_writer.c/h_align).
	Records are whole calls of fwrite(), of which one is watched.
*/
#define V_RECORDS 4
static unsigned int v_count;		/* in the list */
static unsigned int v_record, v_watch;	/* the record that is watched */
static uint32_t v_record_data[3];
static uint64_t v_record_pos;
static bool v_sorted;
#ifdef __CPROVER__
static size_t v_record_size;
size_t fwrite(const void* p, size_t size, size_t n, FILE* f) {
	size_t length = size * n;
	__CPROVER_assert(f == &v_output && __CPROVER_r_ok(p, length), "fwrite: readable");
	if (v_fail()) {
		v_sticky = true;
		size_t less;
		__CPROVER_assume(less < n);
		v_advance(less);
		return less;
	}
	SHAPE(size == 1 && length == v_record_size, "one record at a time");
	if (v_record++ == v_watch) {
		v_record_pos = v_pos;
		v_record_data[0] = ((uint32_t*)p)[0];
		v_record_data[1] = ((uint32_t*)p)[1];
		if (length == 12)
			v_record_data[2] = ((uint32_t*)p)[2];
	}
	v_advance(length);
	return n;
}
void v_align(off_t* offset, FILE* f) {
	CHECK(f == &v_output && (v_failed || (uint64_t)*offset == v_pos), "align_page_boundary.precondition");
	if (v_fail()) {
		v_sticky = true;
		return;
	}
	uint64_t n = (4096 - *offset % 4096) % 4096;
	*offset += n;
	v_advance(n);
}
static void v_setup(off_t* offset) {
	uint64_t start; unsigned int count, watch;
	__CPROVER_assume(start < (uint64_t)1 << 40 && count <= V_RECORDS && watch < V_RECORDS);
	v_writer.ctx = v_ctx();
	v_writer.pool = (struct loc_stringpool*)&v_ctx_object;
	*offset = v_pos = v_size = start;
	v_count = count;
	v_watch = watch;
}
#endif
#ifdef AS
static int v_outstanding_refs;
static char v_elements[V_RECORDS];
static bool v_nomem;
#ifdef __CPROVER__
void loc_as_list_sort(struct loc_as_list* list) { CHECK(v_record == 0, "loc_database_write_as_section.sort"); v_sorted = true; }
size_t loc_as_list_size(struct loc_as_list* list) { return v_count; }
struct loc_as* loc_as_list_get(struct loc_as_list* list, size_t i) {
	CHECK(i < v_count, "loc_as_list_get.precondition");
	v_outstanding_refs++;
	return (struct loc_as*)(v_elements + i);
}
struct loc_as* loc_as_unref(struct loc_as* as) { v_outstanding_refs--; return as; }
int loc_as_to_database_v1(struct loc_as* as, struct loc_stringpool* pool, struct loc_database_as_v1* block) {
	CHECK(pool == v_writer.pool, "loc_as_to_database_v1.pool");
	__CPROVER_bool fail;
	if (fail) {
		v_nomem = true;
		return 1;
	}
	block->number = __CPROVER_POINTER_OFFSET(as);
	block->name = ~block->number;
	return 0;
}
#endif

//@ target h_as_section prop=C19,C15,C11 fn=loc_database_write_as_section defs=V_TYPED_CALLOC,SECTIONS,AS stub=align_page_boundary:v_align,hexdump:v_hexdump deps=align_page_boundary,loc_as_list_sort,loc_as_to_database_v1 level=bounded bound="4 ASes"
void h_as_section(void) {
#ifdef __CPROVER__
	off_t offset;
	v_setup(&offset);
	off_t start = offset;
	v_record_size = 8;
	struct loc_database_header_v1 header;
	int r = loc_database_write_as_section(&v_writer, &header, &offset, &v_output);
	CHECK(v_outstanding_refs == 0, "loc_database_write_as_section.releases");
	CHECK(v_sorted, "loc_database_write_as_section.sorted");
	CHECK(!v_failed || v_sticky, "loc_database_write_as_section.error");
	CHECK(!v_nomem || r != 0, "loc_database_write_as_section.no-memory");
	if (r == 0 && !v_failed) {
		CHECK(be32toh(header.as_offset) == (uint32_t)start && be32toh(header.as_length) == v_count * 8, "loc_database_write_as_section.header");
		CHECK((uint64_t)offset == v_pos && v_pos % 4096 == 0 && v_pos >= start + v_count * 8, "loc_database_write_as_section.offset");
		CHECK(v_record == v_count, "loc_database_write_as_section.all");
		if (v_watch < v_count)
			CHECK(v_record_pos == start + v_watch * 8 && v_record_data[0] == v_watch && v_record_data[1] == ~v_watch, "loc_database_write_as_section.records");
		REACH("written");
	}
	if (!v_failed && !v_nomem)
		CHECK(r == 0, "loc_database_write_as_section.succeeds");
	REACH("end");
#endif
}
#elif defined(COUNTRY)
static int v_outstanding_refs;
static char v_elements[V_RECORDS];
static bool v_nomem;
#ifdef __CPROVER__
void loc_country_list_sort(struct loc_country_list* list) { CHECK(v_record == 0, "loc_database_write_countries.sort"); v_sorted = true; }
size_t loc_country_list_size(struct loc_country_list* list) { return v_count; }
struct loc_country* loc_country_list_get(struct loc_country_list* list, size_t i) {
	CHECK(i < v_count, "loc_country_list_get.precondition");
	v_outstanding_refs++;
	return (struct loc_country*)(v_elements + i);
}
struct loc_country* loc_country_unref(struct loc_country* country) { v_outstanding_refs--; return country; }
int loc_country_to_database_v1(struct loc_country* country, struct loc_stringpool* pool, struct loc_database_country_v1* block) {
	CHECK(pool == v_writer.pool, "loc_country_to_database_v1.pool");
	__CPROVER_bool fail;
	if (fail) {
		v_nomem = true;
		return 1;
	}
	uint32_t i = __CPROVER_POINTER_OFFSET(country);
	*(uint32_t*)block = i;
	block->name = ~i;
	return 0;
}
#endif

//@ target h_country_section prop=C19,C15,C11 fn=loc_database_write_countries defs=V_TYPED_CALLOC,SECTIONS,COUNTRY stub=align_page_boundary:v_align,hexdump:v_hexdump deps=align_page_boundary,loc_country_list_sort,loc_country_to_database_v1 level=bounded bound="4 countries"
void h_country_section(void) {
#ifdef __CPROVER__
	off_t offset;
	v_setup(&offset);
	off_t start = offset;
	v_record_size = 8;
	struct loc_database_header_v1 header;
	int r = loc_database_write_countries(&v_writer, &header, &offset, &v_output);
	CHECK(v_outstanding_refs == 0, "loc_database_write_countries.releases");
	CHECK(v_sorted, "loc_database_write_countries.sorted");
	CHECK(!v_failed || v_sticky, "loc_database_write_countries.error");
	CHECK(!v_nomem || r != 0, "loc_database_write_countries.no-memory");
	if (r == 0 && !v_failed) {
		CHECK(be32toh(header.countries_offset) == (uint32_t)start && be32toh(header.countries_length) == v_count * 8, "loc_database_write_countries.header");
		CHECK((uint64_t)offset == v_pos && v_pos % 4096 == 0 && v_pos >= start + v_count * 8, "loc_database_write_countries.offset");
		CHECK(v_record == v_count, "loc_database_write_countries.all");
		if (v_watch < v_count)
			CHECK(v_record_pos == start + v_watch * 8 && v_record_data[0] == v_watch && v_record_data[1] == ~v_watch, "loc_database_write_countries.records");
		REACH("written");
	}
	if (!v_failed && !v_nomem)
		CHECK(r == 0, "loc_database_write_countries.succeeds");
	REACH("end");
#endif
}
#endif
#endif
#ifdef ALIGN
//@ target h_align fn=align_page_boundary defs=V_TYPED_CALLOC,ALIGN
void h_align(void) {
#ifdef __CPROVER__
	uint64_t start;
	__CPROVER_assume(start > 0 && start < (uint64_t)1 << 40);
	v_start = v_pos = start;
	v_offset = start;
	v_size = (start + 4095) / 4096 * 4096;
	align_page_boundary(&v_offset, &v_output);
	CHECK((uint64_t)v_offset == v_pos, "align_page_boundary.offset");
	CHECK(v_failed || v_pos == v_size, "align_page_boundary.boundary");
	if (v_failed)
		REACH("failed");
	else if (v_calls > 2)
		REACH("written");
	if (v_start % 4096 == 0)
		CHECK(v_calls == 0, "align_page_boundary.nothing-to-do");
	REACH("end");
#endif
}
#endif
#ifdef NETWORKS
/*
	The network tree: up to seven nodes in three levels, of which every combination may be present
	or have a network. What has been written is read again like the reader does.
*/
#ifndef V_NODES
#define V_NODES 7
#endif
static bool v_there[V_NODES], v_leaf[V_NODES];
static int v_refs[V_NODES], v_network_refs[V_NODES];
static char v_node[V_NODES], v_network[V_NODES];
static uint32_t v_tree[V_NODES][3], v_data[V_NODES][3];
static unsigned int v_tree_count, v_data_count;
static bool v_cleaned, v_cleanup_failed;
static uint64_t v_tree_start, v_data_start;
#ifdef __CPROVER__
#define ID(n) ((unsigned int)__CPROVER_POINTER_OFFSET(n))
int loc_network_tree_cleanup(struct loc_network_tree* tree) {
	CHECK(v_tree_count == 0, "loc_network_tree_cleanup.before");
	__CPROVER_bool fail;
	v_cleaned = true;
	v_cleanup_failed = fail;
	return fail;
}
struct loc_network_tree_node* loc_network_tree_node_ref(struct loc_network_tree_node* n) { v_refs[ID(n)]++; return n; }
struct loc_network_tree_node* loc_network_tree_node_unref(struct loc_network_tree_node* n) {
	CHECK(--v_refs[ID(n)] >= 0, "loc_network_tree_node_unref.precondition");
	return NULL;
}
struct loc_network_tree_node* loc_network_tree_get_root(struct loc_network_tree* tree) {
	CHECK(v_cleaned, "loc_database_write_networks.cleanup");
	return loc_network_tree_node_ref((struct loc_network_tree_node*)v_node);
}
struct loc_network_tree_node* loc_network_tree_node_get(struct loc_network_tree_node* n, unsigned int i) {
	unsigned int child = 2 * ID(n) + 1 + i;
	if (child >= V_NODES || !v_there[child])
		return NULL;
	return loc_network_tree_node_ref((struct loc_network_tree_node*)(v_node + child));
}
int loc_network_tree_node_is_leaf(struct loc_network_tree_node* n) { return v_leaf[ID(n)]; }
struct loc_network* loc_network_ref(struct loc_network* n) { v_network_refs[ID(n)]++; return n; }
struct loc_network* loc_network_unref(struct loc_network* n) {
	CHECK(--v_network_refs[ID(n)] >= 0, "loc_network_unref.precondition");
	return NULL;
}
struct loc_network* loc_network_tree_node_get_network(struct loc_network_tree_node* n) {
	return loc_network_ref((struct loc_network*)(v_network + ID(n)));
}
int loc_network_to_database_v1(struct loc_network* n, struct loc_database_network_v1* record) {
	((uint32_t*)record)[0] = ID(n);
	((uint32_t*)record)[1] = ~ID(n);
	((uint32_t*)record)[2] = 0;
	return 0;
}
size_t fwrite(const void* p, size_t size, size_t n, FILE* f) {
	size_t length = size * n;
	__CPROVER_assert(f == &v_output && __CPROVER_r_ok(p, length), "fwrite: readable");
	if (v_failed || v_fail()) {
		v_sticky = true;
		size_t less;
		__CPROVER_assume(less < n);
		v_advance(less);
		return less;
	}
	SHAPE(size == 1 && length == 12, "one record at a time");
	const uint32_t* w = p;
	/* The tree comes first */
	if (v_data_start == 0) {
		CHECK(v_tree_count < V_NODES, "loc_database_write_networks.nodes");
		for (int i = 0; i < 3; i++)
			v_tree[v_tree_count][i] = be32toh(w[i]);
		v_tree_count++;
	} else {
		CHECK(v_data_count < V_NODES, "loc_database_write_networks.networks");
		for (int i = 0; i < 3; i++)
			v_data[v_data_count][i] = w[i];
		v_data_count++;
	}
	v_advance(length);
	return n;
}
void v_align(off_t* offset, FILE* f) {
	CHECK(f == &v_output && (v_failed || (uint64_t)*offset == v_pos), "align_page_boundary.precondition");
	if (v_failed || v_fail()) {
		v_sticky = true;
		if (!v_data_start)
			v_data_start = 1;
		return;
	}
	uint64_t n = (4096 - *offset % 4096) % 4096;
	*offset += n;
	v_advance(n);
	if (!v_data_start)
		v_data_start = v_pos;
}
#endif
//@ target h_networks_memory name=h_networks prop=C19,C22 fn=loc_database_write_networks defs=V_TYPED_CALLOC,NETWORKS,V_NODES=3 stub=align_page_boundary:v_align,hexdump:v_hexdump malloc=fail leak=1 unwind=9 deps=align_page_boundary,loc_network_to_database_v1 level=bounded bound="trees with up to three nodes" assume="the helpers of loc_network_tree_node return the children and the network of a node"
//@ target h_networks prop=C19,C11 fn=loc_database_write_networks defs=V_TYPED_CALLOC,NETWORKS stub=align_page_boundary:v_align,hexdump:v_hexdump unwind=9 deps=align_page_boundary,loc_network_to_database_v1 level=bounded bound="trees with up to seven nodes in three levels" assume="the helpers of loc_network_tree_node return the children and the network of a node"
void h_networks(void) {
#ifdef __CPROVER__
	uint64_t start;
	__CPROVER_assume(start >= 8192 && start < (uint64_t)1 << 31);
	off_t offset = start;
	v_pos = v_size = v_tree_start = start;
	v_writer.ctx = v_ctx();
	v_there[0] = true;
	for (unsigned int i = 0; i < V_NODES; i++) {
		__CPROVER_bool there, leaf;
		if (i)
			v_there[i] = there && v_there[(i - 1) / 2];
		v_leaf[i] = leaf && v_there[i];
	}
	struct loc_database_header_v1 header;
	int r = loc_database_write_networks(&v_writer, &header, &offset, &v_output);
	for (unsigned int i = 0; i < V_NODES; i++)
		CHECK(v_refs[i] == 0 && v_network_refs[i] == 0, "loc_database_write_networks.releases");
	CHECK(!v_cleanup_failed || r != 0, "loc_database_write_networks.cleanup-failed");
	CHECK(!v_failed || v_sticky, "loc_database_write_networks.error");
	if (r == 0 && !v_failed) {
		CHECK((uint64_t)offset == v_pos && v_pos % 4096 == 0, "loc_database_write_networks.offset");
		CHECK(be32toh(header.network_tree_offset) == start && be32toh(header.network_tree_length) == 12 * v_tree_count, "loc_database_write_networks.tree-header");
		CHECK(be32toh(header.network_data_offset) == v_data_start && be32toh(header.network_data_length) == 12 * v_data_count, "loc_database_write_networks.data-header");
		CHECK(v_data_start >= start + 12 * v_tree_count && v_pos >= v_data_start + 12 * v_data_count, "loc_database_write_networks.sections");
		/* Read it again */
		uint32_t at[V_NODES] = { 0 };
		unsigned int nodes = 0, networks = 0;
		for (unsigned int i = 0; i < V_NODES; i++) {
			if (!v_there[i])
				continue;
			nodes++;
			uint32_t k = at[i];
			CHECK(k < v_tree_count && (k == 0) == (i == 0), "loc_database_write_networks.node");
			for (unsigned int j = 0; j < 2; j++) {
				unsigned int child = 2 * i + 1 + j;
				bool has = child < V_NODES && v_there[child];
				CHECK((v_tree[k][j] != 0) == has, "loc_database_write_networks.child");
				if (has)
					at[child] = v_tree[k][j];
			}
			CHECK((v_tree[k][2] != 0xffffffff) == v_leaf[i], "loc_database_write_networks.leaf");
			if (v_leaf[i]) {
				uint32_t n = v_tree[k][2];
				networks++;
				CHECK(n < v_data_count && v_data[n][0] == i && v_data[n][1] == ~i && v_data[n][2] == 0, "loc_database_write_networks.network");
			}
		}
		CHECK(nodes == v_tree_count && networks == v_data_count, "loc_database_write_networks.all");
		if (nodes == V_NODES && networks == V_NODES)
			REACH("a full tree");
		REACH("written");
	} else
		REACH("failed");
	REACH("end");
#endif
}
#endif
#ifdef WHOLE
/*
	The whole, against the contracts of the sections (above), the string pool and the signatures
	(in u_sign.c).
*/
#ifdef __CPROVER__
static time_t v_now;
static uint32_t v_section[5][2];	/* ASes, nodes, networks, countries, pool */
static unsigned int v_sections, v_signed;
static bool v_magic, v_header_written, v_has_key[2], v_section_failed;
static size_t v_i;			/* any byte of the signatures */
static char v_signature_byte[2];
static size_t v_signature_length[2];
time_t time(time_t* t) { return v_now; }

static void v_check_header(const struct loc_database_header_v1* h) {
	CHECK(be32toh(h->vendor) == v_writer.vendor && be32toh(h->description) == v_writer.description && be32toh(h->license) == v_writer.license, "loc_writer_write.header-strings");
	CHECK(be64toh(h->created_at) == v_now, "loc_writer_write.header-time");
	CHECK(be32toh(h->as_offset) == v_section[0][0] && be32toh(h->as_length) == v_section[0][1], "loc_writer_write.header-as");
	CHECK(be32toh(h->network_tree_offset) == v_section[1][0] && be32toh(h->network_tree_length) == v_section[1][1], "loc_writer_write.header-tree");
	CHECK(be32toh(h->network_data_offset) == v_section[2][0] && be32toh(h->network_data_length) == v_section[2][1], "loc_writer_write.header-networks");
	CHECK(be32toh(h->countries_offset) == v_section[3][0] && be32toh(h->countries_length) == v_section[3][1], "loc_writer_write.header-countries");
	CHECK(be32toh(h->pool_offset) == v_section[4][0] && be32toh(h->pool_length) == v_section[4][1], "loc_writer_write.header-pool");
	CHECK(h->padding[v_i % 32] == 0, "loc_writer_write.header-padding");
}
size_t fwrite(const void* p, size_t size, size_t n, FILE* f) {
	size_t length = size * n;
	__CPROVER_assert(f == &v_output && __CPROVER_r_ok(p, length), "fwrite: readable");
	if (length == 8) {
		const char* m = p;
		CHECK(v_pos == 0 && m[0] == 'L' && m[1] == 'O' && m[2] == 'C' && m[3] == 'D' && m[4] == 'B' && m[5] == 'X' && m[6] == 'X' && m[7] == 1, "loc_writer_write.magic");
		v_magic = true;
	} else if (length == sizeof(struct loc_database_header_v1)) {
		const struct loc_database_header_v1* h = p;
		CHECK(v_pos == F_CREATED && v_sections == 31, "loc_writer_write.header-last");
		v_check_header(h);
		CHECK(be16toh(h->signature1_length) == (v_has_key[0] ? v_signature_length[0] : 0), "loc_writer_write.length1");
		CHECK(be16toh(h->signature2_length) == (v_has_key[1] ? v_signature_length[1] : 0), "loc_writer_write.length2");
		CHECK(h->signature1[v_i] == (v_has_key[0] && v_i < v_signature_length[0] ? v_signature_byte[0] : 0), "loc_writer_write.signature1");
		CHECK(h->signature2[v_i] == (v_has_key[1] && v_i < v_signature_length[1] ? v_signature_byte[1] : 0), "loc_writer_write.signature2");
		v_header_written = true;
	} else
		SHAPE(0, "magic and header");
	if (v_fail()) {
		v_sticky = true;
		size_t less;
		__CPROVER_assume(less < n);
		v_advance(less);
		return less;
	}
	v_advance(length);
	return n;
}
void* v_memcpy(void* d, const void* s, size_t n) {
	__CPROVER_assert(n == 0 || (__CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n)), "memcpy: in bounds");
	if (v_i < n)
		((char*)d)[v_i] = ((const char*)s)[v_i];
	return d;
}
void v_align(off_t* offset, FILE* f) {
	CHECK(f == &v_output && (v_failed || (uint64_t)*offset == v_pos), "align_page_boundary.precondition");
	if (v_fail()) {
		v_sticky = true;
		return;
	}
	uint64_t n = (4096 - *offset % 4096) % 4096;
	*offset += n;
	v_advance(n);
}
static uint32_t v_some(unsigned int i, off_t* offset) {
	uint32_t length;
	__CPROVER_assume(length < 1 << 28);
	if (v_fail()) {
		v_sticky = true;
		/* Anything may have been written */
		off_t o;
		__CPROVER_assume(o >= 0 && o < (off_t)1 << 40);
		*offset = o;
	} else {
		CHECK(v_failed || ((uint64_t)*offset == v_pos && v_pos >= 8192), "loc_writer_write.sections");
		v_section[i][0] = *offset;
		v_section[i][1] = length;
		v_advance(length);
		*offset += length;
		if (i < 4)
			v_align(offset, &v_output);
	}
	v_sections |= 1 << i;
	return length;
}
int v_write_as(struct loc_writer* writer, struct loc_database_header_v1* header, off_t* offset, FILE* f) {
	__CPROVER_bool fail;
	if (fail) {
		v_section_failed = true;
		return 1;
	}
	v_some(0, offset);
	header->as_offset = htobe32(v_section[0][0]);
	header->as_length = htobe32(v_section[0][1]);
	return 0;
}
int v_write_networks(struct loc_writer* writer, struct loc_database_header_v1* header, off_t* offset, FILE* f) {
	__CPROVER_bool fail;
	if (fail) {
		v_section_failed = true;
		return 1;
	}
	v_some(1, offset);
	v_some(2, offset);
	header->network_tree_offset = htobe32(v_section[1][0]);
	header->network_tree_length = htobe32(v_section[1][1]);
	header->network_data_offset = htobe32(v_section[2][0]);
	header->network_data_length = htobe32(v_section[2][1]);
	return 0;
}
int v_write_countries(struct loc_writer* writer, struct loc_database_header_v1* header, off_t* offset, FILE* f) {
	__CPROVER_bool fail;
	if (fail) {
		v_section_failed = true;
		return 1;
	}
	v_some(3, offset);
	header->countries_offset = htobe32(v_section[3][0]);
	header->countries_length = htobe32(v_section[3][1]);
	return 0;
}
size_t loc_stringpool_write(struct loc_stringpool* pool, FILE* f) {
	CHECK(pool == v_writer.pool && f == &v_output, "loc_stringpool_write.precondition");
	CHECK((v_sections & 0xb) == 0xb, "loc_database_write_pool.after-everything-that-adds-strings");
	off_t offset = v_pos;
	return v_some(4, &offset);
}
int v_create_signature(struct loc_writer* writer, struct loc_database_header_v1* header, FILE* f, EVP_PKEY* key, char* signature, size_t* length) {
	int i = key == writer->private_key1 ? 0 : 1;
	CHECK(key == (i ? writer->private_key2 : writer->private_key1), "loc_writer_create_signature.key");
	CHECK(!v_failed && v_flushed && v_sections == 31 && v_magic, "loc_writer_create_signature.after-everything-has-been-written");
	CHECK(header->signature1_length == 0 && header->signature2_length == 0 && header->signature1[v_i] == 0 && header->signature2[v_i] == 0, "loc_writer_create_signature.header-without-signatures");
	v_check_header(header);
	CHECK(*length == LOC_SIGNATURE_MAX_LENGTH && __CPROVER_w_ok(signature, *length), "loc_writer_create_signature.buffer");
	if (v_fail())
		return -1;
	size_t n; char byte;
	__CPROVER_assume(n > 0 && n <= LOC_SIGNATURE_MAX_LENGTH);
	*length = v_signature_length[i] = n;
	signature[v_i] = v_signature_byte[i] = byte;
	/* The stream is at its end now */
	v_pos = v_size;
	return 0;
}
#endif
//@ target h_write prop=C19,C11,C18 fn=loc_writer_write,loc_database_write_pool,make_magic defs=V_TYPED_CALLOC,WHOLE stub=align_page_boundary:v_align,hexdump:v_hexdump,memcpy:v_memcpy,loc_database_write_as_section:v_write_as,loc_database_write_networks:v_write_networks,loc_database_write_countries:v_write_countries,loc_writer_create_signature:v_create_signature unwind=12 deps=align_page_boundary,loc_database_write_as_section,loc_database_write_networks,loc_database_write_countries,loc_writer_create_signature assume="a write that fails sets the error indicator of the stream; less than 1 GiB per database; fwrite() of the string pool returns the number of bytes written"
void h_write(void) {
#ifdef __CPROVER__
	off_t vendor, description, license; time_t now; size_t i;
	__CPROVER_assume(vendor >= 0 && vendor < (off_t)1 << 32 && description >= 0 && description < (off_t)1 << 32 && license >= 0 && license < (off_t)1 << 32 && i < 2048 && now >= 0);
	v_now = now; v_i = i;
	v_writer.ctx = v_ctx();
	v_writer.pool = (struct loc_stringpool*)&v_now;
	v_writer.vendor = vendor; v_writer.description = description; v_writer.license = license;
	static char keys[2];
	__CPROVER_bool key1, key2;
	v_has_key[0] = key1; v_has_key[1] = key2;
	v_writer.private_key1 = key1 ? (EVP_PKEY*)&keys[0] : NULL;
	v_writer.private_key2 = key2 ? (EVP_PKEY*)&keys[1] : NULL;
	/* Anything may have been in the file before */
	uint64_t pos, size;
	__CPROVER_assume(pos <= size && size < (uint64_t)1 << 30);
	v_pos = pos;
	unsigned int version;
	__CPROVER_assume(version <= 2);
	int r = loc_writer_write(&v_writer, &v_output, version);
	if (version == 2)
		CHECK(r != 0 && v_pos == pos, "loc_writer_write.unknown-version");
	else {
		CHECK((r == 0) == (!v_failed && !v_section_failed), "loc_writer_write.any-error-is-a-failure");
		if (r == 0) {
			CHECK(v_magic && v_header_written && v_sections == 31 && v_flushed, "loc_writer_write.everything");
			REACH("written");
			if (key1 && key2)
				REACH("signed twice");
		}
	}
	REACH("end");
#endif
}
#endif

#ifdef NATIVE_FAULTS
/*
	Real files: with any one write or seek failing, writing fails; otherwise the file has everything in it
*/
#define __USE_GNU 1
static uint8_t v_data[1 << 20];
static size_t v_length, v_at;
static int v_operations, v_fault_at;
static bool v_fault;
static bool v_hit(void) {
	if (v_operations++ == v_fault_at)
		v_fault = true;
	return v_fault && v_operations - 1 == v_fault_at;
}
static ssize_t v_cookie_write(void* c, const char* p, size_t n) {
	if (v_hit())
		return 0;
	ASSUME(v_at + n <= sizeof(v_data));
	memcpy(v_data + v_at, p, n);
	v_at += n;
	if (v_at > v_length)
		v_length = v_at;
	return n;
}
static ssize_t v_cookie_read(void* c, char* p, size_t n) {
	if (v_at >= v_length)
		return 0;
	if (n > v_length - v_at)
		n = v_length - v_at;
	memcpy(p, v_data + v_at, n);
	v_at += n;
	return n;
}
static int v_cookie_seek(void* c, off64_t* o, int whence) {
	if (v_hit())
		return -1;
	int64_t at = whence == SEEK_SET ? *o : whence == SEEK_CUR ? (int64_t)v_at + *o : (int64_t)v_length + *o;
	v_at = *o = at;
	return 0;
}
static uint32_t v_be(size_t o) { return (uint32_t)v_data[o] << 24 | v_data[o + 1] << 16 | v_data[o + 2] << 8 | v_data[o + 3]; }
static const char* v_text(size_t o) {
	CHECK(o < v_be(F_POOL_LENGTH), "loc_writer_write.string-offset");
	return (char*)v_data + v_be(F_POOL_OFFSET) + o;
}
#include <libloc/database.h>
#include <time.h>
#include <arpa/inet.h>
void h_faults(void) {
	IN_U64(seed); IN_RANGE(ases, 0, 40); IN_RANGE(nets, 0, 12); IN_RANGE(countries, 0, 6); IN_RANGE(fault, 0, 40);
	#define NEXT() (seed = seed * 6364136223846793005ull + 1442695040888963407ull, (uint32_t)(seed >> 33))
	bool faults = NEXT() & 1;
	struct loc_writer* w = NULL;
	bool sign = !(NEXT() & 7);
	static EVP_PKEY* key;
	FILE* kf = NULL;
	if (sign) {
		if (!key)
			key = EVP_PKEY_Q_keygen(NULL, NULL, "EC", "P-256");
		kf = tmpfile();
		PEM_write_PrivateKey(kf, key, NULL, NULL, 0, NULL, NULL);
		rewind(kf);
	}
	ASSUME(loc_writer_new(v_ctx(), &w, kf, NULL) == 0);
	loc_writer_set_vendor(w, "Vendor"); loc_writer_set_description(w, "Description"); loc_writer_set_license(w, "License");
	uint32_t numbers[64]; char names[64][16]; unsigned int n = 0;
	for (unsigned int i = 0; i < ases; i++) {
		uint32_t number = NEXT() & 63 ? NEXT() % 100 : NEXT() * 2u;
		struct loc_as* as = NULL;
		ASSUME(loc_writer_add_as(w, &as, number) == 0);
		bool known = false;
		for (unsigned int j = 0; j < n; j++)
			known |= numbers[j] == number;
		char name[16];
		snprintf(name, sizeof(name), "N%u", NEXT() % 30);
		loc_as_set_name(as, name);
		if (!known) {
			numbers[n] = number;
			strcpy(names[n++], name);
		}
		loc_as_unref(as);
	}
	static const char* const codes[] = { "AT", "BE", "CH", "DE", "FR", "GB" };
	unsigned int used = 0;
	for (unsigned int i = 0; i < countries; i++) {
		unsigned int k = NEXT() % 6;
		struct loc_country* c = NULL;
		if (used & 1 << k)
			continue;
		used |= 1 << k;
		ASSUME(loc_writer_add_country(w, &c, codes[k]) == 0);
		loc_country_set_name(c, codes[5 - k]);
		loc_country_set_continent_code(c, "EU");
		loc_country_unref(c);
	}
	struct { uint8_t a[16]; unsigned int prefix; uint32_t asn; } net[12];
	for (unsigned int i = 0; i < nets; i++) {
		char text[64], address[INET6_ADDRSTRLEN];
		memset(&net[i], 0, sizeof(net[i]));
		/* Disjoint networks which cannot be merged */
		net[i].a[0] = 0x20; net[i].a[1] = 4 * i; net[i].a[2] = NEXT();
		net[i].prefix = 24 + NEXT() % 40;
		net[i].asn = 1 + i;
		inet_ntop(AF_INET6, net[i].a, address, sizeof(address));
		snprintf(text, sizeof(text), "%s/%u", address, net[i].prefix);
		struct loc_network* network = NULL;
		ASSUME(loc_writer_add_network(w, &network, text) == 0);
		loc_network_set_asn(network, net[i].asn);
		loc_network_set_country_code(network, codes[i % 6]);
		loc_network_unref(network);
	}
	memset(v_data, 0xaa, sizeof(v_data));
	v_length = v_at = v_operations = 0;
	v_fault = false;
	v_fault_at = faults ? fault : -1;
	FILE* f = fopencookie(NULL, "w+", (cookie_io_functions_t){ v_cookie_read, v_cookie_write, v_cookie_seek, NULL });
	static char buffer[65536];
	setvbuf(f, buffer, _IOFBF, 16 << NEXT() % 12);
	time_t before = time(NULL);
	int r = loc_writer_write(w, f, LOC_DATABASE_VERSION_UNSET);
	time_t after = time(NULL);
	bool failed = v_fault;
	v_fault_at = -1;
	fclose(f);
	loc_writer_unref(w);
	if (kf) fclose(kf);
	if (!failed)
		CHECK(r == 0, "loc_writer_write.succeeds");
	if (r == 0) {
		CHECK(memcmp(v_data, "LOCDBXX\1", 8) == 0, "loc_writer_write.magic");
		uint64_t created = (uint64_t)v_be(F_CREATED) << 32 | v_be(F_CREATED + 4);
		CHECK(created >= (uint64_t)before && created <= (uint64_t)after, "loc_writer_write.header-time");
		for (int i = 0; i < 5; i++) {
			uint64_t end = (uint64_t)v_be(F_AS_OFFSET + 8 * i) + v_be(F_AS_OFFSET + 8 * i + 4);
			CHECK(v_be(F_AS_OFFSET + 8 * i) >= F_END && end <= v_length, "loc_writer_write.section");
		}
		CHECK(!strcmp(v_text(v_be(F_VENDOR)), "Vendor") && !strcmp(v_text(v_be(F_DESCRIPTION)), "Description") && !strcmp(v_text(v_be(F_LICENSE)), "License"), "loc_writer_write.header-strings");
		size_t o = v_be(F_AS_OFFSET);
		CHECK(v_be(F_AS_LENGTH) == 8 * n, "loc_writer_write.ases");
		for (unsigned int i = 0; i < n; i++, o += 8) {
			if (i)
				CHECK(v_be(o - 8) < v_be(o), "loc_writer_write.as-sorted");
			bool found = false;
			for (unsigned int j = 0; j < n; j++)
				if (numbers[j] == v_be(o)) {
					found = true;
					CHECK(!strcmp(v_text(v_be(o + 4)), names[j]), "loc_writer_write.as-name");
				}
			CHECK(found, "loc_writer_write.as");
		}
		o = v_be(F_COUNTRY_OFFSET);
		CHECK(v_be(F_COUNTRY_LENGTH) == 8 * __builtin_popcount(used), "loc_writer_write.countries");
		for (int k = 0; k < 6; k++)
			if (used & 1 << k) {
				CHECK(!memcmp(v_data + o, codes[k], 2) && !memcmp(v_data + o + 2, "EU", 2) && !strcmp(v_text(v_be(o + 4)), codes[5 - k]), "loc_writer_write.country");
				o += 8;
			}
		CHECK(v_be(F_NETWORK_LENGTH) == 12 * nets, "loc_writer_write.networks");
		for (unsigned int i = 0; i < nets; i++) {
			uint32_t node = 0;
			for (unsigned int b = 0; b < net[i].prefix; b++) {
				o = v_be(F_TREE_OFFSET) + 12 * node;
				node = v_be(o + (net[i].a[b / 8] >> (7 - b % 8) & 1 ? 4 : 0));
				CHECK(node && 12 * node < v_be(F_TREE_LENGTH), "loc_writer_write.path");
			}
			uint32_t k = v_be(v_be(F_TREE_OFFSET) + 12 * node + 8);
			CHECK(k < nets, "loc_writer_write.network");
			o = v_be(F_NETWORK_OFFSET) + 12 * k;
			CHECK(!memcmp(v_data + o, codes[i % 6], 2) && v_be(o + 4) == net[i].asn, "loc_writer_write.network-data");
		}
	}
	if (failed)
		CHECK(r != 0, "loc_writer_write.any-error-is-a-failure");
	REACH("end");
}
#endif
