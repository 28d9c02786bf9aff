/*
	Database files as inputs. Symbolic mode: the file is one object in memory and
	stdio/mmap are modelled on top of it. Natively it is a real (temporary) file.
*/
#ifndef DB_INPUTS_H
#define DB_INPUTS_H
#include "verif.h"
#include "models.h"
#include <stdio.h>
#include <sys/mman.h>
#include <unistd.h>
#include <libloc/database.h>
#include <libloc/format.h>

#if defined(V_FILE_WORDS) && defined(__CPROVER__)
/* A file of a fixed size, the verifier keeps track of every word */
static uint32_t v_words[V_FILE_WORDS];
static uint8_t* v_file = (uint8_t*)v_words;
#else
#undef V_FILE_WORDS
static uint8_t* v_file;
#endif
static size_t v_file_len;

static inline void v_put8(size_t o, uint8_t v) { v_file[o] = v; }
static inline void v_put16(size_t o, uint16_t v) { v_file[o] = v >> 8; v_file[o + 1] = v; }
static inline void v_put32(size_t o, uint32_t v) {
#ifdef V_FILE_WORDS
	v_words[o / 4] = __builtin_bswap32(v);
#else
	v_put16(o, v >> 16); v_put16(o + 2, v);
#endif
}
static inline uint16_t v_get16(size_t o) { return (uint16_t)v_file[o] << 8 | v_file[o + 1]; }
static inline uint32_t v_get32(size_t o) { return (uint32_t)v_get16(o) << 16 | v_get16(o + 2); }
static inline uint64_t v_get64(size_t o) { return (uint64_t)v_get32(o) << 32 | v_get32(o + 4); }

/* The format of the file, from the documentation of the format (not from the code) */
enum {
	F_VERSION = 7, F_CREATED = 8, F_VENDOR = 16, F_DESCRIPTION = 20, F_LICENSE = 24,
	F_AS_OFFSET = 28, F_AS_LENGTH = 32, F_NETWORK_OFFSET = 36, F_NETWORK_LENGTH = 40,
	F_TREE_OFFSET = 44, F_TREE_LENGTH = 48, F_COUNTRY_OFFSET = 52, F_COUNTRY_LENGTH = 56,
	F_POOL_OFFSET = 60, F_POOL_LENGTH = 64, F_SIG1_LENGTH = 68, F_SIG2_LENGTH = 70,
	F_SIG1 = 72, F_SIG2 = 72 + 2048, F_PADDING = 72 + 4096, F_HEADER_END = 72 + 4096 + 32,
	/* the header has the alignment of its 64 bit timestamp */
	F_END = F_HEADER_END,
};

static inline void v_put_magic(uint8_t version) {
	v_put8(0, 'L'); v_put8(1, 'O'); v_put8(2, 'C'); v_put8(3, 'D'); v_put8(4, 'B'); v_put8(5, 'X'); v_put8(6, 'X');
	v_put8(7, version);
}

static inline void v_put_node(size_t tree, unsigned int i, uint32_t zero, uint32_t one, uint32_t network) {
	v_put32(tree + 12 * i, zero);
	v_put32(tree + 12 * i + 4, one);
	v_put32(tree + 12 * i + 8, network);
}

static inline void v_put_network(size_t data, unsigned int i, uint16_t cc, uint32_t asn, uint16_t flags) {
	v_put32(data + 12 * i, (uint32_t)cc << 16);
	v_put32(data + 12 * i + 4, asn);
	v_put32(data + 12 * i + 8, (uint32_t)flags << 16);
}

#ifdef __CPROVER__
/* An address that is different from all others */
static char v_map_failed;
#undef MAP_FAILED
#define MAP_FAILED ((void*)&v_map_failed)
static size_t v_file_pos;
static FILE v_FILE;
int v_open_handles, v_mappings;

#ifndef MODEL_NO_STDIO
int fileno(FILE* f) { return 3; }
int dup(int fd) { v_open_handles++; return 4; }
FILE* fdopen(int fd, const char* mode) { return &v_FILE; }
int fclose(FILE* f) { v_open_handles--; return 0; }
void rewind(FILE* f) { v_file_pos = 0; }
size_t fread(void* p, size_t size, size_t n, FILE* f) {
	size_t length = size * n;
	if (length > v_file_len - v_file_pos)
		length = v_file_len - v_file_pos;
	__CPROVER_assert(__CPROVER_w_ok(p, size * n), "fread: buffer is writable");
	for (size_t i = 0; i < length; i++)
		((uint8_t*)p)[i] = v_file[v_file_pos + i];
	v_file_pos += length;
	return length / size;
}
#endif
off_t lseek(int fd, off_t offset, int whence) { return v_file_len; }
void* mmap(void* p, size_t length, int prot, int flags, int fd, off_t offset) {
	if (length == 0)
		return MAP_FAILED;
	__CPROVER_assert(length == v_file_len && offset == 0 && fd == 3, "mmap: the whole file");
	v_mappings++;
	return v_file;
}
int munmap(void* p, size_t length) {
	__CPROVER_assert(p == v_file && length == v_file_len, "munmap: the whole file");
	v_mappings--;
	return 0;
}
int madvise(void* p, size_t length, int advice) { return 0; }

#ifndef MODEL_NO_STRDUP
/* Strings in the file have to end before the file does. There is a zero byte at v_string_end */
static size_t v_string_end;
static const char* v_duplicated;
char* strdup(const char* s) {
	if (__CPROVER_POINTER_OBJECT(s) == __CPROVER_POINTER_OBJECT(v_file)) {
		size_t offset = __CPROVER_POINTER_OFFSET(s);
		__CPROVER_assert(offset <= v_string_end && v_string_end < v_file_len && !v_file[v_string_end], "strdup: the string ends before the file ends");
	}
	v_duplicated = s;
	char* p = malloc(2);
	if (p) {
		p[0] = '?';
		p[1] = 0;
	}
	return p;
}
#define V_IS_COPY(p, o) (v_duplicated == (const char*)v_file + (o))
#endif

/* Does not write anything that matters, but reads everything */
void v_hexdump(struct loc_ctx* ctx, const void* p, size_t length) {
	__CPROVER_assert(length == 0 || __CPROVER_r_ok(p, length), "hexdump: readable");
}
static inline void v_file_new(size_t length, uint64_t seed) {
#ifdef V_FILE_WORDS
	v_file = (uint8_t*)v_words;
#else
	v_file = malloc(length);
#endif
	v_file_len = length;
}
static inline FILE* v_file_handle(void) { return &v_FILE; }
#else
#include <sys/stat.h>
static size_t v_string_end;
#define V_IS_COPY(p, o) (strcmp(p, (const char*)v_file + (o)) == 0)
static FILE* v_FILE;
static inline void v_file_new(size_t length, uint64_t seed) {
	ASSUME(length < 1 << 20);
	free(v_file);
	v_file = malloc(length ? length : 1);
	v_file_len = length;
	for (size_t i = 0; i < length; i++) {
		seed = seed * 6364136223846793005ull + 1442695040888963407ull;
		uint8_t r = seed >> 56;
		v_file[i] = (r & 3) == 0 ? seed >> 48 : (r & 3) == 1 ? (seed >> 48) & 7 : (r & 3) == 2 ? 0 : 0xff;
	}
}
static inline FILE* v_file_handle(void) {
	if (v_FILE)
		fclose(v_FILE);
	v_FILE = fdopen(memfd_create("verif", 0), "w+");
	fwrite(v_file, 1, v_file_len, v_FILE);
	fflush(v_FILE);
	rewind(v_FILE);
	return v_FILE;
}
#endif
#endif
