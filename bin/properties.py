#!/usr/bin/python3
"""Writes properties.jsonl and MANIFEST.json: python3 bin/properties.py (run by hand when a property changes)"""
import glob, json, os, re, shlex
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe=(), note=None, na=None):
	P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, observe=observe, note=note, na=na))

prop("C01", "Address arithmetic is exact",
	"Addresses behave like 128-bit numbers (IPv4 addresses being the ones in ::ffff:0:0/96): comparison is the numeric order, and/or/not, prefix masks, single bits and octets have their mathematical values, and the first or last address of a family is recognised as such. Incrementing or decrementing an address gives the next or previous one and leaves the last or first address of its family unchanged. The length of an address in bits is the position of its highest bit that is set (of the last 32 bits for IPv4).",
	["inputs"], "all 2^128 addresses, all prefixes and all bit positions",
	"The address helpers are only run on a few constants by test-address; every carry, word boundary and family boundary needs its own input.",
	["src/libloc/address.h"], [("address helpers", "src/libloc/address.h")], ["return values of the address helpers"])

prop("C02", "Networks are always in canonical form",
	"A network that is created from an address and a valid prefix covers exactly the addresses that share the first prefix bits with that address: its first address has no host bits, its last address has all of them, and its prefix is the one it has been created with. Its family is IPv4 if, and only if, the first address is in ::ffff:0:0/96. A prefix that is longer than the family allows is refused.",
	["inputs"], "all addresses with all prefixes",
	"Tests create about a dozen networks with host bits that are mostly zero.",
	["src/network.c"], [("loc_network_new", "src/network.c"), ("loc_prefix_to_bitmask", "src/libloc/address.h")], ["first/last address, prefix and family of a network"])

prop("C03", "Relations between networks agree with the sets of addresses",
	"For any two networks, 'matches address', 'overlaps' and 'is subnet of' say exactly what is true of the sets of addresses that they cover, and comparing two networks is a total order by first address and then by prefix. Comparing the properties of two networks finds them equal if, and only if, country code, AS number and flags are all the same.",
	["inputs"], "all pairs of networks, all addresses",
	"Relations are tested for a handful of pairs; wrong answers need specific pairs of prefixes, families or word boundaries.",
	["src/network.c"], [("loc_network_cmp, loc_network_overlaps, loc_network_is_subnet, loc_network_matches_address", "src/network.c")], ["return values of the relations"])

prop("C04", "Splitting and merging networks is exact",
	"Splitting a network yields its two halves in order, with the properties of the network; single addresses (and ::fffe:0:0/95, whose second half is the IPv4 address space) cannot be split. Merging two networks yields a network if, and only if, they are the lower and upper half of it and have the same properties, and then it covers exactly both and has their properties.",
	["inputs"], "all networks and all pairs of networks with any properties",
	"Only two or three splits and merges are tested.",
	["src/network.c"], [("loc_network_subnets, loc_network_merge", "src/network.c")], ["the networks which are returned"])

prop("C05", "Excluding subnets is exact",
	"Excluding a network from another one that properly contains it returns networks that do not overlap and cover every address of the larger network but none of the excluded one. Excluding all networks of a list of which at least one is a proper subnet does the same for all proper subnets in the list, which might be nested. (::fffe:0:0/95 cannot be split, so that networks below it cannot be excluded from a larger one, which is an error.)",
	["inputs"], "all pairs of networks, all lists of subnets (bounded length)",
	"Tests exclude one or two constant networks and compare the number of results.",
	["src/network.c", "src/network-list.c"], [("loc_network_exclude, loc_network_exclude_list", "src/network.c")], ["the list which is returned"])

prop("C06", "A network list is a sorted set",
	"After any sequence of pushes, a list of networks holds every network that has been pushed exactly once, in ascending order, and finds a network if, and only if, it has been pushed. Merging a list into another one yields the union, and nothing gets lost when the list grows. Popping returns the last element and removes it (popping the first one removes the first), and clearing it leaves it empty.",
	["inputs", "histories"], "all sequences of operations (bounded length) with any networks",
	"Tests push a few networks in one or two orders; a wrong index needs a certain order of operations.",
	["src/network-list.c"], [("loc_network_list_push, loc_network_list_find", "src/network-list.c")], ["the elements of a list"])

prop("C07", "Summarising a range of addresses is exact",
	"Summarising the range from a first to a last address of the same family returns networks in ascending order which do not overlap and cover exactly the addresses from first to last, except for IPv6 ranges that span the IPv4 addresses (::ffff:0:0/96). Ranges that end before they start, or which span both families, are refused.",
	["inputs"], "all pairs of addresses",
	"Tests summarise about six constant ranges; carries and the ends of the address space are not among them.",
	["src/network-list.c", "src/libloc/address.h"], [("loc_network_list_summarize", "src/network-list.c")], ["the list which is returned"])

prop("C08", "Bogons are exactly what no network with a country covers",
	"Enumerating the bogons of a database returns networks that do not overlap, in ascending order, and that cover exactly those addresses of each requested family which no network of the database with a country code covers, for every family in which there is such a network. This includes the addresses before the first and after the last network, and does not depend on how networks are nested. (Gaps between IPv6 networks which span ::ffff:0:0/96 are excepted.)",
	["inputs"], "all databases (bounded number of networks), any addresses",
	"No test compares the bogons with the database.",
	["src/database.c"], [("loc_database_enumerator_next_bogon", "src/database.c")], ["networks which are returned by the enumerator"])

prop("C09", "A lookup returns the longest match",
	"Looking up an address in a database returns the network with the longest prefix which is in the tree and contains that address, with the country code, AS number and flags of its record, and nothing if there is none. The network that is returned has the prefix at which it has been stored and the address is left unchanged.",
	["inputs"], "all addresses and all trees",
	"Tests look up a few addresses in two databases; falling back from a longer path to a shorter match needs a tree with the right shape.",
	["src/database.c"], [("loc_database_lookup, __loc_database_lookup", "src/database.c")], ["the network which is returned"])

prop("C10", "Any file can be opened and read without any memory errors",
	"A file is opened as a database if, and only if, it has the magic bytes, a known version, and all of its sections lie within the file with a string pool that is terminated. Whatever the bytes in such a file are, looking up addresses, fetching ASes, countries, networks and strings and enumerating it only access memory within the file, end, and return an error or a result that is in the file.",
	["inputs"], "all files of any length with any contents",
	"Tests only open databases that have been written correctly.",
	["src/database.c", "src/stringpool.c", "src/as.c", "src/country.c", "src/network.c"], [("loc_database_new, bounds checks on objects", "src/database.c")], ["return values and memory accesses"])

prop("C11", "What is written to a database is what is read back",
	"Networks, ASes and countries are stored in the documented byte format (big endian, two letters for country and continent codes, zero where there is none, unused bytes being zero) and reading such a record returns the same country code, AS number, flags, numbers, codes and names. The header of a written database has the vendor, description, license, time of creation and sections that belong to the data.",
	["inputs"], "all values of all fields",
	"Tests read back a few records; a field that is truncated or swapped needs certain values.",
	["src/network.c", "src/as.c", "src/country.c", "src/writer.c"], [("*_to_database_v1 / *_new_from_database_v1", "src/network.c, src/as.c, src/country.c"), ("loc_writer_write", "src/writer.c")], ["the bytes of the file"])

prop("C12", "Cleaning up the tree does not change the result for any address",
	"Before a database is written, redundant networks are removed and adjacent ones are merged. For every address, country code, AS number and flags of the longest match are the same before and after that, and an address without any match has none afterwards.",
	["inputs", "histories"], "all sets of networks (bounded number), all addresses",
	"Tests only compare the number of networks for a few trees; a wrong merge needs certain neighbours.",
	["src/network-tree.c", "src/writer.c"], [("loc_network_tree_cleanup, dedup, merge", "src/network-tree.c")], ["lookups in the written database"])

prop("C13", "Enumerating networks returns exactly those that match",
	"Enumerating the networks of a database returns every network in the tree which is of the family that has been asked for, if any, and which has one of the country codes, AS numbers or flags that have been asked for, if any, exactly once, with its properties, in ascending order, and no others, no matter how deep or wide the tree is. Enumerating ASes returns exactly those whose name contains the search string (without regard to case), and enumerating countries returns every country once.",
	["inputs", "configurations"], "trees of a bounded number of shapes up to 128 levels, all properties and filters",
	"Tests count the networks of one database with one or two filters.",
	["src/database.c", "src/as.c"], [("loc_database_enumerator_next_network, match functions", "src/database.c")], ["networks which are returned by the enumerator"])

prop("C14", "Flattened networks do not overlap and keep the coverage",
	"With flattening enabled, the networks that an enumerator returns do not overlap each other. Every address that a network of the database covers is covered by a network that is returned with the properties of the longest match of that address, and all other addresses are not.",
	["inputs"], "databases of a bounded size",
	"The test for flattening only counts networks.",
	["src/database.c"], [("loc_database_enumerator_next_network_flattened", "src/database.c")], ["networks which are returned by the enumerator"])

prop("C15", "ASes and countries are found if, and only if, they are in the database",
	"Looking up the number of an AS or the code of a country returns that record if it is in the database, no matter how many records there are and where it is, and nothing if it is not.",
	["inputs"], "databases with any number of sorted records, all keys",
	"Tests look up one or two records; off-by-one errors only show at the ends or for certain numbers of records.",
	["src/database.c", "src/writer.c"], [("loc_database_get_as, loc_database_get_country (binary search)", "src/database.c"), ("sorting before writing", "src/writer.c")], ["the object which is returned"])

prop("C16", "Only valid country codes and flags are accepted, and they are kept",
	"A network, country or filter only ever accepts country codes of two upper-case letters which do not start with X; everything else is refused and leaves the previous one in place. Country codes, AS numbers and flags of a network are what has been set last, flags are only ever added, and a network matches a country code if it has that code or, for the special codes A1, A2, A3 and XD, the flag these stand for.",
	["inputs"], "all strings, all numbers, all flags",
	"Tests use two or three codes.",
	["src/country.c", "src/network.c", "src/libloc/country.h"], [("loc_country_code_is_valid, loc_network_set_country_code, loc_network_matches_country_code", "src/country.c, src/network.c")], ["accessors"])

prop("C17", "The string pool keeps every string",
	"Every string that is added to a string pool can be read back unchanged at the position which has been returned, no matter how many strings of what length have been added before or are added later. Adding a (non-empty) string that is in the pool already returns its position and does not grow the pool; the size is the number of bytes that will be written.",
	["inputs", "histories"], "all sequences of strings (bounded number), any length",
	"Tests add strings that are short compared to the allocation.",
	["src/stringpool.c"], [("loc_stringpool_add, loc_stringpool_append, grow", "src/stringpool.c")], ["strings which are returned"])

prop("C18", "A signature covers the entire database and no forged one is accepted",
	"Creating and verifying a signature digests the same bytes: the magic and every byte of the file, with only both signatures and their lengths replaced by zeroes. A database verifies if, and only if, one of its (up to two) signatures is one that the cryptographic library accepts for these bytes and that key; a database without signatures never verifies and any error is a failure.",
	["inputs", "fault_sequences"], "all files, all results of the cryptographic library and of reading the file",
	"The test verifies one good database with two keys.",
	["src/database.c", "src/writer.c"], [("loc_database_verify", "src/database.c"), ("loc_writer_create_signature", "src/writer.c")], ["bytes given to the cryptographic library, return value"])

prop("C19", "Writing a database fails if anything could not be written",
	"When writing any part of the database to the file, flushing it or seeking in it fails or is incomplete, writing the database returns an error. If it returns success, every byte of every section has been written at the position that the header says.",
	["fault_sequences"], "a failure at any write, seek or flush",
	"Tests never make a write fail.",
	["src/writer.c", "src/stringpool.c"], [("loc_writer_write, loc_database_write_*", "src/writer.c")], ["return value of loc_writer_write"])

prop("C20", "Addresses and networks in text form are parsed and printed exactly",
	"A string is accepted as an address or network if, and only if, it is an address optionally followed by a slash and a decimal prefix which is valid for the family; the result is that address (IPv4 as ::ffff:a.b.c.d) and that prefix, or the longest one if none is given. Everything else is refused without reading beyond the string. Printing an address or network returns its address and prefix in that notation.",
	["inputs"], "all strings of up to a bounded length and all prefixes",
	"Tests parse about twenty strings.",
	["src/address.c", "src/network.c"], [("loc_address_parse, loc_address_str, loc_network_str", "src/address.c, src/network.c")], ["address and prefix which are returned"])

prop("C21", "Reverse pointers name the network",
	"The reverse pointer of an address or network contains its octets (IPv4) or nibbles (IPv6) in reverse order that the prefix covers, followed by the suffix that has been asked for or the one of the family; prefixes which are not on such a boundary are refused or return a wildcard for the part that is not covered.",
	["inputs"], "all networks and suffixes",
	"Tests check six constants.",
	["src/network.c", "src/libloc/address.h"], [("loc_network_reverse_pointer", "src/network.c")], ["the string which is returned"])

prop("C22", "Everything is released exactly once, also after errors",
	"For every operation that creates, reads or writes objects, and for every memory allocation in it that fails, the operation returns an error (or success) without crashing, and releases everything that it has allocated or referenced and not returned to the caller. When the caller drops the last reference to all objects, no memory, file or reference to the context is left.",
	["fault_sequences", "histories"], "a failure of any allocation in the operations listed in DESIGN.md",
	"Tests do not make allocations fail and do not check for leaks.",
	["src/network.c", "src/country.c", "src/as.c", "src/network-list.c", "src/network-tree.c", "src/database.c", "src/stringpool.c"], [("ref/unref functions and error paths", "src/*.c")], ["heap and reference counters"])

prop("C23", "Any DNS reply is parsed safely",
	"Whatever the reply to the query for the latest version of the database contains, it is parsed without accessing memory outside of it, and either a timestamp is returned that is in a TXT record of the reply or an error.",
	["inputs"], "all replies of any length up to the size of the buffer",
	"There is no test without network access.",
	["src/resolv.c"], [("loc_discover_latest_version", "src/resolv.c")], ["return value and memory accesses"])

prop("C24", "Lists of ASes and countries are sets that can be sorted",
	"A list of ASes or countries holds every element that has been appended once and in order, also when the list grows, and tells if, and only if, an element with the same number or code is in it. After sorting, it has the same elements in ascending order; clearing leaves it empty.",
	["inputs", "histories"], "all sequences of operations (bounded length)",
	"Tests append a few elements.",
	["src/as-list.c", "src/country-list.c"], [("loc_as_list_append/contains/sort, loc_country_list_*", "src/as-list.c, src/country-list.c")], ["the elements of a list"])

prop("C25", "Exported files contain exactly the networks asked for",
	"The Python exporter writes every network of the database which matches to the files of its country, AS or family in the format that has been asked for and no others.",
	["inputs"], "all databases and formats", "The exporter is only tested with one database.",
	["src/python/location/export.py"], [("Exporter", "src/python/location/export.py")],
	na="Python code. No deductive verifier for Python is installed (CrossHair is bounded symbolic execution, not contract-based deduction), and the code depends on the C extension module, which it could not see through.")
prop("C26", "Updates never replace the database with something worse",
	"The downloader only ever replaces the database by a file which verifies against the key and which is newer, and leaves the old file in place if anything fails at any point.",
	["crash_points", "fault_sequences"], "all failures during an update", "There are no tests of the downloader.",
	["src/python/location/downloader.py", "src/scripts/location.in"], [("Downloader.retrieve, check_database", "src/python/location/downloader.py")],
	na="Python code which depends on the network, the file system and the C extension module; there is no deductive verifier for Python in this sandbox.")
prop("C27", "Language bindings return what the library returns",
	"The Python, Perl and Lua modules return the results of the library, raise an error where it fails, and keep the reference counters of both sides balanced.",
	["histories"], "all calls", "Tests only call the most common functions.",
	["src/python", "src/perl", "src/lua"], [("wrappers", "src/python/*.c, src/perl/Location.xs, src/lua/*.c")],
	na="The wrappers are written against the C APIs of CPython, perl and Lua; every call would be an assumed contract on an interpreter, and nothing would be left to be proved on the code itself.")

def main():
	covered = {}
	for unit in glob.glob(f"{VERIF}/units/*.c"):
		default = {}
		for line in open(unit):
			m = re.match(r"\s*//@\s*(unit|target)\s*(.*)", line)
			if m:
				a = dict(x.split("=", 1) for x in shlex.split(m.group(2)) if "=" in x)
				if m.group(1) == "unit":
					default.update(a)
				else:
					a = {**default, **a}
					for p in a.get("prop", "").split(","):
						covered.setdefault(p, []).append(a.get("level", "proof"))
	checks, na = [], []
	with open(f"{VERIF}/properties.jsonl", "w") as f:
		for p in P:
			f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
				quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
				anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mechanism"]],
					observe_at=list(p["observe"]), hook_needed=None))) + "\n")
			assert len(p["title"]) <= 80, p["id"]
			if p["na"]:
				na.append(dict(property=p["id"], reason=p["na"]))
			elif p["id"] not in covered:
				na.append(dict(property=p["id"], reason="No contract yet."))
			else:
				n = covered[p["id"]]
				b = sum(x == "bounded" for x in n)
				note = f"{len(n) - b} targets are proofs for all inputs, {b} are bounded (each with its bound in the evidence). " if b else f"All {len(n)} targets are proofs for all inputs. "
				checks.append(dict(property=p["id"], quick_cmd=f"python3 bin/check.py {p['id']}", thorough_cmd=f"VERIF_TIER=thorough python3 bin/check.py {p['id']}",
					technique="contract-based deductive verification (CBMC code contracts, goto-instrument --dfcc) of the real C code",
					level="proof" if 2 * b <= len(n) else "model_checking", level_note=note + (p["note"] or "") + "Trusts cbmc, the specification functions in contracts/ and the models of libc in include/; see DESIGN.md and the assumptions in the evidence."))
	json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
		notes="No hooks in /repo: the units in /verif/units include the sources of /repo/src as they are."), open(f"{VERIF}/MANIFEST.json", "w"), indent=1)

main()
