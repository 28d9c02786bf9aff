/* The part of the configured config.h that the sources depend on. Kept here so
   that a check does not need a configured /repo. */
#ifndef VCONFIG_H
#define VCONFIG_H
#define HAVE_ARPA_INET_H 1
#define HAVE_ARPA_NAMESER_COMPAT_H 1
#define HAVE_ARPA_NAMESER_H 1
#define HAVE_ENDIAN_H 1
#define HAVE_MADVISE 1
#define HAVE_MMAP 1
#define HAVE_MUNMAP 1
#define HAVE_NETINET_IN_H 1
#define HAVE_QSORT 1
#define HAVE_RESOLV_H 1
#define HAVE_RES_QUERY 1
#define HAVE_SECURE_GETENV 1
#define LIBLOC_DEFAULT_DATABASE_PATH "/var/lib/location/database.db"
#define PACKAGE "libloc"
#define PACKAGE_NAME "libloc"
#define PACKAGE_VERSION "0.9.17"
#define VERSION "0.9.17"
#ifndef _GNU_SOURCE
# define _GNU_SOURCE 1
#endif
#endif
