/* Fixed configuration used by the checks (Linux, glibc, x86-64). */
#ifndef VERIF_CONFIG_H
#define VERIF_CONFIG_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#define HAVE_CLOCK_GETTIME 1
#define HAVE_DECL_FFLUSH_UNLOCKED 1
#define HAVE_DECL_FREAD_UNLOCKED 1
#define HAVE_DECL_FWRITE_UNLOCKED 1
#define HAVE_DLFCN_H 1
#define HAVE_INTTYPES_H 1
#define HAVE_PTHREAD_CONDATTR_SETCLOCK 1
#define HAVE_PTHREAD_PRIO_INHERIT 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
#define HAVE_WCHAR_H 1
#define PACKAGE "fstrm"
#define PACKAGE_BUGREPORT "https://github.com/farsightsec/fstrm/issues"
#define PACKAGE_NAME "fstrm"
#define PACKAGE_STRING "fstrm 0.6.1"
#define PACKAGE_TARNAME "fstrm"
#define PACKAGE_URL "https://github.com/farsightsec/fstrm"
#define PACKAGE_VERSION "0.6.1"
#define STDC_HEADERS 1
#define VERSION "0.6.1"
#endif
