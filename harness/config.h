/* Configuration as found by configure on Linux with glibc; independent of /repo's build tree. */
#ifndef _GNU_SOURCE
# define _GNU_SOURCE 1
#endif
#define HAVE_CLOCK_GETTIME 1
#define HAVE_PTHREAD_CONDATTR_SETCLOCK 1
#define HAVE_DECL_FFLUSH_UNLOCKED 1
#define HAVE_DECL_FREAD_UNLOCKED 1
#define HAVE_DECL_FWRITE_UNLOCKED 1
#define PACKAGE "fstrm"
#define PACKAGE_NAME "fstrm"
#define PACKAGE_STRING "fstrm 0.6.1"
#define PACKAGE_VERSION "0.6.1"
#define VERSION "0.6.1"
#define STDC_HEADERS 1
#define HAVE_STDINT_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRING_H 1
#define HAVE_UNISTD_H 1
