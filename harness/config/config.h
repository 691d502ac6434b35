/* Harness configuration of bdlib (what configure finds on this platform; see /repo/src/config.h.in). */
#define HAVE_CXX11 1
#define HAVE_CXX14 1
#define HAVE_FCNTL_H 1
#define HAVE_GETPAGESIZE 1
#define HAVE_INTTYPES_H 1
#define HAVE_LIBTCL 1
#ifndef CFG_NO_MEMMEM
#define HAVE_MEMMEM 1
#endif
#ifndef CFG_NO_MMAP
#define HAVE_MMAP 1
#endif
#define HAVE_NETINET_IN_H 1
#define HAVE_SELECT 1
#define HAVE_STDARG_H 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_SYS_PARAM_H 1
#define HAVE_SYS_SOCKET_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
#define L_ENDIAN 1
#define PACKAGE "bdlib"
#define PACKAGE_BUGREPORT "bryan@shatow.net"
#define PACKAGE_NAME "bdlib"
#define PACKAGE_STRING "bdlib 1.0.0"
#define PACKAGE_TARNAME "bdlib"
#define PACKAGE_URL ""
#define PACKAGE_VERSION "1.0.0"
#define STDC_HEADERS 1
#define USE_SCRIPT_TCL 1
#define VERSION "1.0.0"
#include "config-sanity.h"
