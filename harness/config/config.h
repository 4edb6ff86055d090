/* configuration for the verification builds: what ./configure finds in this
   environment, with the run-time roots relative to the working directory so
   that the unmodified server runs inside a scratch directory */
#define HAVE_ASSERT_H 1
#define HAVE_DLFCN_H 1
#define HAVE_EPOLL 1
#define HAVE_GETADDRINFO 1
#define HAVE_GETNAMEINFO 1
#define HAVE_INTTYPES_H 1
#define HAVE_IP6 1
#define HAVE_LIBCRYPTO 1
#define HAVE_LIBDL 1
#define HAVE_LIBPCRE 1
#define HAVE_LIBPTHREAD 1
#define HAVE_LIBSSL 1
#define HAVE_MALLOC 1
#define HAVE_MEMSET 1
#define HAVE_OPENSSL_SSL_H 1
#define HAVE_PCRE_H 1
#define HAVE_REALLOC 1
#define HAVE_SOCKADDR_IN6 1
#define HAVE_SOCKADDR_STORAGE 1
#define HAVE_SOCKADDR_UN 1
#define HAVE_STDBOOL_H 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
#define HAVE__BOOL 1
#define HOST_OS "linux-gnu"
#define CFLAGS "-g -O2"
#define PACKAGE "viriatum"
#define PACKAGE_NAME "viriatum"
#define PACKAGE_VERSION "1.0.0"
#define VERSION "1.0.0"
#define WITH_PREFIX "."
#define WITH_CONFIG_ROOT "./etc"
#define WITH_MODULE_ROOT "./modules"
#define WITH_WWW_ROOT "./www"
