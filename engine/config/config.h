/* config.h.  Generated from config.h.in by configure.  */
/* config.h.in.  Generated from configure.ac by autoheader.  */

/* define if the Boost library is available */
#define HAVE_BOOST /**/

/* define if the Boost::ASIO library is available */
#define HAVE_BOOST_ASIO /**/

/* define if the Boost::PROGRAM_OPTIONS library is available */
#define HAVE_BOOST_PROGRAM_OPTIONS /**/

/* define if the compiler supports basic C++17 syntax */
#define HAVE_CXX17 1

/* Define to 1 if you have the <dlfcn.h> header file. */
#define HAVE_DLFCN_H 1

/* Define if you have ICU. */
#define HAVE_ICU 1

/* Define to 1 if you have the <inttypes.h> header file. */
#define HAVE_INTTYPES_H 1

/* Define to 1 if you have the <stdint.h> header file. */
#define HAVE_STDINT_H 1

/* Define to 1 if you have the <stdio.h> header file. */
#define HAVE_STDIO_H 1

/* Define to 1 if you have the <stdlib.h> header file. */
#define HAVE_STDLIB_H 1

/* Define to 1 if you have the <strings.h> header file. */
#define HAVE_STRINGS_H 1

/* Define to 1 if you have the <string.h> header file. */
#define HAVE_STRING_H 1

/* Define to 1 if you have the <sys/stat.h> header file. */
#define HAVE_SYS_STAT_H 1

/* Define to 1 if you have the <sys/types.h> header file. */
#define HAVE_SYS_TYPES_H 1

/* Define to 1 if you have the <unistd.h> header file. */
#define HAVE_UNISTD_H 1

/* Define to the path to the test data. */
#define LG_TEST_DATA_DIR "./test/data"

/* Name of the customer. */
/* #undef LIGHTGREP_CUSTOMER */

/* Define to the sub-directory where libtool stores uninstalled libraries. */
#define LT_OBJDIR ".libs/"

/* Name of package */
#define PACKAGE "lightgrep"

/* Define to the address where bug reports for this package should be sent. */
#define PACKAGE_BUGREPORT "BUG-REPORT-ADDRESS"

/* Define to the owner of this package. */
#define PACKAGE_COMPANY "Stroz Friedberg, LLC"

/* Define to the description of this package. */
#define PACKAGE_DESCRIPTION "not the worst forensics regexp engine"

/* Define to the full name of this package. */
#define PACKAGE_NAME "lightgrep"

/* Define to the full name and version of this package. */
#define PACKAGE_STRING "lightgrep 1.5.0"

/* Define to the one symbol short name of this package. */
#define PACKAGE_TARNAME "lightgrep"

/* Define to the home page for this package. */
#define PACKAGE_URL ""

/* Define to the version of this package. */
#define PACKAGE_VERSION "1.5.0"

/* Define to the major version of this package. */
#define PACKAGE_VERSION_MAJOR 1

/* Define to the micro version of this package. */
#define PACKAGE_VERSION_MICRO 0

/* Define to the minor version of this package. */
#define PACKAGE_VERSION_MINOR 5

/* Define to the current year. */
#define PACKAGE_YEAR 2026

/* Define to 1 if all of the C90 standard headers exist (not just the ones
   required in a freestanding environment). This macro is provided for
   backward compatibility; new code need not use it. */
#define STDC_HEADERS 1

/* Version number of package */
#define VERSION "1.5.0"
