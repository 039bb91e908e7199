#define HAVE_COMPLEX_H 1
#define HAVE_FFTW3_H 
#define HAVE_IMMINTRIN_H 1
#define HAVE_INTTYPES_H 1
#define HAVE_LIMITS_H 1
#define HAVE_MATH_H 1
#define HAVE_OMP_H 1
#define HAVE_PREFIX "/nonexistent"
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TIME_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_TIME_H 1
#define HAVE_UNISTD_H 1
#define NC 2
#define PACKAGE "glu"
#define PACKAGE_BUGREPORT "x"
#define PACKAGE_NAME "GLU"
#define PACKAGE_STRING "GLU 1.1"
#define PACKAGE_TARNAME "glu"
#define PACKAGE_URL ""
#define PACKAGE_VERSION "1.1"
#define PROJ_GRACEY 0
#define SINGLE_PREC 
#define VERSION "1.1"
