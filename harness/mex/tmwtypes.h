#ifndef X_TMW
#define X_TMW
#include <stddef.h>
#include <stdint.h>
typedef double real_T; typedef int int_T; typedef unsigned uint_T; typedef unsigned char boolean_T; typedef char char_T;
#endif
