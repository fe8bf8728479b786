#ifndef VT_TYPES_H
#define VT_TYPES_H
#include <stdint.h>
typedef uint32_t vt_handle;
typedef uint16_t thing;
#endif
