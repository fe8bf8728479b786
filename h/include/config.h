#ifndef __GRACHT_CONFIG_H__
#define __GRACHT_CONFIG_H__
#define HAVE_C11_THREADS
#define HAVE_PTHREAD
#endif
