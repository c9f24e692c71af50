/* force-included: what the application Makefile / Ledger SDK pass on the command line */
#pragma once
#define UNUSED(x) (void) (x)
#define APPNAME "Ergo"
#define APPVERSION "0.0.5"
#define MAJOR_VERSION 0
#define MINOR_VERSION 0
#define PATCH_VERSION 5
#define HAVE_BAGL 1
#define PRINTF(...) do { } while (0)
#define BUFFER_FROM_ARRAY(_name, _array, _size) \
    RW_BUFFER_FROM_ARRAY_FULL(__rw_##_name, _array, _size); \
    buffer_t _name = __rw_##_name.read
#define BUFFER_NEW_LOCAL_EMPTY(_name, _size) \
    RW_BUFFER_NEW_LOCAL_EMPTY(__rw_##_name, _size); \
    buffer_t _name = __rw_##_name.read
#include <stddef.h>
void explicit_bzero(void *p, size_t n);
