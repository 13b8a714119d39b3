#pragma once
#include "vt/config.h"
#include "vt/configs/debug/debug_print.h"
#undef vt_debug_print_impl
#define vt_debug_print_impl(...) do {} while(false)
#undef vt_print
#define vt_print(...) do {} while(false)
