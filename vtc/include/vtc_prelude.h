// Pre-included in every translation unit the checks compile: what the extraction drops.
//  * vtAssert*/vtAbort* report through vtc_assert_fail/vtc_abort instead of formatting a message
//    (an assertion that can fail, or an abort that can be reached, is an obligation);
//  * vt_debug_print*/vt_print emit nothing.
#pragma once
#include "vt/config.h"
#include "vt/configs/error/config_assert.h"
#include "vt/configs/error/hard_error.h"
#include "vt/configs/error/soft_error.h"
#include "vt/configs/debug/debug_print.h"
extern "C" { [[noreturn]] void vtc_assert_fail(const char* m, const char* file, int line);
             [[noreturn]] void vtc_abort(const char* m, const char* file, int line); }
#undef vtAssert
#undef vtAssertInfo
#undef vtAssertExpr
#undef vtAssertExprInfo
#undef vtAssertNot
#undef vtAssertNotExpr
#undef vtAssertNotInfo
#undef vtAssertMPISuccess
#define VTC_A(cond) do { if (!(cond)) { ::vtc_assert_fail(#cond, __FILE__, __LINE__); } } while(false)
#define vtAssert(cond,str)            VTC_A(cond)
#define vtAssertInfo(cond,str,...)    VTC_A(cond)
#define vtAssertExpr(cond)            VTC_A(cond)
#define vtAssertExprInfo(cond,...)    VTC_A(cond)
#define vtAssertNot(cond,str)         VTC_A(!(cond))
#define vtAssertNotExpr(cond)         VTC_A(!(cond))
#define vtAssertNotInfo(cond,str,...) VTC_A(!(cond))
#define vtAssertMPISuccess(ret,mpi_name) VTC_A((ret) == MPI_SUCCESS)
#undef vtAbort
#undef vtAbortCode
#define vtAbort(str)        ::vtc_abort("vtAbort", __FILE__, __LINE__);
#define vtAbortCode(xy,str) ::vtc_abort("vtAbort", __FILE__, __LINE__);
#undef vtWarn
#undef vtWarnInfo
#undef vtWarnIf
#undef vtWarnIfNot
#undef vtWarnCode
#undef vtWarnInfoCode
#undef vtWarnIfCode
#undef vtWarnIfNotCode
#define vtWarn(...)           do {} while(false)
#define vtWarnInfo(...)       do {} while(false)
#define vtWarnIf(...)         do {} while(false)
#define vtWarnIfNot(...)      do {} while(false)
#define vtWarnCode(...)       do {} while(false)
#define vtWarnInfoCode(...)   do {} while(false)
#define vtWarnIfCode(...)     do {} while(false)
#define vtWarnIfNotCode(...)  do {} while(false)
#undef vt_debug_print_impl
#define vt_debug_print_impl(...) do {} while(false)
#undef vt_print
#define vt_print(...) do {} while(false)
