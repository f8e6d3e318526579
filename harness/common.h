// shared by the harnesses: environment overrides (both builds) for internal interfaces that a harness replaces
#pragma once
#include "sym.h"
#include <string>
#include <vector>
#include <cstring>
#include <cpptrace/cpptrace.hpp>
#ifdef VP_SYM
#define VP_MALLOC(n) malloc(n)
#else
extern "C" void* vp_native_malloc(size_t);
#define VP_MALLOC(n) vp_native_malloc(n)
#endif
#define VP_ENV(sym) asm("vp_env_" sym)
#define VP_CAPTURE_FRAMES VP_ENV("_ZN8cpptrace2v16detail14capture_framesEmm")
#define VP_SAFE_CAPTURE VP_ENV("_ZN8cpptrace2v16detail19safe_capture_framesEPmmmm")
#define VP_RESOLVE_RAW VP_ENV("_ZN8cpptrace2v16detail14resolve_framesERKSt6vectorImSaImEE")
#define VP_RESOLVE_OBJ VP_ENV("_ZN8cpptrace2v16detail14resolve_framesERKSt6vectorINS0_12object_frameESaIS3_EE")
#define VP_OBJECT_INFO VP_ENV("_ZN8cpptrace2v16detail22get_frames_object_infoERKSt6vectorImSaImEE")
namespace cpptrace { inline namespace v1 { namespace detail {
  struct vp_fail : std::exception { const char* what() const noexcept override { return "injected"; } };
} } }
