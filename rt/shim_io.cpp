#include "shim/vp_io.h"
namespace std { inline namespace vpio {
ostream cout, cerr, clog;
} }
extern "C" __attribute__((weak)) bool vp_fs_lookup(const char*, vp_file*) { return false; }
