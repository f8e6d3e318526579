// the functions a signal handler may call: POSIX.1-2017 2.4.3, _dl_find_object and libunwind's local unwinding
// announced calls, see sym.h
static bool inHandler = false;
extern "C" void sym_signal_handler(bool on) { inHandler = on; }
extern "C" void sym_external_call(const char* n) {
  if (!inHandler) return;
  static const char* const safe[] = {"memcpy", "memmove", "memset", "memcmp", "memchr", "bcmp", "strlen", "strnlen", "strcmp", "strncmp", "strchr", "strrchr", "strcpy", "strncpy", "strcat", "strncat", "stpcpy", "_dl_find_object", "readlink", "readlinkat", "access", "open", "openat", "read", "write", "close", "lseek", "fstat", "stat", "lstat", "getpid", "gettid", "getppid", "getuid", "geteuid", "kill", "raise", "tgkill", "_exit", "_Exit", "clock_gettime", "time", "uname", "sigaction", "sigemptyset", "sigfillset", "sigaddset", "sigdelset", "sigismember", "sigprocmask", "pthread_sigmask", "sysconf", "pipe", "dup", "dup2", "fork", "execve", "execv", "execl", "execle", "waitpid", "poll", "select", "getrlimit", "__errno_location", "strtok_r", "isatty", "pthread_self", "unw_getcontext", "_Ux86_64_getcontext", "unw_init_local", "unw_get_reg", "unw_is_signal_frame", "unw_step", "unw_init_local2"};
  for (const char* s : safe) {
    size_t i = 0;
    while (s[i] && s[i] == n[i]) i++;
    if (s[i] == n[i]) return;
  }
  sym_print(n);
  sym_fail("a function that is not async-signal-safe is called");
}
