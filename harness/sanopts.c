/* Sanitizer defaults: reports are fatal; the harness's own fault handlers attribute crashes. */
const char *__asan_default_options(void) { return "handle_segv=0:handle_abort=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:detect_leaks=0:alloc_dealloc_mismatch=1:detect_stack_use_after_return=1:abort_on_error=0:exitcode=88:allocator_may_return_null=1:max_allocation_size_mb=4096"; }
const char *__ubsan_default_options(void) { return "print_stacktrace=1:halt_on_error=1:exitcode=88"; }
const char *__tsan_default_options(void) { return "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4"; }
