#include "sim.h"
int main(int argc, char **argv) { return sim_main(argc, argv); }
extern "C" const char *__asan_default_options() { return "detect_leaks=0:allocator_may_return_null=1:exitcode=99:abort_on_error=0:handle_segv=1:max_malloc_fill_size=1073741824:malloc_fill_byte=190:detect_stack_use_after_return=0:symbolize=0:quarantine_size_mb=16"; }
