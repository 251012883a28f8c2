/* What ptdump prints goes where the simulator can see it. */
#include <stdio.h>
extern FILE *ptdump_stdout, *ptdump_stderr;
#undef stdout
#undef stderr
#define stdout ptdump_stdout
#define stderr ptdump_stderr
#define printf(...) fprintf(ptdump_stdout, __VA_ARGS__)
#define vprintf(f, a) vfprintf(ptdump_stdout, f, a)
#define puts(s) fprintf(ptdump_stdout, "%s\n", s)
#define putchar(c) fputc(c, ptdump_stdout)
#define perror(s) fprintf(ptdump_stderr, "%s\n", s)
