/* preloaded into the compiler while replaying: the linker is not started, its arguments are recorded */
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
int execvp(const char *f, char *const argv[]) {
    FILE *o = fopen("exec.txt", "w"); int i; const char *rc = getenv("EXECLOG_RC");
    fprintf(o, "%s\n", f); for (i = 0; argv[i]; i++) fprintf(o, "%s\n", argv[i]); fclose(o);
    _exit(rc ? atoi(rc) : 0);
}
