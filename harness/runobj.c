/* Validation: compile with lacc in the engine, load the object, run main; args = HOSTOUT lacc-args... */
#include "../symex/sx.h"
int lacc_main(int, char **);
char *strcat(char *, const char *); char *strcpy(char *, const char *);
static int tramp(int (*f)(int, char **), int n, char **v) { return f(n, v); }
void harness(void) {
    char *argv[32], path[200]; int n = 1, rc; u64 len; char *d, *out = sx_arg(0);
    argv[0] = "lacc";
    for (; (argv[n] = sx_arg(n)); n++) ;
    vf_host_ok = 1;
    rc = sx_catch(lacc_main, n, argv);
    if (rc) { sx_print("compile failed\n"); return; }
    d = vf_data("o.o", &len);
    if (sx_elf_load(d, len)) { sx_print("load failed\n"); return; }
    vf_remove("<stdout>");
    rc = sx_catch(tramp, sx_sym("main"), 1, argv);
    sx_print_val("exit", rc & (rc < 1000 ? 255 : -1));
    if (rc > 1000) { char b[300]; sx_last_error(b, 300); sx_print(b); sx_print("\n"); }
    d = vf_data("<stdout>", &len); sx_dump(out, d ? d : "", len);
}
