/* Runs lacc concretely inside the engine: args = HOSTOUT lacc-args...; dumps stdout, stderr and -o file. */
#include "../symex/sx.h"
int lacc_main(int, char **);
char *strcat(char *, const char *); char *strcpy(char *, const char *);
void harness(void) {
    char *argv[32], path[200]; int n = 1, rc; u64 len; char *d, *out = sx_arg(0), *o = 0;
    argv[0] = "lacc";
    for (; (argv[n] = sx_arg(n)); n++) ;
    vf_host_ok = 1;
    for (int i = 1; i < n; i++) if (argv[i][0] == '-' && argv[i][1] == 'o' && !argv[i][2]) o = argv[i + 1];
    rc = sx_catch(lacc_main, n, argv);
    sx_print_val("exit", rc);
    if (rc > 1000) { char b[300]; sx_last_error(b, 300); sx_print(b); sx_print("\n"); }
    d = vf_data("<stdout>", &len); strcpy(path, out); strcat(path, ".out"); sx_dump(path, d ? d : "", len);
    d = vf_data("<stderr>", &len); strcpy(path, out); strcat(path, ".err"); sx_dump(path, d ? d : "", len);
    if (o) { d = vf_data(o, &len); sx_dump(out, d ? d : "", len); }
    sx_assert(rc < 1000, "lacc terminated normally");
}
