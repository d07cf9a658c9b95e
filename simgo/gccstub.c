// Stands in for gcc in the compiler simulator. Does what the plan says; on success the "executable" holds the assembly.
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
static char *slurp(const char *p, size_t *n)
{
    FILE *f = fopen(p, "rb");
    if (!f) return 0;
    size_t cap = 1 << 20; char *b = malloc(cap); *n = 0;
    size_t k;
    while ((k = fread(b + *n, 1, cap - *n, f)) > 0) { *n += k; if (*n == cap) b = realloc(b, cap *= 2); }
    fclose(f);
    return b;
}
int main(int argc, char **argv)
{
    int plan = -1;
    const char *out = 0, *asmf = 0;
    char *cs[64]; int nc = 0;
    for (int i = 1; i < argc; i++) {
        size_t l = strlen(argv[i]);
        if (!strcmp(argv[i], "-o") && i + 1 < argc) out = argv[++i];
        else if (argv[i][0] == '-') continue;
        else if (l > 2 && (!strcmp(argv[i] + l - 2, ".S") || !strcmp(argv[i] + l - 2, ".s"))) asmf = argv[i];
        else if (nc < 64) cs[nc++] = argv[i];
    }
    char pp[4096];
    snprintf(pp, sizeof pp, "%s%s%s", getenv("SIM_GCC_PLAN"), asmf ? "." : "", asmf ? (strrchr(asmf, '/') ? strrchr(asmf, '/') + 1 : asmf) : "");
    FILE *f = fopen(pp, "r");
    char rp[4096];
    snprintf(rp, sizeof rp, "%s.ran", getenv("SIM_GCC_PLAN"));
    FILE *rf = fopen(rp, "a");
    if (rf) { fputs("x", rf); fclose(rf); }
    if (f) { if (fscanf(f, "%d", &plan) != 1) plan = -1; fclose(f); }
    if (plan == 0) { fprintf(stderr, "gcc: fatal error: simulated failure\n"); return 1; }
    if (plan == 1) { fprintf(stderr, "gcc: internal compiler error\n"); return 4; }
    if (plan == 2) { kill(getpid(), SIGKILL); pause(); }
    if (plan == 3) { for (int i = 0; i < 5000; i++) fprintf(stderr, "/usr/bin/ld: undefined reference number %d\n", i); return 1; }
    if (plan == 5) { kill(getpid(), SIGSEGV); pause(); }
    if (nc == 0) { fprintf(stderr, "ld: undefined reference to `main'\n"); return 1; }
    if (plan == 6) fprintf(stderr, "ld: warning: missing .note.GNU-stack section implies executable stack\n");
    size_t n = 0;
    char *a = asmf ? slurp(asmf, &n) : 0;
    if (!a || !out) { fprintf(stderr, "gcc: error: no input files\n"); return 1; }
    for (int i = 0; i < nc; i++) { if (access(cs[i], R_OK)) { fprintf(stderr, "gcc: error: %s: No such file\n", cs[i]); return 1; } }
    unlink(out);
    FILE *o = fopen(out, "wb");
    if (!o) { fprintf(stderr, "ld: cannot open output file %s\n", out); return 1; }
    fprintf(o, "EXE %d", nc);
    for (int i = 0; i < nc; i++) fprintf(o, " %s", cs[i]);
    fprintf(o, "\n");
    if (plan == 8) { fwrite(a, 1, n / 2, o); fclose(o); kill(getppid(), SIGKILL); return 1; }
    if (plan == 4) { fwrite(a, 1, n / 2, o); fclose(o); fprintf(stderr, "ld: final link failed: No space left on device\n"); return 1; }
    fwrite(a, 1, n, o);
    fprintf(o, "\nEND\n");
    fclose(o);
    chmod(out, 0755);
    if (plan == 9) { kill(getppid(), SIGKILL); return 0; }
    if (plan == 7) { kill(getpid(), SIGKILL); pause(); }
    return 0;
}
