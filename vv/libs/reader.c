/* Drives the C library: one command per line on stdin (fields separated by tabs), one answer on stdout.
 * Texts in answers are hexadecimal, so that nothing has to be escaped. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include "cparserlib.h"

#define SLOTS 10
static long slots[SLOTS];
static FILE *out;

static void hex(const char *s) {
    for (; s && *s; s++) fprintf(out, "%02x", (unsigned char)*s);
}

static void field(const char *s) {
    fputc(' ', out);
    fputc('.', out);
    hex(s);
}

static int dump(long n, long parent, int depth) {
    node_t *raw = (node_t *)(intptr_t)n;
    int count = 1;
    if (VSSgetParent(n) != parent) fprintf(out, "badparent ");
    fprintf(out, "%d %d %d", depth, (int)VSSgetType(n), VSSgetValidation(n));
    field(VSSgetName(n));
    field(VSSgetUUID(n));
    field(VSSgetDescr(n));
    field(VSSgetDatatype(n));
    field(raw->min);
    field(raw->max);
    field(VSSgetUnit(n));
    field(raw->defaultAllowed);
    fprintf(out, " %d", VSSgetNumOfAllowedElements(n));
    for (int i = 0; i < VSSgetNumOfAllowedElements(n); i++) field(VSSgetAllowedElement(n, i));
    fputc(';', out);
    for (int i = 0; i < VSSgetNumOfChildren(n); i++) count += dump(VSSgetChild(n, i), n, depth + 1);
    if (VSSgetChild(n, VSSgetNumOfChildren(n)) != 0) fprintf(out, "badchild ");
    return count;
}

static long nth(long n, int *k) {       /* the k-th node in preorder */
    if ((*k)-- == 0) return n;
    for (int i = 0; i < VSSgetNumOfChildren(n); i++) {
        long r = nth(VSSgetChild(n, i), k);
        if (r) return r;
    }
    return 0;
}

static bool index_of(long n, long x, int *k) {
    if (n == x) return true;
    (*k)++;
    for (int i = 0; i < VSSgetNumOfChildren(n); i++)
        if (index_of(VSSgetChild(n, i), x, k)) return true;
    return false;
}

int main(int argc, char **argv) {
    static char line[1 << 16];
    char *f[64];
    /* the library prints to stdout; answers go to a copy of it */
    out = fdopen(atoi(argv[1]), "w");
    while (fgets(line, sizeof line, stdin)) {
        line[strcspn(line, "\n")] = 0;
        int n = 0;
        for (char *p = line; p && n < 64;) {
            f[n++] = p;
            p = strchr(p, '\t');
            if (p) *p++ = 0;
        }
        int slot = atoi(f[1]);
        if (!strcmp(f[0], "read")) {
            slots[slot] = VSSReadTree(f[2]);
            if (slots[slot]) dump(slots[slot], 0, 1);
            else fprintf(out, "none");
        } else if (!strcmp(f[0], "dump")) {
            dump(slots[slot], 0, 1);
        } else if (!strcmp(f[0], "write")) {
            VSSWriteTree(f[2], slots[slot]);
            fprintf(out, "done");
        } else if (!strcmp(f[0], "leaves")) {
            fprintf(out, "%d", VSSGetLeafNodesList(slots[slot], f[2]));
        } else if (!strcmp(f[0], "uuids")) {
            fprintf(out, "%d", VSSGetUuidList(slots[slot], f[2]));
        } else if (!strcmp(f[0], "search")) {
            /* slot, index of the root, path, limit, any depth, leaves only, paths not to go below */
            int k = atoi(f[2]), limit = atoi(f[4]), validation = -1, size = n - 7;
            long root = nth(slots[slot], &k);
            searchData_t *data = malloc(sizeof(searchData_t) * (limit ? limit : 1));
            noScopeList_t *scope = malloc(sizeof(noScopeList_t) * (size ? size : 1));
            for (int i = 0; i < size; i++) strcpy(scope[i].path, f[7 + i]);
            int found = VSSSearchNodes(f[3], root, limit, data, atoi(f[5]), atoi(f[6]), size, size ? scope : NULL, &validation);
            fprintf(out, "%d %d", found, validation);
            for (int i = 0; i < found && i < limit; i++) {
                int at = 0;
                if (!index_of(slots[slot], data[i].foundNodeHandles, &at)) at = -1;
                fprintf(out, " %d", at);
                field(data[i].responsePaths);
            }
            free(data);
            free(scope);
        }
        fputc('\n', out);
        fflush(out);
    }
    return 0;
}
