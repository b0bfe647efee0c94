/*
 * Drives the table store through its interface and logs every result; the history is on stdin:
 *   n SIZE          new table            h USE           search by hash (1) or linearly (0)
 *   p KEY HEX       put                  g KEY           get
 *   r SIZE USE      resize               b SIZE USE      resize of a table marked as built-in
 *   d HEX           set the default      f               free and start over
 * Output: one line per operation.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include "table.h"

static char *unhex(const char *s)
{
    size_t n = strlen(s) / 2, i;
    char *r = malloc(n + 1);
    unsigned v;
    for (i = 0; i < n; i++) {
        sscanf(s + 2 * i, "%2x", &v);
        r[i] = (char) v;
    }
    r[n] = 0;
    return r;
}

static void hex(const char *s)
{
    if (!s) {
        printf("-");
        return;
    }
    printf("=");
    for (; *s; s++) printf("%02x", (unsigned char) *s);
}

static void state(table_t *t)
{
    printf("used %d max %lu key %u default ", (int) t->used, (unsigned long) t->max_data_length, (unsigned) t->max_key);
    hex(t->default_translation);
    printf("\n");
}

int main(void)
{
    static char line[1 << 16], arg[1 << 16];
    table_t *t = NULL, *u;
    unsigned key;
    int n, use;
    char *s;

    while (fgets(line, sizeof(line), stdin)) {
        arg[0] = 0;
        switch (line[0]) {
            case 'n':
                sscanf(line + 1, "%d", &n);
                table_free(t);
                t = table_init(n);
                printf("n %d\n", t != NULL);
                break;
            case 'h':
                sscanf(line + 1, "%d", &use);
                t->use_hash = use;
                printf("h\n");
                break;
            case 'p':
                sscanf(line + 1, "%u %65000s", &key, arg);
                s = unhex(arg + 1);
                n = table_put(t, key, s);
                /* the table keeps its own copy */
                memset(s, 'Z', strlen(s));
                free(s);
                printf("p %d\n", n >= 0);
                break;
            case 'g':
                sscanf(line + 1, "%u", &key);
                printf("g ");
                hex(table_get(t, key));
                printf("\n");
                break;
            case 'd':
                sscanf(line + 1, "%65000s", arg);
                free(t->default_translation);
                t->default_translation = unhex(arg + 1);
                printf("d\n");
                break;
            case 'r':
            case 'b':
                sscanf(line + 1, "%d %d", &n, &use);
                t->builtin = line[0] == 'b';
                u = table_resize(t, n, use);
                /* the original stays intact and independent */
                printf("%c %d ", line[0], u != t);
                t->builtin = 0;
                if (u != t) table_free(t);
                t = u;
                t->builtin = 0;
                state(t);
                break;
            case 's':
                printf("s ");
                state(t);
                break;
            case 'f':
                table_free(t);
                t = NULL;
                printf("f\n");
                break;
        }
    }
    table_free(t);
    return 0;
}
