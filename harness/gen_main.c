/* Compiled together with the output of the generator: prints the table and looks up the codes on stdin. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include "table.h"
#include "builtin_table.h"
#include GENERATED

static void hex(const char *s)
{
    if (!s) {
        printf("-\n");
        return;
    }
    printf("=");
    for (; *s; s++) printf("%02x", (unsigned char) *s);
    printf("\n");
}

int main(void)
{
    table_t *t = load_builtin_NEW_table();
    unsigned key;
    printf("%d %d %u\n", (int) t->used, (int) t->max_data_length, (unsigned) t->max_key);
    hex(t->default_translation);
    while (scanf("%u", &key) == 1) hex(table_get(t, key));
    return 0;
}
