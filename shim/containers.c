/* Carries out a history of operations of the container library, given as arguments, and shows
 * after each of them everything a client can see. */
#include "list.h"
#include "table.h"
#include "sort.h"
#include "util.h"

BEGIN_ITEM(Item)
    int id;
END_ITEM(Item);

BEGIN_LIST_OF(Item)
END_LIST(List);

BEGIN_ENTRY(Entry)
    int id;
END_ENTRY(Entry);

BEGIN_TABLE_OF(Entry, Entrylist)
END_TABLE(Table);

static List list[3];
static Item item[16];
static Table table[2];
static Entry *entry;
static int shown;

static void processed(it)
Item *it;
{
    printf("!%d", it->id);
}
static void show_list(l)
List *l;
{
    Item *it;
    long n = 0;
    printf(" %ld:", l->count);
    for (it = l->first; it && n < 100; it = it->next, n++)
	printf("%d", it->id);
    printf("/");
    n = 0;
    for (it = l->last; it && n < 100; it = it->prev, n++)
	printf("%d", it->id);
    printf("%s%s", l->first && l->first->prev ? "P" : "", l->last && l->last->next ? "N" : "");
}
/* op: F l i | L l i | B l i ref | A l ref i | R l i | V l | E l | I l */
static void lists(s, num)
char *s;
int num;
{
    int i, l;
    long j;
    for (i = 0; i < 16; i++)
    {
	memset(&item[i], 0x5a, sizeof(Item));
	item[i].id = i;
    }
    if (*s == 'I')
    {
	memset(list, 0x5a, sizeof(list));
	for (l = 0; l < 3; l++)
	    list_initialize(&list[l]);
	s++;
    }
    for (; *s; s++)
    {
	char op = *s++;
	l = *s - '0';
	switch (op)
	{
	case 'F': list_insert_first(&list[l], &item[*++s - '0']); break;
	case 'L': list_insert_last(&list[l], &item[*++s - '0']); break;
	case 'B': s += 2; list_insert_before(&list[l], &item[s[-1] - '0'], &item[s[0] - '0']); break;
	case 'A': s += 2; list_insert_after(&list[l], &item[s[-1] - '0'], &item[s[0] - '0']); break;
	case 'R': list_remove(&list[l], &item[*++s - '0']); break;
	case 'V':
	    list_in_array(&list[l]);
	    printf("[");
	    for (j = 0; j < list[l].count; j++)
		printf("%d", list[l].array[j]->id);
	    printf("]");
	    break;
	case 'E': list_empty(&list[l], processed); break;
	}
	for (l = 0; l < num; l++)
	    show_list(&list[l]);
	printf("\n");
    }
}
static void entry_processed(e)
Entry *e;
{
    printf("!%d ", e->id);
}
/* op: + k | - k | V | E | S */
static void tables(s, keys, num, quiet)
char *s, *keys[];
int num, quiet;
{
    int i;
    long j, at;
    Entry *e;
    if (*s == 'I')
    {
	memset(table, 0x5a, sizeof(table));
	table_initialize(&table[0]);
	table_initialize(&table[1]);
	s++;
    }
    entry = NEW_ARRAY(num + 1, Entry);
    for (i = 0; i < num; i++)
    {
	entry[i].key = keys[i];
	entry[i].id = i;
    }
    while (*s)
    {
	char op = *s++;
	Table *t = &table[*s++ - '0'];
	at = (op == '+' || op == '-' ? strtol(s, &s, 10) : 0);
	if (*s == ' ')
	    s++;
	switch (op)
	{
	case '+': table_insert(t, &entry[at]); break;
	case '-': table_remove(t, &entry[at]); break;
	case 'V':
	    table_in_array(t);
	    printf("[");
	    for (j = 0; j < t->count; j++)
		printf("%d ", t->array[j]->id);
	    printf("]");
	    break;
	case 'E': table_empty(t, entry_processed); break;
	}
	printf("%ld:", t->count);
	if (!quiet || op == 'S')
	    for (i = 0; i < num; i++)
	    {
		char *copy = strdup(keys[i]);
		e = table_lookup(t, copy);
		free(copy);
		if (e)
		    printf("%d ", e->id);
		else
		    printf(". ");
	    }
	printf("\n");
    }
}
typedef struct
{
    long value, id;
} Element;

static int by_value(a, b)
Element *a, *b;
{
    return(a->value < b->value ? -1 : a->value > b->value);
}
static int by_value_down(a, b)
Element *a, *b;
{
    return(a->value < b->value ? 1000000 : a->value > b->value ? -7 : 0);
}
static long pattern(kind, i, n)
char kind;
long i, n;
{
    static unsigned long x = 88172645463325252UL;
    switch (kind)
    {
    case 'u': return(i);
    case 'd': return(n - i);
    case 'c': return(5);
    case 'o': return(i < n / 2 ? i : n - i);
    case 'v': return(i < n / 2 ? n - i : i);
    case 's': return(i % 10);
    case 'S': return(i % (n / 10 + 1));
    case '2': return(i & 1);
    case 'h': return(i < n / 2);
    case 'b': return(i >= n / 2 ? 0 : 1);
    case 'e': return(i == n - 1 ? -1 : i);
    case 'f': return(i == 0 ? n + 1 : i);
    case 'm': return(i == n / 2 ? -1 : i);
    case 'z': return(i & 1 ? i : n - i);
    default: x ^= x << 13; x ^= x >> 7; x ^= x << 17; return(kind == 'r' ? (long) (x % 1000000007UL) : (long) (x % 3));
    }
}
static void sorts(dir, s)
char *dir, *s;
{
    long n, i, bad = 0;
    Element *el;
    void **arr;
    char *seen;
    char kind = *s++;
    n = kind == '=' ? (long) strlen(s) : atol(s);
    el = NEW_ARRAY(n + 2, Element);
    arr = NEW_ARRAY(n + 2, void *);
    seen = NEW_ARRAY(n + 2, char);
    for (i = 0; i < n; i++)
    {
	el[i].value = kind == '=' ? s[i] : pattern(kind, i, n);
	el[i].id = i;
	arr[i + 1] = &el[i];
    }
    sort(n, arr + 1, dir[0] == 'u' ? by_value : by_value_down);
    if (arr[0] || arr[n + 1])
	bad = 1;
    for (i = 0; i < n; i++)
    {
	Element *e = arr[i + 1];
	if (e < el || e >= el + n || seen[e->id]++)
	    bad = 2;
	else if (i > 0 && (dir[0] == 'u' ? ((Element *) arr[i])->value > e->value : ((Element *) arr[i])->value < e->value))
	    bad = 3;
	if (bad)
	    break;
	if (kind == '=')
	    putchar((int) e->value);
    }
    printf("%s\n", bad == 0 ? "" : bad == 1 ? " overran" : bad == 2 ? " not a permutation" : " not in order");
}
static void processed_quietly(e)
Entry *e;
{
    e->id = -1;
}
static unsigned long hash(h, id)
unsigned long h;
long id;
{
    return((h ^ (unsigned long) id) * 1099511628211UL);
}
/* phases F n, L n: n items first, last; B n: before the last item; A n: after the first item;
 * R k: each k-th item removed; V: array; E: emptied */
static void large_list(s)
char *s;
{
    static List big;
    Item *it, *next;
    long n, i, j, id = 0;
    unsigned long h1, h2, h3;
    list_initialize(&big);
    while (*s)
    {
	char op = *s++;
	n = strtol(s, &s, 10);
	h3 = 0;
	if (op == 'E')
	    list_empty(&big, free);
	else if (op == 'V')
	{
	    list_in_array(&big);
	    for (j = 0; j < big.count; j++)
		h3 = hash(h3, (long) big.array[j]->id);
	}
	else if (op == 'R')
	{
	    for (i = 1, it = big.first; it; i++, it = next)
	    {
		next = it->next;
		if (i % n == 0)
		{
		    list_remove(&big, it);
		    free(it);
		}
	    }
	}
	else
	    for (i = 0; i < n; i++)
	    {
		it = NEW(Item);
		it->id = (int) id++;
		if (op == 'F' || !big.first)
		    list_insert_first(&big, it);
		else if (op == 'L')
		    list_insert_last(&big, it);
		else if (op == 'B')
		    list_insert_before(&big, it, big.last);
		else
		    list_insert_after(&big, big.first, it);
	    }
	h1 = h2 = 0;
	for (it = big.first; it; it = it->next)
	    h1 = hash(h1, (long) it->id);
	for (it = big.last; it; it = it->prev)
	    h2 = hash(h2, (long) it->id);
	printf("%c %ld %lx %lx %lx\n", op, big.count, h1, h2, h3);
    }
}
/* n keys entered, looked up, each k-th removed, looked up, emptied */
static void large_table(n, k)
long n, k;
{
    static Table big;
    Entry *all, *e;
    long i, j, bad = 0;
    unsigned long h;
    char key[40];
    table_initialize(&big);
    all = NEW_ARRAY(n, Entry);
    for (i = 0; i < n; i++)
    {
	sprintf(key, "%ldk%ld", (i * 7919) % 1000003, i % 10);
	all[i].key = strdup(key);
	all[i].id = (int) i;
	table_insert(&big, &all[i]);
    }
    for (j = 0; j < 3; j++)
    {
	table_in_array(&big);
	for (i = 0, h = 0; i < big.count; i++)
	    h += hash(0x9E3779B97F4A7C15UL, (long) ((Entry *) big.array[i])->id + 1);
	for (i = 0; i < n; i++)
	{
	    e = table_lookup(&big, all[i].key);
	    if (e != (j > 0 && (i % k == 0 || j > 1) ? NULL : &all[i]))
		bad++;
	}
	printf("%ld %lx %ld\n", big.count, h, bad);
	if (j == 0)
	    for (i = 0; i < n; i += k)
		table_remove(&big, &all[i]);
	else if (j == 1)
	    table_empty(&big, processed_quietly);
    }
}
int main(argc, argv)
int argc;
char *argv[];
{
    long i;
    exec_name = "containers";
    if (argv[1][0] == 'l')
	lists(argv[2], argv[1][1] - '0');
    else if (argv[1][0] == 'm')
	large_list(argv[2]);
    else if (argv[1][0] == 'M')
	large_table(atol(argv[2]), atol(argv[3]));
    else if (argv[1][0] == 't')
	tables(argv[2], argv + 3, argc - 3, argv[1][1] == 'q');
    else
	for (i = 2; i < argc; i++)
	    sorts(argv[1] + 1, argv[i]);
    terminate();
    return(0);
}
