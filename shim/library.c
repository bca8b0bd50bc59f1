/* Carries out calls of the library's functions, given as arguments, and shows what a client sees.
 * library ops OP...        OP: a letter and fields, separated by \001
 * library init FLAGS ARGS  initialize() with options of each kind */
#include "accrpt.h"
#include "edorpt.h"
#include "wacrpt.h"
#include "dist.h"
#include "stopword.h"
#include "sync.h"

static Text text[20];
static Wordlist words;
static Accdata accdata;
static Edodata edodata;
static Wacdata wacdata;
static Dist dist;
static Synclist list1, list2;

static char *field[8];

static void split(s)
char *s;
{
    int i;
    for (i = 0; i < 8; i++)
	field[i] = "";
    for (i = 0; i < 8 && s; i++)
    {
	field[i] = s;
	s = strchr(s, 1);
	if (s)
	    *s++ = 0;
    }
}
static void show_text(t)
Text *t;
{
    Char *c;
    long n = 0, b = 0;
    printf("%ld:", t->count);
    for (c = t->first; c; c = c->next, n++)
	printf("%s%lX ", c->suspect ? "^" : "", (long) c->value);
    for (c = t->last; c; c = c->prev)
	b++;
    printf("%s\n", n == t->count && b == n ? "" : "BROKEN");
}
static void show_list(l, k)
Synclist *l;
int k;
{
    Sync *s;
    int i;
    for (s = l->first; s; s = s->next)
    {
	printf("(");
	if (s->match)
	    printf("%ld", *s->match);
	for (i = 0; i < k; i++)
	    printf(" %ld-%ld:%ld", s->substr[i].start, s->substr[i].stop, s->substr[i].length);
	printf(")");
    }
    printf("\n");
}
static void cleanup()
{
    printf("cleanup\n");
    fflush(stdout);
}
static void my_usage()
{
    printf("my usage\n");
}
static void header(f)
FILE *f;
{
    fputs("made here\n", f);
}
static char *name(s)
char *s;
{
    return(s[0] == '-' && !s[1] ? NULL : s);
}
static char *made[100];
static int nmade;

static void left_behind()
{
    int i;
    for (i = 0; i < nmade; i++)
	if (file_exists(made[i]))
	{
	    fprintf(stderr, "temporary file %d left behind\n", i);
	    unlink(made[i]);
	}
}
static void op(s)
char *s;
{
    Text *t;
    Char *c;
    Word *w;
    FILE *f;
    Textopt o;
    char string[STRING_SIZE + 1], *p;
    unsigned char buffer[8];
    int i, k;
    long n, m;
    split(s + 1);
    t = &text[atoi(field[0]) % 20];
    switch (s[0])
    {
    case 'R':
	memset(&o, 0, sizeof(o));
	o.find_header = strchr(field[1], 'h') != NULL;
	o.find_markers = strchr(field[1], 'm') != NULL;
	o.normalize = strchr(field[1], 'n') != NULL;
	o.case_insensitive = strchr(field[1], 'i') != NULL;
	o.suspect_marker = strtol(field[2], NULL, 16);
	read_text(t, name(field[3]), &o);
	printf("%s", o.find_header && o.found_header ? "header\n" : "");
	break;
    case 'C': printf("%d\n", cstring_to_text(t, field[1])); break;
    case 'P': append_char(t, atoi(field[1]), (Charvalue) strtol(field[2], NULL, 16)); break;
    case 'S': show_text(t); break;
    case 'X': list_empty(t, free); break;
    case 'D':
	for (c = t->first; c; c = c->next)
	{
	    memset(string, 'Z', sizeof(string));
	    char_to_string(c->suspect, c->value, string, field[1][0] == '1');
	    printf("%s|%s", string, string[STRING_SIZE] == 'Z' ? "" : "OVERRUN");
	}
	printf("\n");
	break;
    case 'W': write_text(t, name(field[2]), field[1][0] == '1' ? header : NULL); break;
    case 'F':
	find_words(&words, t);
	printf("%ld:", words.count);
	for (w = words.first; w; w = w->next)
	    printf("%s|", w->string);
	printf("\n");
	break;
    case 'G': list_empty(&words, free_word); printf("%ld\n", words.count); break;
    case 'E':
	i = encode_or_die((int) strtol(field[0], NULL, 16), buffer);
	printf("%d:", i);
	for (k = 0; k < i && k < 8; k++)
	    printf("%02X", buffer[k]);
	printf("\n");
	break;
    case 'K': printf("%s\n", charclass_name(charclass((Charvalue) strtol(field[0], NULL, 16)))); break;
    case 'N': printf("%s\n", charclass_name((Charclass) atoi(field[0]))); break;
    case 'I': init_stopwords(name(field[0])); break;
    case 'J': printf("%d\n", is_stopword((unsigned char *) field[0])); break;
    case 'U': i = ustrcmp((unsigned char *) field[0], (unsigned char *) field[1]); printf("%d\n", i < 0 ? -1 : i > 0); break;
    case 'B': printf("%s\n", basefilename(field[0])); break;
    case 'Q': printf("%d\n", file_exists(field[0])); break;
    case 'T':
	k = atoi(field[0]);
	atexit(left_behind);
	{
	    while (k-- > 0 && nmade < 100)
	    {
		p = tempfilename();
		for (i = 0; i < nmade && strcmp(made[i], p) != 0; i++);
		printf("%s", i < nmade ? "SAME" : file_exists(p) ? "EXISTS" : "new");
		f = fopen(p, "w");
		if (f)
		{
		    fputs("x", f);
		    fclose(f);
		}
		printf("%d\n", file_exists(p));
		made[nmade++] = p;
	    }
	}
	break;
    case 'H': cleanup_routine = cleanup; break;
    case 'M': errstatus = atoi(field[0]); break;
    case 'e': error(field[0]);
    case 's': error_string(field[0], field[1]);
    case 'w': warning_string(field[0], field[1]); break;
    case 't': terminate();
    case 'o':
	f = open_file(name(field[1]), field[0]);
	printf("%s:", f == stdin ? "stdin" : f == stdout ? "stdout" : "file");
	if (field[0][0] == 'r')
	    while ((i = getc(f)) != EOF)
		putchar(i);
	else
	    fputs("written", f);
	close_file(f);
	printf("\n");
	break;
    case 'Y':
	k = atoi(field[1]);
	if (field[0][0] == 'f')
	    fastukk_sync(&list1, text);
	else if (field[0][0] == 'h')
	    synchronize(&list1, (short) k, text);
	else
	    transpose_sync(&list1, &list2, &text[0], &text[1]);
	show_list(&list1, field[0][0] == 't' ? 1 : field[0][0] == 'f' ? 2 : k);
	if (field[0][0] == 't')
	    show_list(&list2, 1);
	break;
    case 'a': read_accrpt(&accdata, name(field[0])); break;
    case 'A': write_accrpt(&accdata, name(field[0])); break;
    case 'b': read_wacrpt(&wacdata, name(field[0])); break;
    case 'V': write_wacrpt(&wacdata, name(field[0])); break;
    case 'c': read_edorpt(&edodata, name(field[0])); break;
    case 'Z': write_edorpt(&edodata, name(field[0])); break;
    case 'd': update_dist(&dist, atol(field[0]), atol(field[1])); break;
    case 'O': write_dist(&dist, name(field[0])); break;
    case 'z':
	n = atol(field[0]), m = atol(field[1]);
	p = allocate((size_t) n, (size_t) m);
	for (n *= m; n > 0 && !p[n - 1]; n--);
	printf("%ld\n", n);
	free(p);
	break;
    default: printf("?\n");
    }
}
static Boolean opt_a, opt_b;
static char *opt_s, *opt_v;
static Option option[] =
{
    { 'a', NULL, &opt_a },
    { 'b', NULL, &opt_b },
    { 's', &opt_s, NULL },
    { 'v', &opt_v, NULL },
    { '\0' }
};

main(argc, argv)
int argc;
char *argv[];
{
    int i;
    char *name = argv[0];
    exec_name = "library";
    if (argc > 2 && strcmp(argv[1], "init") == 0)
    {
	char *flags = argv[2];
	argv += 2;
	argc -= 2;
	argv[0] = name;
	if (strchr(flags, 'u'))
	    usage_routine = my_usage;
	if (strchr(flags, 'n'))
	    usage_when_no_args = False;
	if (strchr(flags, 'c'))
	    cleanup_routine = cleanup;
	initialize(&argc, argv, strchr(flags, 'N') ? NULL : "this and that", strchr(flags, 'O') ? NULL : option);
	printf("%d:", argc);
	for (i = 0; i < argc; i++)
	    printf("%s|", argv[i]);
	printf("%d%d%s|%s\n", opt_a, opt_b, opt_s ? opt_s : "(none)", opt_v ? opt_v : "(none)");
    }
    else
    {
	for (i = 2; i < argc; i++)
	    op(argv[i]);
	printf("end\n");
    }
    return(0);
}
