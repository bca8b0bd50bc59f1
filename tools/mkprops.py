import json
P=[]
def p(id,title,statement,over,q,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})

p("C01","accuracy counts the minimum possible number of character errors",
 "For every pair of texts whose correct side has no reject character, the number of errors reported by accuracy is the minimum number of single-character insertions, substitutions and deletions that turn the generated text into the correct text, where a reject character never matches anything. Where the correct text contains reject characters (wildcards), the matched/unmatched alignment behind the report is still one of minimum cost. It holds for texts of any length.",
 ["inputs"],"every pair of texts (any characters, any lengths, any placement of the differences, either side longer, either side empty)",
 "The tests run accuracy on one random large file against itself; optimality is a statement over all pairs and all alternative alignments.",
 ["src/sync.c","src/accuracy.c"],[("fastukk_sync: Ukkonen's cut-off diagonal search","src/sync.c"),("process_synclist","src/accuracy.c")],
 [("min_k,max_k","cut-off bounds of the explored diagonals","src/sync.c"),("pathlist","furthest-reaching points per cost and diagonal","src/sync.c")],["Errors line of the accuracy report","output of synctext on two files"])
p("C02","accuracy report figures all follow from one alignment, exactly",
 "Every figure of an accuracy report is determined by one optimal alignment of the two texts, the one synctext shows: characters, errors, reject characters, suspect markers, false marks, the insertion/substitution/deletion table split into marked and unmarked, the counts by character class and by single character, and the list of confusions in its documented order. Wildcards in the correct text absorb that many generated characters, a difference is marked if its generated side has a reject or suspect character, and missed characters are insertions plus substitutions when there are no wildcards. Percentages, column layout and the omission of empty sections follow from those figures.",
 ["inputs"],"every pair of texts, including reject characters, suspect markers, newlines, non-ASCII and unprintable characters, and confusions of every length",
 "The unit tests never look inside an accuracy report beyond a few constant examples; the accounting identities quantify over all alignments, marks and characters.",
 ["src/accuracy.c","src/accrpt.c","src/charclass.c","src/sync.c"],[("process_synclist, make_key","src/accuracy.c"),("add_class, add_conf, write_accrpt","src/accrpt.c"),("charclass ranges","src/charclass.c")],
 [("accdata","all the counters of the report","src/accuracy.c")],["the accuracy report"])
p("C03","Reading a text: spacing, header, suspect markers and case are handled exactly",
 "Every tool sees a text file as the same character sequence: an optional vendor-interface header is skipped only if it is really one, a suspect marker is dropped and marks exactly the next character, and, as documented, blanks of every kind become one space, leading, trailing and repeated blanks and empty lines vanish, and line breaks otherwise stay. Adding or removing such extraneous spacing anywhere never changes a result; word tools and synctext -i compare in lower case. Characters that are not spacing or markers are never lost, added, reordered or changed.",
 ["inputs"],"every file content: every mix of blanks, newlines, markers and letters, every header shape, files with and without a final newline",
 "No test checks normalisation on more than a constant; the guarantee is for any placement of spacing, markers and headers.",
 ["src/text.c"],[("read_header, read_contents","src/text.c"),("compress_spacing, is_blank, lowercase","src/text.c")],None,["synctext and accuracy output for the file"])
p("C04","Exactly well-formed UTF-8 is accepted, and nothing is misread",
 "A text file is accepted exactly when its whole content is well-formed UTF-8 (no overlong forms, surrogates, values above U+10FFFF, stray or missing continuation bytes, truncated sequences), and then each sequence is read as the character it encodes. Any other content makes the tool stop with a message and a non-zero status instead of a result computed from garbage.",
 ["inputs"],"every byte sequence, at every position of a file",
 "The tests read a handful of constant UTF-8 strings; acceptance is a statement over all byte strings.",
 ["src/text.c"],[("read_contents","src/text.c"),("utf8proc_iterate","libutf8proc")],None,["exit status, stderr, and the characters listed by accuracy, ngram and synctext"])
p("C05","Every Unicode character can be counted, listed and read back unchanged",
 "For every Unicode character U+0000 to U+10FFFF that a text may contain, accuracy counts it in the documented character class and lists it once, in code point order, in a form that no other character has (itself if graphic, on a dotted circle if combining, otherwise a hexadecimal or newline escape). Reading such a report back (accsum, groupacc, accci, accdist) recovers exactly the same characters and counts. The same representation is used by synctext, vote and ngram.",
 ["inputs"],"all 1,112,064 Unicode scalar values, alone and combined, in correct and generated text",
 "The tests check round trips of a few graphic characters; the guarantee is for each of over a million characters.",
 ["src/accrpt.c","src/accrpt.h","src/text.c","src/text.h","src/charclass.c"],[("char_to_string","src/text.c"),("read_char, write_class","src/accrpt.c"),("range table","src/charclass.c")],[("small_class","per-character counters","src/accrpt.h")],["per-character section of accuracy and accsum reports"])
p("C06","Summing reports gives the exact component-wise sum, whatever the order",
 "accsum, wordaccsum and editopsum applied to reports give a report every figure of which is the sum of the inputs' figures (each class, character, confusion, word length, occurrence class, phrase length, word and move length included), with the same layout as the report of a single page. The result does not depend on the order of the inputs nor on whether they are summed at once or in stages, and a report whose last line has no end is summed as with it or refused.",
 ["inputs","histories"],"every list of two or more valid reports, of any content and any number, in every order and grouping",
 "The tests sum one or two reports; commutativity, associativity and losslessness quantify over all report contents and merge orders.",
 ["src/accsum.c","src/wordaccsum.c","src/editopsum.c","src/accrpt.c","src/wacrpt.c","src/edorpt.c"],[("read_accrpt/write_accrpt","src/accrpt.c"),("read_wacrpt/write_wacrpt","src/wacrpt.c"),("read_edorpt/write_edorpt","src/edorpt.c")],None,["the summed report"])
p("C07","Words are exactly the Unicode word segments that start like a word",
 "The word tools divide a text at the default word boundaries of Unicode Standard Annex 29 (Unicode 8 word-break data) and take as words exactly the segments whose first character is a letter, mark, number, connector punctuation or private-use character, in text order, lower-cased and composed to NFC. No segment is lost, split, merged or reordered, wherever it stands in the text.",
 ["inputs"],"every text: every sequence of word-break classes, every code point",
 "The unit tests segment about a dozen constant sentences; the rules interact over sequences of 18 character classes with two characters of look-ahead and look-behind.",
 ["src/word.c","src/word_break_property.h"],[("find_next_boundary","src/word.c"),("WORD_BREAK_PROPERTY","src/word_break_property.h"),("is_word_start, append_word","src/word.c")],None,["words listed by wordfreq and wordacc"])
p("C08","wordacc recognises a longest common subsequence of words and tallies it exactly",
 "The words wordacc counts as recognised form a longest common subsequence of the two word sequences, so the number of misrecognised words is minimal. Every figure of the report follows from that choice: totals, stopwords and non-stopwords by length in characters, distinct non-stopwords by number of occurrences (a distinct word is missed when all its occurrences are), phrases of 1 to 8 words (missed unless all their words are recognised), and the counts of every distinct word in sorted order. The stopwords are those of the -S file, or the default list.",
 ["inputs"],"every pair of word sequences, every word length, any stopword list",
 "The tests do not run wordacc; the guarantee quantifies over all pairs of word sequences.",
 ["src/wordacc.c","src/wacrpt.c","src/stopword.c","src/word.c"],[("compute_pathlist, obtain_matches","src/wordacc.c"),("process_terms, process_phrases","src/wordacc.c"),("write_wacrpt","src/wacrpt.c"),("is_stopword","src/stopword.c")],[("symbol[].recognized","words in the common subsequence","src/wordacc.c")],["the word accuracy report"])
p("C09","synctext shows every input text completely, with sound and best matches",
 "From the output of synctext each of the 2 to 16 input texts can be reconstructed exactly: the displayed matches are equal in all texts, in order, and never contain a reject character, and each footnote gives what each text has there. For two texts without -H or -T the alignment has minimum cost; with -H or more texts it is the documented recursive longest-common-substring alignment; with -T matches are the documented repeated longest matches and may be transposed. With -s suspect characters are shown with their markers.",
 ["inputs","configurations"],"every list of 2 to 16 texts, every option combination",
 "No test runs synctext; soundness and optimality quantify over all text tuples.",
 ["src/synctext.c","src/sync.c"],[("fastukk_sync, synchronize, transpose_sync","src/sync.c"),("write_matches, write_differences, write_transposed","src/synctext.c")],None,["standard output of synctext"])
p("C10","editop counts the insertions, deletions and moves of its documented procedure",
 "For every pair of texts editop reports as insertions the correct characters (reject characters excepted) outside the matches of the transposing alignment that synctext -T shows, as deletions the generated characters outside them, and as moves, by length of the moved block (100 standing for 100 or more), those of the documented greedy procedure that puts the matched blocks in order. Identical texts without reject characters give all zeros and the listed moves add up to the total.",
 ["inputs"],"every pair of texts, including every permutation of blocks",
 "No test runs editop; the greedy ordering has to hold for every permutation of matched blocks.",
 ["src/editop.c","src/edorpt.c","src/sync.c"],[("count_insertions, count_deletions, count_moves","src/editop.c"),("transpose_sync","src/sync.c")],None,["the edit operation report"])
p("C11","editopcost gives the exact correction cost at every move threshold",
 "For each T from 0 to 100 editopcost prints the cost of an edit operation report in insertions, where a move costs T insertions if the block is at least T long and otherwise its characters are reinserted. With a second report the costs are those of the difference of the two reports.",
 ["inputs"],"every edit operation report and every pair of reports",
 "No test runs editopcost.",
 ["src/editopcost.c","src/edorpt.c"],[("write_results, decrement_edodata","src/editopcost.c"),("read_edorpt","src/edorpt.c")],None,["the 101 lines printed"])
p("C12","groupacc reports exactly the listed characters that occur",
 "For every group file and accuracy report, groupacc lists, in the order of the group file, each non-blank character of the group that occurs in the correct text with its count, misses and percentage as in the accuracy report, and the totals of the listed lines. Characters outside the group contribute nothing.",
 ["inputs"],"every group file and every accuracy report",
 "No test runs groupacc.",
 ["src/groupacc.c","src/accrpt.c"],[("write_report","src/groupacc.c"),("read_accrpt","src/accrpt.c")],None,["the groupacc report"])
p("C13","nonstopacc removes each stopword once, in order, ending at non-stopword accuracy",
 "For every stopword list and word accuracy report, line k printed by nonstopacc is the word accuracy after removing all occurrences of the first k listed stopwords, each distinct word being removed only once. The output ends early exactly when no words are left, and for the report's own stopwords the last figure is the non-stopword accuracy.",
 ["inputs"],"every stopword list (repetitions and unknown words included) and every word accuracy report",
 "No test runs nonstopacc.",
 ["src/nonstopacc.c","src/wacrpt.c","src/word.c"],[("find_stopword, write_results","src/nonstopacc.c"),("read_wacrpt","src/wacrpt.c")],None,["the lines printed"])
p("C14","accci and wordaccci give the jackknife 95% confidence interval",
 "For every list of reports with at least two non-empty pages, accci and wordaccci print the number of observations, the totals, the overall accuracy, and the jackknife 95% confidence interval of the ratio estimator limited to 0..100. With fewer than two non-empty observations they refuse with an error rather than print figures.",
 ["inputs"],"every list of reports, of every length and order, empty pages included",
 "No test runs accci or wordaccci.",
 ["src/ci.c","src/accci.c","src/wordaccci.c"],[("compute_ci, valid_obslist","src/ci.c")],None,["the five lines printed"])
p("C15","accdist and wordaccdist give the exact distribution of page accuracy",
 "For every list of reports, line x (0 to 100) printed by accdist or wordaccdist is the percentage of all characters or words that lie on pages with an accuracy of at least x per cent. Empty pages do not count, and nothing is printed when all pages are empty.",
 ["inputs"],"every list of reports, accuracies on either side of every whole per cent included",
 "No test runs accdist or wordaccdist.",
 ["src/dist.c","src/accdist.c","src/wordaccdist.c"],[("update_dist, write_dist","src/dist.c")],None,["the 101 lines printed"])
p("C16","vote outputs the documented majority text for 2 to 16 inputs",
 "vote aligns its inputs as synctext does for several texts (with -H for two) and outputs the matched text and, in each difference, position by position the character with the most votes, ties going to the earliest file, until a majority has no more characters; reject characters cast no vote and an all-reject position gives a reject character. -w m/n weights suspect characters m to n, -s m/n marks characters whose votes do not exceed the threshold, and -O restricts the vote to the three inputs closest to the medians of the bigram counts. Identical inputs are reproduced (in the form in which characters are displayed) and the result is written to -o or standard output.",
 ["inputs","configurations"],"every list of 2 to 16 texts and every option combination and fraction",
 "No test runs vote; the outcome depends on ties, weights and alignments over up to 16 texts.",
 ["src/vote.c","src/sync.c","src/sort.c"],[("perform_vote, place_vote, winner","src/vote.c"),("select_voters, compute_median, compute_distance","src/vote.c"),("synchronize","src/sync.c")],[("candidate[]","votes at the current position","src/vote.c")],["the voted text"])
p("C17","ngram counts every n-gram of every file exactly once",
 "For n = 1, 2 and 3 ngram counts each run of n consecutive characters inside each file exactly once, and as suspect when any of its characters is suspect; no n-gram spans two files and files shorter than n contribute nothing. It prints the n-grams first in character code order and then by decreasing count, then decreasing suspect count, then code, with correct totals.",
 ["inputs","configurations"],"every list of text files and each n",
 "No test runs ngram.",
 ["src/ngram.c","src/sort.c","src/table.c"],[("process_file, add_sequence","src/ngram.c"),("order_by_value, order_by_count","src/ngram.c")],None,["standard output of ngram"])
p("C18","wordfreq counts every word of every file exactly once",
 "wordfreq prints each distinct word of its input files with its exact number of occurrences over all files, first in byte order of the words and then by decreasing count and word, with the correct total. Words never span two files.",
 ["inputs"],"every list of text files",
 "No test runs wordfreq.",
 ["src/wordfreq.c","src/word.c","src/table.c","src/sort.c"],[("process_file, write_report","src/wordfreq.c"),("table_lookup, table_insert","src/table.c")],None,["standard output of wordfreq"])
p("C19","Command lines are interpreted uniformly and errors are always reported",
 "For every tool and argument list: no arguments (or a prefix of -help) shows the usage with status 0; every documented option is accepted before, between or after the files, string values attached or as the next argument; an unknown or repeated option, an invalid option value, a wrong number of files or a file that cannot be opened or created gives one message naming the tool on standard error and a non-zero status. A tool that exits with 0 has written its complete result where it was asked to, and only there; it never modifies an input file. A run refused for its arguments or its inputs leaves an existing output file as it was.",
 ["inputs","configurations"],"every tool and every argument list over the documented options, invalid options and file names",
 "The tests run two tools with fixed arguments.",
 ["src/util.c","src/accuracy.c","src/wordacc.c","src/vote.c","src/synctext.c","src/ngram.c","src/editop.c"],[("initialize, parse_args, split_option","src/util.c"),("error, error_string, terminate","src/util.c"),("open_file","src/util.c")],None,["exit status, stderr, files written"])
p("C20","Exit status 0 means all input was read and all output was written",
 "If any read from an input or any write to an output fails at any point, the tool exits with a non-zero status and a message instead of presenting a partial result as complete. The result does not depend on how the operating system delivers the data: short reads, interrupted chunking and inputs that cannot be rewound (pipes) give the same output as ordinary files. A tool stopped by SIGINT or SIGTERM reports it and exits with a non-zero status.",
 ["fault_sequences","crash_points"],"every tool, every input and output operation as the point of failure, every chunking of the reads",
 "No test injects an I/O error; the guarantee quantifies over every I/O operation of every tool.",
 ["src/util.c","src/text.c","src/accrpt.c","src/wacrpt.c","src/edorpt.c"],[("open_file, close_file, terminate","src/util.c"),("read_header, read_contents","src/text.c")],None,["exit status and stderr under fault injection"])
p("C21","No input makes a tool crash, hang, corrupt memory or vary its output",
 "For all input texts, reports and arguments every tool ends by itself with status 0 or 1, without reading or writing memory it does not own, using memory after release or releasing it twice, and without overflowing a buffer or the stack. The output depends only on the inputs and arguments: never on memory contents, the environment, the working directory's other files or a previous run.",
 ["inputs","configurations"],"all inputs at and around every size limit in the code (display width, word length, move length, number of files, characters, code points)",
 "The tests are not run under a memory checker and touch almost none of the size limits.",
 ["src/text.h","src/accuracy.c","src/wordacc.c","src/wacrpt.c","src/vote.c","src/ngram.c","src/sort.c","src/editop.c"],[("STRING_SIZE, MAX_DISPLAY, MAX_WORDLENGTH, MAX_MOVE_LENGTH buffers","src/*.h"),("sort recursion","src/sort.c")],None,["AddressSanitizer build of every tool"])
p("C22","A file that is not a report of the right kind is never used as one",
 "Tools that read reports accept exactly files whose title, divider and leading figures are those of the expected report kind with the same major version, and refuse any other file with a message naming the file and status 1. Values out of range or unreadable characters in a report are refused rather than counted elsewhere. A report damaged in any other way (any line missing, repeated, cut or garbled) never makes a tool crash or hang.",
 ["inputs"],"every truncation, line deletion, duplication and line mutation of valid reports, for each report-reading tool",
 "The tests only ever read well-formed reports.",
 ["src/accrpt.c","src/wacrpt.c","src/edorpt.c"],[("read_accrpt, read_char","src/accrpt.c"),("read_wacrpt, read_numbers, read_terms","src/wacrpt.c"),("read_edorpt","src/edorpt.c")],None,["exit status, stderr"])
p("C23","Lists, tables and sort behave as their abstract counterparts",
 "After every sequence of operations a list of the library is the sequence its operations describe, with first, last, count, links in both directions and the array view all consistent. A table is a map from strings to entries, whatever keys share a bucket, and sort leaves a permutation of its input in the order of the comparison function, whatever the initial order.",
 ["histories","inputs"],"every operation sequence on a list and a table, every initial order and multiplicity for sort",
 "The unit tests exercise a few fixed sequences through the text and word modules.",
 ["src/list.c","src/table.c","src/sort.c"],[("list_insert, list_remove, list_in_array","src/list.c"),("table_insert, table_remove, table_lookup","src/table.c"),("sort","src/sort.c")],[("list->array, table->array","cached array views, invalidated by changes","src/list.c")],["the library API declared in list.h, table.h, sort.h"])
p("C24","A refused memory request ends a run with a message, never with a wrong result",
 "Whichever memory request of a run is refused (once, or every one from then on, or every one above a size), the tool either produces exactly the result it would have produced or ends with status 1 and the message that memory cannot be allocated, naming itself, without crashing or hanging; what it wrote before is a beginning of the right output.",
 ["fault_sequences"],"every tool, every single memory request of a run as the one that is refused, and every limit on the size of a request",
 "No test refuses memory; the guarantee quantifies over every allocation of every tool.",
 ["src/util.c","src/util.h","src/word.c","src/accrpt.c","src/wacrpt.c","src/ngram.c","src/vote.c","src/list.c","src/table.c"],[("allocate","src/util.c"),("append_word","src/word.c"),("table_insert","src/table.c"),("list_in_array","src/list.c")],None,["exit status, stderr and output with a refused request"])
p("C25","The library does what its headers document, also where no tool asks for it",
 "For every client of the library: read_text appends the text that the options describe (header found, markers, any suspect marker, normalization, case) to any text already there, and write_text followed by read_text gives the text back; strings become texts exactly when they are valid UTF-8; alignments and word lists do not depend on earlier calls; the stop list answers as initialised and refuses to be used before or initialised twice; reports can be read from standard input; error, error_string, terminate and failing calls run the cleanup routine, delete the temporary files and exit with errstatus; initialize accepts exactly the options it is given.",
 ["inputs","histories"],"every option combination, text, sequence of calls and way to end of a client of the library",
 "The unit tests call a few functions once each on fixed strings.",
 ["src/text.h","src/text.c","src/util.h","src/util.c","src/word.h","src/stopword.h","src/sync.h","src/charclass.h"],[("read_text, write_text, cstring_to_text, char_to_string","src/text.c"),("error, terminate, tempfilename, basefilename, initialize","src/util.c"),("init_stopwords, is_stopword","src/stopword.c"),("synchronize, fastukk_sync, transpose_sync","src/sync.c")],None,["what a client of the library sees (shim/library.c)"])
p("C26","In any history of runs, each result depends only on its own inputs",
 "In every sequence of runs of the tools over the same files, what a run prints, and its exit status, are those of a run given nothing but its arguments and the present contents of its input files: nothing is carried over from earlier runs and no other file matters. Where a run is asked to write a file, that file afterwards holds exactly what the run prints when it is not asked to, whatever the file held before (nothing, something longer, a report, one of the run's own inputs, which are read completely first), and standard output stays empty. No other file is created, changed or removed, and a run refused for its inputs changes none.",
 ["histories"],"every sequence of runs of the tools, every choice of inputs and outputs among the files of a directory (an input also as output), every previous content",
 "The tests run each tool once, in a fresh directory, with an output file that is not there before and is no input.",
 ["src/util.c","src/accrpt.c","src/wacrpt.c","src/edorpt.c","src/vote.c","src/groupacc.c","src/text.c","src/accuracy.c","src/wordacc.c","src/editop.c"],[("open_file, close_file","src/util.c"),("write_accrpt","src/accrpt.c"),("write_wacrpt","src/wacrpt.c"),("write_edorpt","src/edorpt.c"),("write_report","src/groupacc.c"),("write_text","src/text.c"),("main: inputs are read before the output is opened","src/accuracy.c")],[("the files of the directory","names and contents before and after each run","src/util.c")],["standard output, status and every file after each run"])
p("C27","Tools that report the same quantity about the same texts agree",
 "accuracy and ngram count the same characters, reject characters and suspect markers; wordacc and wordfreq the same words; groupacc's lines are those of the accuracy report; within a report parts add up to their wholes (classes, characters, confusions, operations, word lists, moves); accsum, accci and accdist (and their word counterparts) agree on what a set of reports says; nonstopacc starts at the word accuracy and, for the report's stopwords, ends at the non-stopword accuracy; editop inserts and deletes exactly the characters ngram counts too few or too many. A text compared with itself has no errors, exchanging two texts without reject characters keeps the number of errors and of recognised words, continuing both texts alike keeps the number of errors, votes of two or three copies of a text are the text, and counts of two files are the sums of the counts of each.",
 ["inputs"],"every pair of texts",
 "No test compares two tools with each other.",
 ["src/accuracy.c","src/ngram.c","src/wordacc.c","src/wordfreq.c","src/groupacc.c","src/nonstopacc.c","src/editop.c","src/vote.c","src/accsum.c","src/accci.c","src/accdist.c","src/accrpt.c","src/wacrpt.c"],[("process_synclist","src/accuracy.c"),("process_file","src/ngram.c"),("process_file","src/wordfreq.c"),("determine_wacdata","src/wordacc.c"),("write_report","src/groupacc.c"),("write_results","src/nonstopacc.c"),("count_insertions, count_deletions","src/editop.c")],None,["the figures in the outputs of the tools"])
p("C28","Runs at the same time, and killed runs, do not affect other runs",
 "However the file operations of runs that go on at the same time in one directory interleave, each run whose inputs no other run writes and whose output no other run writes gives exactly the status, output, messages and file it gives alone, and no other file is changed, removed or left. A run killed at any moment has changed and removed no file but its own output; runs after that, the same one again included, give what they give without it.",
 ["schedules","crash_points","histories"],"every interleaving of the file operations of two or three runs of any of the tools, every moment at which one of them is killed",
 "The tests run one tool at a time and to its end.",
 ["src/util.c","src/text.c","src/accrpt.c","src/wacrpt.c","src/edorpt.c","src/vote.c","src/accuracy.c","src/wordacc.c","src/editop.c"],[("open_file, close_file","src/util.c"),("tempfilename, delete_tempfiles","src/util.c"),("read_text, write_text","src/text.c"),("write_accrpt","src/accrpt.c"),("write_wacrpt","src/wacrpt.c"),("main: no state outside the arguments and the files","src/vote.c")],[("the files of the directory","names and contents, shared by all runs","src/util.c")],["status, standard output, standard error and every file, after any interleaving"])
p("C29","Characters count only as equal or different, whatever their script or plane",
 "Replacing the letters of all texts one for one by other letters or private-use characters, of any script, plane and length in bytes, changes nothing in what the tools report but these letters: accuracy's figures, confusions and characters (classes apart), synctext's matches and notes, editop's counts, vote's text, n-gram and word counts and word accuracy are those of the original texts with the letters replaced, lists that are sorted by character being sorted anew. So no two different characters are ever taken for the same, however alike their codes or bytes are, and no character is treated specially because of its code.",
 ["inputs"],"every one-to-one replacement of letters, every pair of letters with similar codes",
 "The tests use ASCII letters almost everywhere.",
 ["src/sync.c","src/vote.c","src/ngram.c","src/word.c","src/wordacc.c","src/wordfreq.c","src/table.c","src/accuracy.c","src/editop.c","src/text.c","src/groupacc.c"],[("longest_match, compute_f","src/sync.c"),("char_to_string, append_char","src/text.c"),("add_sequence","src/ngram.c"),("place_vote","src/vote.c"),("table_lookup, hash","src/table.c"),("ustrcmp","src/util.c")],None,["outputs of the tools for a text and for the same text with its letters replaced"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
