CLI = "explicit enumeration of the bounded input space, real program run on every case, outputs decided by a reference automaton"
NOTE = ("Exhaustive within the stated bounds (alphabet, lengths, configurations), on the real program built from the working tree; "
        "trusts the reference model, the compiler, OpenFST, jsoncpp and the local stand-in for the strtk tokenizer header. ")

prop("P01", "The alignment is a faithful path through reference and hypothesis",
     "For every reference, hypothesis and option combination, the rows of the side-by-side alignment spell, in order, exactly the "
     "hypothesis words on the hypothesis side and exactly one of the reference's readings on the reference side, each row pairing a "
     "word with a word, with <ins> or with <del>. A row is marked as an error exactly when its two sides differ, and its class column "
     "names the entity or synonym its reference word was read from (empty for plain words).",
     ["inputs", "configurations"],
     "all plain, labelled and synonym references and hypotheses up to the stated lengths, input formats, composition approaches, first pass on/off, long inputs with up to two disturbances",
     "the tests compare totals and a few output files of fixed transcripts; dropping, repeating or reordering a word for some shape of input keeps them passing",
     ["src/AdaptedComposition.cpp", "src/StandardComposition.cpp", "src/Walker.cpp", "src/AlignmentTraversor.cpp", "src/fstalign.cpp", "src/wer.cpp"],
     [("composition of the two graphs", "src/AdaptedComposition.cpp"), ("path backtrace and label folding", "src/Walker.cpp: GetDetailsFromTopCandidates"), ("side-by-side writer", "src/wer.cpp: WriteSbs")],
     ["--output-sbs file"], CLI, NOTE + "Class column and readings checked on labels, candidates and synonyms.")

prop("P02", "Reported totals agree with the alignment and with each other",
     "The insertions, deletions, substitutions, number of errors and number of reference words reported in the JSON log and on the "
     "console are the ones counted on the rows of the reported alignment; the word error rate is errors over reference words, precision "
     "is correct over correct+insertions+substitutions and recall is correct over correct+substitutions+deletions. Insertions and deletions "
     "differ by exactly the difference in length of hypothesis and chosen reading.",
     ["inputs", "configurations"],
     "the same spaces as P01, with the JSON log, the console log and the side-by-side file of every run compared",
     "the tests pin totals of a few transcripts and never compare one output with another",
     ["src/Walker.cpp", "src/wer.cpp", "src/utilities.h", "src/json_logging.h"],
     [("accumulation of counts along the path", "src/Walker.cpp: GetDetailsFromTopCandidates"), ("reporting", "src/wer.cpp: RecordWer, CalculatePrecisionRecall")],
     ["--json-log file", "console log", "--output-sbs file"], CLI, NOTE)

prop("P03", "The reported alignment has the minimum number of errors",
     "For references with a single reading, the reported number of errors is never below the edit distance between the reference words "
     "and the hypothesis words, and equals it whenever that distance is at most 20 (the search keeps every path within 20 errors of the "
     "best ones) or the differences are one stretch of foreign or missing words, whatever the composition approach, the input formats and the first-pass "
     "setting. (Recorded exception: adapted composition with a plain-text or NLP hypothesis may report one more, see the known findings.)",
     ["inputs", "configurations"],
     "all pairs over small alphabets up to the stated lengths, every format pair, both approaches, first pass on/off/limited, long repetitive and pruned searches",
     "minimality is a statement about every pair of transcripts; the tests know the best alignment of a handful",
     ["src/AdaptedComposition.cpp", "src/StandardComposition.cpp", "src/Walker.cpp", "src/PathHeap.cpp", "src/Ctm.cpp", "src/OneBestFstLoader.cpp", "src/Nlp.cpp"],
     [("weights and arcs of the composition", "src/AdaptedComposition.cpp, src/StandardComposition.cpp"), ("best-first search with pruning", "src/Walker.cpp: walkComposed"), ("bounded heap", "src/PathHeap.cpp")],
     ["--json-log file", "--output-sbs file"], CLI, NOTE + "One known finding is keyed by its exact signature.")

prop("P04", "The approximate first pass never changes the error count",
     "For references with a single reading and at most 20 errors, or one stretch of foreign or missing words of any length, the number of errors "
     "reported with the approximate first pass is the one reported without it, whatever the error-streak limit, and the alignment reported is still a faithful one. In particular sequences around the size and "
     "error-streak thresholds that switch the first pass on and off do not change the result.",
     ["inputs", "configurations"],
     "all variations with up to two edits of several repetitive and distinct bases of 11 and 12 words, block edits of 14 and 20 words, error streaks of 98..110 words, limits 0..4 and default",
     "the tests run the first pass on a few transcripts with no comparison between settings",
     ["src/fstalign.cpp", "src/fast-d.cpp", "src/AdaptedComposition.cpp", "src/StandardComposition.cpp", "src/Nlp.cpp", "src/Ctm.cpp", "src/OneBestFstLoader.cpp"],
     [("match maps and their relaxation", "src/fstalign.cpp: Fstalign"), ("error streak test", "src/fast-d.cpp: MapContainsErrorStreaks"), ("forced matches", "src/AdaptedComposition.cpp")],
     ["--json-log file", "--output-sbs file"], CLI, NOTE + "Differential between two runs of the real program.")

prop("P05", "The edit-distance library is exact, and its maps describe a best alignment",
     "For any two integer sequences every entry point returns their edit distance and leaves them unchanged; the match maps have the "
     "sequences' lengths, hold only 1 and -1 whatever the caller's vectors held before, and their matched positions pair equal tokens "
     "in order and belong to an alignment of that distance. The error-streak test is true exactly when more than the limit of unmatched "
     "positions directly precede a matched one.",
     ["inputs", "histories"],
     "all pairs of sequences over 3 symbols up to length 6 (thorough 7) and over 2 symbols up to 8 (10), reused vectors, extreme values, long sequences with block edits, every map over {-1,0,1} up to length 9 (10) with every limit",
     "the tests cover seven short pairs, and none of the maps of a tie or of a reused vector",
     ["src/fast-d.cpp", "src/fast-d.h"],
     [("row-wise dynamic programming and backtracking", "src/fast-d.cpp: GetEditDistance"), ("streak test", "src/fast-d.cpp: MapContainsErrorStreaks")],
     ["return values and map vectors"], "exhaustive enumeration of sequence pairs against an independent dynamic-programming model",
     "Exhaustive within the bounds on the real library code; trusts the 8-line model.")

prop("P06", "Synonym rules add exactly the listed alternatives to the reference",
     "With a synonyms file every occurrence of a rule's left side in the reference, overlapping ones included, may be read as any of its alternatives "
     "and nothing else changes: the alignment reported is one of a reading allowed by the rules, it has no error if and only if some reading is the hypothesis, "
     "its error count is never below the distance to the closest reading and, with the first pass disabled, its error rate is not above that of the closest reading taken word for word. Comments, blank lines, blanks "
     "around separators, the order of the rules, repeated definitions (the first counts) and rules for absent words do not matter.",
     ["inputs", "configurations"],
     "all references of up to 3 words with all rule sets of a grammar of one- and multi-word sides, each reading with all edits, labels mixed with synonyms, texts long enough for the first pass, both approaches, eleven ways of writing a rules file",
     "overlapping, nested and adjacent matches and their interplay with errors are combinatorial; the tests have a few fixed rules",
     ["src/SynonymEngine.cpp", "src/SynonymEngine.h", "src/fstalign.cpp", "src/AdaptedComposition.cpp", "src/Walker.cpp"],
     [("reading of the rules", "src/SynonymEngine.cpp: LoadFile, ParseStrings"), ("insertion into the reference graph", "src/SynonymEngine.cpp: ApplyToFst"), ("labels along the path", "src/Walker.cpp: GetDetailsFromTopCandidates")],
     ["--output-sbs file", "--json-log file"], CLI, NOTE)

prop("P07", "Cut-off words, hyphenated compounds and tags get their synonyms by themselves",
     "Without any rules a cut-off word (hello-) in the reference may be read without its hyphen, a compound (long-term) of either transcript as its parts and the "
     "parts as the compound, and a tag (<laugh>) as <unk>; --disable-cutoffs and --disable-hyphen-ignore switch off exactly the first and the second. "
     "A rule of the user's file for the same words takes precedence, and no other word becomes equivalent.",
     ["inputs", "configurations"],
     "all references and hypotheses of up to 3 words over words, cut-offs, compounds and their parts, all four combinations of the two flags, both approaches, tags, labels, rules, longer texts",
     "which pairs of words become equivalent depends on both transcripts and the flags; the tests sample a few",
     ["src/SynonymEngine.cpp", "src/SynonymEngine.h", "src/fstalign.cpp", "src/main.cpp"],
     [("rules implied by the words", "src/SynonymEngine.cpp: GenerateSynFromSymbolTable"), ("options", "src/main.cpp")],
     ["--output-sbs file", "--json-log file"], CLI, NOTE)

prop("P08", "A labelled stretch can be read as itself or as any of its candidates",
     "With a normalisation file every stretch of reference words labelled with an id may be read as its own words or as any verbalisation listed for that id, "
     "wholly and never in part or mixed; no other word is affected. The alignment reported is one of such a reading, it has no error if and only if some reading is "
     "the hypothesis, and with the first pass disabled or on short texts its error rate is that of the closest reading with the standard composition.",
     ["inputs", "configurations"],
     "all positions and lengths of one and two labels over references of up to 4 words, all candidate lists of 0..3 verbalisations of 0..3 words of a small set, each reading with all edits, both approaches, longer texts",
     "adjacent stretches, candidates of other lengths and shared words between candidates are combinations; the tests have two files",
     ["src/Nlp.cpp", "src/fstalign.cpp", "src/SynonymEngine.cpp", "src/AdaptedComposition.cpp", "src/StandardComposition.cpp", "src/Walker.cpp"],
     [("labels of the reference", "src/Nlp.cpp: NlpFstLoader"), ("candidates of the normalisation file", "src/Nlp.cpp, src/SynonymEngine.cpp"), ("labels along the path", "src/Walker.cpp: GetDetailsFromTopCandidates")],
     ["--output-sbs file", "--json-log file"], CLI, NOTE)

prop("P09", "The per-class breakdown partitions the labelled part of the alignment",
     "Each class' numbers of insertions, deletions, substitutions, errors and reference words are those of the alignment rows that show a label of that class, "
     "summed over all its labels, in the JSON log and on the console alike; a class whose label occurs in the reference is always reported, and no other class is reported with errors or words.",
     ["inputs", "configurations"],
     "up to three labels of equal and different classes, adjacent and apart, mixed with synonyms, all edits of every reading, both approaches",
     "the sums must hold for every position of labels and errors; the tests check one file",
     ["src/Walker.cpp", "src/wer.cpp", "src/utilities.cpp"],
     [("counts per label along the path", "src/Walker.cpp: GetDetailsFromTopCandidates"), ("summary per class", "src/wer.cpp: RecordWer")],
     ["--json-log file: classWER", "console log"], CLI, NOTE)

prop("P10", "The same words give the same result however their files are written",
     "Words separated by any mix of blanks and line breaks, NLP files with any order of columns, missing optional columns, padding or line ends, CTM files with any recording id, channel, times and "
     "confidences, and the three formats among each other give the same alignment, totals and breakdowns as far as they carry the same words and fields. "
     "Only the extension of a file's name decides on its format.",
     ["inputs", "configurations"],
     "for each of a set of transcript pairs all variants of one file (white space, column orders and subsets, fields, line ends, names) against a canonical one, outputs compared byte by byte",
     "an equivalence over all ways of writing a file; the tests have one spelling of each file",
     ["src/Nlp.cpp", "src/Ctm.cpp", "src/OneBestFstLoader.cpp", "src/main.cpp"],
     [("NLP reader", "src/Nlp.cpp: NlpReader"), ("CTM reader", "src/Ctm.cpp: CtmReader"), ("text reader", "src/OneBestFstLoader.cpp"), ("choice of the reader", "src/main.cpp: MakeReferenceLoader, MakeHypothesisLoader")],
     ["--output-sbs file", "--json-log file", "--output-nlp file"], CLI, NOTE + "Differential between two runs of the real program.")

prop("P11", "Letter case and punctuation count exactly when asked for",
     "By default words that differ in letter case only, in any script, are equal and the punctuation columns of NLP files are ignored; synonym rules apply under the same equality. With --use-case the spelling counts for every format; "
     "with --use-punctuation each punctuation mark of an NLP row is a word of its own right after it, also inside a labelled stretch, in the reference and in the hypothesis, and "
     "--use-case and --use-punctuation do not influence each other.",
     ["inputs", "configurations"],
     "all spellings of words of references and hypotheses of up to 3 words in all formats with both settings, every cased letter of ten alphabet ranges, all punctuation patterns over references of up to 3 rows, entities, longer texts",
     "equality of words must hold for every spelling and format; the tests sample a handful of words",
     ["src/Nlp.cpp", "src/Ctm.cpp", "src/OneBestFstLoader.cpp", "src/utilities.cpp", "src/main.cpp"],
     [("lower casing", "src/utilities.cpp: UnicodeLowercase"), ("punctuation rows", "src/Nlp.cpp: NlpFstLoader"), ("words of each format", "src/Ctm.cpp, src/OneBestFstLoader.cpp")],
     ["--output-sbs file", "--json-log file"], CLI, NOTE)

TALK_NOTE = NOTE + "Bounds: references of up to 4 rows in every pattern plus groups of up to 3 rows and 20-word ones, up to two edits. "

prop("P12", "The aligned NLP file is the reference with the hypothesis' timings",
     "The aligned NLP file has one row per reference word of the alignment, in order: the word in the reference's own casing with its "
     "speaker, punctuation, pre-punctuation, case, tags, error-tracking tags and old times, the start and end time of the hypothesis word "
     "it is aligned with (none when deleted) and a comment telling a substitution or deletion and the hypothesis word. Rows of insertions "
     "appear only on request, and the align and wer commands write the same file.",
     ["inputs", "configurations"],
     "all references of up to 4 rows, label and synonym groups of 1..3 rows read as 0..3 words at every position, all hypotheses within the stated edits, three hypothesis formats, with and without insertions, both commands",
     "the tests compare a few fixed files; an off-by-one of one class or format keeps them passing",
     ["src/fstalign.cpp", "src/Nlp.cpp", "src/Ctm.cpp", "src/wer.cpp"],
     [("joining alignment and hypothesis times", "src/fstalign.cpp: make_stitches"), ("joining alignment and reference rows", "src/fstalign.cpp: align_stitches_to_nlp"), ("writer", "src/fstalign.cpp: write_stitches_to_nlp")],
     ["--output-nlp file"], CLI, TALK_NOTE)

prop("P13", "The per-speaker breakdown partitions the alignment",
     "Each speaker's numbers of insertions, deletions, substitutions, errors and reference words are those of the rows of the alignment "
     "that belong to the speaker: every reference word counts for the speaker of the reference row it was read from, every insertion for the "
     "speaker of the reference word before it, or, before the first one, of the first. No other speaker is reported with errors or words, so the parts sum up to the total.",
     ["inputs", "configurations"],
     "all speaker patterns over references of up to 4 rows, groups read as other words, hypotheses within the stated edits, three hypothesis formats",
     "the tests check a few sums on one transcript; attribution depends on the position of every switch, insertion and class group",
     ["src/wer.cpp", "src/fstalign.cpp"],
     [("attribution of rows to speakers", "src/wer.cpp: RecordSpeakerWer"), ("joining alignment and reference rows", "src/fstalign.cpp: align_stitches_to_nlp")],
     ["--json-log file: speakerWER"], CLI, TALK_NOTE)

prop("P14", "The breakdown around speaker switches counts each word near a switch once",
     "With a context of n words, the numbers reported around speaker switches are those of the reference words that are among the n words "
     "before or the n words after some switch, each counted once however many switches it is near, and of the insertions between them. "
     "With a context of zero nothing is reported.",
     ["inputs", "configurations"],
     "all speaker patterns over references of up to 4 rows, contexts 0, 1, 2, 3, 5, 12 and the extremes, 20-word references, groups, hypotheses within the stated edits",
     "overlapping windows, windows cut by the ends and insertions at their borders are combinations no fixed transcript covers",
     ["src/wer.cpp", "src/main.cpp"],
     [("windows around switches", "src/wer.cpp: RecordSpeakerSwitchWer")],
     ["--json-log file: speakerSwitchWER"], CLI, TALK_NOTE)

prop("P15", "The per-sentence breakdown partitions the alignment",
     "The sentences reported are, in order, the stretches of the alignment up to and including each reference word with sentence-final "
     "punctuation (. ? !), the rest after the last one included; each has the numbers of insertions, deletions, substitutions, errors and "
     "reference words of its rows, so the sentences sum up to the total.",
     ["inputs", "configurations"],
     "all punctuation patterns over references of up to 4 rows, groups read as other words, hypotheses within the stated edits, three hypothesis formats",
     "the sums must hold for every position of punctuation, insertions and class groups; the tests check one",
     ["src/wer.cpp", "src/fstalign.cpp"],
     [("closing of sentences", "src/wer.cpp: RecordSentenceWer"), ("joining alignment and reference rows", "src/fstalign.cpp: align_stitches_to_nlp")],
     ["--json-log file: sentenceWer"], CLI, TALK_NOTE)

prop("P16", "Error-tracking tags collect exactly the words of the rows that carry them",
     "Each error-tracking tag's numbers of deletions, substitutions, errors and reference words are those of the alignment rows read from "
     "reference rows with the tag, a row with several tags counting for each. Every row of the side-by-side alignment shows the tags of its "
     "reference row, with the entity type the sidecar file gives for them.",
     ["inputs", "configurations"],
     "all tag patterns over references of up to 4 rows, groups read as other words, hypotheses within the stated edits, with and without a sidecar file",
     "the tests check one tagged transcript; the attribution depends on row positions, several tags per row and class groups",
     ["src/wer.cpp", "src/Nlp.cpp", "src/fstalign.cpp"],
     [("tag lists", "src/Nlp.cpp: GetWerTags"), ("breakdown", "src/wer.cpp: RecordTagWer"), ("side-by-side writer", "src/wer.cpp: WriteSbs")],
     ["--json-log file: wer_tag", "--output-sbs file"], CLI, TALK_NOTE)

prop("P17", "The unigram and bigram statistics are those of the alignment",
     "For every word, and every pair of words on neighbouring rows of the alignment, the JSON log gives how often it is correct, inserted, deleted, replaced (false negative) and put in place of another "
     "(false positive), with precision and recall of these numbers, exactly as counted on the rows. Entries seen fewer times than --pr_threshold, and only those, are left out.",
     ["inputs", "configurations"],
     "all plain transcript pairs over small alphabets, longer ones with up to two edits, labels and synonyms, thresholds 0..3 and default",
     "the counts depend on every neighbourhood of correct, inserted, deleted and replaced words; the tests look at a few entries",
     ["src/Walker.cpp", "src/wer.cpp", "src/utilities.h", "src/json_logging.h"],
     [("counting along the path", "src/Walker.cpp: GetDetailsFromTopCandidates"), ("reporting", "src/wer.cpp: JsonLogUnigramBigramStats")],
     ["--json-log file: unigrams, bigrams"], CLI, NOTE)

prop("P18", "The casing statistics count the aligned words by their capital letters",
     "With --record-case-stats, every pair of reference and hypothesis words on one row counts as true positive, false positive or false negative by whether the hypothesis has as many, more or fewer capitals (of any script) than the reference word "
     "(words in lower case on both sides count nothing), once over all such rows and once over those with equal words, and precision and recall are derived from these counts.",
     ["inputs", "configurations"],
     "all references of up to 3 words in four casings with all hypotheses of up to 2 words in four casings, three hypothesis formats, both approaches, pairs of words over letters of several scripts, longer texts with an edit",
     "insertions and deletions shift the rows the casing is looked up in; the tests check one transcript",
     ["src/wer.cpp", "src/Nlp.cpp", "src/Ctm.cpp"],
     [("casing comparison", "src/wer.cpp: RecordCaseWer"), ("joining alignment and rows", "src/fstalign.cpp: make_stitches, align_stitches_to_nlp")],
     ["--json-log file: caseWER"], CLI, NOTE)

prop("P19", "A lattice hypothesis is read along its most accurate path",
     "When the hypothesis is an OpenFST graph (standard composition), the hypothesis side of the alignment is a path of the graph, the reference side a reading of the reference, "
     "and the number of errors is the smallest edit distance between the reference and any path (for references with several readings: the error rate is not above that of the closest reading and path, and zero if some path is a reading). "
     "The numbering of the symbols and extra symbols do not matter.",
     ["inputs", "configurations"],
     "all three-node graphs with any set of arcs over two words and epsilon, all four-node (thorough: five-node) graphs with one arc or none between two nodes, references of up to 4 words, long chains with a branch, symbol numberings, labelled references and synonyms with a branch in the hypothesis",
     "a minimum over all paths of any graph; the tests have one graph",
     ["src/FstFileLoader.cpp", "src/StandardComposition.cpp", "src/Walker.cpp", "src/fstalign.cpp", "src/main.cpp"],
     [("loading of the graph", "src/FstFileLoader.cpp"), ("composition", "src/StandardComposition.cpp"), ("best-first search", "src/Walker.cpp: walkComposed")],
     ["--output-sbs file", "--json-log file"], CLI, NOTE + "The graphs are written byte by byte in OpenFST's format. Unweighted graphs.")

prop("P20", "The side-by-side file is laid out as documented and its groups index its errors",
     "Below a header the side-by-side file has one line per row of the alignment, padded to columns, with the error mark, class and tags; below a rule it lists every maximal "
     "stretch of rows in error with the line it starts on, its reference words and its hypothesis words (*** when there are none).",
     ["inputs", "configurations"],
     "all plain transcript pairs over small alphabets, longer ones with up to two edits, labels and synonyms, words shorter, equal and longer than the columns, in several scripts",
     "the positions and borders of error stretches are combinatorial; the tests compare no such list",
     ["src/wer.cpp"],
     [("writer", "src/wer.cpp: WriteSbs")],
     ["--output-sbs file"], CLI, NOTE)

prop("P21", "Every input gets a complete, consistent result or is refused with a message",
     "Whatever the files and the command line, the program ends: with exit status 0 and all requested outputs complete, readable and consistent with each other, or with an error status or an exception that "
     "says why, before any result is written. Valid inputs are never refused, and a file that is missing, or malformed as a whole, is refused. It never reads or writes outside its data.",
     ["inputs", "fault_sequences", "configurations"],
     "empty and tiny files of all formats in all pairings, odd words, every input file missing or malformed, cut at every byte or damaged at every byte (within the stated forms), command line errors; under AddressSanitizer and UBSan",
     "the tests run on well-formed files only; faults at every position of every input are a product no test samples",
     ["src/main.cpp", "src/fstalign.cpp", "src/Nlp.cpp", "src/Ctm.cpp", "src/OneBestFstLoader.cpp", "src/FstFileLoader.cpp", "src/SynonymEngine.cpp", "src/StandardComposition.cpp", "src/AdaptedComposition.cpp", "src/Walker.cpp"],
     [("reading of the inputs", "src/main.cpp: FstLoader::MakeReferenceLoader, FstLoader::MakeHypothesisLoader"), ("NLP reader", "src/Nlp.cpp"), ("CTM reader", "src/Ctm.cpp"), ("rules reader", "src/SynonymEngine.cpp: ParseStrings")],
     ["exit status", "console", "all outputs"],
     "exhaustive enumeration of faults (every truncation point, damaged byte, missing file) and tiny inputs on the real program, memory accesses watched",
     NOTE + "Excluded: words that are the program's own markers (only crash freedom), OpenFST symbol tables damaged within the <eps> entry.")

prop("P22", "Outputs do not influence each other and runs are reproducible",
     "Each output file, each section of the JSON log and the totals on the console are the same whatever other outputs and statistics are requested and whatever stood in the output files before, and an output not asked for is not written. "
     "Two runs on the same input give identical outputs whatever the memory contents, the environment and the time zone. A larger --numbests never gives a worse error rate.",
     ["configurations", "inputs"],
     "all subsets of ten output and report options on transcripts with speakers, tags, labels and synonyms; repeated runs on the plain, labelled and synonym spaces with disturbed memory and environment",
     "the tests run a handful of option sets and compare one output of each run",
     ["src/main.cpp", "src/fstalign.cpp", "src/wer.cpp", "src/json_logging.h", "src/logging.cpp", "src/Walker.cpp"],
     [("order of the reports", "src/fstalign.cpp: HandleWer"), ("shared log tree", "src/json_logging.h"), ("n-best selection", "src/Walker.cpp: walkComposed")],
     ["all outputs"], "exhaustive enumeration of option subsets, real program run on every one, outputs compared with those of the minimal option set", NOTE)

prop("P23", "Results depend on which words are equal, not on how they are spelled",
     "Renaming all words of the reference, the hypothesis, the normalisation candidates and the synonym rules consistently (distinct words stay distinct) gives the same alignment under the renaming, and the same totals and breakdowns; "
     "with several readings at least the same error rate.",
     ["inputs", "configurations"],
     "nine renamings (long, short, prefixes of each other, non-ASCII, digits and punctuation, words like options or the program's own names, ...) on the plain, labelled, synonym and metadata spaces",
     "a relation between pairs of runs over all inputs; tests look at single runs",
     ["src/AdaptedComposition.cpp", "src/StandardComposition.cpp", "src/Walker.cpp", "src/utilities.cpp", "src/SynonymEngine.cpp", "src/wer.cpp"],
     [("symbol table", "src/FstLoader.cpp: AddSymbolIfNeeded"), ("special symbols", "src/utilities.cpp"), ("search", "src/Walker.cpp: walkComposed")],
     ["--output-sbs file", "--json-log file"], "exhaustive enumeration of the bounded input space, real program run on every case and its renamings", NOTE)

prop("P24", "The JSON log follows its schema and the console tells the same numbers",
     "Every result object of the JSON log has non-negative integer insertions, deletions, substitutions, numErrors and numWordsInReference, and a wer, with numErrors their sum and wer errors over words; unigrams and bigrams have the counts, precision and recall of the schema, "
     "and no other objects or fields appear. Every class, speaker, tag, speaker-switch and casing line of the console has its object in the JSON log with the same numbers, and the other way round.",
     ["inputs", "configurations"],
     "plain, labelled, synonym and metadata spaces with and without casing statistics, three speaker-switch contexts",
     "the tests read a few fields; shape and agreement must hold whatever classes, speakers and words occur, including empty ones",
     ["src/wer.cpp", "src/json_logging.h", "docs/json_log_schema.json", "src/main.cpp"],
     [("result objects", "src/wer.cpp: RecordWerResult, RecordWer, RecordSpeakerWer, RecordTagWer"), ("word statistics", "src/wer.cpp: JsonLogUnigramBigramStats")],
     ["--json-log file", "console log"], CLI, NOTE)

prop("P25", "A graph reference is read along the path closest to the hypothesis",
     "When the reference is an OpenFST graph (standard composition), the reference side of the alignment is a path of the graph and the hypothesis side the hypothesis, or, when that is a graph too, a path of it. "
     "There is no error if and only if the hypothesis is a path of the reference (the graphs share a path), the errors are never below the smallest edit distance between paths, and the error rate is not above that of the closest paths.",
     ["inputs", "configurations"],
     "the graph space of P19 as references against word sequences in three formats, and pairs of such graphs",
     "a minimum over all paths of any graph; the tests have no graph reference",
     ["src/FstFileLoader.cpp", "src/StandardComposition.cpp", "src/Walker.cpp", "src/fstalign.cpp", "src/main.cpp"],
     [("loading of the graph", "src/FstFileLoader.cpp"), ("composition", "src/StandardComposition.cpp"), ("best-first search", "src/Walker.cpp: walkComposed")],
     ["--output-sbs file", "--json-log file"], CLI, NOTE + "Unweighted, acyclic graphs.")

prop("P26", "The test data generator makes exactly the differences it announces",
     "The generator of synthetic transcripts writes the given (or drawn) reference word by word and a hypothesis that is the reference with exactly the numbers of inserted, deleted and substituted words it announces, "
     "all words from the vocabulary. Each kind of difference occurs only as often as it was drawn, never with a rate of zero, and the expected error rate is their sum over the reference words.",
     ["schedules", "inputs", "configurations"],
     "all sequences of random draws up to the depth bound (the rest taking turns) for nine rate settings, given references of up to 7 words and drawn ones of up to 3 (thorough: 4) words, two (four) hash orders",
     "the generator is random and untested; its guarantee must hold for every sequence of draws",
     ["tools/generate_wer_test_data.pl"],
     [("drawing of differences", "tools/generate_wer_test_data.pl"), ("drawing of words", "tools/generate_wer_test_data.pl: select_word")],
     ["ref.out, hyp.out, standard output"], "stateless depth-first exploration of the real script with the random number generator under control",
     "Exhaustive over the draws up to the depth bound. Vocabularies of at least two words.")
