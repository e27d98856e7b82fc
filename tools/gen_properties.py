#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
NS="normalizedstring/normalizedstring.go"; SP="splitpattern/"; PT="pretokenizedstring/pretokenizedstring.go"
BPE="models/bpemodel/"; WP="models/wordpiecemodel/wordpiecemodel.go"; VO="vocabulary/vocabulary.go"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
AL=("alignments","source range in the original text of every byte of the normalized text",NS)

p("C01","Text edits keep exact content and provenance",
 "After any history of edits to a text (filter, map, upper/lower case, trim, prepend, append, replace, character-level transforms of a range), the normalized text is exactly what the edits prescribe and the original text is unchanged. Every character of the normalized text is attributed to exactly the original character it stems from: kept or substituted characters keep their source, text added by an edit takes the source of the character it is added next to (the first one for a prepend, the last one for an append, the last one replaced for a replacement, the preceding one for an inserted character, an empty range at 0 when nothing precedes), and removing characters never shifts the attribution of the others. A malformed byte of an added text becomes the replacement character. A replacement whose pattern fails returns the error and edits nothing; nor does a transform of an original range that is reversed or out of range.",
 ["inputs","histories"],"every valid UTF-8 text and every finite sequence of edit operations, including edits of pieces cut from a text, multi-byte characters and edits that grow, shrink or empty the text",
 "The tests apply one edit to a few mostly ASCII strings; multi-byte removals at the edges and sequences of edits are not sampled.",
 [NS],[("TransformRange, Transform","normalizedstring.go"),("Filter, Map, Prepend, Append, Replace, TrimLeftRight","normalizedstring.go")],
 ["Get, GetOriginal, Len, OriginalLen, IsEmpty, OriginalOffsets","conversion of every single-byte normalized range to the original referential"],[AL])

p("C02","Forward and inverse alignment stay well formed and mutually consistent",
 "Whatever normalizers, edits, pre-tokenizers and cuts have been applied, every byte of a normalized text (or piece) refers to a range inside its original text that starts and ends on character boundaries; all bytes of one character share one range, and from left to right the ranges are non-decreasing and either identical or non-overlapping. The inverse alignment has exactly one entry per original byte, giving precisely the block of normalized bytes that refer to that byte, or an empty range at the position where the removed byte would sit.",
 ["inputs","histories"],"every valid UTF-8 text and every history of library operations applied to it, including histories that leave the text empty",
 "Tests compare alignments literally for about twenty hand-made cases; the invariants quantify over all histories.",
 [NS,"normalizers/","pretokenizers/"],[("alignment construction and rewriting","normalizedstring.go FromString/TransformRange/Slice"),("OriginalAlignments","normalizedstring.go")],
 ["per-byte range conversion","OriginalAlignments"],[AL])

p("C03","Ranges convert faithfully between normalized and original text",
 "Converting a non-empty normalized range to the original text yields exactly the range from the start of the source of its first byte to the end of the source of its last byte; converting a non-empty original range yields exactly the block of normalized characters whose sources lie wholly within it, and an empty or unsuccessful result when there are none. Fetching the text of a range, in either referential and given in either referential, returns exactly the text of the converted range. A non-empty range that is reversed or reaches beyond its text is reported as unsuccessful when it is converted to the other referential, fetched or used for slicing, and never crashes.",
 ["inputs","histories"],"every text reachable by edits and every pair of byte positions in it, including negative, reversed and out-of-range ones",
 "Tests query a dozen ranges on two ASCII strings and never an out-of-range one with a non-empty extent.",
 [NS,"normalizedstring/range.go"],[("CoerceRangeToNormalized, CoerceRangeToOriginal","normalizedstring.go"),("GetRange, GetOriginalRange","normalizedstring.go")],
 ["return values of the range conversion and lookup methods"],[AL])

p("C04","A cut piece keeps its text, its place in the original, and its independence",
 "Cutting a piece out of a text (by normalized or original range) succeeds exactly for in-bounds, ordered ranges on character boundaries that have a counterpart, and the piece holds exactly the requested stretch; its reported original offsets always designate, in the very first original text, exactly the original text the piece carries, through any nesting of cuts. The characters of the piece keep the sources they had in the parent. Editing a piece never changes its parent or its siblings, and editing the parent never changes a piece already cut.",
 ["inputs","histories"],"every text reachable by edits, every range, cuts nested to any depth, interleaved with edits of parents and pieces",
 "No test cuts a piece of a piece, edits a piece, or looks at offsets after two cuts; slicing has no test of its own.",
 [NS],[("Slice","normalizedstring.go"),("originalShift accumulation","normalizedstring.go Slice"),("OriginalOffsets","normalizedstring.go")],
 ["Slice result, OriginalOffsets, GetOriginal of pieces at every depth"],[AL,("originalShift","offset of the piece in the root original text",NS)])

p("C05","Splitting follows the documented delimiter behaviour and loses nothing else",
 "Splitting a text by any pattern produces, in order, exactly the pieces that the chosen delimiter behaviour prescribes for the pattern's captures: removed (only the non-delimiter captures remain), isolated (every capture is a piece), merged with previous / next (a delimiter capture that does not directly follow / precede another delimiter joins the piece before / after it), contiguous (runs of delimiters, and of non-delimiters, become one piece). Apart from removed delimiters the pieces concatenate to the whole normalized text, each piece with its proper original offsets, and the split text itself is unchanged, as are the captures of a pattern that keeps its list of them. A pattern error, or a piece that would not lie on the text, is returned as an error.",
 ["inputs","configurations"],"every text, every built-in or user-defined pattern (including inverted ones, patterns with zero-width or adjacent matches, matches at the edges, none at all) and all five behaviours",
 "One ASCII string is split at one delimiter in the tests; runs of three or more delimiters, edge delimiters, multi-byte text and edited texts are not.",
 [NS,SP],[("Split","normalizedstring.go"),("FindMatches","splitpattern/*.go")],["Get and OriginalOffsets of the returned pieces, error"])

p("C06","Pattern captures tile the text and mark exactly the matches",
 "For any pattern kind (character predicate, single character, literal string, standard regular expression, backtracking regular expression in either direction, inversion of any of them) the reported captures start at 0, are contiguous and ordered, end at the byte length of the text, and are flagged as matches exactly on the pattern's successive non-overlapping matches in byte offsets. Non-matching stretches between matches are reported once and are never empty, except for the single empty capture of an empty text, and an empty literal matches nothing. Inverting a pattern flips every flag, changes no offset and does not alter the inner pattern's results. When the expression engine gives up (a time limit), the pattern and everything that uses it return an error instead of captures.",
 ["inputs","configurations"],"every valid UTF-8 text and every pattern, with zero-width matches, regular-expression metacharacters in literals, and characters of one to four bytes",
 "Tests run a few hand-made strings, one multi-byte example, no zero-width match, and the empty literal only on ASCII.",
 [SP+f for f in ("func.go","rune.go","string.go","regexp.go","regexp2.go","invertedpattern.go","splitpattern.go")],
 [("FindMatches of each pattern","splitpattern/*.go"),("rune to byte offset conversion","splitpattern/regexp2.go")],["the slice returned by FindMatches"])

p("C07","Pre-tokenized text keeps every piece, in order, with true offsets",
 "Splitting, normalizing or tokenizing a pre-tokenized text calls the given function exactly once for each piece that has no tokens yet, in order and (for splitting) with its index, replaces that piece in place by the non-empty pieces returned, and leaves pieces that already carry tokens untouched; an error from the function is returned and a failed split leaves the list of pieces as it was. At any time the reported pieces carry their normalized text, original offsets that designate exactly their original text, their tokens, and normalized offsets that are consecutive from zero with each piece's byte length.",
 ["inputs","histories","fault_sequences"],"every text and every sequence of split / normalize / tokenize steps, with functions that return empty, pre-tokenized, many or no pieces and that fail at any call",
 "The package has no tests of its own; pre-tokenizer tests run one or two steps without tokens or errors.",
 [PT,"pretokenizedstring/split.go"],[("Split, Normalize, Tokenize","pretokenizedstring.go"),("GetOriginalByteSplits, GetNormalizedByteSplits, Splits","pretokenizedstring.go")],
 ["callback arguments and order","returned byte splits"],[("splits","ordered list of pieces with optional tokens",PT)])

p("C08","The final encoding lists every token once, in order, aligned with the original",
 "Building an encoding from a fully tokenized text yields parallel lists of equal length with exactly one entry per token, in piece order and token order, carrying that token's id, its text, the requested type id, attention 1 and special-token 0, and as word index the requested one or, when none is requested, the index of the piece. Each entry's offsets are the original-text byte range its non-empty stretch of the piece's normalized text came from. If any piece lacks tokens an error is returned, and a text without pieces gives an empty encoding.",
 ["inputs","histories"],"every text, piece list, token list per piece (empty, single, many), word index and type id",
 "There is no test of encoding construction at all.",
 [PT,"encodings/encodings.go"],[("IntoEncoding","pretokenizedstring.go"),("EncodingFromEncodableTokens","encodings.go")],["fields, Len and IsEmpty of the returned encoding"])

p("C09","End to end, a pipeline's tokens and offsets are exactly right",
 "For any text run through any combination of the provided normalizers, pre-tokenizers and a BPE (without dropout) or WordPiece model, the resulting encoding is exactly the composition of what each stage prescribes: the same tokens, ids, word indices and original offsets. All offsets lie inside the input, start and end on character boundaries, never reversed, and are non-decreasing from token to token; when no stage alters or drops characters, the input at a known token's offsets is that token's text.",
 ["inputs","configurations"],"every valid UTF-8 text and every combination and configuration of the provided stages",
 "No test combines a normalizer, a pre-tokenizer and a model or builds an encoding.",
 [NS,PT,"normalizers/","pretokenizers/","models/"],[("stage composition over pre-tokenized text","pretokenizedstring.go"),("offset tracking through all stages","normalizedstring.go")],["the encoding returned at the end of the pipeline"])

p("C10","BERT normalization does exactly its four switchable steps",
 "BERT normalization applies, in order and only when enabled: removal of NUL, the replacement character and control/format/unassigned/private characters other than tab, newline and carriage return, with every whitespace character (those three included) becoming one plain space; one space put before and after every Chinese (CJK ideograph) character; removal of nonspacing marks; per-character lowercasing. Nothing else in the text changes, for every Unicode character, and every resulting character is attributed to the original character it came from (added spaces to their ideograph).",
 ["inputs","configurations"],"every valid UTF-8 text (every Unicode code point on its own and in context) and all sixteen switch combinations",
 "One sample string with six characters of interest is tested.",
 ["normalizers/bertnormalizer/bertnormalizer.go",NS],[("cleanText, handleChineseChars, stripAccents","bertnormalizer.go")],["normalized text and per-character sources after Normalize"])

p("C11","Lowercase, strip and sequence normalizers do what they say and no more",
 "Lowercasing maps every character to its Unicode simple lowercase; stripping removes exactly the leading and/or trailing whitespace run, as configured, and nothing in between; a sequence applies its members in order, each exactly once, and stops at the first failing one, returning its error. Original text and character attribution are preserved throughout.",
 ["inputs","configurations","fault_sequences"],"every valid UTF-8 text, whitespace of any byte width, both strip switches, and sequences (also nested, empty, failing at any position)",
 "Tests use ASCII whitespace at the edges and two-member sequences on one string.",
 ["normalizers/lowercasenormalizer/lowercasenormalizer.go","normalizers/stripnormalizer/stripnormalizer.go","normalizers/sequencenormalizer/sequencenormalizer.go",NS],
 [("ToLower / Map","normalizedstring.go"),("TrimLeftRight","normalizedstring.go"),("SequenceNormalizer.Normalize","sequencenormalizer.go")],["normalized text, sources, member call log, error"])

p("C12","Delimiter pre-tokenizers drop the delimiters and nothing but the delimiters",
 "Whitespace splitting and single-character-delimiter splitting produce, in order, exactly the maximal non-empty stretches of text free of whitespace (any Unicode white space) respectively of the chosen delimiter. Each stretch carries its exact text and the original offsets it came from, also when the text was normalized beforehand or already split.",
 ["inputs","configurations"],"every valid UTF-8 text and delimiter character of any byte width, on fresh, normalized and already split texts",
 "Tests use a handful of strings with a two-byte delimiter or an ASCII space.",
 ["pretokenizers/whitespacesplitpretokenizer/whitespacesplitpretokenizer.go","pretokenizers/runedelimiterpretokenizer/runedelimiterpretokenizer.go",NS,PT],
 [("PreTokenize","each pre-tokenizer"),("split with delimiters removed","normalizedstring.go Split")],["pieces with texts and original offsets"])

p("C13","Word and BERT pre-tokenizers separate words from punctuation without loss",
 "The word pre-tokenizer produces, in order, exactly the maximal runs of word characters and the maximal runs of characters that are neither word characters nor white space; the BERT pre-tokenizer produces exactly the maximal runs free of white space and Unicode punctuation, plus every punctuation character as a piece of its own. White space never appears in a piece, every other character appears exactly once, and each piece has the original offsets it came from. A user-supplied expression whose engine gives up (a time limit exceeded) gives an error.",
 ["inputs","configurations"],"every valid UTF-8 text (every Unicode code point on its own and in context), fresh, normalized or already split, and user-supplied word expressions",
 "Tests use three ASCII sentences and one Chinese example.",
 ["pretokenizers/whitespacepretokenizer/whitespacepretokenizer.go","pretokenizers/bertpretokenizer/bertpretokenizer.go",SP,NS],
 [("DefaultWordRegexp, inverted pattern","whitespacepretokenizer.go"),("two successive splits","bertpretokenizer.go")],["pieces with texts and original offsets"])

p("C14","Byte-level pre-tokenization is lossless and splits by the GPT-2 rule",
 "Replacing each character of the byte-level pieces by the byte it stands for (the fixed one-to-one byte alphabet of GPT-2) and concatenating the pieces gives back exactly the bytes of the input text, preceded by one added space exactly when the prefix option is on and the non-empty text does not start with white space (for an already split text, this goes for each piece). The piece boundaries are those of the configured splitting expression (by default: contractions, an optional space with a run of letters, of digits, or of other symbols, and white-space runs leaving one space to the next word). Every piece's original offsets designate exactly the characters its bytes come from. A user-supplied expression whose engine gives up (a time limit exceeded) gives an error.",
 ["inputs","configurations"],"every valid UTF-8 text covering every byte value that can occur, prefix option on and off, default and user-supplied expressions, fresh, normalized or already split texts",
 "Tests use five short sentences; only a handful of byte values is ever mapped.",
 ["pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go",SP+"regexp2.go",NS],
 [("byteToRune","bytelevelpretokenizer.go"),("DefaultSplittingRegexp","bytelevelpretokenizer.go"),("per-byte transform","bytelevelpretokenizer.go PreTokenize")],["pieces, decoded bytes, original offsets"])

p("C15","Metaspace pre-tokenization is lossless and starts a piece at every marker",
 "Concatenating the metaspace pieces gives exactly the input text with every plain space replaced by the marker character, preceded by one added marker exactly when the prefix option is on and the non-empty text does not already start with the marker (for an already split text, this goes for each piece). Every marker starts a new piece and no piece starts anywhere else except at the beginning of the text, and each piece has the original offsets its characters come from.",
 ["inputs","configurations"],"every valid UTF-8 text with any mix of spaces and markers, marker of any byte width, prefix option on and off, fresh, normalized or already split texts",
 "Two ASCII sentences with the default marker and the prefix on are tested.",
 ["pretokenizers/metaspacepretokenizer/metaspacepretokenizer.go",NS],[("PreTokenize","metaspacepretokenizer.go"),("Replace, Prepend, Split merged with next","normalizedstring.go")],["pieces with texts, normalized and original offsets"])

p("C16","BPE applies merges in rank order, leftmost first, until none applies",
 "Without dropout, the tokens of a word are exactly those obtained by starting from its characters and repeatedly merging the adjacent pair with the lowest rank (the leftmost among equals) until no adjacent pair has a merge. The tokens cover the word contiguously in byte offsets without gap or overlap, and each token's text is its vocabulary entry and, where merges join the two texts (no affixes, no unknowns), the stretch of the word at its offsets. A final symbol that is not in the vocabulary gives an error.",
 ["inputs","configurations"],"every word over the vocabulary's characters (long, repetitive and multi-byte ones included) and every merge table with any ranks (also equal, sparse, negative or extreme), any ids, and results that are concatenations or any other vocabulary entry",
 "One word with one eight-entry merge table is tested.",
 [BPE+f for f in ("bpemodel.go","word.go","wordmerge.go","mergemap.go")],[("MergeAll","word.go"),("priority order","wordmerge.go"),("wordToTokens","bpemodel.go")],["tokens returned by Tokenize"],
 [("Word","doubly linked list of symbols being merged",BPE+"word.go")])

p("C17","BPE handles unknown characters and affixes as configured, with true offsets",
 "A character missing from the vocabulary becomes the unknown token (consecutive ones fused into a single token exactly when fusion is on) or, if no unknown token is configured, produces no token; either way every token's offsets are the byte range of the characters of the input it stands for. The continuing-subword prefix is applied to every character except the first and the end-of-word suffix to the last one, without counting in the offsets. A configured unknown token that is not in the vocabulary gives an error on any non-empty input, and an empty input gives no tokens.",
 ["inputs","configurations"],"every word mixing known and unknown characters of any byte width in any position, all combinations of unknown token, fusion, prefix and suffix",
 "No test has an unknown character, an unknown token, fusion, a prefix or a suffix.",
 [BPE+"bpemodel.go",BPE+"word.go"],[("mergeWord","bpemodel.go"),("wordToTokens","bpemodel.go")],["tokens and error returned by Tokenize"])

p("C18","BPE dropout only ever skips merges, with the configured probability",
 "With any dropout, the tokens still tile the word contiguously and each of them is a vocabulary entry derivable from the characters under it by the configured merges alone. A dropout of 1 performs no merge, 0 (or vanishingly small) performs all of them as without dropout, and a single available merge is skipped with the configured probability, several independently of each other and every call independently of earlier ones; the available merges are offered in the order of their ranks, and after each one that is carried out those skipped before are offered again. An unknown token that is not in the vocabulary, or a final symbol that is not, gives an error. The input model is not altered: the same model keeps behaving the same way on every later call.",
 ["inputs","configurations","histories"],"every word, merge table and dropout in [0,1], over repeated calls",
 "One word is tokenized once at dropout 0.3 and only the token count is bounded.",
 [BPE+"bpemodel.go",BPE+"word.go"],[("dropout skip list","word.go MergeAll"),("hasDropout","bpemodel.go")],["tokens over repeated Tokenize calls"])

p("C19","WordPiece is greedy longest-match-first on character boundaries",
 "A word is tokenized by repeatedly taking the longest vocabulary entry (with the continuation prefix for every piece but the first) that matches the remaining characters at a character boundary; tokens carry that entry's id and text and tile the word contiguously in byte offsets. If at any point nothing matches, or the word has more characters (not bytes) than the maximum, the result is the single unknown token covering the whole word, or an error when the unknown token is not in the vocabulary. A word of exactly the maximum length is tokenized normally.",
 ["inputs","configurations"],"every word with characters of one to four bytes and every vocabulary, prefix, unknown token and length limit",
 "Six ASCII words and one vocabulary are tested; a multi-byte character never occurs.",
 [WP],[("Tokenize inner loop","wordpiecemodel.go")],["tokens and error returned by Tokenize"])

p("C20","A vocabulary is a consistent two-way mapping that only grows",
 "In a vocabulary built by adding terms, loading a file with distinct ids, or both, looking up a term's id and then that id's term gives the term back, and the other way round; absent terms and ids are reported as absent. Adding a new term gives it the id equal to the number of terms when that id is free (otherwise a free id) without disturbing any earlier entry; adding an existing term, including the empty string, changes nothing; the size is always the number of distinct terms.",
 ["inputs","histories"],"every sequence of additions and lookups over arbitrary terms, starting from an empty vocabulary or a loaded one with dense, sparse or negative ids",
 "Tests load one three-term file and never add a term twice or after loading.",
 [VO],[("AddTerm, GetID, GetString, Size","vocabulary.go")],["lookups after every step"],[("termToID, idToTerm","the two directions of the mapping",VO)])

p("C21","Vocabulary and merge files load faithfully or fail with an error",
 "Loading a well-formed vocabulary file yields exactly its term-id pairs (a file that gives several terms one id is refused, or every term has its id and the id gives one of them); loading a merges file yields exactly one merge per pair of terms, ranked by its order among the merge lines (version lines are skipped and do not count, a repeated pair takes its last rank), producing the term made of the left part and the right part without its first prefix-length bytes. Anything malformed (missing file, bad JSON or value types, lines without exactly two terms, terms or merged terms not in the vocabulary, right part shorter than the prefix) is reported as an error, never as a crash or a partial result; merge errors name the offending line.",
 ["inputs","fault_sequences"],"every file content: any terms, line endings, version lines anywhere, any prefix length, and every kind of malformation at any line",
 "Three valid files are tested and no malformed one.",
 [VO,BPE+"mergemap.go"],[("FromJSONFile","vocabulary.go"),("MergeMapFromFile","mergemap.go")],["returned maps and errors"])

p("C22","Configured components can be shared by concurrent goroutines",
 "Vocabularies, merge tables, models, normalizers, pre-tokenizers and split patterns, once configured, can be used by any number of goroutines at the same time, each on its own text, and one text can be read by several goroutines (lookups, range conversions, cutting, splitting). Goroutines can also build and use components of their own at the same time. No execution contains a data race, and every call returns exactly what it returns when run alone.",
 ["schedules","inputs"],"every interleaving of concurrent calls on shared components",
 "No test uses a component from two goroutines; a race needs a particular interleaving and instrumentation to be seen.",
 [BPE,WP,VO,SP,"normalizers/","pretokenizers/",NS],[("no mutable state in configured components","whole library"),("package-level expressions and tables","bytelevelpretokenizer.go, whitespacepretokenizer.go")],
 ["race detector reports","results of concurrent calls against solo runs"])

p("C23","Results depend only on configuration and input, and never change afterwards",
 "A component returns the same result for the same input no matter what it processed before, how often, or in which order, how large its cache was configured (dropout aside), and equal to what a freshly built component returns. Values already returned are never altered by later calls, and altering a returned value (token lists returned by models, encodings, captures, cut pieces, inverse alignments) never affects later results of the component or of the text it came from, nor another list of the same value.",
 ["histories","configurations"],"every sequence of calls on one instance with repeated, similar and different inputs, every cache capacity, and every modification of returned values in between",
 "Every test uses a fresh instance for one call and keeps no result.",
 [BPE,WP,SP,"normalizers/","pretokenizers/",PT],[("word cache","wordcache.go, bpemodel.go tokenizeWithCache"),("fresh allocation of results","whole library")],
 ["results of repeated calls against fresh instances","retained results re-read at the end"])

p("C24","Arbitrary bytes never crash the library or yield offsets outside the input",
 "For texts that are any byte sequence, valid UTF-8 or not, edits, splits, cuts, lookups, normalizers, pre-tokenizers, models and encoding construction either succeed or report an error or an unsuccessful result, and they always terminate without crashing. The original text is preserved byte for byte, and every offset or range reported lies inside the text it refers to and is not reversed (a range that is empty or already in the wanted referential is echoed as given).",
 ["inputs","histories","configurations"],"every byte string (truncated, overlong, surrogate and stray bytes included) as text, inserted text, vocabulary term or file content; every operation and pipeline, with every split pattern that can be constructed",
 "All test strings are valid UTF-8.",
 [NS,SP,"pretokenizers/","models/","strutils/strutils.go"],[("character width handling","normalizedstring.go, splitpattern/*.go, bytelevelpretokenizer.go, bpemodel.go, strutils.go")],
 ["absence of panics and non-termination","offsets reported at every stage"])

p("C25","Byte offsets convert to character offsets exactly",
 "Converting a byte range of a text that starts and ends on character boundaries gives the range of character positions it covers, for every such range including empty ones and those ending at the end of the text. A byte position is reported as a character boundary exactly when it is 0, the text's length, or the first byte of a character, and never when it is negative or beyond the end.",
 ["inputs"],"every valid UTF-8 text and every pair of byte positions",
 "The converter has no test; the boundary check is tested at seven positions of one string.",
 ["strutils/strutils.go"],[("NewBytesToRuneOffsetConverter, Convert","strutils.go"),("IsRuneBoundary","strutils.go")],["returned offsets and booleans"])

p("C26","What the caller hands over is only read",
 "Lists, files and expressions that a caller hands to the library, as arguments or as results of its own functions (character transformations, alignments, sequence members, texts and pieces, tokens, captures, keys and words of a cache, a vocabulary and merge table, compiled expressions), hold exactly what they held before after every call, successful or failed, also behind their end when they have spare capacity, so that they can be used again with the same outcome; only the text an operation is called on changes. Loading leaves the file unaltered and not open, no goroutine is left behind, and no call prints anything.",
 ["inputs","histories","configurations"],"every list content, length and spare capacity, every operation that takes one, repeated use of the same list, and calls that fail at any point",
 "Every test builds its arguments as literals, uses them once and never looks at them again.",
 [NS,SP,PT,"encodings/encodings.go",BPE,WP,VO,"normalizers/sequencenormalizer/"],[("TransformRange","normalizedstring.go"),("Split, Tokenize, IntoEncoding","pretokenizedstring.go"),("inverted pattern","invertedpattern.go"),("FromJSONFile, MergeMapFromFile","vocabulary.go, mergemap.go")],
 ["the caller's lists re-read in full capacity after every call","open files and goroutines of the process","output"])

p("C27","No memory is retained once results are dropped",
 "However many different words and texts a component (model, normalizer, pre-tokenizer, pattern, pipeline) has processed, however many components, patterns, vocabularies, merge tables and models were built and dropped, files loaded, calls failed, and however often one text has been edited back and forth, cut, split or encoded, the memory in use after a garbage collection does not keep growing once the results are dropped: nothing but what the caller still holds is retained, beyond a word cache of at most the configured capacity (none for capacity 0). No goroutine accumulates.",
 ["inputs","histories","configurations"],"every component and configuration, every sequence of thousands of distinct inputs, short and long, successful and failing calls",
 "A test makes a handful of calls and looks at results; what stays behind after thousands of them is not seen.",
 [NS,SP,PT,"encodings/encodings.go",BPE,WP,VO,"normalizers/","pretokenizers/"],[("WordCache","wordcache.go"),("Tokenize","bpemodel.go, wordpiecemodel.go"),("TransformRange, Slice","normalizedstring.go"),("FindMatches","splitpattern/*.go"),("PreTokenize","pretokenizers/")],
 ["live heap of the process after full garbage collections, batch by batch","number of goroutines"])

p("C28","A BPE word stays a well-formed chain of symbols through every merge",
 "Adding a symbol to a word appends it, with its id and length, and leaves the others alone. Applying the merges of a table to a word leaves what is obtained by merging, as long as one applies, the adjacent pair of lowest rank (leftmost among equals) into the symbol the table names, whose length is that of both parts and the gap between them; with dropout 1 nothing is merged, with a dropout in between merges are only skipped. This holds for every word, whatever was added and merged before, any ids, ranks and tables; afterwards each symbol names its neighbours by their positions in the word (-1 at the ends), no symbol is lost or there twice, and other words and the table are as they were. The queue of merges gives the entry of lowest rank, then position, whatever was pushed and popped before.",
 ["inputs","histories","configurations"],"every history of appends, merges by different tables and changes of the tables, over words of any ids, lengths and gaps",
 "The tests cover Add and MergeWith with a few literals, and merge fresh words of single letters only through a model.",
 ["models/bpemodel/word.go","models/bpemodel/wordmerge.go","models/bpemodel/mergemap.go"],[("Word.Add, Word.MergeAll, WordSymbol.MergeWith","word.go"),("WordMergeHeap","wordmerge.go"),("MergeMap.Get, Set","mergemap.go")],
 ["ids, lengths, gaps, neighbours of all symbols after every step","entries popped from the queue"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    assert len(x["title"])<=80,x["id"]
print(len(P))
