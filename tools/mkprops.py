#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is easy to edit)."""
import json
R='rust/src/'
P=[]
def p(id,title,statement,over,text,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=[R+f if not f.startswith('python') else f for f in files],
      mechanism=[dict(name=n,where=(R+w if not w.startswith('python') else w)) for n,w in mech])))
p('C01','Escaping a text is lossless and hides every special character',
 'For every text, escaping it and unescaping the result succeeds and gives back exactly the original text. The escaped form contains no raw newline, carriage return or tab, and every double quote in it is preceded by an odd number of backslashes.',
 ['inputs'],'every Unicode text of any length',
 'The tests escape and unescape a handful of fixed strings; the claim is about every text, including runs of backslashes, quotes next to backslashes and control characters.',
 ['escaping.rs'],[('escape','escaping.rs'),('unescape and its character iterator','escaping.rs')])
p('C02','Unescaping decodes each escape once and rejects malformed ones',
 'For every text, unescaping reads it left to right, replaces each recognised escape (backslash followed by one of " \\ n r t b v f) by the single character that escaping writes that way, and leaves every other character as it is. It fails exactly when a backslash is the last unread character or is followed by any other character, and it never panics.',
 ['inputs'],'every Unicode text, well formed or not',
 'Two malformed texts are tested; which texts are accepted, and that nothing is decoded twice, is a claim about all texts.',
 ['escaping.rs'],[('unescape and its character iterator','escaping.rs')])
p('C03','Reading PO content never panics',
 'For every content given as text or as bytes, reading it as a PO file ends and returns either a file or a syntax error. It never panics and never allocates an amount of memory chosen by a number written in the content, whatever the order of the lines, the quoting, the plural indexes or the characters are.',
 ['inputs'],'every text and every byte string, malformed ones included',
 'The tests feed about ten malformed contents; the panics found here (unexpected keywords, lone quotes, huge plural indexes, non-ASCII next to quotes) were all outside them.',
 ['poparser.rs','entry/poentry.rs'],[('line parser and state transitions','poparser.rs'),('per-line handlers slicing the token','poparser.rs')])
p('C04','Writing a PO file and reading it back preserves every message',
 'A PO file written as text at any wrap width and read again yields the same messages in the same order (obsolete messages after the others), each with the same msgid, msgid_plural, msgctxt, msgstr, plural translations, flags and obsolete mark, and for messages that are not obsolete the same previous msgid, msgid_plural and msgctxt and the same occurrences. This holds for every message that has a msgstr or at most 256 plural translations (not both), and a non-empty msgid or a context, whose flags are non-empty, trimmed and without commas or newlines, and whose occurrences are non-empty file names without whitespace or colons and line numbers that are empty or digits.',
 ['inputs','configurations'],'every list of messages in the stated domain, every wrap width',
 'The tests save and reload a few fixed files at the default width; losses depended on trailing whitespace, backslashes at wrap positions, many occurrences and plural previous messages.',
 ['entry/mod.rs','entry/poentry.rs','file/pofile.rs','poparser.rs','escaping.rs','twrapper.rs'],
 [('string field formatting','entry/mod.rs'),('entry formatting','entry/poentry.rs'),('file formatting','file/pofile.rs'),('line parser','poparser.rs'),('unescaping of parsed entries','entry/poentry.rs')])
p('C05','Wrapped string fields are lossless and break only where allowed',
 'In the text written for a message at any wrap width, alone or as part of a file of that width, each string field is one keyword line with a quoted segment followed by zero or more continuation lines with one quoted segment each, and joining the segments gives exactly the escaped value. No segment ends inside an escape sequence, segments other than an empty first one are only separated at Unicode line break opportunities of the escaped value, and a segment wider than the wrap width contains no such opportunity unless one of them lies inside an escape sequence.',
 ['inputs','configurations'],'every field value and every wrap width, including widths of 0 and 1',
 'The tests compare a few wrapped paragraphs; whether a break lands inside an escape or drops a character depends on the alignment of every value with every width.',
 ['entry/mod.rs','twrapper.rs'],[('string field formatting','entry/mod.rs'),('line break selection and slicing','twrapper.rs')])
p('C06','Comments and occurrences are written completely and on comment lines only',
 'For every message and wrap width, every line written for a translator comment starts with "# ", for an extracted comment with "#. " and for occurrences with "#: ", and the comment text is preserved except for line breaks inserted at Unicode line break opportunities. The occurrences of a message that is not obsolete are all written exactly once and in order, for file names and line numbers without newlines.',
 ['inputs','configurations'],'every comment text, every list of occurrences and every wrap width',
 'No test wraps a comment or splits occurrences over several lines; lines without marker and lost occurrences only appear above the width.',
 ['entry/poentry.rs'],[('comment formatting','entry/poentry.rs'),('occurrence line packing','entry/poentry.rs')])
p('C07','Each PO line only sets its own field of its own message',
 'For every well-formed PO text, each field of each message read equals the unescaped concatenation of the quoted segments written for that field of that message, or the values listed on its comment, flags and occurrence lines, however the value is split into continuation lines and however many blank lines or spaces surround the tokens. No line changes any other field or any other message, and messages come out in file order.',
 ['inputs'],'every well-formed text: any number of messages, any split into continuation lines, any spacing',
 'The tests read a few fixed layouts; the state machine has 15 line kinds times 15 states and continuation lines go to the field opened last.',
 ['poparser.rs'],[('state transitions','poparser.rs'),('per-line handlers','poparser.rs'),('continuation handler','poparser.rs')])
p('C08','Writing a MO file and reading it back preserves every message',
 'A MO file serialised in little or big endian and read again yields the same messages, sorted by context and msgid, with the same msgid, msgctxt and msgid_plural, the same msgstr for messages without plural and the same plural translations for the others, and the same metadata. This holds for messages with a non-empty msgid or a context, a msgstr or a msgid_plural with at least one plural translation, and no NUL or EOT characters, and metadata with non-empty keys without colons or newlines and trimmed values without newlines.',
 ['inputs','configurations'],'every list of messages in the stated domain, both byte orders',
 'The tests compare one file written twice by the library; nothing reads back what was written, so swapped context and msgid went unnoticed.',
 ['file/mofile.rs','moparser.rs'],[('serialisation','file/mofile.rs'),('table and string reader','moparser.rs'),('context and plural splitting','moparser.rs')])
p('C09','Serialised MO files follow the MO format',
 'For every MO file, the serialised bytes start with the magic number in the requested byte order, the revision and the number of strings (messages plus the metadata), and contain tables of original and translated strings whose lengths and offsets point to NUL-terminated strings inside the output. The original strings are in non-decreasing byte order up to their first NUL and are the context, an EOT byte, the msgid, a NUL and the plural msgid, as present, and the translated strings are the msgstr or the plural translations joined by NUL.',
 ['inputs','configurations'],'every list of messages without NUL characters whose serialised form is below 4 GiB, every revision, both byte orders',
 'The tests compare lengths and one golden file; sortedness and table consistency matter to every reader that does binary search.',
 ['file/mofile.rs','entry/mod.rs'],[('serialisation','file/mofile.rs'),('sort key','entry/mod.rs')])
p('C10','Reading MO bytes never panics and never invents data',
 'For every byte string, reading it as a MO file returns a file or an error and never panics; a text that is not the path of a file is an error. When it returns a file, the header has one of the two magic numbers and revision 0 or 1, and every string of the tables lies completely inside the input, so a file cut short inside its tables or strings is always rejected.',
 ['inputs','fault_sequences'],'every byte string, in particular every truncation and corruption of a valid file',
 'The tests cut the header at five positions; strings read outside the input came back as NUL characters without error.',
 ['moparser.rs'],[('header and table reader','moparser.rs'),('string reader','moparser.rs')])
p('C11','Compiling a PO file keeps exactly its translated messages',
 'Converting a PO file to a MO file, and saving or serialising it as one, keeps exactly the messages that are translated, in order, with their msgid, msgctxt, msgid_plural, msgstr and plural translations unchanged, together with the metadata. Fuzzy, obsolete and untranslated messages are never included.',
 ['inputs'],'every PO file',
 'One file is compiled in the tests; which messages are kept depends on every combination of obsolete, flags, msgstr and plurals.',
 ['file/mofile.rs','entry/moentry.rs','file/pofile.rs','entry/poentry.rs'],[('conversion of files','file/mofile.rs'),('conversion of entries','entry/moentry.rs'),('translated predicate','entry/poentry.rs')])
p('C12','Searches return exactly the matching messages in file order',
 'For every PO or MO file, a search by field returns exactly the messages whose field equals the value (a missing field equals the empty text), restricted to the given context if there is one and, for PO files, without obsolete messages unless they are asked for, in file order and without changing the file. Searching by msgid, or by msgid and a non-empty context, returns the first such message if there is one and nothing otherwise, and unknown field names match nothing.',
 ['inputs'],'every file, every field name, value, context and obsolete choice',
 'The tests search a few values in fixed files; exactness, order and the interplay of field, context and obsolete are claims about all of them.',
 ['file/pofile.rs','file/mofile.rs'],[('find','file/pofile.rs'),('find','file/mofile.rs'),('find by msgid and context','file/pofile.rs')])
p('C13','Removing messages removes exactly the matching ones',
 'For every PO or MO file, removing by message, by msgid, or by msgid and context removes every message that is equal, has that msgid, or has that msgid and context (a missing context equals the empty text). All other messages, their order and the metadata stay the same.',
 ['inputs'],'every file and every removal argument',
 'The tests remove one message from a fixed file; they do not look at duplicates, other contexts or what stays.',
 ['file/pofile.rs','file/mofile.rs'],[('remove operations','file/pofile.rs'),('remove operations','file/mofile.rs')])
p('C14','Comparing messages is a consistent order on the selected fields',
 'For every choice of compared fields, comparing two messages gives a total preorder: comparing in the other direction gives the opposite result, comparing a message with itself gives equal, and the relation is transitive. The result depends on the selected fields only and is equal exactly when all of them agree, occurrences, flags and plural translations being compared regardless of their order and a missing text counting as a text made of one NUL; MO messages are compared by the fields they have.',
 ['inputs','configurations'],'every pair and triple of messages, all 256 choices of fields',
 'The tests compare pairs that differ in one field; symmetry and transitivity are claims about all pairs, triples and field choices.',
 ['entry/poentry.rs','entry/moentry.rs','entry/mod.rs'],[('comparison','entry/poentry.rs'),('comparison','entry/moentry.rs'),('field selection','entry/mod.rs')])
p('C15','Merging PO files updates, adds and retires messages by identity',
 'Merging a PO file into another one replaces the content of the first message with the same msgid and context by the content of the incoming message, appends the incoming messages that have no counterpart in order, and marks as obsolete exactly the messages of the receiving file whose msgid and context do not appear in the incoming file, which otherwise keep their content and position. It never removes or reorders messages and never changes the header or the metadata.',
 ['inputs'],'every pair of PO files',
 'Merging files has no test; merging one entry has one.',
 ['file/pofile.rs','entry/poentry.rs'],[('file merge','file/pofile.rs'),('entry merge','entry/poentry.rs')])
p('C16','Metadata is written in canonical order without loss',
 'For every metadata map, the metadata is written as one "key: value" line per key, each key exactly once, the eleven standard keys first in their fixed order and the others after them in natural order, independently of how the map was built. Reading the written PO text or MO bytes back gives the same map, for non-empty keys without colons or newlines and trimmed values without newlines, and the fuzzy mark of metadata that is not empty is kept; no other flag is taken as the mark.',
 ['inputs','histories'],'every map of metadata, every insertion order',
 'The tests print one metadata map; hash map iteration order changes from run to run, so order claims need all of them.',
 ['file/mod.rs','entry/mod.rs','poparser.rs','moparser.rs'],[('ordering','file/mod.rs'),('metadata formatting','entry/mod.rs'),('metadata reader','poparser.rs')])
p('C17','Translation status partitions the messages consistently',
 'A PO message is translated exactly when it is neither obsolete nor fuzzy and has a non-empty msgstr, or has no msgstr and at least one plural translation, all of them non-empty. For every PO file the translated and untranslated lists are complementary, in file order, the obsolete and fuzzy lists contain exactly the obsolete messages and the messages with the fuzzy flag that are not obsolete, and the percentage is 100 times the translated share of all messages (0 for an empty file).',
 ['inputs'],'every PO message and file',
 'The tests count the lists of a few fixed files; the definition has many combinations of flags, msgstr and plurals.',
 ['entry/poentry.rs','file/pofile.rs'],[('translated predicate','entry/poentry.rs'),('filtered lists and percentage','file/pofile.rs')])
p('C18','Syntax errors point to the first offending line',
 'When reading PO content fails with a positioned syntax error, the reported line is the first line that can not be accepted after the lines before it: the content cut after that line fails with the same line and kind of error, and the content cut before that line does not fail with a positioned error. Content that follows that line never changes the reported error.',
 ['inputs'],'every malformed content, the first error at any line',
 'The tests check the position of one error per fixed file, always close to the start.',
 ['poparser.rs'],[('line counter and error construction','poparser.rs'),('unescaped quote search','poparser.rs')])
p('C19','A path, its content and its bytes are read the same',
 'Reading a PO file from its path, from its text or from its bytes gives the same messages, header and metadata, and saving and reopening through the file system gives what was written. Content that is not valid UTF-8 is an error and is never read in part.',
 ['inputs','configurations'],'every content and the three ways to pass it',
 'The tests open fixed paths and contents separately and do not compare the results.',
 ['poparser.rs','file/mod.rs'],[('content selection','poparser.rs'),('file options','file/mod.rs')])
p('C20','The Python bindings behave like the Rust API',
 'Every function, method and attribute of the Python package has the effect and result of the Rust operation it is named after: messages are ordered and compared as by `cmp_by` with all of its fields, files by the text they print as, and errors become the exceptions of the package with the text of the Rust error.',
 ['inputs','programs'],'every call sequence on the Python API',
 'The Python tests call each method once or twice.',
 ['python/src/pypofile.rs','python/src/pymofile.rs','python/src/pypoentry.rs','python/src/pymoentry.rs'],[('wrapper methods','python/src/pypofile.rs')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
