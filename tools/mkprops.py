#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=hook)))


D = 'sudachipy/dictionarylib/'
PL = 'sudachipy/plugin/'

prop('C01', 'Morphemes tile the original text',
     'For any encodable non-empty text and any split mode, the morphemes returned by tokenization cover the original text exactly: '
     'the first begins at 0, each begins where the previous one ends, the last ends at the length of the text, and every surface is the '
     'original text between its begin and end, so the surfaces concatenate to the input. This holds with text normalization, '
     'out-of-vocabulary words, numeric and katakana joining and A/B splitting all switched on; the empty text gives no morphemes.',
     ['inputs', 'configurations'], 'every text, every split mode, any well-formed dictionary',
     'The tests tokenize about a dozen fixed strings and mostly count morphemes; whether offsets tile for every mix of expanding or shrinking '
     'rewrites, OOV spans, joins and splits is a statement over all texts.',
     ['sudachipy/tokenizer.pyx', 'sudachipy/morphemelist.py', 'sudachipy/utf8inputtext.py', 'sudachipy/utf8inputtextbuilder.py',
      'sudachipy/lattice.pyx', PL + 'path_rewrite/path_rewrite_plugin.py'],
     [('lattice construction and best path', 'sudachipy/tokenizer.pyx: tokenize, build_lattice_c, _split_path'),
      ('index mapping', 'sudachipy/morphemelist.py: get_begin, get_end, get_surface')],
     ['Morpheme.begin/end/surface', 'MorphemeList'])

prop('C02', 'Input rewriting keeps a correct map back to the original text',
     'After any sequence of non-empty replacements on an input text, the position reported for every place of the rewritten text is '
     'non-decreasing, starts at 0, ends at the original length, and characters never touched map to their own original position. The first '
     'character of a replacement maps to the start of the region it replaced and its other characters to the end of that region; '
     'the original text itself never changes and the rewritten text is what string replacement gives.',
     ['inputs', 'histories'], 'every text, every sequence of valid replacements with non-empty strings',
     'Unit tests replay five fixed edit scripts on one string; the map is mutated in place, so errors depend on the order, overlap and '
     'length change of a whole history of edits.',
     ['sudachipy/utf8inputtextbuilder.py', 'sudachipy/utf8inputtext.py'],
     [('in-place offset map', 'sudachipy/utf8inputtextbuilder.py: replace, build')],
     ['UTF8InputText.get_original_index', 'get_text', 'get_original_text'])

prop('C03', 'Byte offsets and characters of the analysed text agree',
     'For every text, every byte offset of its UTF-8 form belongs to the right character: substring extraction, code point counts, '
     'code-point-to-byte lengths, word-candidate lengths, category queries and word-start permission at byte offsets equal those computed '
     'directly on the characters. A word may start only at a character boundary, and not inside a run of alphabetic, Greek or Cyrillic letters that '
     'share a category; the category run reported at an offset ends where the characters stop sharing a category.',
     ['inputs'], 'every text over 1- to 4-byte characters and every assignment of category sets to characters',
     'The tests look at one 14-character string; mixed byte widths and overlapping category sets at every boundary are not sampled.',
     ['sudachipy/utf8inputtextbuilder.py', 'sudachipy/utf8inputtext.py'],
     [('byte index table', 'sudachipy/utf8inputtextbuilder.py: build'), ('run lengths', 'get_char_category_continuities'),
      ('word starts', '_build_can_bow_list')],
     ['UTF8InputText methods'])

prop('C04', 'Default text normalization follows its definition exactly',
     'Scanning the text left to right, the longest entry of the replacement table that matches is replaced by its value; any other character '
     'is lower-cased and then NFKC-normalized, except that a character whose lower-case form is in the ignore list is only lower-cased. '
     'Everything else stays as it is, the result depends on nothing but the text and the tables, and a replacement is reported at the right place of the text '
     'whatever was replaced before it.',
     ['inputs', 'configurations'], 'every text and every replacement/ignore table',
     'Tests check a handful of strings against the shipped table; the running offset correction goes wrong only for particular '
     'sequences of growing, shrinking and ignored characters.',
     [PL + 'input_text/default_input_text_plugin.py', 'sudachipy/utf8inputtextbuilder.py'],
     [('longest match, lower, NFKC with running offsets', PL + 'input_text/default_input_text_plugin.py: rewrite'),
      ('rewrite.def reader', 'read_rewrite_lists')],
     ['UTF8InputTextBuilder.get_text', 'get_original_index'])

prop('C05', 'Runs of prolonged sound marks collapse to one mark',
     'Every maximal run of two or more configured prolonged sound marks becomes exactly one replacement symbol, a single mark and every other '
     'character stay unchanged, in order, for any set of marks and any non-empty replacement symbol. The collapsed symbol maps back to the whole '
     'original run.',
     ['inputs', 'configurations'], 'every text, every mark set, every replacement symbol',
     'Tests cover nine fixed strings with one fixed symbol; several runs of different length in one text shift each other.',
     [PL + 'input_text/prolongedsoundmark.py', 'sudachipy/utf8inputtextbuilder.py'],
     [('run detection with running offset', PL + 'input_text/prolongedsoundmark.py: rewrite')],
     ['UTF8InputTextBuilder.get_text'])

prop('C06', 'Character categories are exactly what the definition file says',
     'For every code point, the categories reported are the union of the categories of all ranges of the character definition that contain it '
     '(both ends included), and the default category alone when none does, whatever the order, overlap, nesting or adjacency of the ranges. '
     'Lines that are malformed, have an inverted range or an unknown category are rejected; comments and blank lines are ignored.',
     ['inputs', 'configurations'], 'every code point, every set of ranges',
     'Tests query a few code points of a few definitions; the ranges are compiled into disjoint pieces by a sweep whose errors show only for '
     'particular overlaps at particular boundary code points.',
     [D + 'charactercategory.py', D + 'categorytype.py'],
     [('range compilation', D + 'charactercategory.py: _compile'), ('binary search', 'get_category_types'),
      ('definition reader', 'read_character_definition')],
     ['CharacterCategory.get_category_types'])

prop('C07', 'The analysis returned is a cheapest one',
     'The morphemes chosen (before joining and splitting) form a path whose total cost, i.e. word costs plus connection costs including '
     'the beginning and end of the text, is no greater than that of any other sequence of candidate words that covers the text. '
     'Word costs, left/right ids and connection costs are the ones written in the dictionary sources, and words of every dictionary and '
     'out-of-vocabulary candidates compete on equal terms.',
     ['inputs', 'configurations'], 'every assignment of word costs, ids and connection costs, and every text',
     'Tests use one fixed cost table and never compare against the alternatives; optimality is a statement over all paths and all costs.',
     ['sudachipy/lattice.pyx', 'sudachipy/latticenode.pyx', 'sudachipy/tokenizer.pyx', D + 'grammar.py', D + 'wordparameterlist.py'],
     [('dynamic programming', 'sudachipy/lattice.pyx: connect_node, insert, get_best_path'), ('candidate generation', 'sudachipy/tokenizer.pyx: build_lattice_c')],
     ['MorphemeList of Tokenizer.tokenize'])

prop('C08', 'Inhibited connections are never used',
     'Two words whose connection has the inhibited cost (32767), from the connection matrix or set afterwards by the inhibit-connection plugin, are never adjacent in a '
     'result, however cheap they are. When no sequence of candidates avoids such a connection, tokenization raises an error and does not '
     'return a wrong analysis; when one does, tokenization succeeds.',
     ['inputs', 'configurations'], 'every placement of inhibited cells in the connection matrix, every cost',
     'No test builds a matrix with an inhibited cell that matters.',
     ['sudachipy/lattice.pyx', D + 'grammar.py', PL + 'connect_cost/inhibitconnectioncost.py', PL + 'connect_cost/editconnectioncost.py'],
     [('skip of inhibited cells and of unconnected left nodes', 'sudachipy/lattice.pyx: connect_node'),
      ('cell update', D + 'grammar.py: set_connect_cost')],
     ['Tokenizer.tokenize', 'Grammar.get_connect_cost'])

prop('C09', 'Results do not depend on what was analysed before',
     'Tokenizing a text gives the same morphemes whatever the same tokenizer, or another tokenizer of the same dictionary, analysed before: '
     'longer or shorter texts, other modes, or texts whose analysis failed. A result already returned does not change when '
     'more texts are analysed.',
     ['inputs', 'histories'], 'every sequence of tokenize calls, including failing ones, then any text',
     'Tests create a fresh tokenizer per test and rarely call it twice; the lattice, word-info cache and offsets are reused state whose '
     'leaks need a history to show.',
     ['sudachipy/lattice.pyx', 'sudachipy/tokenizer.pyx', D + 'lexiconset.py', D + 'wordinfolist.py'],
     [('lattice reuse', 'sudachipy/lattice.pyx: resize, clear, expand'), ('word info cache', D + 'lexiconset.py: get_word_info'),
      ('shared file position', D + 'wordinfolist.py: get_word_info')],
     ['MorphemeList of Tokenizer.tokenize'])

prop('C10', 'A and B modes split exactly into the units the dictionary declares',
     'In mode A (B) each mode-C morpheme is replaced by the units its dictionary entry declares for A (B), in order, back to back, '
     'and stays whole when it declares none; mode C never splits. Splitting a single morpheme on demand gives the same units and offsets as tokenizing '
     'the text in that mode, and every mode-C boundary is a boundary in modes A and B. A tokenizer splits in the mode it was made with (C if none was given), and a mode given to a call is used for that call only.',
     ['inputs', 'configurations'], 'every text, every declaration of units, every mode given per call or at creation',
     'Tests split one word in one mode.',
     ['sudachipy/tokenizer.pyx', 'sudachipy/morphemelist.py', 'sudachipy/morpheme.py'],
     [('path splitting', 'sudachipy/tokenizer.pyx: _split_path'), ('on-demand split', 'sudachipy/morphemelist.py: split')],
     ['Tokenizer.tokenize(mode)', 'Morpheme.split'])

prop('C11', 'Built dictionaries return every word as it was written',
     'For every valid lexicon source, building a dictionary and loading it gives, for each word, the same surface, head-word length, part of speech, '
     'normalized form, reading, dictionary form, A/B/C unit references, synonym groups, left id, right id and cost as the source row, for all string lengths and '
     'all characters. Reading one word never affects how another is read.',
     ['inputs', 'configurations'], 'every set of valid source rows: string contents and lengths up to the format limit, ids and costs over their whole range',
     'Tests build five fixed rows of short strings; length prefixes switch format at 128 units, empty fields stand for the surface, and '
     'supplementary characters count twice.',
     [D + 'dictionarybuilder.py', D + 'wordinfolist.py', D + 'wordparameterlist.py', D + 'wordidtable.py', D + 'doublearraylexicon.py', D + 'jtypedbytebuffer.py'],
     [('writer', D + 'dictionarybuilder.py: write_lexicon, write_wordinfo, write_string'), ('reader', D + 'wordinfolist.py: get_word_info')],
     ['LexiconSet/DoubleArrayLexicon.get_word_info, get_left_id, get_right_id, get_cost'])

prop('C12', 'Parts of speech and connection costs survive the build',
     'After building and loading a system dictionary, part-of-speech ids map to the six components that were written, equal '
     'tuples share one id and different tuples have different ids, and looking a tuple up gives its id back. The connection cost of a (left word, right word) pair of ids is the number '
     'the matrix definition gives for that pair (zero when it gives none), for every matrix shape; comments, blank lines and lines of fewer than three columns give no cell; and changing one cell changes no other.',
     ['inputs', 'configurations'], 'every list of POS tuples, every matrix shape and content',
     'Tests read one hand-made 3x3 matrix and only short POS names; non-square or incomplete matrices and long names are never read back.',
     [D + 'grammar.py', D + 'dictionarybuilder.py'],
     [('POS table', D + 'dictionarybuilder.py: convert_postable / ' + D + 'grammar.py: __init__'), ('matrix', 'convert_matrix / get_connect_cost')],
     ['Grammar.get_part_of_speech_string, get_part_of_speech_id, get_connect_cost'])

prop('C13', 'Dictionary headers round-trip and only the right kind of file is accepted',
     'A header written and read back has the same version, creation time and description, always occupies the same number of bytes, and a description that does '
     'not fit is refused. A file loads as a system dictionary exactly when its version is a system version, and as a user '
     'dictionary exactly when it is a user version; every other version is refused, and whether a part-of-speech table and synonym groups are present is decided by the version alone.',
     ['inputs'], 'every 64-bit version, every creation time, every description',
     'Tests read one header and a few versions.',
     [D + 'dictionaryheader.py', D + 'dictionaryversion.py', D + 'binarydictionary.py'],
     [('header codec', D + 'dictionaryheader.py: to_bytes, from_bytes'), ('version gate', D + 'binarydictionary.py: from_system_dictionary, from_user_dictionary')],
     ['DictionaryHeader', 'BinaryDictionary'])

prop('C14', 'Dictionary lookup finds exactly the words that start at a position',
     'Looking up a byte position of a text yields every indexed word, of every loaded dictionary, whose headword starts there, each exactly once, '
     'with the byte offset where it ends and an id that leads back to that word, and yields nothing else. Words marked as not indexed (left id -1) never '
     'appear, and homographs all appear; user dictionaries come before the system dictionary.',
     ['inputs', 'configurations'], 'every text, every position, every set of headwords including homographs and prefixes of each other',
     'Tests look up two words in one 38-word dictionary.',
     [D + 'doublearraylexicon.py', D + 'lexiconset.py', D + 'wordidtable.py', D + 'dictionarybuilder.py'],
     [('common prefix search and id table', D + 'doublearraylexicon.py: lookup'), ('dictionary tags', D + 'lexiconset.py: lookup')],
     ['Lexicon.lookup'])

prop('C15', 'Words of several user dictionaries keep their identity',
     'With any allowed number of user dictionaries loaded, a word found in the n-th one reports dictionary id n (0 for the system dictionary, -1 for '
     'out-of-vocabulary words), the part of speech its own source row names, and unit references that lead to the '
     'words its own dictionary (or the system dictionary) meant. Adding a dictionary never changes what words of the others report.',
     ['inputs', 'configurations', 'histories'], 'every number of user dictionaries up to the limit, every part-of-speech overlap, every order of queries',
     'Tests load at most two user dictionaries, and the limit is fifteen.',
     [D + 'lexiconset.py', 'sudachipy/dictionary.py', D + 'userdictionarybuilder.py', 'sudachipy/latticenode.pyx'],
     [('id tagging and POS offsets', D + 'lexiconset.py: get_word_info, build_word_id'), ('loading order', 'sudachipy/dictionary.py: _read_user_dictionary')],
     ['Morpheme.dictionary_id, part_of_speech, split, word_id'])

prop('C16', 'Malformed lexicon rows are refused and valid ones accepted',
     'A lexicon row is accepted exactly when it has at least 18 columns, a non-empty headword, strings within the format limit, numeric ids, at most 127 units '
     'per unit list and synonym list, and no A/B units when it is declared an A-unit; otherwise building stops with an error. A column that is accepted '
     'is stored unchanged apart from unicode escapes.',
     ['inputs'], 'every row',
     'Tests try one malformed row per rule.',
     [D + 'dictionarybuilder.py'],
     [('row parser', D + 'dictionarybuilder.py: parse_line, check_splitinfo_format, parse_synonym_group_ids')],
     ['DictionaryBuilder.parse_line', 'build'])

prop('C17', 'Unit references in lexicon sources resolve to the words they name',
     'A unit given as a number, as U plus a number, or inline by headword, part of speech and reading resolves to '
     'the entry it names: a U reference or an inline match among the new entries to the dictionary being built, any other to the system '
     'dictionary, for system and user builds alike. References to words that do not exist stop the build, so a built dictionary has no dangling unit reference.',
     ['inputs', 'configurations'], 'every reference, every table of entries, system and user builds',
     'Tests resolve three references.',
     [D + 'dictionarybuilder.py', D + 'userdictionarybuilder.py', D + 'doublearraylexicon.py', D + 'lexiconset.py'],
     [('reference parser', D + 'dictionarybuilder.py: parse_splitinfo, parse_id, word_to_id, get_wordid'),
      ('user overrides', D + 'userdictionarybuilder.py: get_wordid, check_wordid'), ('word search', D + 'doublearraylexicon.py: get_word_id')],
     ['WordInfo.a_unit_split, b_unit_split, word_structure'])

prop('C18', 'Unicode escapes in lexicon sources denote their code point',
     'Every escape of four hexadecimal digits, and every braced escape of any code point, in a lexicon column stands for exactly that character, '
     'and all other text, including look-alikes such as an incomplete escape, is kept verbatim.',
     ['inputs'], 'every code point, every digit count, every position',
     'Tests decode three escapes.',
     [D + 'dictionarybuilder.py'],
     [('escape decoder', D + 'dictionarybuilder.py: decode')],
     ['DictionaryBuilder.decode', 'WordInfo strings'])

prop('C19', 'Out-of-vocabulary candidates follow the category rules',
     'At each position the category-based provider offers, for each category of the first character that is configured and either always invoked or '
     'without dictionary words, the whole category run when grouping is on, and the prefixes of the configured numbers of characters inside the run, with the ids, cost and part of speech '
     'of that category, and nothing else. Every candidate is a non-empty piece of the text, its surface is exactly that piece, and is marked out-of-vocabulary.',
     ['inputs', 'configurations'], 'every category assignment, every invoke/group/length setting, every position',
     'Tests use a mock text of one-byte characters with a few fixed settings.',
     [PL + 'oov/mecab_oov_plugin.py', PL + 'oov/oov_provider_plugin.py'],
     [('candidate generation', PL + 'oov/mecab_oov_plugin.py: provide_oov'), ('definition readers', 'read_character_property, read_oov')],
     ['OovProviderPlugin.get_oov'])

prop('C20', 'Every text can be analysed',
     'With a catch-all out-of-vocabulary provider configured last and no inhibited connections, tokenization of any encodable text succeeds: wherever the other sources give no word, '
     'one candidate reaching the next possible word start is offered, so the end of the text is always reached. Characters that may not start an out-of-vocabulary word '
     'are still covered.',
     ['inputs', 'configurations'], 'every text, every dictionary, every category assignment',
     'Tests tokenize about ten strings; a dead end needs a particular mix of categories, OOV settings and words.',
     ['sudachipy/tokenizer.pyx', PL + 'oov/simple_oov_plugin.py', 'sudachipy/utf8inputtext.py', PL + 'oov/mecab_oov_plugin.py'],
     [('lattice construction with default provider', 'sudachipy/tokenizer.pyx: build_lattice_c'), ('catch-all', PL + 'oov/simple_oov_plugin.py: provide_oov')],
     ['Tokenizer.tokenize'])

prop('C21', 'Numerals normalize to the number they denote',
     'For every string of digits, kanji numerals, small and large units, commas and a decimal point that is accepted as a number, the normalized form is the plain decimal notation of the value it denotes, '
     'with no trailing zeros after the point and leading zeros kept. Strings with misplaced commas or points, or units in the wrong order, are not accepted, '
     'and using the parser again after clearing gives the same answer as a fresh one.',
     ['inputs', 'histories'], 'every string over the numeral alphabet',
     'Tests parse about forty strings.',
     [PL + 'path_rewrite/numericparser.py'],
     [('accumulators and string arithmetic', PL + 'path_rewrite/numericparser.py: append, done, get_normalized')],
     ['NumericParser', 'Morpheme.normalized_form'])

prop('C22', 'Numeric joining merges whole numbers and nothing else',
     'Joining replaces runs of consecutive numeric tokens by one token whose surface, reading and extent are those of the run and whose normalized form '
     'is the normalized number (or the concatenation when normalization is off), and only when the run reads as a valid number and starts with a numeral part of speech. Tokens outside such runs keep their '
     'identity and order, and a comma or point that cannot belong to the number stays separate.',
     ['inputs', 'configurations'], 'every token sequence, every normalization setting',
     'Tests join about fifteen strings; backtracking over commas and points depends on the whole sequence.',
     [PL + 'path_rewrite/join_numeric_plugin.py', PL + 'path_rewrite/path_rewrite_plugin.py', PL + 'path_rewrite/numericparser.py'],
     [('scan with backtracking', PL + 'path_rewrite/join_numeric_plugin.py: rewrite'), ('merge', PL + 'path_rewrite/path_rewrite_plugin.py: concatenate')],
     ['JoinNumericPlugin.rewrite', 'Tokenizer.tokenize'])

prop('C23', 'Katakana joining merges whole katakana runs around unknown or short words',
     'Whenever a katakana token is out-of-vocabulary or shorter than the configured length, the whole run of adjacent katakana tokens around it, from the first that may start an '
     'out-of-vocabulary word, becomes one token: an existing dictionary or candidate word with exactly that extent if there is one, else a new out-of-vocabulary token with the configured part of speech. Other tokens '
     'keep their identity and order, and the tokens still cover the same text.',
     ['inputs', 'configurations'], 'every token sequence, category assignment and minimum length',
     'Tests join six strings.',
     [PL + 'path_rewrite/join_katakana_oov_plugin.py', PL + 'path_rewrite/path_rewrite_plugin.py', 'sudachipy/lattice.pyx'],
     [('run search', PL + 'path_rewrite/join_katakana_oov_plugin.py: rewrite'), ('merge', PL + 'path_rewrite/path_rewrite_plugin.py: concatenate_oov'),
      ('existing word', 'sudachipy/lattice.pyx: get_minimum_node')],
     ['JoinKatakanaOovPlugin.rewrite', 'Tokenizer.tokenize'])

prop('C24', 'Automatic costs of user words are computed only where asked and stay in range',
     'Loading a user dictionary replaces a word cost exactly when it is -32768, by the internal cost of analysing that surface with what was loaded before minus 20 per morpheme, '
     'clamped to a signed 16-bit number; every other cost, all ids and all other words stay as written. The dictionary file on disk is never modified.',
     ['inputs', 'configurations'], 'every cost table',
     'Tests load two user dictionaries and never read the computed costs.',
     [D + 'doublearraylexicon.py', D + 'wordparameterlist.py', 'sudachipy/dictionary.py', D + 'binarydictionary.py'],
     [('cost calculation', D + 'doublearraylexicon.py: calculate_cost'), ('copy-on-write mapping', D + 'binarydictionary.py: from_user_dictionary')],
     ['Lexicon.get_cost'])

prop('C25', 'Morpheme lists behave as sequences and morphemes report their own entry',
     'A morpheme list supports length, iteration, and indexing with positive and negative indices exactly as a Python list of its morphemes, raising an index error outside, and its string form is the concatenated surfaces. '
     'Every accessor of a morpheme (part of speech and its id, dictionary, normalized and reading form, synonym groups, word id, out-of-vocabulary flag) reports the data of that '
     'very word in any order of calls.',
     ['inputs', 'histories'], 'every index, every order of accessor calls',
     'Tests index two lists.',
     ['sudachipy/morphemelist.py', 'sudachipy/morpheme.py', 'sudachipy/latticenode.pyx'],
     [('indexing', 'sudachipy/morphemelist.py: __getitem__'), ('lazy word info', 'sudachipy/morpheme.py: get_word_info')],
     ['MorphemeList', 'Morpheme'])

prop('C26', 'Command-line output has one line per morpheme and EOS per input line',
     'For every input line the command prints one line per morpheme, in order, with tab-separated surface, comma-joined part of speech and normalized form, then EOS; '
     'with the all-fields option dictionary form, reading, dictionary id and bracketed synonym groups follow, plus an (OOV) mark exactly for out-of-vocabulary words. '
     'Only the line terminator is removed from a line, lines do not influence each other, the debug option adds its dump without changing them, and the same lines go to the output file if one is named. The mode, settings file and dictionary type named by options have the effect of the same arguments of the interface, in any order.',
     ['inputs', 'configurations'], 'every list of lines, every option combination',
     'No test runs the command-line interface on text.',
     ['sudachipy/command_line.py'],
     [('output loop', 'sudachipy/command_line.py: run')],
     ['stdout logger'])

prop('C27', 'Settings resolve to the configured dictionary, files and plugins',
     'Relative paths in the settings are taken from the resource directory (the directory of the settings file when none is given) and absolute paths as they are; a dictionary type given by the caller overrides the '
     'settings file, an unknown type is refused, and without either the core dictionary is used. Plugins are created in the configured order with their own options, and an unknown plugin class, '
     'a missing class name or required option, a part of speech the dictionary does not have, or the lack of any unknown-word plugin is refused. Files of the same names in the working directory play no part, and each dictionary keeps what its own settings said.',
     ['configurations'], 'every combination of settings, arguments and plugin lists',
     'Tests use two settings files.',
     ['sudachipy/config.py', PL + 'input_text/utils.py', PL + 'oov/utils.py', PL + 'path_rewrite/utils.py', 'sudachipy/dictionary.py'],
     [('settings', 'sudachipy/config.py: _Settings.set_up, system_dict_path, user_dict_paths, char_def_path'), ('plugin factories', PL + '*/utils.py')],
     ['config.settings', 'Dictionary'])

prop('C28', 'Definition files are read faithfully and malformed ones refused',
     'The readers of the normalization table and of the category and unknown-word definitions take every well-formed line into account with exactly its values, ignore blank lines and (in the first two) comments, and '
     'raise an error for a duplicate key, a wrong number of columns, an ignore entry that is not a single character, an unknown category, a category that is defined twice or was not defined, a column that is to be '
     'a number and is none, and a part of speech the dictionary does not have.',
     ['inputs', 'configurations'], 'every file of well-formed and malformed lines',
     'Tests feed three malformed files.',
     [PL + 'input_text/default_input_text_plugin.py', PL + 'oov/mecab_oov_plugin.py'],
     [('readers', PL + 'input_text/default_input_text_plugin.py: read_rewrite_lists'), ('readers', PL + 'oov/mecab_oov_plugin.py: read_character_property, read_oov')],
     ['DefaultInputTextPlugin', 'MeCabOovPlugin'])

prop('C29', 'The build commands write the dictionary the source files describe',
     'The build and ubuild commands write, to the named file or to system.dic/user.dic, a header of the current version of its kind with the given description and the time of the build, followed by '
     'the dictionary of all rows of the lexicon files taken in the order given (with the matrix file, or relative to the named or installed system dictionary), the same as the builder gives for those rows. '
     'A missing lexicon, matrix or system dictionary file is refused with a failing exit code before anything is written, a malformed row or a description that does not fit fails the command, '
     'and a dictionary built this way can be loaded and used.',
     ['inputs', 'configurations'], 'every list of files, every option combination, any row contents',
     'No test runs the build commands; the test dictionaries are one system and one user lexicon in one file each.',
     ['sudachipy/command_line.py', D + 'dictionarybuilder.py', D + 'userdictionarybuilder.py', D + 'dictionaryheader.py'],
     [('commands', 'sudachipy/command_line.py: main, _command_build, _command_user_build'), ('file checks', 'sudachipy/command_line.py: _system_dic_checker, _input_files_checker, _matrix_file_checker')],
     ['the output file', 'the exit code'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    print(len(P))
