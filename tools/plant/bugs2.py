P = 'sudachipy/'
D = P + 'dictionarylib/'
BUGS = [
 dict(id='head-length-of-surface', property='C11',
  needs='a word whose surface has another length than its headword',
  breaks='the length of the headword is stored wrongly',
  edits=[(D + 'dictionarybuilder.py', "            self.write_stringlength(wi.length())\n", "            self.write_stringlength(len(wi.surface.encode('utf-8')))\n")],
  demo='''from lib import *
d = dictionary(system([row('ab', surface='abc')]))
expect(d.lexicon.get_word_info(0).head_word_length, 2)
'''),
 dict(id='description-last-byte', property='C13',
  needs='a description of exactly 256 bytes',
  breaks='the last byte of the description is not read back',
  edits=[(D + 'dictionaryheader.py', "        while len_ < cls.__DESCRIPTION_SIZE:\n", "        while len_ < cls.__DESCRIPTION_SIZE - 1:\n")],
  demo='''from lib import *
h = DictionaryHeader(SYSTEM_DICT_VERSION_2, 5, 'x' * 256)
expect(DictionaryHeader.from_bytes(h.to_bytes(), 0).description, 'x' * 256)
'''),
 dict(id='lookup-window', property='C14',
  needs='a headword of more than 64 bytes',
  breaks='long headwords are not found',
  edits=[(D + 'doublearraylexicon.py', "        key = text[offset:]\n", "        key = text[offset:offset + 64]\n")],
  demo='''from lib import *
d = dictionary(system([row('a'), row('あ' * 22)]))
expect(list(d.lexicon.lookup(('あ' * 22).encode('utf-8'), 0)), [(1, 66)])
'''),
 dict(id='pos-offset-previous', property='C15',
  needs='two user dictionaries, the second with a part of speech of its own',
  breaks='words of the second user dictionary get parts of speech of the first',
  edits=[(D + 'lexiconset.py', "            winfo.pos_id = winfo.pos_id - self.pos_offsets[1] + self.pos_offsets[dic_id]\n", "            winfo.pos_id = winfo.pos_id - self.pos_offsets[1] + self.pos_offsets[max(dic_id - 1, 1)]\n")],
  demo='''from lib import *
s = system([row('a')])
p1, p2 = ['X'] * 6, ['Y'] * 6
u1, u2 = user([row('い', pos=p1)], s, 'u1.dic'), user([row('う', pos=p2)], s, 'u2.dic')
d = dictionary(s, users=[u1, u2])
expect([list(m.part_of_speech()) for m in d.create().tokenize('いう')], [p1, p2])
'''),
 dict(id='unit-id-one-past', property='C17',
  needs='a unit given by the id that follows the last word',
  breaks='a unit that is no word is accepted',
  edits=[(D + 'dictionarybuilder.py', "        if wid < 0 or wid >= len(self.entries):\n", "        if wid < 0 or wid > len(self.entries):\n")],
  demo='''from lib import *
try:
    system([row('a'), row('b'), row('ab', a='0/3')])
except Exception:
    sys.exit(0)
sys.exit(1)
'''),
 dict(id='split-of-short-unit', property='C16',
  needs='a word of mode A that has units for one mode only',
  breaks='a definition that is not valid is accepted',
  edits=[(D + 'dictionarybuilder.py', "                not (entry.aunit_split_string == '*' and entry.bunit_split_string == '*'):\n", "                not (entry.aunit_split_string == '*' or entry.bunit_split_string == '*'):\n")],
  demo='''from lib import *
try:
    system([row('a'), row('b'), row('ab', mode='A', b='0/1')])
except ValueError:
    sys.exit(0)
sys.exit(1)
'''),
 dict(id='comma-stays-off', property='C22',
  needs='a sequence with commas that is no number, followed later in the text by one that is',
  breaks='the later number is not joined',
  edits=[(P + 'plugin/path_rewrite/join_numeric_plugin.py', "            if not comma_as_digit and s != ',':\n", "            if not comma_as_digit and s == '.':\n")],
  demo='''from lib import *
rows = [row(c, pos=NUM) for c in '0123456789'] + [row(',', pos=SYM), row('a')]
d = dictionary(system(rows), path=[NUMJOIN])
expect(surfaces(d.create().tokenize('1,,0a1,000')), ['1', ',', ',', '0', 'a', '1,000'])
'''),
 dict(id='start-at-node', property='C23',
  needs='katakana words to be joined the first of which cannot begin an out-of-vocabulary word',
  breaks='the joined word begins where no word may begin, or words are not joined',
  edits=[(P + 'plugin/path_rewrite/join_katakana_oov_plugin.py', "            while begin != end and not self.can_oov_bow_node(text, path[begin]):\n                begin += 1\n", "            if begin != end and not self.can_oov_bow_node(text, path[begin]):\n                begin += 1\n")],
  demo='''from lib import *
rows = [row('ー'), row('ア'), row('イ')]
d = dictionary(system(rows), path=[KATAJOIN])
expect(surfaces(d.create().tokenize('ーーアイ')), ['ー', 'ー', 'アイ'])
'''),
 dict(id='cost-not-limited-below', property='C24',
  needs='a user word of automatic cost whose analysis is cheaper than a cost may be',
  breaks='the dictionary cannot be loaded',
  edits=[(D + 'doublearraylexicon.py', "            cost = max(cost, self.__SIGNED_SHORT_MIN)\n", "")],
  demo='''from lib import *
s = system([row('あ', cost=30000), row('い', cost=-10000)])
u = user([row('あい', cost=-32768)], s)
d = dictionary(s, users=[u])
expect(d.lexicon.get_cost(1 << 28), -32768)
'''),
 dict(id='negative-index', property='C25',
  needs='a negative index',
  breaks='another morpheme is returned',
  edits=[(P + 'morphemelist.py', "            return morpheme.Morpheme(self, n_morphs + index)\n", "            return morpheme.Morpheme(self, n_morphs + index - 1 if index < -1 else n_morphs - 1)\n")],
  demo='''from lib import *
ml = dictionary(system([row('あ'), row('い'), row('う')])).create().tokenize('あいう')
expect([ml[i].surface() for i in (-1, -2, -3)], ['う', 'い', 'あ'])
'''),
 dict(id='line-stripped', property='C26',
  needs='a line that ends with blanks',
  breaks='the blanks are not analysed and are missing in the output',
  edits=[(P + 'command_line.py', "        line = line.rstrip('\\n')\n", "        line = line.rstrip()\n")],
  demo='''from lib import *
from sudachipy import command_line
out = []
class L:
    disabled = False
    def info(self, s):
        out.append(s.split('\\t')[0])
d = dictionary(system([row('a')]))
command_line.run(d.create(), C, ['a \\n'], False, L(), False)
expect(out, ['a', ' ', 'EOS'])
'''),
 dict(id='path-of-cwd', property='C27',
  needs='a file in the working directory that has the name of a resource',
  breaks='another file than the one in the resource directory is used',
  edits=[(P + 'config.py', "    if Path(dict_path).is_absolute():\n", "    if Path(dict_path).is_absolute() or os.path.exists(dict_path):\n")],
  demo='''from lib import *
s = system([row('あ', cost=9000), row('い', cost=9000), row('あい')])
os.mkdir(os.path.join(DIR, 'w'))
sub = os.path.join(DIR, 'w')
os.chdir(DIR)
system([row('あ'), row('い')], name='w/system.dic')
os.chdir(sub)
expect(surfaces(dictionary('system.dic').create().tokenize('あい')), ['あい'])
'''),
 dict(id='flag-one-only', property='C28',
  needs='a flag in a character definition that is neither 0 nor 1',
  breaks='the flag is taken as not set',
  edits=[(P + 'plugin/oov/mecab_oov_plugin.py', "                info.is_group = (cols[2] != \"0\")\n", "                info.is_group = (cols[2] == \"1\")\n")],
  demo='''from lib import *
from sudachipy.plugin.oov import MeCabOovPlugin
p = MeCabOovPlugin()
p.read_character_property(write('c.def', 'DEFAULT 0 2 0\\n'))
expect([i.is_group for i in p.categories.values()], [True])
'''),
 dict(id='ids-restart-per-file', property='C29',
  needs='a dictionary built from several files',
  breaks='headwords of the second file lead to words of the first',
  edits=[(D + 'dictionarybuilder.py', "                    self.add_to_trie(entry.headword, len(self.entries))\n", "                    self.add_to_trie(entry.headword, i)\n")],
  demo='''from lib import *
import subprocess
a, b, m = write('a.csv', csv([row('a')])), write('b.csv', csv([row('b')])), write('m.def', '1 1\\n0 0 0\\n')
subprocess.check_call([sys.executable, '-W', 'ignore', '-m', 'sudachipy.command_line', 'build', '-o', os.path.join(DIR, 'o.dic'), '-m', m, a, b], stderr=subprocess.DEVNULL, stdout=subprocess.DEVNULL)
d = BinaryDictionary.from_system_dictionary(os.path.join(DIR, 'o.dic'))
expect(list(d.lexicon.lookup(b'b', 0)), [(1, 1)])
'''),
 dict(id='first-file-only', property='C29',
  needs='several source files, one of the later ones missing',
  breaks='the output file is overwritten although a source is missing',
  edits=[(P + 'command_line.py', "    for file in args.in_files:\n", "    for file in args.in_files[:1]:\n")],
  demo='''from lib import *
import subprocess
a, m, o = write('a.csv', csv([row('a')])), write('m.def', '1 1\\n0 0 0\\n'), write('o.dic', 'precious')
r = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'sudachipy.command_line', 'build', '-o', o, '-m', m, a, os.path.join(DIR, 'none.csv')], stderr=subprocess.DEVNULL, stdout=subprocess.DEVNULL)
expect((r.returncode != 0, open(o, errors='replace').read()), (True, 'precious'))
'''),
 dict(id='b-units-from-a', property='C10',
  needs='mode B and a word with units for mode A only',
  breaks='the word is split although it has no units for the mode',
  edits=[(P + 'tokenizer.pyx', "                wids = node.get_word_info().b_unit_split\n", "                wids = node.get_word_info().b_unit_split or node.get_word_info().a_unit_split\n")],
  demo='''from lib import *
d = dictionary(system([row('a'), row('b'), row('ab', cost=-30000, a='0/1')]))
expect(surfaces(d.create().tokenize('ab', B)), ['ab'])
'''),
 dict(id='escape-in-reading', property='C18',
  needs='two or more escapes in one column',
  breaks='the second escape is kept as it is written',
  edits=[(D + 'dictionarybuilder.py', "        return re.sub(self.__PATTERN_UNICODE_LITERAL, replace, str_)\n", "        return re.sub(self.__PATTERN_UNICODE_LITERAL, replace, str_, count=1)\n")],
  demo='''from lib import *
d = dictionary(system([row('\\\\u3042\\\\u3044', cost=-5000), row('い')]))
expect([m.word_id() for m in d.create().tokenize('あい')], [0])
'''),
 dict(id='lower-expands', property='C04',
  needs='a character whose lower case has several characters, before characters that are replaced',
  breaks='later replacements are made at the wrong places',
  edits=[(P + 'plugin/input_text/default_input_text_plugin.py', "            next_offset = len(replace) - 1\n", "            next_offset = len(replace) - len(lower)\n")],
  demo='''from lib import *
from sudachipy.plugin.input_text import DefaultInputTextPlugin
from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder
d = dictionary(system([row('a')]))
p = DefaultInputTextPlugin()
b = UTF8InputTextBuilder('\\u0130AB', d.grammar)
p.rewrite(b)
expect(b.get_text(), 'i\\u0307ab')
'''),

 dict(id='merge-subset', property='C06',
  needs='a range directly behind another one, with some but not all of its categories',
  breaks='the characters of the second range get categories of the first',
  edits=[(D + 'charactercategory.py', "irange.categories == _range.categories:", "irange.categories <= _range.categories:")],
  demo='''from lib import *
from sudachipy.dictionarylib.charactercategory import CharacterCategory
from sudachipy.dictionarylib.categorytype import CategoryType as T
c = CharacterCategory()
c.read_character_definition(write('c.def', '0x40..0x4F KANJI SYMBOL\\n0x50..0x5F KANJI\\n'))
expect(c.get_category_types(0x55), {T.KANJI})
'''),
 dict(id='mode-sticks', property='C09',
  needs='a call with a mode followed by a call without',
  breaks='the mode of the earlier call is used',
  edits=[(P + 'tokenizer.pyx', "        mode = mode or self._mode\n", "        mode = self._mode = mode or self._mode\n")],
  demo='''from lib import *
t = dictionary(system([row('あ'), row('い'), row('あい', cost=-30000, a='0/1')])).create()
expect([surfaces(t.tokenize('あい', m)) for m in (None, A, None)], [['あい'], ['あ', 'い'], ['あい']])
'''),
 dict(id='run-minus-one', property='C19',
  needs='a category with grouping and words of n characters, and a run of n + 1 characters of one byte',
  breaks='the word that is one character shorter than the run is missing',
  edits=[(P + 'plugin/oov/mecab_oov_plugin.py', "                if sublength > llength:\n                    break\n", "                if sublength > llength - (1 if cinfo.is_group else 0):\n                    break\n")],
  demo='''from lib import *
d = dictionary(system([row('a')]), oov=[MECAB, SIMPLE], chardef='DEFAULT 0 1 0\\nALPHA 1 1 3\\n0x61..0x7A ALPHA\\n', unk='ALPHA,0,0,5,' + ','.join(POS) + '\\n')
from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder
i = UTF8InputTextBuilder('abcd', d.grammar).build()
expect(sorted(n.get_end() for n in d.oov_provider_plugins[0].get_oov(i, 0, False)), [1, 2, 3, 4])
'''),
 dict(id='first-as-fallback', property='C20',
  needs='several out-of-vocabulary providers and a character for which only the last has a word, where no such word may begin',
  breaks='the text is refused',
  edits=[(P + 'tokenizer.pyx', "self.default_oov_provider = self._oov_provider_plugins[-1]", "self.default_oov_provider = self._oov_provider_plugins[0]")],
  demo='''from lib import *
d = dictionary(system([row('a')]), oov=[MECAB, SIMPLE])
expect(''.join(surfaces(d.create().tokenize('ーa'))), 'ーa')
'''),
 dict(id='tail-run-length', property='C05',
  needs='a replacement symbol of several characters and a run at the end of the text that is not longer',
  breaks='the run at the end is not replaced',
  edits=[(P + 'plugin/input_text/prolongedsoundmark.py', "        if is_psm and n - m_start_idx > 1:\n", "        if is_psm and n - m_start_idx > len(self._replace_symbol):\n")],
  demo='''from lib import *
from sudachipy.plugin.input_text import ProlongedSoundMarkInputTextPlugin
from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder
d = dictionary(system([row('a')]))
b = UTF8InputTextBuilder('xーー', d.grammar)
ProlongedSoundMarkInputTextPlugin({'prolongedSoundMarks': ['ー'], 'replacementSymbol': '--'}).rewrite(b)
expect(b.get_text(), 'x--')
'''),
]
