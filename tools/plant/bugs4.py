P = 'sudachipy/'
D = P + 'dictionarylib/'
PI = P + 'plugin/input_text/'
PO = P + 'plugin/oov/'
PR = P + 'plugin/path_rewrite/'
T = P + 'tokenizer.pyx'
CC = '''from lib import *
from sudachipy.dictionarylib.charactercategory import CharacterCategory
def cats(text, *points):
    c = CharacterCategory()
    c.read_character_definition(write('x.def', text))
    return [sorted(t.name for t in c.get_category_types(p)) for p in points]
'''
TEXT = '''from lib import *
from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder
'''
BUGS = [
 dict(id='short-place', property='C01',
  needs='a text of more than 65535 bytes',
  breaks='the words behind its first 65535 bytes are looked for elsewhere',
  edits=[(T, "    cdef unsigned int i, word_id, end, idx\n", "    cdef unsigned int word_id, end, idx\n    cdef unsigned short i\n")],
  demo='''from lib import *
import signal
signal.alarm(100)
t = dictionary(system([row('あ'), row('あ' * 64, cost=-100)])).create()
n = 0
for m in t.tokenize('あ' * 22000):
    if m.begin() != n:
        sys.exit(1)
    n = m.end()
expect(n, 22000)
'''),
 dict(id='replacement-eight', property='C02',
  needs='a replacement of more than eight characters for fewer',
  breaks='what is behind it is taken for other characters of the text',
  edits=[(P+'utf8inputtextbuilder.py', "        for i in range(1, length):\n", "        for i in range(1, min(length, 8)):\n")],
  demo=TEXT + '''d = dictionary(system([row('a')]))
b = UTF8InputTextBuilder('ab', d.grammar)
b.replace(0, 1, 'x' * 12)
i = b.build()
expect([i.get_original_index(k) for k in range(14)], [0] + [1] * 12 + [2])
'''),
 dict(id='categories-of-three', property='C03',
  needs='the categories of a region of four or more characters of which only the last lack one',
  breaks='a category is reported that the last characters do not have',
  edits=[(P+'utf8inputtext.py', "        for i in range(b + 1, e):\n            continuous", "        for i in range(b + 1, min(e, b + 3)):\n            continuous")],
  demo=TEXT + '''d = dictionary(system([row('a')]), chardef='DEFAULT 0 1 0\\n0x61..0x63 ALPHA GREEK\\n0x64 ALPHA\\n')
i = UTF8InputTextBuilder('abcd', d.grammar).build()
expect(sorted(c.name for c in i.get_char_category_types(0, 4)), ['ALPHA'])
'''),
 dict(id='same-first', property='C04',
  needs='an entry whose value begins with its first character',
  breaks='the entry is not used',
  edits=[(PI+'default_input_text_plugin.py', "                if replace:\n", "                if replace and replace[0] != original:\n")],
  demo=TEXT + '''from sudachipy.plugin.input_text.default_input_text_plugin import DefaultInputTextPlugin
d = dictionary(system([row('a')]))
p = DefaultInputTextPlugin()
p.read_rewrite_lists(write('r.def', 'xy xyz\\n'))
b = UTF8InputTextBuilder('axyb', d.grammar)
p.rewrite(b)
expect(b.get_text(), 'axyzb')
'''),
 dict(id='marks-thirty', property='C05',
  needs='a run of more than thirty prolonged sound marks',
  breaks='the run is cut in several',
  edits=[(PI+'prolongedsoundmark.py', "            elif is_psm and cp not in self._psm_set:\n", "            elif is_psm and (cp not in self._psm_set or i - m_start_idx > 30):\n")],
  demo=TEXT + '''from sudachipy.plugin.input_text.prolongedsoundmark import ProlongedSoundMarkInputTextPlugin
d = dictionary(system([row('a')]))
b = UTF8InputTextBuilder('ア' + 'ー' * 80 + 'イ', d.grammar)
ProlongedSoundMarkInputTextPlugin(PROLONGED).rewrite(b)
expect(b.get_text(), 'アーイ')
'''),
 dict(id='lower-hex', property='C06',
  needs='a range written with a lower-case hexadecimal digit first',
  breaks='the range is ignored',
  edits=[(D+'charactercategory.py', 'if not re.match("0x", cols[0]):', 'if not re.match("0x[0-9A-F]+", cols[0]):')],
  demo=CC + '''expect(cats('0xff21..0xff3a ALPHA\\n', 0xff21, 0xff3b), [['ALPHA'], ['DEFAULT']])
'''),
 dict(id='eighth-dictionary', property='C07',
  needs='eight or more user dictionaries',
  breaks='the costs of the words of the last ones are those of others',
  edits=[(T, "            lex = lexicon.lexicons[word_id >> 28]\n", "            lex = lexicon.lexicons[(word_id >> 28) & 7]\n")],
  demo='''from lib import *
s = system([row('あ', cost=5), row('い', cost=5)])
us = [user([row('う%d' % k, cost=9000)], s, 'u%d.dic' % k) for k in range(7)] + [user([row('あい', cost=-50)], s, 'u7.dic')]
us[0] = user([row('えお', cost=20000)], s, 'u0.dic')
d = dictionary(s, users=us)
expect(surfaces(d.create().tokenize('あい')), ['あい'])
d = dictionary(system([row('あ', cost=5), row('い', cost=5), row('z', cost=0)]), users=us[:7] + [user([row('あい', cost=20000)], s, 'u8.dic')])
expect(surfaces(d.create().tokenize('あい')), ['あ', 'い'])
'''),
 dict(id='offset-of-original', property='C10',
  needs='a word with units behind text whose normalized form has another size, split on demand',
  breaks='the units are placed elsewhere',
  edits=[(P+'morphemelist.py', "        offset = self.path[index].get_begin()\n", "        offset = len(self.input_text.get_original_text()[:self.get_begin(index)].encode('utf-8'))\n")],
  demo='''from lib import *
d = dictionary(system([row('東'), row('京'), row('東京', cost=-9, a='0/1', b='0/1'), row('都'), row('メートル', cost=-9)]), text=[NORMALIZE])
m = d.create().tokenize('㍍東京都')[1]
expect([(x.begin(), x.end()) for x in m.split(A)], [(1, 2), (2, 3)])
'''),
 dict(id='star-matches', property='C12',
  needs='two parts of speech that differ in the last component only, where it is * in one',
  breaks='looking one up gives the id of the other',
  edits=[(D+'grammar.py', "        return self.pos_list.index(pos) if pos in self.pos_list else -1\n", "        for i, p in enumerate(self.pos_list):\n            if p[:5] == list(pos)[:5] and p[5] in ('*', list(pos)[5]):\n                return i\n        return -1\n")],
  demo='''from lib import *
g = dictionary(system([row('a'), row('b', pos=POS[:5] + ['x'])])).grammar
expect([g.get_part_of_speech_id(POS), g.get_part_of_speech_id(POS[:5] + ['x'])], [0, 1])
'''),
 dict(id='eight-prefixes', property='C14',
  needs='more than eight words that begin with one another',
  breaks='the longest of them are not found',
  edits=[(D+'doublearraylexicon.py', "self.trie.common_prefix_search(key, length=len(key))", "self.trie.common_prefix_search(key, length=len(key))[:8]")],
  demo='''from lib import *
d = dictionary(system([row('a' * k) for k in range(1, 12)]))
expect(sorted(e for _, e in d.lexicon.lookup(b'a' * 20, 0)), list(range(1, 12)))
'''),
 dict(id='four-digits', property='C22',
  needs='a token whose normalized form has four or more characters in a number',
  breaks='the number is that of its first digit',
  edits=[(PR+'join_numeric_plugin.py', "                for c in s:\n", "                for c in s[:1] if len(s) > 3 else s:\n")],
  demo='''from lib import *
d = dictionary(system([row('1234', pos=NUM, cost=-90), row('万', pos=NUM), row('z')]), path=[NUMJOIN])
expect([m.normalized_form() for m in d.create().tokenize('1234万')], ['12340000'])
'''),
 dict(id='cost-of-normal', property='C24',
  needs='a word with a computed cost whose normalized form differs from its surface',
  breaks='its cost is that of analysing another text',
  edits=[(D+'doublearraylexicon.py', "            surface = self.get_word_info(wid).surface\n", "            surface = self.get_word_info(wid).normalized_form\n")],
  demo='''from lib import *
s = system([row('あ', cost=5), row('い', cost=700), row('う', cost=5000)])
d = dictionary(s, users=[user([row('あい', cost=-32768, norm='あう')], s)])
expect(d.lexicon.get_cost(1 << 28), 700 - 5 - 40)
'''),
 dict(id='id-signed', property='C25',
  needs='a word of the eighth or a later user dictionary',
  breaks='its word id is that of another word',
  edits=[(P+'morpheme.py', "        return self.list.path[self.index].get_word_id()\n", "        return self.list.path[self.index].get_word_id() & 0x7fffffff\n")],
  demo='''from lib import *
s = system([row('あ', cost=9)])
us = [user([row('い%d' % k), row('う%d' % k)], s, 'u%d.dic' % k) for k in range(9)]
d = dictionary(s, users=us)
expect([m.word_id() for m in d.create().tokenize('う7う8')], [8 << 28 | 1, 9 << 28 | 1])
'''),
 dict(id='settings-stay', property='C27',
  needs='a second dictionary whose settings lack a key that those of the first have',
  breaks='it uses that of the first',
  edits=[(P+'config.py', "            self.__dict_ = json.load(f)\n", "            self.__dict_ = dict(self.__dict_ or {}, **json.load(f))\n")],
  demo='''from lib import *
s = system([row('1', pos=NUM), row('2', pos=NUM), row('z')])
dictionary(s, path=[NUMJOIN])
d = Dictionary(config_path=write('other.json', json.dumps({'systemDict': s, 'characterDefinitionFile': 'char.def', 'oovProviderPlugin': [SIMPLE]})))
expect(surfaces(d.create().tokenize('12')), ['1', '2'])
'''),
 dict(id='unk-four', property='C28',
  needs='more than four entries for a category',
  breaks='the last ones are left out',
  edits=[(PO+'mecab_oov_plugin.py', "                self.oov_list[type_].append(oov)\n", "                if len(self.oov_list[type_]) < 4:\n                    self.oov_list[type_].append(oov)\n")],
  demo='''from lib import *
d = dictionary(system([row('z', pos=POS), row('あ', cost=20000)]), oov=[MECAB, SIMPLE], chardef='DEFAULT 0 1 0\\nHIRAGANA 1 1 0\\n0x3041..0x309F HIRAGANA\\n',
               unk=''.join('HIRAGANA,0,0,%d,' % (900 - k) + ','.join(POS) + '\\n' for k in range(7)))
expect(sorted(o.cost for o in list(d.oov_provider_plugins[0].oov_list.values())[0]), list(range(894, 901)))
'''),
 dict(id='files-by-name', property='C29',
  needs='lexicon files given in another order than that of their names',
  breaks='the words have other numbers than the order says',
  edits=[(P+'command_line.py', "        builder.build(args.in_files, rf, wf)\n", "        builder.build(sorted(args.in_files), rf, wf)\n")],
  demo='''from lib import *
from sudachipy import command_line
b, a = write('b.csv', csv([row('b', read='one'), row('ab', a='0/2', b='0/2')])), write('a.csv', csv([row('a', read='two')]))
out = os.path.join(DIR, 'x.dic')
sys.argv = ['sudachipy', 'build', '-o', out, '-m', write('m.def', matrix(1, 1, [(0, 0, 0)])), b, a]
command_line.main()
lex = BinaryDictionary.from_system_dictionary(out).lexicon
expect([lex.get_word_info(i).reading_form for i in (0, 2)], ['one', 'two'])
'''),
]
