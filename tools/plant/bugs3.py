P = 'sudachipy/'
D = P + 'dictionarylib/'
PI = P + 'plugin/input_text/'
PO = P + 'plugin/oov/'
PR = P + 'plugin/path_rewrite/'
CC = '''from lib import *
from sudachipy.dictionarylib.charactercategory import CharacterCategory
from sudachipy.dictionarylib.categorytype import CategoryType as T
def cats(text, *points):
    c = CharacterCategory()
    c.read_character_definition(write('x.def', text))
    return [sorted(t.name for t in c.get_category_types(p)) for p in points]
'''
BUGS = [
 dict(id='gap-merged', property='C06',
  needs='two ranges of the same categories with one character between them',
  breaks='the character between the ranges gets their categories',
  edits=[(D+'charactercategory.py', "if irange.low == _range.high and irange.categories", "if irange.low <= _range.high + 1 and irange.categories")],
  demo=CC + '''expect(cats('0x41..0x44 ALPHA\\n0x46..0x48 ALPHA\\n', 0x44, 0x45, 0x46), [['ALPHA'], ['DEFAULT'], ['ALPHA']])
'''),
 dict(id='whole-run-length', property='C19',
  needs='a category without grouping whose lengths reach the end of the run',
  breaks='the unknown word of the whole run is not proposed',
  edits=[(PO+'mecab_oov_plugin.py', "                if sublength > llength:\n", "                if sublength > llength or sublength == length > 3:\n")],
  demo='''from lib import *
d = dictionary(system([row('z', cost=20000)]), oov=[MECAB],
               chardef='DEFAULT 0 1 0\\nKATAKANA 1 0 2\\n0x30A1..0x30FF KATAKANA\\n', unk='KATAKANA,0,0,10,' + ','.join(POS) + '\\n')
t = d.create()
from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder
i = UTF8InputTextBuilder('アイ', d.grammar).build()
got = sorted(n.get_word_info().surface for n in t._oov_provider_plugins[0].provide_oov(i, 0, False))
expect(got, ['ア', 'アイ'])
'''),
 dict(id='one-morpheme', property='C25',
  needs='morphemes of one iteration kept and asked later',
  breaks='all of them answer for the last one',
  edits=[(P+'morphemelist.py', "        for index in range(len(self.path)):\n            yield morpheme.Morpheme(self, index)\n        return\n", "        m = morpheme.Morpheme(self, 0)\n        for index in range(len(self.path)):\n            m.index = index\n            m.word_info = None\n            yield m\n")],
  demo='''from lib import *
d = dictionary(system([row('あ'), row('い')]))
ms = list(d.create().tokenize('あい'))
expect([m.surface() for m in ms], ['あ', 'い'])
'''),
 dict(id='candidate-oov', property='C23',
  needs='a run whose whole length an unknown word of the lattice covers',
  breaks='the cheapest node of the lattice is not taken for the run',
  edits=[(PR+'path_rewrite_plugin.py', "        if n is not None:\n", "        if n is not None and not n.is_oov():\n")],
  demo='''from lib import *
sup = ['名詞', '固有名詞', '一般', '*', '*', '*']
d = dictionary(system([row('ア', cost=1), row('イ', cost=1), row('z', pos=sup)]), oov=[MECAB, SIMPLE], path=[KATAJOIN],
               chardef='DEFAULT 0 1 0\\nKATAKANA 1 1 0\\n0x30A1..0x30FF KATAKANA\\n', unk='KATAKANA,0,0,20000,' + ','.join(sup) + '\\n')
expect([list(m.part_of_speech()) for m in d.create().tokenize('アイ')], [sup])
'''),
 dict(id='stale-resource', property='C27',
  needs='a second dictionary whose configuration is in another directory',
  breaks='its files are looked for beside the first configuration',
  edits=[(P+'config.py', "resource_dir = resource_dir or os.path.dirname(config_path)", "resource_dir = resource_dir or self.resource_dir or os.path.dirname(config_path)")],
  demo='''from lib import *
s = system([row('a')])
os.mkdir(os.path.join(DIR, 'x'))
dictionary(s)
write('x/char.def', 'DEFAULT 0 1 0\\n0x61 KANJI\\n')
p = write('x/sudachi.json', json.dumps({'systemDict': s, 'characterDefinitionFile': 'char.def', 'oovProviderPlugin': [SIMPLE], 'inputTextPlugin': [], 'pathRewritePlugin': []}))
d = Dictionary(config_path=p)
expect([c.name for c in d.grammar.get_character_category().get_category_types(0x61)], ['KANJI'])
'''),
 dict(id='over-existing', property='C29',
  needs='an output file that exists and is longer than the new dictionary',
  breaks='the end of the old file stays',
  edits=[(P+'command_line.py', "    with open(args.out_file, 'wb') as wf, open(args.matrix_file", "    with open(args.out_file, 'r+b' if os.path.exists(args.out_file) else 'wb') as wf, open(args.matrix_file")],
  demo='''from lib import *
import subprocess
m, s = write('m.def', matrix(1, 1, [(0, 0, 0)])), write('s.csv', csv([row('a')]))
def build(out):
    subprocess.check_call([sys.executable, '-m', 'sudachipy.command_line', 'build', '-m', m, '-o', out, s], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return os.path.getsize(out)
old = write('old.dic', 'x' * 100000)
expect(build(old), build(os.path.join(DIR, 'new.dic')))
'''),
 dict(id='reading-surface', property='C22',
  needs='an unknown word without a reading joined with others',
  breaks='the joined word has a reading',
  edits=[(PR+'path_rewrite_plugin.py', "            reading_builder += info.reading_form\n", "            reading_builder += info.reading_form or info.surface\n")],
  demo='''from lib import *
d = dictionary(system([row('a', pos=NUM)]), oov=[dict(SIMPLE, oovPOS=NUM)], path=[NUMJOIN])
m = d.create().tokenize('12')
expect([(x.surface(), x.reading_form()) for x in m], [('12', '')])
'''),
 dict(id='negative-hidden', property='C14',
  needs='a word with a left id of another negative value than -1 (32768 to 65534 in the file)',
  breaks='the word is not found',
  edits=[(D+'dictionarybuilder.py', "        if cols[1] != '-1':\n", "        if int(cols[1]) >= 0:\n")],
  demo='''from lib import *
d = dictionary(system([row('a'), row('b', left=-2)]))
expect(list(d.lexicon.lookup(b'b', 0)), [(1, 1)])
'''),
 dict(id='oov-by-id', property='C26',
  needs='a word of a normal dictionary joined from parts',
  breaks='-a marks the wrong words as unknown',
  edits=[(P+'command_line.py', "                if m.is_oov():\n", "                if m.dictionary_id() < 0:\n")],
  demo='''from lib import *
import subprocess
dictionary(system([row('1', pos=NUM), row('2', pos=NUM)]), oov=[dict(SIMPLE, oovPOS=NUM)], path=[NUMJOIN])
o = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'sudachipy.command_line', '-a', '-r', os.path.join(DIR, 'sudachi.json')], input='12\\n', capture_output=True, text=True, encoding='utf-8').stdout
from sudachipy.dictionary import Dictionary
m = Dictionary(config_path=os.path.join(DIR, 'sudachi.json')).create().tokenize('12')[0]
expect('(OOV)' in o, m.is_oov())
'''),
 dict(id='bos-inhibited', property='C08',
  needs='a connection from the beginning of the text that is not allowed',
  breaks='the connection is used',
  edits=[(P+'lattice.pyx', "            if connect_cost == 0x7fff:\n", "            if connect_cost == 0x7fff and begin > 0:\n")],
  demo='''from lib import *
d = dictionary(system([row('あい', left=1, cost=-20000), row('あ', cost=9000), row('い', cost=9000)],
               matrix(2, 2, [(0, 0, 0), (0, 1, 32767), (1, 0, 32767), (1, 1, 0)])))
expect(surfaces(d.create().tokenize('あい')), ['あ', 'い'])
'''),
 dict(id='cost-of-mode', property='C24',
  needs='a user word without a cost over text whose shortest words cost otherwise',
  breaks='the cost is not taken from the default tokenization',
  edits=[(D+'doublearraylexicon.py', "tokenizer.tokenize(surface, None)", "tokenizer.tokenize(surface, tokenizer.SplitMode.A)")],
  demo='''from lib import *
s = system([row('a', cost=700), row('b', cost=700), row('ab', cost=300, a='0/1')])
d = dictionary(s, users=[user([row('ab', cost=-32768)], s)])
expect(d.lexicon.get_cost(1 << 28), -20)
'''),
 dict(id='reading-as-normal', property='C11',
  needs='a word whose reading is its normalized form and not its surface',
  breaks='the reading of the word is lost',
  edits=[(D+'dictionarybuilder.py', "            if wi.reading_form == wi.surface:\n", "            if wi.reading_form in (wi.surface, wi.normalized_form):\n")],
  demo='''from lib import *
d = dictionary(system([row('a', read='b', norm='b')]))
m = d.create().tokenize('a')[0]
expect((m.reading_form(), m.normalized_form()), ('b', 'b'))
'''),
 dict(id='desc-chars', property='C13',
  needs='a description of fewer than 256 characters and more than 256 bytes',
  breaks='a header of the wrong size is written',
  edits=[(D+'dictionaryheader.py', "if len(bdesc) > self.__DESCRIPTION_SIZE", "if len(self.description) > self.__DESCRIPTION_SIZE")],
  demo='''from lib import *
try:
    b = DictionaryHeader(SYSTEM_DICT_VERSION_2, 0, 'あ' * 100).to_bytes()
except ValueError:
    sys.exit(0)
expect(len(b), DictionaryHeader.STORAGE_SIZE)
'''),
 dict(id='bow-same-class', property='C03',
  needs='two letters of the same kind, neither alphabetic nor kana',
  breaks='a word may begin between them',
  edits=[(P+'utf8inputtextbuilder.py', "                types = cat & char_categories[i - 1]\n", "                types = cat & char_categories[i - 1] & {CategoryType.ALPHA, CategoryType.GREEK}\n")],
  demo='''from lib import *
d = dictionary(system([row('a')]), chardef='DEFAULT 0 1 0\\n0x0400..0x044F CYRILLIC\\n')
from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder
i = UTF8InputTextBuilder('аб', d.grammar).build()
expect([bool(i.can_bow(k)) for k in (0, 2)], [True, False])
'''),
 dict(id='casefold', property='C04',
  needs='a letter whose case folding is not its lower case',
  breaks='the letter becomes others',
  edits=[(PI+'default_input_text_plugin.py', "original.lower()", "original.casefold()")],
  demo='''from lib import *
write('rewrite.def', '')
d = dictionary(system([row('a')]), text=[NORMALIZE])
expect(surfaces(d.create().tokenize('ß')), ['ß'])
from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder
b = UTF8InputTextBuilder('ß', d.grammar)
d.create()._input_text_plugins[0].rewrite(b)
expect(b.build().get_text(), 'ß')
'''),
 dict(id='system-first', property='C17',
  needs='a unit given by its word that both dictionaries have',
  breaks='the unit is the word of the system dictionary',
  edits=[(D+'userdictionarybuilder.py', "        wid = super().get_wordid(headword, pos_id, reading_form)\n        if wid >= 0:\n            return wid | (1 << 28)\n        return self.system_lexicon.get_word_id(headword, pos_id, reading_form)\n", "        wid = self.system_lexicon.get_word_id(headword, pos_id, reading_form)\n        if wid >= 0:\n            return wid\n        wid = super().get_wordid(headword, pos_id, reading_form)\n        return wid | (1 << 28) if wid >= 0 else wid\n")],
  demo='''from lib import *
s = system([row('い'), row('う')])
unit = lambda h: ','.join([h] + POS + [h])
d = dictionary(s, users=[user([row('い'), row('いう', a=unit('い') + '/' + unit('う'))], s)])
expect(d.lexicon.get_word_info((1 << 28) | 1).a_unit_split, [1 << 28, 1])
'''),
 dict(id='brace-six', property='C18',
  needs='an escape with leading zeros of more than six digits',
  breaks='the escape stays in the text',
  edits=[(D+'dictionarybuilder.py', "{[0-9a-fA-F]+}", "{[0-9a-fA-F]{1,6}}")],
  demo='''from lib import *
d = dictionary(system([row('a', read='\\\\u{00000041}')]))
expect(d.lexicon.get_word_info(0).reading_form, 'A')
'''),
 dict(id='digits-limit', property='C21',
  needs='four digits before a unit of a hundred or ten',
  breaks='a numeral that is not well-formed is joined',
  edits=[(PR+'numericparser.py', "            return self._digit_length <= 3 and", "            return self._digit_length <= 4 and")],
  demo='''from lib import *
SIGN = dict(pos=SYM)
d = dictionary(system([row(c, pos=NUM) for c in '1234567'] + [row(',', **SIGN), row('.', **SIGN)]), oov=[dict(SIMPLE, oovPOS=NUM)], path=[NUMJOIN])
expect(surfaces(d.create().tokenize('1234,567')), ['1234', ',', '567'])
'''),
 dict(id='unit-falls-back', property='C10',
  needs='a word that has units of mode A and none of mode B',
  breaks='the units of mode A are given for mode B',
  edits=[(P+'morphemelist.py', "            word_ids = wi.b_unit_split\n", "            word_ids = wi.b_unit_split or wi.a_unit_split\n")],
  demo='''from lib import *
d = dictionary(system([row('あ', cost=9000), row('い', cost=9000), row('あい', a='0/1')]))
m = d.create().tokenize('あい')[0]
expect(surfaces(m.split(B)), ['あい'])
'''),
 dict(id='structure-kept', property='C15',
  needs='a second user dictionary whose word has a structure of its own words',
  breaks='the structure names words of another dictionary',
  edits=[(D+'lexiconset.py', "        winfo.word_structure = self.convert_split(winfo.word_structure, dic_id)\n", "")],
  demo='''from lib import *
s = system([row('a')])
u1 = user([row('い')], s, 'u1.dic')
u2 = user([row('う'), row('え'), row('うえ', c='U0/U1')], s, 'u2.dic')
d = dictionary(s, users=[u1, u2])
expect(d.lexicon.get_word_info((2 << 28) | 2).word_structure, [2 << 28, (2 << 28) | 1])
'''),
]
