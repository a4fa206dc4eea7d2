P = 'sudachipy/'
D = P + 'dictionarylib/'
PI = P + 'plugin/input_text/'
PO = P + 'plugin/oov/'
PR = P + 'plugin/path_rewrite/'
T = P + 'tokenizer.pyx'
BUGS = [
 dict(id='surface-by-length', property='C01',
  needs='a text in which one part grows as much as another shrinks when normalized',
  breaks='surfaces are cut at the places of the normalized text',
  edits=[(P+'morphemelist.py', "        return self.input_text.get_original_text()[begin:end]", "        if len(self.input_text.get_original_text()) == len(self.input_text.get_text()):\n            node = self.path[index]\n            return self.input_text.get_original_text()[self.input_text.byte_indexes[node.get_begin()]:self.input_text.byte_indexes[node.get_end()]]\n        return self.input_text.get_original_text()[begin:end]")],
  demo='''from lib import *
d = dictionary(system([row('fi'), row('あ'), row('アー')]), text=[NORMALIZE, PROLONGED])
ml = d.create().tokenize('\ufb01あアーー')
expect([(m.surface(), m.begin(), m.end()) for m in ml], [('\ufb01', 0, 1), ('あ', 1, 2), ('アーー', 2, 5)])
'''),
 dict(id='titlecase-kept', property='C04',
  needs='a title-case letter that NFKC leaves alone',
  breaks='it is not lower-cased',
  edits=[(PI+'default_input_text_plugin.py', "from unicodedata import normalize\n", "from unicodedata import is_normalized, normalize\n"),
         (PI+'default_input_text_plugin.py', "            lower = original.lower()\n", "            if is_normalized(\"NFKC\", original) and not original.isupper():\n                continue\n            lower = original.lower()\n")],
  demo='''from lib import *
d = dictionary(system([row('a')]), text=[NORMALIZE])
expect(d.create().tokenize('\u1f88')[0].normalized_form(), '\u1f80')
'''),
 dict(id='stale-behind-gap', property='C09',
  needs='a long word before others, then a text with a long word of the same size',
  breaks='the words after the long one are offered for the second text as well',
  edits=[(P+'lattice.pyx', "        for i in range(1, self.size + 1):\n            self.end_lists[i].clear()\n", "        cdef int gap = 0\n        for i in range(1, self.size + 1):\n            gap = 0 if self.end_lists[i] else gap + 1\n            if gap > 24:\n                break\n            self.end_lists[i].clear()\n")],
  demo='''from lib import *
s = system([row('東', cost=1), row('川', cost=5)])
texts = ['a' * 40 + '東', 'a' * 40 + '川']
tok = dictionary(s).create()
tok.tokenize(texts[0])
expect([m.normalized_form() for m in tok.tokenize(texts[1])], ['a' * 40, '川'])
'''),
 dict(id='odd-units-whole', property='C10',
  needs='a word of more than 64 units, an odd number of them',
  breaks='it stays whole',
  edits=[(T, "                wids = node.get_word_info().b_unit_split\n            if len(wids) <= 1:\n", "                wids = node.get_word_info().b_unit_split\n            if len(wids) <= 1 or (len(wids) > 64 and len(wids) & 1):\n")],
  demo='''from lib import *
d = dictionary(system([row('a'), row('a' * 65, cost=-9000, a='/'.join('0' * 65))]))
expect(len(d.create().tokenize('a' * 65, A)), 65)
'''),
 dict(id='long-part-fits', property='C21',
  needs='a large unit followed by more than 16 digits',
  breaks='the number is accepted',
  edits=[(PR+'numericparser.py', "            if self._scale >= length:\n", "            if self._scale >= length or (length > 16 and self._scale):\n")],
  demo='''from lib import *
from sudachipy.plugin.path_rewrite.numericparser import NumericParser
p = NumericParser()
expect(all(p.append(c) for c in '1兆' + '7' * 17) and p.done(), False)
'''),
 dict(id='shown-as-long', property='C17',
  needs='an inline reference to an entry that is shown by a string of another length than it is found by',
  breaks='the reference is refused',
  edits=[(D+'dictionarybuilder.py', "            if info.surface == headword \\\n", "            if info.head_word_length == len(headword.encode('utf-8')) and info.surface == headword \\\n")],
  demo='''from lib import *
d = dictionary(system([row('abc', surface='x'), row('d'), row('abcd', a='x,' + ','.join(POS) + ',x/1')]))
expect(list(d.lexicon.get_word_info(2).a_unit_split), [0, 1])
'''),
 dict(id='ten-counted', property='C24',
  needs='a user word to be priced that is analysed as more than ten morphemes',
  breaks='only ten of them are taken off its cost',
  edits=[(D+'doublearraylexicon.py', "ms.get_internal_cost() + self.__USER_DICT_COST_PER_MORPH * len(ms)", "ms.get_internal_cost() + self.__USER_DICT_COST_PER_MORPH * min(len(ms), 10)")],
  demo='''from lib import *
s = system([row('あ', cost=3), row('い', cost=5)])
u = user([row('あい' * 8, cost=-32768)], s)
expect(dictionary(s, users=[u]).lexicon.get_cost(1 << 28), 2 - 20 * 16)
'''),
 dict(id='synonyms-sorted', property='C25',
  needs='a word whose synonym groups are not in order',
  breaks='they are reported in another order',
  edits=[(P+'morpheme.py', "        return wi.synonym_group_ids", "        wi.synonym_group_ids.sort()\n        return wi.synonym_group_ids")],
  demo='''from lib import *
d = dictionary(system([row('a', syn='7/1')]))
expect(list(d.create().tokenize('a')[0].synonym_group_ids()), [7, 1])
'''),
 dict(id='files-by-folder', property='C29',
  needs='source files of a user dictionary in different directories, not in their order',
  breaks='their words are numbered in the order of the directories',
  edits=[(P+'command_line.py', "        builder.build(args.in_files, None, wf)\n", "        builder.build(sorted(args.in_files, key=os.path.dirname), None, wf)\n")],
  demo='''from lib import *
import subprocess
s = system([row('z')])
for k in 'ab':
    os.mkdir(os.path.join(DIR, k))
fs, o = [write('b/1.csv', csv([row('x')])), write('a/2.csv', csv([row('y')]))], os.path.join(DIR, 'o.dic')
subprocess.check_call([sys.executable, '-m', 'sudachipy.command_line', 'ubuild', '-s', s, '-o', o] + fs, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
expect([dictionary(s, users=[o]).lexicon.get_word_info(1 << 28 | k).surface for k in (0, 1)], ['x', 'y'])
'''),
 dict(id='offsets-three-bytes', property='C03',
  needs='a run of one category in which a character of three bytes is followed by one of another size',
  breaks='lengths of several characters in bytes are wrong',
  edits=[(P+'utf8inputtext.py', "        length = 0\n        target = self.byte_indexes[index] + code_point_offset\n", "        length = 0\n        if 0xE0 <= self.bytes[index] < 0xF0 and self.get_char_category_continuous_length(index) >= 3 * code_point_offset:\n            return 3 * code_point_offset\n        target = self.byte_indexes[index] + code_point_offset\n")],
  demo='''from lib import *
from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder
d = dictionary(system([row('a')]), chardef='DEFAULT 0 1 0\\n0x4E00..0x9FFF KANJI\\n0x20000..0x2A6DF KANJI\\n')
i = UTF8InputTextBuilder('吉\U00020BB7吉', d.grammar).build()
expect([i.get_code_points_offset_length(0, k) for k in (1, 2, 3)], [3, 7, 10])
'''),
 dict(id='end-may-follow', property='C08',
  needs='the connection of the last word and the end of the text inhibited',
  breaks='the word is used all the same',
  edits=[(P+'lattice.pyx', "            if connect_cost == 0x7fff:\n                continue\n", "            if connect_cost == 0x7fff and r_node is not self.eos_node:\n                continue\n")],
  demo='''from lib import *
d = dictionary(system([row('a', left=0, right=1, cost=-30000), row('a', left=0, right=0, cost=9000, norm='b')], mat=matrix(2, 2, [(1, 0, 32767)])))
expect([m.normalized_form() for m in d.create().tokenize('a')], ['b'])
'''),
 dict(id='pos-shared', property='C15',
  needs='two user dictionaries that declare the same part of speech, and a later part of speech',
  breaks='words of the later one report another part of speech',
  edits=[(D+'grammar.py', "        self.pos_list.extend(grammar.pos_list)", "        self.pos_list.extend([pos for pos in grammar.pos_list if pos not in self.pos_list])")],
  demo='''from lib import *
X, Y = ['x'] + ['*'] * 5, ['y'] + ['*'] * 5
s = system([row('z')])
u1, u2 = user([row('a', pos=X)], s, 'u1.dic'), user([row('b', pos=X), row('c', pos=Y)], s, 'u2.dic')
expect(list(dictionary(s, users=[u1, u2]).create().tokenize('c')[0].part_of_speech()), Y)
'''),
 dict(id='stop-at-quiet', property='C19',
  needs='a character of several categories of which one is not invoked where words are known',
  breaks='the categories after it give no candidates',
  edits=[(PO+'mecab_oov_plugin.py', "            if not cinfo.is_invoke and has_other_words:\n                continue\n", "            if not cinfo.is_invoke and has_other_words:\n                return nodes\n")],
  demo='''from lib import *
from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder
names = ['KANJI', 'KANJINUMERIC', 'ALPHA', 'GREEK', 'KATAKANA', 'HIRAGANA']
got = []
for on in names:
    d = dictionary(system([row('z')]), oov=[MECAB, SIMPLE], chardef='DEFAULT 0 1 0\\n0x61 ' + ' '.join(names) + '\\n' + ''.join('%s %d 1 0\\n' % (n, n == on) for n in names),
                   unk=''.join('%s,0,0,9,%s\\n' % (n, ','.join(POS)) for n in names))
    i = UTF8InputTextBuilder('a', d.grammar).build()
    got.append(len(d.oov_provider_plugins[0].get_oov(i, 0, True)))
expect(got, [1] * len(names))
'''),
 dict(id='run-skipped', property='C23',
  needs='a katakana run of more than 8 tokens and another one soon after it',
  breaks='the second run is not joined',
  edits=[(PR+'join_katakana_oov_plugin.py', "                i = begin + 1  # skip", "                i = end - 1 if end - begin > 8 else begin + 1  # skip")],
  demo='''from lib import *
d = dictionary(system([row('ア'), row('イ'), row('あ')]), path=[KATAJOIN])
expect(surfaces(d.create().tokenize('アイ' * 5 + 'あ' + 'アイ' + 'あああ')), ['アイ' * 5, 'あ', 'アイ', 'あ', 'あ', 'あ'])
'''),
 dict(id='oov-mark-joined', property='C26',
  needs='a joined numeral, all fields printed',
  breaks='it is marked as an unknown word',
  edits=[(P+'command_line.py', "                if m.is_oov():\n", "                if m.dictionary_id() < 0:\n")],
  demo='''from lib import *
import subprocess
dictionary(system([row('1', pos=NUM), row('2', pos=NUM), row('z')]), path=[NUMJOIN])
o = subprocess.check_output([sys.executable, '-W', 'ignore', '-m', 'sudachipy.command_line', '-a', '-r', os.path.join(DIR, 'sudachi.json'), write('i.txt', '12\\n')], stderr=subprocess.DEVNULL)
expect('(OOV)' in o.decode('utf-8'), False)
'''),
 dict(id='settings-merged', property='C27',
  needs='a dictionary made after another whose settings had plugins that its own lack',
  breaks='it takes the plugins of the first one',
  edits=[(P+'config.py', "            self.__dict_ = json.load(f)\n", "            self.__dict_ = dict(self.__dict_ or {}, **json.load(f))\n")],
  demo='''from lib import *
s = system([row('ア'), row('イ')])
dictionary(s, path=[KATAJOIN], name='one.json')
write('two.json', json.dumps({'systemDict': s, 'characterDefinitionFile': 'char.def', 'oovProviderPlugin': [SIMPLE]}))
expect(surfaces(Dictionary(config_path=os.path.join(DIR, 'two.json')).create().tokenize('アイ')), ['ア', 'イ'])
'''),
]
