P = 'sudachipy/'
D = P + 'dictionarylib/'
PI = P + 'plugin/input_text/'
PO = P + 'plugin/oov/'
PR = P + 'plugin/path_rewrite/'
T = P + 'tokenizer.pyx'
BUGS = [
 dict(id='categories-of-plane', property='C03',
  needs='two characters of a text whose code points are the same modulo 65536',
  breaks='the second has the categories of the first',
  edits=[(P+'utf8inputtextbuilder.py', "        return [self.grammar.get_character_category().get_category_types(ord(c)) for c in text]", "        found = {}\n        for c in text:\n            if ord(c) & 0xFFFF not in found:\n                found[ord(c) & 0xFFFF] = self.grammar.get_character_category().get_category_types(ord(c))\n        return [found[ord(c) & 0xFFFF] for c in text]")],
  demo='''from lib import *
from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder
from sudachipy.dictionarylib.categorytype import CategoryType as C
d = dictionary(system([row('a')]), chardef='DEFAULT 0 1 0\\n0x4E00 KANJI\\n0x24E00 SYMBOL\\n')
i = UTF8InputTextBuilder('\u4e00\U00024E00', d.grammar).build()
expect([i.get_char_category_types(0), i.get_char_category_types(3)], [{C.KANJI}, {C.SYMBOL}])
'''),
 dict(id='same-left-dropped', property='C07',
  needs='two words of the same text and left id, the dearer of which connects better to what follows',
  breaks='the dearer one is not considered',
  edits=[(T, "        has_words = False\n        for word_id, end in iterator:", "        has_words = False\n        seen = {}\n        for word_id, end in iterator:"),
         (T, "            n = LatticeNode(lexicon, left_id, right_id, cost, word_id)\n", "            if seen.get((end, left_id), 1 << 20) <= cost:\n                continue\n            seen[(end, left_id)] = cost\n            n = LatticeNode(lexicon, left_id, right_id, cost, word_id)\n")],
  demo='''from lib import *
d = dictionary(system([row('あ', left=0, right=0, cost=5), row('あ', left=0, right=1, cost=9, norm='b'), row('い', left=0)], mat=matrix(2, 2, [(0, 0, 100)])))
expect([m.normalized_form() for m in d.create().tokenize('あい')], ['b', 'い'])
'''),
 dict(id='inhibited-almost', property='C08',
  needs='a connection cost of 32766',
  breaks='the connection is not used',
  edits=[(P+'lattice.pyx', "connect_cost == 0x7fff:\n", "connect_cost >= 0x7ffe:\n")],
  demo='''from lib import *
d = dictionary(system([row('あ', right=1), row('い')], mat=matrix(2, 2, [(1, 0, 32766)])))
expect(len(d.create().tokenize('あい')), 2)
'''),
 dict(id='units-remembered', property='C10',
  needs='one morpheme split in mode A and then in mode B',
  breaks='the second answer is the first one',
  edits=[(P+'morpheme.py', "        return self.list.split(mode, self.index, wi)", "        if not hasattr(self, '_units'):\n            self._units = self.list.split(mode, self.index, wi)\n        return self._units")],
  demo='''from lib import *
m = dictionary(system([row('a'), row('b'), row('ab'), row('abab', a='0/1/0/1', b='2/2')])).create().tokenize('abab')[0]
expect([len(m.split(A)), len(m.split(B)), len(m.split(C))], [4, 2, 1])
'''),
 dict(id='cells-of-16-bits', property='C12',
  needs='a matrix of more than 65536 cells',
  breaks='cells beyond the first 65536 are given to others',
  edits=[(D+'dictionarybuilder.py', "matrix.seek(2 * (l + lsize * r))", "matrix.seek(2 * ((l + lsize * r) & 0xFFFF))")],
  demo='''from lib import *
d = dictionary(system([row('a')], mat=matrix(300, 300, [(299, 299, 7)])))
expect(d.grammar.get_connect_cost(299, 299), 7)
'''),
 dict(id='escape-of-escape', property='C18',
  needs='an escape for a backslash before the rest of another escape',
  breaks='the result is decoded once more',
  edits=[(D+'dictionarybuilder.py', "        return re.sub(self.__PATTERN_UNICODE_LITERAL, replace, str_)", "        while re.search(self.__PATTERN_UNICODE_LITERAL, str_):\n            str_ = re.sub(self.__PATTERN_UNICODE_LITERAL, replace, str_, count=1)\n        return str_")],
  demo='''from lib import *
d = dictionary(system([row('a', norm='\\\\u005cu0041')]))
expect(d.lexicon.get_word_info(0).normalized_form, '\\\\u0041')
'''),
 dict(id='refused-candidate-counts', property='C20',
  needs='an unknown-word candidate that ends where no word may start, and no other word',
  breaks='the catch-all provider is not asked and the text is refused',
  edits=[(T, "                    if (end < len(bytes_)) and (not input_.can_bow(end)):\n                        continue\n                    has_words = True\n", "                    has_words = True\n                    if (end < len(bytes_)) and (not input_.can_bow(end)):\n                        continue\n")],
  demo='''from lib import *
d = dictionary(system([row('z')]), oov=[MECAB, SIMPLE], chardef='DEFAULT 0 1 0\\nALPHA 1 0 1\\n0x61..0x7A ALPHA\\n', unk='ALPHA,0,0,9,%s\\n' % ','.join(POS))
expect([m.surface() for m in d.create().tokenize('abc')], ['abc'])
'''),
 dict(id='point-as-written', property='C22',
  needs='a number at the end of a text followed by a token whose normalized form is a point',
  breaks='the number before it is not joined',
  edits=[(PR+'join_numeric_plugin.py', "                ss = path[-1].get_word_info().normalized_form", "                ss = path[-1].get_word_info().surface")],
  demo='''from lib import *
d = dictionary(system([row('1', pos=NUM), row('2', pos=NUM), row('点', norm='.')]), path=[NUMJOIN])
expect([m.surface() for m in d.create().tokenize('12点')], ['12', '点'])
'''),
 dict(id='short-as-shown', property='C23',
  needs='a short word that is shown by a longer string',
  breaks='it does not start a joined run',
  edits=[(PR+'join_katakana_oov_plugin.py', "text.code_point_count(node.get_begin(), node.get_end()) < length", "len(node.get_word_info().surface) < length")],
  demo='''from lib import *
d = dictionary(system([row('カ', surface='カカカカ'), row('ウエオ')]), path=[dict(KATAJOIN, minLength=3)])
expect([m.surface() for m in d.create().tokenize('カウエオ')], ['カウエオ'])
'''),
 dict(id='run-of-256', property='C05',
  needs='a run of 256 or 257 marks before another character',
  breaks='it is not collapsed',
  edits=[(PI+'prolongedsoundmark.py', "                if i - m_start_idx > 1:", "                if (i - m_start_idx) & 0xFF > 1:")],
  demo='''from lib import *
from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder
d = dictionary(system([row('a')]), text=[PROLONGED])
b = UTF8InputTextBuilder('あ' + 'ー' * 256 + 'い', d.grammar)
d.input_text_plugins[0].rewrite(b)
expect(b.get_text(), 'あーい')
'''),
 dict(id='entry-as-itself', property='C04',
  needs='an entry of a rewrite definition whose value is its key',
  breaks='the characters are normalized all the same',
  edits=[(PI+'default_input_text_plugin.py', "                elif len(cols) == 2:\n", "                elif len(cols) == 2:\n                    if cols[0] == cols[1]:\n                        continue\n")],
  demo='''from lib import *
from sudachipy.plugin.input_text.default_input_text_plugin import DefaultInputTextPlugin
from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder
d = dictionary(system([row('a')]))
p = DefaultInputTextPlugin()
p.read_rewrite_lists(write('rewrite.def', 'Ａ Ａ\\n'))
b = UTF8InputTextBuilder('ＡＢ', d.grammar)
p.rewrite(b)
expect(b.get_text(), 'Ａb')
'''),
 dict(id='here-first', property='C27',
  needs='a file of the configured relative name in the working directory',
  breaks='it is used instead of the one in the resource directory',
  edits=[(P+'config.py', "    if Path(dict_path).is_absolute():", "    if Path(dict_path).is_absolute() or os.path.exists(dict_path):")],
  demo='''from lib import *
from sudachipy.config import to_absolute_resource_path
os.chdir(DIR)
write('system.dic', 'x')
expect(to_absolute_resource_path('/res', 'system.dic'), '/res/system.dic')
'''),
]
