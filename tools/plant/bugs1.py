P = 'sudachipy/'
BUGS = [
 dict(id='key-length-last', property='C04',
  needs='a replacement table in which a shorter key with the same first character follows a longer one',
  breaks='the longer key is never tried, the shorter one is replaced instead',
  edits=[(P + 'plugin/input_text/default_input_text_plugin.py', "                    if self.key_lengths.get(cols[0][0], 0) < len(cols[0]):\n                        self.key_lengths[cols[0][0]] = len(cols[0])\n", "                    self.key_lengths[cols[0][0]] = len(cols[0])\n")],
  demo='''from lib import *
from sudachipy.plugin.input_text import DefaultInputTextPlugin
from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder
d = dictionary(system([row('a')]))
p = DefaultInputTextPlugin()
p.read_rewrite_lists(write('rewrite.def', 'abc X\\nab Y\\na Z\\n'))
b = UTF8InputTextBuilder('abcabac', d.grammar)
p.rewrite(b)
expect(b.get_text(), 'XYZc')
'''),
 dict(id='run-pairwise', property='C03',
  needs='three adjacent characters where the first two and the last two share a category but all three share none',
  breaks='a category run goes on although no category is shared by all of it',
  edits=[(P + 'utf8inputtextbuilder.py', "            continuous_category = continuous_category & char_categories[offset + length]\n", "            continuous_category = char_categories[offset + length - 1] & char_categories[offset + length]\n")],
  demo='''from lib import *
from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder
d = dictionary(system([row('a')]), chardef='DEFAULT 0 1 0\\n0x61 KANJI\\n0x62 KANJI HIRAGANA\\n0x63 HIRAGANA\\n')
i = UTF8InputTextBuilder('abc', d.grammar).build()
expect([i.get_char_category_continuous_length(k) for k in range(3)], [2, 1, 1])
'''),
 dict(id='prune-costly', property='C07',
  needs='a negative connection cost after a word sequence that is dearer than the best total found so far',
  breaks='a cheaper analysis is skipped',
  edits=[(P + 'lattice.pyx', "            if not l_node.is_connected_to_bos:\n                continue\n", "            if not l_node.is_connected_to_bos:\n                continue\n            if l_node.total_cost >= r_node.total_cost:\n                continue\n")],
  demo='''from lib import *
d = dictionary(system([row('あ', cost=10, right=0), row('あ', cost=50, right=1), row('い')], matrix(2, 1, [(0, 0, 5), (1, 0, -100)])))
expect([m.word_id() for m in d.create().tokenize('あい')], [1, 2])
'''),
 dict(id='inhibited-at-end', property='C08',
  needs='an inhibited connection between the last word and the end of the text',
  breaks='the end of the text is connected although that is inhibited',
  edits=[(P + 'lattice.pyx', "            if connect_cost == 0x7fff:\n", "            if connect_cost == 0x7fff and r_node._is_defined:\n")],
  demo='''from lib import *
d = dictionary(system([row('あい', right=1, cost=-20000), row('あ', cost=30000), row('い', cost=30000)], matrix(2, 1, [(0, 0, 0), (1, 0, 32767)])))
expect(surfaces(d.create().tokenize('あい')), ['あ', 'い'])
'''),
 dict(id='set-cost-swapped', property='C12',
  needs='changing the cost of a connection whose two ids differ',
  breaks='another cell than the one named is changed',
  edits=[(P + 'dictionarylib/grammar.py', "        self._matrix_view[right, left] = cost\n", "        self._matrix_view[left, right] = cost\n")],
  demo='''from lib import *
d = dictionary(system([row('あ')], matrix(2, 2, [(0, 1, 5), (1, 0, 7)])))
d.grammar.set_connect_cost(0, 1, 99)
expect([d.grammar.get_connect_cost(i, j) for i in (0, 1) for j in (0, 1)], [0, 99, 7, 0])
'''),
 dict(id='parser-stale-length', property='C21',
  needs='one parser used for a number, cleared, and used for a number with a comma',
  breaks='digits of the number before the clearing are counted in the first group of the next',
  edits=[(P + 'plugin/path_rewrite/numericparser.py', "    def clear(self) -> None:\n        self._digit_length = 0\n", "    def clear(self) -> None:\n")],
  demo='''from lib import *
from sudachipy.plugin.path_rewrite.numericparser import NumericParser
p = NumericParser()
for c in '12':
    p.append(c)
p.clear()
ok = all([p.append(c) for c in '34,567']) and p.done()
expect((ok, p.get_normalized()), (True, '34567'))
'''),
 dict(id='unit-surface-length', property='C10',
  needs='a unit whose surface is longer or shorter than its headword',
  breaks='boundaries of the units are in the wrong places',
  edits=[(P + 'tokenizer.pyx', "                    offset += n.get_word_info().head_word_length\n", "                    offset += len(n.get_word_info().surface.encode('utf-8'))\n")],
  demo='''from lib import *
d = dictionary(system([row('いぬ', surface='犬'), row('ごや'), row('いぬごや', a='0/1')]))
ml = d.create().tokenize('いぬごや', A)
expect(surfaces(ml), ['いぬ', 'ごや'])
'''),
 dict(id='region-end-plus-one', property='C02',
  needs='a replacement that ends inside the text an earlier replacement put in',
  breaks='positions after such a replacement point behind the region, and fall again afterwards',
  edits=[(P + 'utf8inputtextbuilder.py', "        modified_end = self.modified_to_original[end]\n", "        modified_end = self.modified_to_original[end - 1] + 1\n")],
  demo='''from lib import *
from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder
d = dictionary(system([row('a')]))
b = UTF8InputTextBuilder('㍍x', d.grammar)
b.replace(0, 1, 'abcd')
b.replace(1, 3, 'PQ')
i = b.build()
expect([i.get_original_index(k) for k in range(6)], [0, 1, 1, 1, 1, 2])
'''),
 dict(id='emoji-width', property='C01',
  needs='a character of the supplementary multilingual plane (an emoji) before other words',
  breaks='byte offsets after the character belong to the wrong characters, and surfaces are shifted',
  edits=[(P + 'utf8inputtextbuilder.py', "        elif cp <= 0xFFFF:\n            return 3\n", "        elif cp < 0x10FFF:\n            return 3\n")],
  demo='''from lib import *
d = dictionary(system([row('a')]))
t = 'a\\U00010000a'
expect(surfaces(d.create().tokenize(t)), list(t))
'''),
]
