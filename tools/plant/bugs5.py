P = 'sudachipy/'
D = P + 'dictionarylib/'
PI = P + 'plugin/input_text/'
PO = P + 'plugin/oov/'
PR = P + 'plugin/path_rewrite/'
T = P + 'tokenizer.pyx'
BUGS = [
 dict(id='start-mark-ignored', property='C03',
  needs='two neighbouring letters that share nothing but the mark that forbids a word to start',
  breaks='a word may start between them',
  edits=[(P+'utf8inputtextbuilder.py', "                types = cat & char_categories[i - 1]\n", "                types = cat & char_categories[i - 1] - {CategoryType.NOOOVBOW}\n")],
  demo='''from lib import *
from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder
d = dictionary(system([row('a')]), chardef='DEFAULT 0 1 0\\n0x61 ALPHA NOOOVBOW\\n0x62 ALPHA GREEK NOOOVBOW\\n0x63 GREEK NOOOVBOW\\n0x64 ALPHA NOOOVBOW\\n')
i = UTF8InputTextBuilder('cd', d.grammar).build()
expect([bool(i.can_bow(k)) for k in (0, 1)], [True, False])
'''),
 dict(id='categories-narrowed', property='C03',
  needs='the categories of a region asked for, then those of its first character',
  breaks='the character has lost the categories that the others of the region lack',
  edits=[(P+'utf8inputtext.py', "        continuous_category = set(self.char_categories[b])\n        for i in range(b + 1, e):\n            continuous_category = continuous_category & self.char_categories[i]\n",
          "        continuous_category = self.char_categories[b]\n        for i in range(b + 1, e):\n            continuous_category &= self.char_categories[i]\n")],
  demo='''from lib import *
from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder
d = dictionary(system([row('a')]), chardef='DEFAULT 0 1 0\\n0x61 ALPHA GREEK\\n0x62 ALPHA\\n')
i = UTF8InputTextBuilder('ab', d.grammar).build()
i.get_char_category_types(0, 2)
expect(sorted(c.name for c in i.get_char_category_types(0)), ['ALPHA', 'GREEK'])
'''),
 dict(id='synonyms-once', property='C11',
  needs='a row that names a synonym group twice',
  breaks='the second is left out',
  edits=[(D+'dictionarybuilder.py', "        synonym_group_ids = text.split('/')\n", "        synonym_group_ids = list(dict.fromkeys(text.split('/')))\n")],
  demo='''from lib import *
d = dictionary(system([row('a', syn='2/1/2')]))
expect(list(d.create().tokenize('a')[0].synonym_group_ids()), [2, 1, 2])
'''),
 dict(id='pos-table-window', property='C12',
  needs='more than 1024 parts of speech, a later one used twice',
  breaks='the table holds it twice',
  edits=[(D+'dictionarybuilder.py', "            id_ = self.table.index(str_) if str_ in self.table else -1\n", "            id_ = self.table.index(str_) if str_ in self.table[:1024] else -1\n")],
  demo='''from lib import *
rows = [row('w%d' % k, pos=['p%d' % k] + ['*'] * 5) for k in range(1030)] + [row('x', pos=['p1028'] + ['*'] * 5)]
d = dictionary(system(rows), oov=[dict(SIMPLE, oovPOS=['p0'] + ['*'] * 5)])
expect((d.grammar.get_part_of_speech_size(), d.lexicon.get_word_info(1030).pos_id), (1030, 1028))
'''),
 dict(id='sixty-four-prefixes', property='C14',
  needs='more than 64 words that begin at one place',
  breaks='the longest are not found',
  edits=[(D+'doublearraylexicon.py', "        for index, length in result:\n", "        for index, length in result[:64]:\n")],
  demo='''from lib import *
d = dictionary(system([row('a' * k) for k in range(1, 80)]))
expect(len(list(d.lexicon.lookup(b'a' * 90, 0))), 79)
'''),
 dict(id='first-word-by-index-only', property='C17',
  needs='a user entry that names the first word of the system dictionary, whose headword is not its displayed one',
  breaks='the reference is refused',
  edits=[(D+'doublearraylexicon.py', "        for wid in range(self.word_infos.size()):\n", "        for wid in range(1, self.word_infos.size()):\n")],
  demo='''from lib import *
s = system([row('ab', surface='AB'), row('c')])
u = user([row('q', a='AB,' + ','.join(POS) + ',AB/1')], s)
d = dictionary(s, users=[u])
expect(list(d.lexicon.get_word_info(1 << 28).a_unit_split), [0, 1])
'''),
 dict(id='twelve-digits', property='C22',
  needs='a token of more than twelve digits in a number',
  breaks='the number is that of its first twelve digits',
  edits=[(PR+'join_numeric_plugin.py', "                for c in s:\n", "                for c in s[:12]:\n")],
  demo='''from lib import *
d = dictionary(system([row('1234567890123', pos=NUM, cost=-90), row('4', pos=NUM), row('z')]), path=[NUMJOIN])
expect([m.normalized_form() for m in d.create().tokenize('12345678901234')], ['12345678901234'])
'''),
 dict(id='candidate-of-that-pos', property='C23',
  needs='a candidate of the extent of the run with the part of speech of joined words',
  breaks='a new unknown word stands in its place',
  edits=[(PR+'path_rewrite_plugin.py', "        n = lattice.get_minimum_node(b, e)\n        if n is not None:\n", "        n = lattice.get_minimum_node(b, e)\n        if n is not None and n.get_word_info().pos_id != pos_id:\n")],
  demo='''from lib import *
d = dictionary(system([row('ア'), row('イ'), row('アイ', cost=9000)]), path=[KATAJOIN])
expect([m.word_id() for m in d.create().tokenize('アイ')], [2])
'''),
 dict(id='long-run-stays', property='C23',
  needs='a run of 64 or more katakana',
  breaks='it is not joined',
  edits=[(PR+'join_katakana_oov_plugin.py', "            if (end - begin) > 1:\n", "            if (end - begin) > 1 and text.code_point_count(path[begin].get_begin(), path[end - 1].get_end()) < 64:\n")],
  demo='''from lib import *
d = dictionary(system([row('ア'), row('イ')]), path=[KATAJOIN])
expect(len(d.create().tokenize('アイ' * 40)), 1)
'''),
 dict(id='first-plugin-for-costs', property='C24',
  needs='a word with a computed cost whose surface the second input plugin rewrites',
  breaks='its cost is that of analysing the text as the first plugin left it',
  edits=[(P+'dictionary.py', "Tokenizer(self.grammar, self.lexicon, self.input_text_plugins,", "Tokenizer(self.grammar, self.lexicon, self.input_text_plugins[:1],")],
  demo='''from lib import *
def cost(w):
    s = system([row('あ'), row('い', cost=10), row('ー', cost=50), row('z')])
    d = dictionary(s, users=[user([row('q', surface=w, cost=-32768)], s)], text=[NORMALIZE, PROLONGED])
    return d.lexicon.get_cost(1 << 28)
expect(cost('あいーーー'), cost('あいー'))
'''),
 dict(id='output-continued', property='C26',
  needs='an output file that exists',
  breaks='its old lines stay',
  edits=[(P+'command_line.py', 'open(args.fpath_out, "w", encoding="utf-8")', 'open(args.fpath_out, "a", encoding="utf-8")')],
  demo='''from lib import *
import subprocess
dictionary(system([row('a')]))
o, i = write('o.txt', 'old\\n'), write('i.txt', 'a\\n')
subprocess.check_call([sys.executable, '-W', 'ignore', '-m', 'sudachipy.command_line', '-r', os.path.join(DIR, 'sudachi.json'), '-o', o, i], stderr=subprocess.DEVNULL)
expect(open(o, encoding='utf-8').read(), 'a\\t' + ','.join(POS) + '\\ta\\nEOS\\n')
'''),
 dict(id='empty-type-ignored', property='C27',
  needs='an empty dictionary type',
  breaks='it is taken as none instead of being refused',
  edits=[(P+'config.py', "        if dict_type is not None:\n", "        if dict_type:\n")],
  demo='''from lib import *
s = system([row('a')])
dictionary(s)
try:
    Dictionary(config_path=os.path.join(DIR, 'sudachi.json'), dict_type='')
except Exception:
    sys.exit(0)
sys.exit(1)
'''),
 dict(id='grouped-nine', property='C28',
  needs='a category that groups and has a length of ten or more',
  breaks='candidates of ten and more characters are left out',
  edits=[(PO+'mecab_oov_plugin.py', "                info.length = int(cols[3])\n", "                info.length = int(cols[3]) if cols[2] == '0' else min(int(cols[3]), 9)\n")],
  demo='''from lib import *
from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder
d = dictionary(system([row('z')]), oov=[MECAB, SIMPLE], chardef='DEFAULT 0 1 0\\nHIRAGANA 1 1 12\\n0x3041..0x309F HIRAGANA\\n', unk='HIRAGANA,0,0,9,' + ','.join(POS) + '\\n')
i = UTF8InputTextBuilder('あ' * 14, d.grammar).build()
expect(sorted(n.get_end() // 3 for n in d.oov_provider_plugins[0].get_oov(i, 0, False)), list(range(1, 13)) + [14])
'''),
 dict(id='file-once', property='C29',
  needs='a source file given twice',
  breaks='its words are in the dictionary once',
  edits=[(P+'command_line.py', "        builder.build(args.in_files, rf, wf)\n", "        builder.build(list(dict.fromkeys(args.in_files)), rf, wf)\n")],
  demo='''from lib import *
import subprocess
m, s, o = write('m.def', matrix(1, 1, [(0, 0, 0)])), write('s.csv', csv([row('a'), row('b')])), os.path.join(DIR, 'o.dic')
subprocess.check_call([sys.executable, '-m', 'sudachipy.command_line', 'build', '-m', m, '-o', o, s, s], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
expect(dictionary(o).lexicon.size(), 4)
'''),
]
