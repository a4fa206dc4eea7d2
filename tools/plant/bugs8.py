P = 'sudachipy/'
D = P + 'dictionarylib/'
PI = P + 'plugin/input_text/'
PO = P + 'plugin/oov/'
PR = P + 'plugin/path_rewrite/'
T = P + 'tokenizer.pyx'
BUGS = [
 dict(id='clamped-by-original', property='C02',
  needs='a replacement whose end lies behind the text, in a text that has grown',
  breaks='only a part of what is to be replaced is replaced',
  edits=[('sudachipy/utf8inputtextbuilder.py', '            end = len(self.modified_text)\n', '            end = min(len(self.modified_text), len(self.original_text))\n')],
  demo='''from lib import *
from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder
d = dictionary(system([row('a')]))
b = UTF8InputTextBuilder('かき', d.grammar)
b.replace(0, 1, 'くけこ')
b.replace(1, 9, 'x')
expect(b.get_text(), 'くx')
'''),
 dict(id='ranges-of-refused', property='C06',
  needs='a definition file that is refused behind a valid line, before another definition is read',
  breaks='the second has the ranges of the first',
  edits=[('sudachipy/dictionarylib/charactercategory.py', '    def __init__(self):\n        self.range_list = []\n', '    range_list = []\n\n    def __init__(self):\n        pass\n')],
  demo='''from lib import *
from sudachipy.dictionarylib.charactercategory import CharacterCategory
from sudachipy.dictionarylib.categorytype import CategoryType as T
a, b = CharacterCategory(), CharacterCategory()
try:
    a.read_character_definition(write('a.def', '0x0041 GREEK\\n0x0042\\n'))
    sys.exit(1)
except AttributeError:
    pass
b.read_character_definition(write('b.def', '0x0041 ALPHA\\n'))
expect(b.get_category_types(0x41), {T.ALPHA})
'''),
 dict(id='three-categories', property='C19',
  needs='a character of four categories with unknown words',
  breaks='the words of one category are not offered',
  edits=[('sudachipy/plugin/oov/mecab_oov_plugin.py', '        for type_ in input_text.get_char_category_types(offset):', '        for type_ in list(input_text.get_char_category_types(offset))[:3]:')],
  demo='''from lib import *
unk = ''.join('%s,0,0,%d,%s\\n' % (c, 10 * k + 5, ','.join(POS)) for k, c in enumerate(['ALPHA', 'GREEK', 'KANJI', 'SYMBOL']))
cats = 'ALPHA GREEK KANJI SYMBOL'
write('own.def', ''.join(c + ' 1 1 0\\n' for c in cats.split()) + '0x0041 ALPHA\\n')
write('own.unk', unk)
from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder
d = dictionary(system([row('a')]), chardef='DEFAULT 0 1 0\\n0x3042 %s\\n' % cats)
from sudachipy.plugin.oov.mecab_oov_plugin import MeCabOovPlugin
p = MeCabOovPlugin({'charDef': os.path.join(DIR, 'own.def'), 'unkDef': os.path.join(DIR, 'own.unk')})
p.set_up(d.grammar)
nodes = p.get_oov(UTF8InputTextBuilder('あ', d.grammar).build(), 0, False)
expect(len(nodes), 4)
'''),
 dict(id='build-minute', property='C29',
  needs='a build at another second than the first of a minute',
  breaks='the time in the header is not that of the build',
  edits=[('sudachipy/command_line.py', '        USER_DICT_VERSION_3, int(time.time()), args.description)', '        USER_DICT_VERSION_3, int(time.time()) // 60 * 60, args.description)')],
  demo='''from lib import *
import time
from sudachipy import command_line
system([row('a')])
late = 0
for k in range(2):
    t = int(time.time())
    if t % 60 == 0:
        time.sleep(2)
        t = int(time.time())
    sys.argv = ['sudachipy', 'ubuild', '-o', os.path.join(DIR, 'u.dic'), '-s', os.path.join(DIR, 'system.dic'), write('u.csv', csv([row('b')]))]
    command_line.main()
    h = DictionaryHeader.from_bytes(open(os.path.join(DIR, 'u.dic'), 'rb').read(), 0)
    if not t <= h.create_time <= int(time.time()) + 1:
        late += 1
    time.sleep(1)
expect(late, 0)
'''),
 dict(id='numeral-by-first', property='C22',
  needs='a token that begins with a digit but has other characters, with a digit for its normalized form',
  breaks='it is joined to the number',
  edits=[('sudachipy/plugin/path_rewrite/join_numeric_plugin.py', '            types = self.get_char_category_types(text, node)', '            types = text.get_char_category_types(node.get_begin())')],
  demo='''from lib import *
rows = [row('zz'), row('1', pos=NUM, cost=10), row('2個', pos=NUM, norm='2', cost=10)]
d = dictionary(system(rows), path=(NUMJOIN,))
expect(surfaces(d.create().tokenize('12個')), ['1', '2個'])
'''),
 dict(id='marks-of-others', property='C05',
  needs='two plugins with different marks',
  breaks='the marks of one are marks of the other',
  edits=[('sudachipy/plugin/input_text/prolongedsoundmark.py', '        self._psm_set = set()\n', ''), ('sudachipy/plugin/input_text/prolongedsoundmark.py', '    def __init__(self, json_obj):\n', '    _psm_set = set()\n\n    def __init__(self, json_obj):\n'), ('sudachipy/plugin/input_text/prolongedsoundmark.py', "            self._psm_set = set([ord(psm) for psm in json_obj['prolongedSoundMarks']])", "            self._psm_set.update([ord(psm) for psm in json_obj['prolongedSoundMarks']])")],
  demo='''from lib import *
s = system([row('ン', cost=10), row('~', cost=10)])
a = dictionary(s, text=(dict(PROLONGED, prolongedSoundMarks=['~']),), name='a.json')
a.create().tokenize('~~')
b = dictionary(s, text=(PROLONGED,), name='b.json')
expect(surfaces(b.create().tokenize('ン~~')), ['ン', '~', '~'])
'''),
 dict(id='ignored-by-others', property='C04',
  needs='two rewriting plugins with different lists of characters that are not normalized',
  breaks='a character is treated by the list of the plugin that met it first',
  edits=[('sudachipy/plugin/input_text/default_input_text_plugin.py', 'class DefaultInputTextPlugin(InputTextPlugin):\n', 'class DefaultInputTextPlugin(InputTextPlugin):\n    _kept = {}\n\n'), ('sudachipy/plugin/input_text/default_input_text_plugin.py', '            if lower in self.ignore_normalize_set:', '            if self._kept.setdefault(lower, lower in self.ignore_normalize_set):')],
  demo='''from lib import *
from sudachipy.plugin.input_text.default_input_text_plugin import DefaultInputTextPlugin
from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder
d = dictionary(system([row('a')]))
def out(lines):
    p = DefaultInputTextPlugin()
    p.read_rewrite_lists(write('r.def', lines))
    b = UTF8InputTextBuilder('ⅱ', d.grammar)
    p.rewrite(b)
    return b.get_text()
expect([out('ⅱ\\n'), out('')], ['ⅱ', 'ii'])
'''),
 dict(id='normalize-of-others', property='C27',
  needs='a dictionary whose numbers are not normalized before one with the default',
  breaks='neither normalizes its numbers',
  edits=[('sudachipy/plugin/path_rewrite/join_numeric_plugin.py', "            self._enable_normalize = json_obj['enableNormalize']", "            JoinNumericPlugin._enable_normalize = json_obj['enableNormalize']")],
  demo='''from lib import *
s = system([row('zz'), row('1', pos=NUM, cost=10), row('千', pos=NUM, cost=10)])
def make(conf, name):
    return dictionary(s, path=(conf,), name=name).create()
a = make(dict(NUMJOIN, enableNormalize=False), 'a.json')
b = make({'class': NUMJOIN['class']}, 'b.json')
expect([m.normalized_form() for m in b.tokenize('1千')], ['1000'])
'''),
 dict(id='mark-within-name', property='C06',
  needs='a category name with a comment mark within it',
  breaks='the line is accepted, without the category',
  edits=[('sudachipy/dictionarylib/charactercategory.py', 'if re.match("#", cols[j]) or', 'if re.search("#", cols[j]) or')],
  demo='''from lib import *
from sudachipy.dictionarylib.charactercategory import CharacterCategory
c = CharacterCategory()
try:
    c.read_character_definition(write('a.def', '0x0041 GREEK#ALPHA\\n'))
    sys.exit(1)
except AttributeError:
    pass
'''),
 dict(id='ids-with-points', property='C16',
  needs='a row whose id or cost has a point',
  breaks='it is accepted',
  edits=[('sudachipy/dictionarylib/dictionarybuilder.py', '[int(cols[i]) for i in [1, 2, 3]]', '[int(float(cols[i])) for i in [1, 2, 3]]')],
  demo='''from lib import *
for k in (1, 2, 3):
    r = row('a')
    r[k] = '1.5'
    try:
        system([r], matrix(3, 3))
    except ValueError:
        continue
    print('accepted')
    sys.exit(1)
'''),
 dict(id='speech-of-fifteenth', property='C15',
  needs='a fifteenth user dictionary with a part of speech of its own',
  breaks='it is shown with another part of speech',
  edits=[('sudachipy/dictionarylib/lexiconset.py', '            winfo.pos_id = winfo.pos_id - self.pos_offsets[1] + self.pos_offsets[dic_id]', '            winfo.pos_id = winfo.pos_id - self.pos_offsets[1] + self.pos_offsets[min(dic_id, 14)]')],
  demo='''from lib import *
s = system([row('zz')])
users = []
for k in range(15):
    users.append(user([row(chr(0x3042 + k), pos=['名詞', '新%d' % k, '*', '*', '*', '*'], cost=-100)], s, name='u%d.dic' % k))
try:
    d = dictionary(s, users=users)
    got = d.create().tokenize(chr(0x3042 + 14))[0].part_of_speech()[1]
except ValueError:
    sys.exit(0)
expect(got, '新14')
'''),
]
