"""Small dictionaries for demonstrations, in a scratch directory."""
import json
import logging
import os
import sys
import tempfile

sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
tmp = tempfile.TemporaryDirectory()
DIR = tmp.name

from sudachipy.dictionary import Dictionary
from sudachipy.dictionarylib import SYSTEM_DICT_VERSION_2, USER_DICT_VERSION_3
from sudachipy.dictionarylib.binarydictionary import BinaryDictionary
from sudachipy.dictionarylib.dictionarybuilder import DictionaryBuilder
from sudachipy.dictionarylib.dictionaryheader import DictionaryHeader
from sudachipy.dictionarylib.userdictionarybuilder import UserDictionaryBuilder
from sudachipy.tokenizer import Tokenizer

A, B, C = Tokenizer.SplitMode.A, Tokenizer.SplitMode.B, Tokenizer.SplitMode.C
LOG = logging.getLogger('quiet')
POS = ['名詞', '普通名詞', '一般', '*', '*', '*']
NUM = ['名詞', '数詞', '*', '*', '*', '*']
SYM = ['補助記号', '一般', '*', '*', '*', '*']
SIMPLE = {'class': 'sudachipy.plugin.oov.SimpleOovProviderPlugin', 'oovPOS': POS, 'leftId': 0, 'rightId': 0, 'cost': 30000}
MECAB = {'class': 'sudachipy.plugin.oov.MeCabOovProviderPlugin', 'charDef': 'char.def', 'unkDef': 'unk.def'}
NORMALIZE = {'class': 'sudachipy.plugin.input_text.DefaultInputTextPlugin'}
PROLONGED = {'class': 'sudachipy.plugin.input_text.ProlongedSoundMarkInputTextPlugin',
             'prolongedSoundMarks': ['ー', '-', '〜'], 'replacementSymbol': 'ー'}
NUMJOIN = {'class': 'sudachipy.plugin.path_rewrite.JoinNumericPlugin', 'enableNormalize': True}
KATAJOIN = {'class': 'sudachipy.plugin.path_rewrite.JoinKatakanaOovPlugin', 'oovPOS': POS, 'minLength': 3}
CHARDEF = '''DEFAULT 0 1 0
0x0030..0x0039 NUMERIC
0x0041..0x005A ALPHA
0x0061..0x007A ALPHA
0x0391..0x03C9 GREEK
0x3041..0x309F HIRAGANA
0x30A1..0x30FF KATAKANA
0x30FC KATAKANA NOOOVBOW
0x4E00..0x9FFF KANJI
0x4E00 KANJINUMERIC KANJI
0x4E8C KANJINUMERIC KANJI
0x5341 KANJINUMERIC KANJI
0x767E KANJINUMERIC KANJI
0x5343 KANJINUMERIC KANJI
0x4E07 KANJINUMERIC KANJI
'''


def row(head, left=0, right=0, cost=0, surface=None, pos=POS, read=None, norm=None, dform='*', mode='C', a='*', b='*', c='*', syn='*'):
    s = head if surface is None else surface
    return [head, left, right, cost, s] + list(pos) + [s if read is None else read, s if norm is None else norm, dform, mode, a, b, c, syn]


def write(name, text):
    with open(os.path.join(DIR, name), 'w', encoding='utf-8') as f:
        f.write(text)
    return os.path.join(DIR, name)


def csv(rows):
    return ''.join(','.join('"%s"' % c if ',' in str(c) else str(c) for c in r) + '\n' for r in rows)


def matrix(left=1, right=1, cells=()):
    return '%d %d\n' % (left, right) + ''.join('%d %d %d\n' % c for c in cells)


def system(rows, mat=None, name='system.dic', version=SYSTEM_DICT_VERSION_2, description=''):
    src, m = write(name + '.csv', csv(rows)), write(name + '.matrix', mat or matrix(1, 1, [(0, 0, 0)]))
    with open(os.path.join(DIR, name), 'wb') as out, open(m, encoding='utf-8') as ms:
        out.write(DictionaryHeader(version, 0, description).to_bytes())
        DictionaryBuilder(logger=LOG).build([src], ms, out)
    return os.path.join(DIR, name)


def user(rows, system_path, name='user.dic', version=USER_DICT_VERSION_3):
    d = BinaryDictionary.from_system_dictionary(system_path)
    src = write(name + '.csv', csv(rows))
    with open(os.path.join(DIR, name), 'wb') as out:
        out.write(DictionaryHeader(version, 0, '').to_bytes())
        UserDictionaryBuilder(d.grammar, d.lexicon, logger=LOG).build([src], None, out)
    return os.path.join(DIR, name)


def dictionary(system_path, oov=(SIMPLE,), text=(), path=(), users=(), chardef=CHARDEF, unk='', name='sudachi.json', **kw):
    write('char.def', chardef)
    write('unk.def', unk)
    d = {'systemDict': system_path, 'characterDefinitionFile': 'char.def', 'oovProviderPlugin': list(oov),
         'inputTextPlugin': list(text), 'pathRewritePlugin': list(path), 'userDict': list(users)}
    d.update(kw)
    return Dictionary(config_path=write(name, json.dumps(d)))


def surfaces(ml):
    return [m.surface() for m in ml]


def expect(got, want):
    if got != want:
        print('got', got, 'instead of', want)
        sys.exit(1)
