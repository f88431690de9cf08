# signatures: by-value class parameters become references to const, references that are only read become references to const,
# const by-value becomes plain; generated from the definitions of the sources (the compiler decides which make sense)
import re as _re, glob as _g, os as _o
_S = '/repo/src/'
V = []
_text = {_o.path.basename(p): open(p).read() for p in _g.glob(_S + '*.cpp') + _g.glob(_S + '*.h')}
_CL = r'(?:std::)?(?:vector<[\w:<> ,]+>|string|map<[^&]+?>|wer_alignment|AlignerOptions|SynonymOptions|WerResult|Json::Value|shared_ptr<ShortlistEntry>|SynKey|StdVectorFst|SymbolTable|fst::SymbolTable|triple)'
_COV = {}
import json as _j
for _p in _g.glob(_o.path.dirname(_o.path.abspath('/verif/dev/x')) + '/../evidence/C*.json'):
    _e = _j.load(open(_p))
    for _q in _e['coverage']['functions']:
        _COV.setdefault(_q.split('(')[0].split('::')[-1], set()).add(_e['property'])
for _f, _t in sorted(_text.items()):
    if not _f.endswith('.cpp') or _f.startswith('logging'):
        continue
    for _m in _re.finditer(r'^(?:[\w:<>*& ,]+[ &])?((?:\w+::)*(\w+))\(([^()\n]*)\)((?: const)?(?: :[^\n{]*)?) \{$', _t, _re.M):
        _n, _params = _m.group(2), _m.group(3)
        if not _params or _n in ('main',):
            continue
        _parts = _re.split(r', (?=[\w:]+[^,<>]*(?:<[^<>]*(?:<[^<>]*>)?[^<>]*>)? ?&?\*? ?\w+(?: =|,|$))', _params)
        for _i, _pt in enumerate(_parts):
            _k = _re.match(r'^(const )?(' + _CL + r')( ?)(&?)( ?)(\w+)((?: = .*)?)$', _pt)
            if not _k or _k.group(1) and _k.group(4):
                continue
            _new = 'const ' + _k.group(2) + ' &' + _k.group(6)
            _dflt = _k.group(7)
            _np = ', '.join(_parts[:_i] + [_new + _dflt] + _parts[_i + 1:])
            _ed = [(_m.group(0), _m.group(0).replace('(' + _params + ')', '(' + _np + ')'))]
            # declarations of the same function elsewhere
            for _h, _ht in _text.items():
                for _d in _re.finditer(r'\b' + _n + r'\(([^()]*)\)', _ht):
                    if (_h, _d.start()) == (_f, _m.start()) or _ht[_d.start():_d.end()] in _m.group(0) and _h == _f:
                        continue
                    _dp = _re.split(r',\s*(?=[\w:]+[^,<>]*(?:<[^<>]*(?:<[^<>]*>)?[^<>]*>)? ?&?\*? ?\w*(?: =|,|$))', _d.group(1))
                    if len(_dp) != len(_parts):
                        continue
                    _dk = _re.match(r'^(const )?(' + _CL + r')( ?)(&?)( ?)(\w*)((?: = .*)?)$', _dp[_i].strip())
                    if not _dk or bool(_dk.group(4)) != bool(_k.group(4)):
                        continue
                    _dn = ', '.join(_dp[:_i] + ['const ' + _dk.group(2) + ' &' + _dk.group(6) + _dk.group(7)] + _dp[_i + 1:])
                    _ed.append((_d.group(0), _n + '(' + _dn + ')', _h))
            V.append(('sig-%s-%s%d' % (_f.split('.')[0].lower(), _n, _i), 'same', ' '.join(sorted(_COV.get(_n, set()) | ({'C11', 'C23'} if _f in ('wer.cpp', 'fstalign.cpp') else set()))), _f, _ed))
