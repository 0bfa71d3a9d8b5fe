"""Rules documents: generator and independent reference model of their meaning."""
import copy

import yaml

OSES = {
    'simos': (['one', 'two', 'three'], 's1', ['s1', 's2']),
    'simder': (['one', 'two'], 's2', ['s2', 's1']),
    'ubuntu': (['lucid', 'maverick', 'natty', 'oneiric', 'precise', 'quantal', 'raring',
                'saucy', 'trusty', 'utopic'], 'apt', ['apt']),
    'debian': (['etch', 'lenny', 'squeeze', 'wheezy', 'jessie'], 'apt', ['apt']),
    'osx': (['tiger', 'leopard', 'snow', 'lion', 'mountain lion', 'mavericks', 'yosemite'],
            'homebrew', ['homebrew', 'pip', 'gem']),
}
KEYS = ['foo', 'bar-lib', 'baz.q', 'qux+1', 'quux_2', 'zed', 'foo.q']
INSTALLERS = ['s1', 's2', 's3', 's4', 'pip', 'apt', 'homebrew', 'fake', 'gem', 'nosuch']


class Doc(object):
    """One version of the rules of one source.

    `rules` is fully expanded: {key: {os: {version: {installer: rule}}}}, rule being a
    dict with 'packages' (and maybe 'depends' and other entries)."""

    def __init__(self, rules, text, label):
        self.rules = rules
        self.text = text
        self.label = label

    @property
    def data(self):
        return self.text.encode('utf-8') if isinstance(self.text, str) else self.text


def gen_rule(ch, tag, counter, rich=True):
    n = ch.weighted([(1, 5), (2, 3), (0, 1), (3, 1)])
    pk = []
    for _ in range(n):
        counter[0] += 1
        pk.append('%s-p%d' % (tag, counter[0]))
    rule = {'packages': pk}
    if rich and ch.chance(120):
        rule['depends'] = ch.shuffle(KEYS)[:ch.range(1, 2)]
    if rich and ch.chance(80):
        rule['extra'] = ch.choice(['x', ['y', 'z'], {'k': 'v'}, 3])
    return rule


def gen_rules(ch, tag, keys=None, installers=None, oses=None, rich=True, max_keys=3):
    keys = keys or KEYS
    installers = installers or INSTALLERS
    oses = oses or ['simos', 'simos', 'any_os', 'ubuntu', 'osx', 'otheros']
    counter = [0]
    rules = {}
    for key in ch.shuffle(keys)[:ch.range(1, max_keys)]:
        od = {}
        for _ in range(ch.range(1, 3)):
            osn = ch.choice(oses)
            if osn in od:
                continue
            vd = {}
            if osn == 'any_os':
                versions = ['any_version']
            else:
                known = OSES.get(osn, (['v1', 'v2'],))[0]
                versions = ch.shuffle(['any_version'] + known[:3])[:ch.range(1, 2)]
                if osn in ('ubuntu',) and ch.chance(300):
                    versions.append('trusty')
                if osn == 'osx' and ch.chance(300):
                    versions.append('mountain lion')
            for v in versions:
                idict = {}
                default = OSES.get(osn, (0, None))[1]
                for _ in range(ch.weighted([(1, 6), (2, 3), (3, 1), (0, 1)])):
                    if osn != 'any_os' and ch.chance(450):
                        inst = 'default_installer'
                    else:
                        inst = ch.choice(installers)
                    if inst == default and 'default_installer' in idict or \
                            inst == 'default_installer' and default in idict:
                        continue
                    idict[inst] = gen_rule(ch, tag, counter, rich)
                vd[v] = idict
            od[osn] = vd
        rules[key] = od
    return rules


def _render_rule(ch, rule):
    """Possible shorthands of an installer rule."""
    pk = rule.get('packages')
    opts = [dict(rule)]
    if set(rule) == {'packages'}:
        opts.append(list(pk))
        if len(pk) == 1:
            opts.append(pk[0])
            opts.append({'packages': pk[0]})
        if not pk:
            opts.append(None)
            opts.append({'packages': None})
    elif len(rule.get('depends', ())) == 1:
        opts.append(dict(rule, depends=rule['depends'][0]))
    if 'depends' not in rule and len(opts) > 1 and ch.chance(60):
        return dict(rule, depends=[])
    return copy.deepcopy(ch.choice(opts))


def _render_idict(ch, idict):
    if set(idict) == {'default_installer'} and set(idict['default_installer']) == {'packages'} \
            and ch.chance(600):
        r = _render_rule(ch, idict['default_installer'])
        if not isinstance(r, dict):
            return r
    return {i: _render_rule(ch, r) for i, r in idict.items()}


def render(ch, rules, shorthand=True):
    """YAML text of the rules, using randomly chosen shorthands."""
    if not rules:
        return ch.choice(['{}\n', '', '# nothing here\n', 'null\n'])
    out = {}
    for key, od in rules.items():
        out[key] = {}
        for osn, vd in od.items():
            if not shorthand:
                out[key][osn] = copy.deepcopy(vd)
                continue
            if osn == 'any_os':
                idict = _render_idict(ch, vd['any_version'])
                out[key][osn] = idict if idict and ch.chance(500) else {'any_version': idict}
            else:
                r = {v: _render_idict(ch, i) for v, i in vd.items()}
                if set(r) == {'any_version'} and not isinstance(r['any_version'], dict) \
                        and ch.chance(700):
                    r = r['any_version']
                out[key][osn] = r
    text = yaml.safe_dump(out, default_flow_style=ch.choice([False, None]),
                          allow_unicode=True)
    if ch.chance(100):
        text = '# comment \u00e4\u00f6\u00fc\n' + text
    if ch.chance(60):
        text = '---\n' + text
    return text


def gen_doc(ch, src, version, extra=None, **kw):
    """A version of the rules of a source, with a key that tells the version."""
    tag = '%sv%d' % (src, version)
    rules = gen_rules(ch, tag, **kw)
    rules['ver-' + src] = {'any_os': {'any_version': {
        's1': {'packages': [tag]}}}}
    if extra:
        rules.update(extra)
    return Doc(rules, render(ch, rules), tag)


def next_doc(doc, src, version):
    """The next version, which differs in nothing but its packages, and has the same size."""
    tag = '%sv%d' % (src, version)

    def change(x):
        if isinstance(x, dict):
            return {change(k): change(v) for k, v in x.items()}
        if isinstance(x, list):
            return [change(v) for v in x]
        return x.replace(doc.label, tag) if isinstance(x, str) else x

    return Doc(change(doc.rules), doc.text.replace(doc.label, tag), tag)


INVALID = {
    'syntax': 'foo: [a, b\nbar: }\n',
    'tab': 'foo:\n\t- bar\n',
    'list': '- a\n- b\n',
    'scalar': 'just some words\n',
    'number': '42\n',
    'keyint': '1:\n  ubuntu: [a]\n',
    'osnotdict': 'foo: [a]\n',
    'osnull': 'foo:\n',
    'versionnum': 'foo:\n  ubuntu: 3\n',
    'badkey': '"foo bar":\n  ubuntu: [a]\n',
    'keyword': 'any_key:\n  ubuntu: [a]\n',
    'keywordos': 'foo:\n  any_version: [a]\n',
    'anyosdefault': 'foo:\n  any_os:\n    any_version:\n      default_installer: [a]\n',
    'anyosversions': 'foo:\n  any_os:\n    any_version: {pip: [a]}\n    one: {pip: [b]}\n',
    'anyoslist': 'foo:\n  any_os: [a]\n',
    'packagesnum': 'foo:\n  ubuntu:\n    trusty:\n      apt: {packages: 3}\n',
    'dependsbad': 'foo:\n  ubuntu:\n    trusty:\n      apt: {packages: [a], depends: [1]}\n',
    'rulenum': 'foo:\n  ubuntu:\n    trusty:\n      apt: 5\n',
    'badinst': 'foo:\n  ubuntu:\n    trusty:\n      "a pt": [x]\n',
    'twodocs': 'a: {ubuntu: [a]}\n---\nb: {ubuntu: [b]}\n',
    'tag': 'foo: !!python/object/apply:os.getpid []\n',
    'html': '<html><head>: <title>503</title>\n<body>: x: y</body></html>\n',
    'binary': b'\xff\xfe\x00\x01\x02',
    'late': None,      # a valid document with an invalid rule at its end
}


def invalid_text(ch, kind, src):
    if kind == 'late':
        d = gen_doc(ch, src, 999)
        return render(ch, d.rules, False) + '\nzzz: [broken]\n'
    return INVALID[kind]


# ------------------------------------------------------------- the reference

def ref_lookup(rules, key, osn, version, default):
    od = rules.get(key, {})
    out = {}
    for d in (od.get('any_os', {}).get('any_version', {}),
              od.get(osn, {}).get('any_version', {}),
              od.get(osn, {}).get(version, {})):
        for inst, rule in d.items():
            out[default if inst == 'default_installer' else inst] = rule
    return out


def ref_answer(docs, key, osn, version, default):
    """docs in order of precedence -> {installer: rule}."""
    out = {}
    for rules in docs:
        for inst, rule in ref_lookup(rules, key, osn, version, default).items():
            out.setdefault(inst, rule)
    return out


def ref_keys(docs, osn, version):
    keys = set()
    for rules in docs:
        for key, od in rules.items():
            if 'any_os' in od or version in od.get(osn, {}) or \
                    'any_version' in od.get(osn, {}):
                keys.add(key)
    return keys


def canon_rule(rule):
    if rule is None:
        rule = []
    if isinstance(rule, str):
        rule = [rule]
    if isinstance(rule, (list, tuple)):
        rule = {'packages': list(rule)}
    rule = dict(rule)
    if isinstance(rule.get('packages'), str):
        rule['packages'] = [rule['packages']]
    if 'packages' in rule and rule['packages'] is None:
        rule['packages'] = []
    if isinstance(rule.get('depends'), str):
        rule['depends'] = [rule['depends']]
    if 'depends' in rule and not rule['depends']:
        del rule['depends']
    return rule


def canon_answer(result, default):
    """Canonical form of a (possibly compacted) installer dict."""
    if result is None or isinstance(result, (list, str)):
        result = {default: result}
    out = {}
    for inst, rule in result.items():
        out[default if inst == 'default_installer' else inst] = canon_rule(rule)
    return out


def canon_rules(rules):
    """Expand any (shorthand or expanded) rules structure; tolerant."""
    out = {}
    for key, od in (rules or {}).items():
        for osn, vd in od.items():
            if vd is None or isinstance(vd, (list, str)):
                vd = {'any_version': vd}
            elif osn == 'any_os' and 'any_version' not in vd:
                vd = {'any_version': vd}
            for v, idict in vd.items():
                if idict is None or isinstance(idict, (list, str)):
                    idict = {'default_installer': idict}
                out[(key, osn, v)] = {i: canon_rule(r) for i, r in idict.items()}
    return out


def ref_choice(answer, core, additional, loaded, demanded=None):
    """Acceptable installers for an answer; [] means that resolving is an error."""
    if demanded is not None:
        return [demanded] if demanded in loaded and demanded in answer else []
    for i in core:
        if i in loaded and i in answer:
            return [i]
    return [i for i in additional if i in loaded and i not in core and i in answer]
