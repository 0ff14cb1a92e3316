"""One entry per property: what it states, and how its check is built.

tools/gen.py writes properties.jsonl and MANIFEST.json from this table; check.py reads CHECKS.
"""
COMMON_ASSUMPTIONS = [
    'compiled with g++-13 for x86-64 with the defines of the repository\'s own test build',
    'generated-input search: it shows the presence of violations, and their absence only on the cases explored '
    '(sub-properties marked exhaustive enumerate their whole domain)',
]
PROPS = []      # in order
CHECKS = {}


def prop(id, title, statement, over, text, why, files, mechanism, harness=None, rule='', module=None,
         technique='property-based testing', note='', assumptions=(), na=None, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, technique=technique, note=note, na=na, observe=observe or []))
    if na:
        return
    c = dict(rule=rule, assumptions=list(assumptions))
    if harness:
        c['harness'] = harness
    if module:
        c['module'] = module
    CHECKS[id] = c


exec(open(__file__.replace('table.py', 'props.py')).read())
