class Broken(Exception):
    """the analysis could not be carried out: an anchor is gone or a rule matched nothing"""

class Finding:
    def __init__(s, key, msg, where, path=()):
        s.key = key; s.msg = msg; s.where = where; s.path = list(path)
    def __repr__(s): return '<%s %s @%s>' % (s.key, s.msg, s.where)

class Result:
    def __init__(s, explanation, assumptions=()):
        s.findings = []; s.coverage = {}; s.explanation = explanation; s.assumptions = list(assumptions); s.obligations = 0
    def add(s, key, msg, where, path=()): s.findings.append(Finding(key.replace(' ', '_'), msg, where, path))
    def need(s, n, least, what):
        if n < least: raise Broken('%s: %d found, at least %d expected' % (what, n, least))
