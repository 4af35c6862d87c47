"""Frozen protocol facts (IANA registries and RFC properties of header fields, methods, ...), used by the
specifications instead of the live tables.  `python -m contracts.known_facts --freeze` writes the JSON once;
checks compare the live tables of /repo against it exhaustively (obligation "tables")."""
import json
import os
import sys

PATH = os.path.join(os.path.dirname(__file__), 'known_facts.json')

# knowledge object -> predicates that are pure table look-ups (None for an unlisted key)
LOOKUPS = {
    'header': ['is_bad_for_connection', 'is_bad_for_trailer', 'is_for_request', 'is_for_response',
               'is_precondition', 'is_proactive_conneg', 'is_representation_metadata', 'is_deprecated',
               'rule_for', 'bad_quoted_delims', 'syntax_for'],
    'method': ['defines_body', 'is_cacheable', 'is_safe'],
    'status_code': ['is_cacheable'],
    'cache_directive': ['is_for_request', 'is_for_response', 'token_preferred', 'quoted_string_preferred',
                        'argument_required', 'no_argument', 'syntax_for'],
    'hsts_directive': ['argument_required', 'no_argument', 'syntax_for'],
    'alt_svc_param': ['argument_required', 'no_argument', 'syntax_for'],
    'preference': ['argument_required', 'no_argument', 'syntax_for'],
    'forwarded_param': ['argument_required', 'no_argument', 'syntax_for'],
    'media_type': ['is_deprecated', 'is_patch', 'is_json', 'is_xml', 'is_multipart'],
    'product': ['is_library'],
    'auth_scheme': [], 'content_coding': [], 'range_unit': [], 'transfer_coding': [], 'upgrade_token': [],
    'warn_code': [],
}


def norm(v):
    from httpolice.parse import Symbol
    import enum
    if isinstance(v, enum.Enum):
        return 'enum:' + v.name
    if isinstance(v, Symbol):
        return 'symbol:%s' % v.name if v.name else 'symbol'
    if isinstance(v, tuple):
        return [norm(x) for x in v]
    return v


def live():
    from httpolice import known
    out = {}
    for obj, preds in LOOKUPS.items():
        k = getattr(known, obj)
        table = {}
        for key in k:
            row = {}
            for p in preds:
                v = norm(getattr(k, p)(key))
                row[p] = v
            table[str(key) if not isinstance(key, int) else str(int(key))] = row
        default = {}
        for p in preds:
            unknown = k.cls(987) if issubclass(k.cls, int) else k.cls('zz-unlisted')
            default[p] = norm(getattr(k, p)(unknown))
        out[obj] = {'case_insensitive': k.cls.__eq__ is not str.__eq__ and issubclass(k.cls, str),
                    'int': issubclass(k.cls, int), 'rows': table, 'default': default,
                    'names': {n: (str(key) if not isinstance(key, int) else str(int(key)))
                              for n, key in k.keys_by_name.items()}}
    return out


_facts = None
_index = {}


def facts():
    global _facts
    if _facts is None:
        with open(PATH) as f:
            _facts = json.load(f)
        for obj, d in _facts.items():
            _index[obj] = {(k.lower() if d['case_insensitive'] else k): row for k, row in d['rows'].items()}
    return _facts


def row(obj, key):
    f = facts()[obj]
    k = str(int(key)) if f['int'] else str(key)
    if f['case_insensitive']:
        k = k.lower()
    return _index[obj].get(k)


def K(obj, pred, key):
    """Frozen fact look-up; the symbolic engine identifies it with the live table's look-up."""
    r = row(obj, key)
    if r is None:
        if obj == 'media_type':
            k = str(key).lower()
            if pred == 'is_json':
                return k.endswith('+json')
            if pred == 'is_xml':
                return k.endswith('+xml')
            if pred == 'is_multipart':
                return k.startswith('multipart/')
        return facts()[obj]['default'].get(pred)
    return r[pred]


def listed(obj, key):
    return row(obj, key) is not None


def compare():
    """-> list of differences between live tables and frozen facts."""
    f, l = facts(), json.loads(json.dumps(live()))
    diffs = []
    for obj in f:
        for part in ('case_insensitive', 'default', 'names'):
            if f[obj][part] != l[obj][part]:
                diffs.append('%s %s' % (obj, part))
        keys = set(f[obj]['rows']) | set(l[obj]['rows'])
        for key in sorted(keys):
            a, b = f[obj]['rows'].get(key), l[obj]['rows'].get(key)
            if a != b:
                if a is None or b is None:
                    diffs.append('%s[%s] %s' % (obj, key, 'unexpected key' if a is None else 'missing key'))
                else:
                    for p in a:
                        if a[p] != b.get(p):
                            diffs.append('%s[%s].%s: expected %r, found %r' % (obj, key, p, a[p], b.get(p)))
    return diffs


if __name__ == '__main__' and '--freeze' in sys.argv:
    with open(PATH, 'w') as f:
        json.dump(live(), f, indent=0, sort_keys=True)
