"""Writes MANIFEST.json from the table below (run by hand after adding a check)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULES = ('every obligation (notice reported <=> documented condition, no exception escapes, loop invariants) is generated from '
         'the current source by pyvc and discharged by z3 for all messages, unbounded; registry tables compared exhaustively; '
         'trusts pyvc, z3, the callee contracts of parse/header views/payload (decided by C05-C08, C12) and the specification '
         'contracts/rules_spec.py; a bounded concrete cross-check replays the specification on real messages')
FRAMING = ('every function on this path is proved equal to an executable specification for all streams (Stream methods against the contract of a '
           'buffered file, framing functions against the contract of Stream); termination and the whole chain additionally bounded: enumerated '
           'and random streams against an independent reading of RFC 7230')
CHECKS = {
    'C01': ('contract-based deductive verification: relational contracts (pyvc, z3) of body framing and Stream.read', 'proof', FRAMING),
    'C02': ('contract-based deductive verification: relational contracts (pyvc, z3) of parse_streams and the message loops', 'proof', FRAMING),
    'C03': ('contract-based deductive verification: relational contracts (pyvc, z3) of chunked and transfer decoding', 'proof', FRAMING),
    'C04': ('contract-based deductive verification: relational contracts (pyvc, z3) of headings, header fields and Stream lines', 'proof', FRAMING),
    'C05': ('contract-based verification of the grammar objects: the automaton of every live symbol, extracted on every run, is '
            'proved language-equivalent to the automaton of its RFC ABNF rule (exact product construction)', 'proof',
            'each symbol\'s contract is its language; obligations are discharged by an exact automata back end for all byte strings; '
            'trusts the transcription of the RFC ABNF (contracts/grammar_spec.py), the reading of combinator objects '
            '(contracts/grammar_extract.py; parse() itself is C06) and the automata back end; differences are replayed on parse()'),
    'C06': ('contract-based deductive verification: relational contracts (pyvc, z3) of parse() with its memo and of the annotated form; '
            'bounded stand-in for the Earley core', 'other',
            'parse() is proved equal to a specification without memory for all inputs and histories, and the memo to stay within its limit; '
            'recognition, derivations and error positions (_inner_parse, _find_results, _build_parse_error) are bounded: random grammars of all '
            'combinators against an independent span-fixpoint recogniser'),
    'C07': ('contract-based deductive verification: relational contracts (pyvc, z3) of HeadersView and HeaderView methods', 'proof',
            'enumerate, names, _pre_parse, every _parse, the observers and comparisons are proved equal to executable specifications for '
            'all messages (contracts of parse() and the registry tables, which C05/C06 and an exhaustive comparison decide); the view class '
            'of every registered name is checked exhaustively; random messages against an independent aggregator as bounded cross-check'),
    'C08': ('contract-based deductive verification: relational contracts (pyvc, z3) of argument processing and look-up', 'proof',
            'every _process_pair, _process_parsed, __getitem__ and _check_quoted_delims is proved equal to its executable specification for '
            'all headers; registry tables compared exhaustively; headers rendered from abstract structure as bounded cross-check'),
    'C09': ('contract-based deductive verification: contracts and laws of the value types (pyvc, z3)', 'proof',
            'equality, ordering, hashing and entity-tag contracts proved for all values; MultiDict and the string classes additionally (MultiDict only) by exhaustive small cases, labelled bounded'),
    'C10': ('contract-based deductive verification: relational contracts (pyvc, z3) of complain/silence/complaints/children, '
            'obligations on what check_* silence', 'proof',
            'every code path of the functions is proved equal to an executable specification for all inputs and states; '
            'trusts pyvc, z3 and the set model; random histories on real objects as bounded cross-check'),
    'C11': ('contract-based deductive verification: relational contracts (pyvc, z3) of run_cli, the text report writer, '
            'exit status and excerpts', 'proof',
            'run_cli, text_report, markers, complaint lines, ellipsize and resolve_reference are proved equal to executable specifications '
            'for all exchanges and options; an independent report renderer and CLI runs on real files as bounded cross-check (HTML markup bounded only)'),
    'C12': ('contract-based deductive verification: relational contracts (pyvc, z3) of the payload properties', 'proof',
            'decoded_body, guessed_charset, unicode_body, json/xml/multipart/form data, content_is_full, displayable_body, the codings and the memo '
            'are proved equal to executable specifications for all messages (library decoders uninterpreted); byte and character tables exhaustively; '
            'payloads encoded and damaged here against an independent reading as bounded cross-check'),
    'C13': ('contract-based deductive verification: pyvc verification conditions over check_request/check_message, z3', 'proof', RULES),
    'C14': ('contract-based deductive verification: pyvc verification conditions over check_response_itself/check_message, z3', 'proof', RULES),
    'C15': ('contract-based deductive verification: pyvc verification conditions over check_response_in_context, check_responses '
            '(inferred inductive loop invariants) and check_exchange, z3', 'proof', RULES),
    'C16': ('contract-based deductive verification: relational contracts (pyvc, z3) of the stream input functions', 'proof',
            'reading, pairing, sniffing, merging, time ordering and file-name parsing are proved equal to executable specifications for all '
            'directories and captures (file system, sorting and datetime uninterpreted); captures written to scratch directories against an '
            'independent reading, and all small orderings, as bounded cross-check'),
    'C17': ('contract-based deductive verification: relational contracts (pyvc, z3) of the HAR conversion and header list helpers', 'proof',
            'every function of har.py and helpers.py is proved equal to an executable specification for all documents, header lists and environments '
            '(JSON, URL and base64 libraries uninterpreted); whole and damaged HAR documents against an independent reading, and all short header lists, '
            'as bounded cross-check'),
    'C18': ('contract-based deductive verification: exceptional postconditions (pyvc, z3) of every function under contract and of the check_* functions; '
            'bounded stand-in for the whole chain', 'other',
            'for every function under contract of C01-C17 and for check_request/check_response/check_exchange it is proved, for all inputs, that only the '
            'exceptions its contract names can leave it; implicit TypeErrors on values whose type is abstract, and recursion depth and memory, are outside '
            'the proofs and covered by bounded runs: random and mutated streams, words of the live grammar, messages from well-typed parts, extreme sizes'),
}
NOT_APPLICABLE = {}


def main():
    props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    na = dict(NOT_APPLICABLE)
    for p in props:
        if p not in CHECKS and p not in na:
            na[p] = 'check still under construction'
    m = {'version': 1, 'setup_cmd': 'true',
         'checks': [{'property': p, 'quick_cmd': './check %s' % p, 'thorough_cmd': './check %s --tier thorough' % p,
                     'technique': t, 'level': l, 'level_note': n} for p, (t, l, n) in sorted(CHECKS.items())],
         'not_applicable': [{'property': p, 'reason': r} for p, r in sorted(na.items()) if p not in CHECKS],
         'notes': 'no hooks in /repo: contracts are sidecar files, obligations are generated from the unmodified source'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
