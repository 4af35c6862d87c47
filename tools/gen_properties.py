#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "HTTP/1.x body length follows RFC 7230 section 3.3.3",
  "For every HTTP/1.x message read from a byte stream, the bytes taken as its body are exactly those that RFC 7230 section 3.3.3 assigns to it, given its own header section and (for a response) the request it answers: none for 1xx/204/304, answers to HEAD, 101 and 2xx to CONNECT; chunked when that is the final transfer coding; else as many octets as the (last) Content-Length says; else to the end of the stream for a response and none for a request. "
  "When the length cannot be determined, data is short, or it is over the size limit, the body is reported as unavailable, the prescribed notice (1001, 1004, 1005, 1011, 1012, 1298) and no other body-framing notice is reported, and nothing is parsed as a further message on a stream whose position is no longer known.",
  ["inputs", "histories"],
  "All byte contents of both streams, all header combinations, all request/response pairings, all sizes.",
  "Tests feed about 300 hand-written combined files; the interaction of status, method, Transfer-Encoding lists, Content-Length validity and remaining bytes is unbounded.",
  ["httpolice/framing1.py", "httpolice/stream.py"],
  [("_parse_request_body", "httpolice/framing1.py"), ("_parse_response_body", "httpolice/framing1.py"),
   ("_process_content_length", "httpolice/framing1.py"), ("Stream.read", "httpolice/stream.py")],
  [("sane/eof", "whether the stream position is still trustworthy / exhausted", "httpolice/stream.py")],
  ["Request.body", "Response.body", "notices"])
p("C02", "Exchanges pair requests with responses in order and account for every byte",
  "Parsing a request stream and a response stream yields the exchanges in wire order: the n-th request is paired with the interim responses up to and including its final response (101 is final), later responses with later requests, and responses beyond the requests come as exchanges without a request preceded by notice 1008. "
  "Each unparsable start line or header section gives exactly one notice (1006 or 1009), after a protocol switch or a tunnel neither side is parsed further, and whenever unread bytes remain at the end the corresponding notice (1007 or 1010) carries the right offset. "
  "The analysis always terminates, never loses a parsed message and never reports one twice.",
  ["inputs", "histories"],
  "All pairs of byte streams (either may be missing) and every sequence of messages on them.",
  "The tests cover short hand-written sequences; ordering and leftovers depend on arbitrary message histories.",
  ["httpolice/framing1.py", "httpolice/exchange.py", "httpolice/stream.py"],
  [("parse_streams", "httpolice/framing1.py"), ("_parse_responses", "httpolice/framing1.py"), ("complaint_box", "httpolice/exchange.py")])
p("C03", "Chunked framing, trailers and transfer codings are removed exactly",
  "For a chunked message the body is exactly the concatenation of the chunk data, in order, with sizes read as hexadecimal digits and extensions ignored; parsing resumes exactly after the trailer section, whose fields become the message's trailers and join its header views. "
  "Remaining transfer codings are undone from last to first (gzip, x-gzip, deflate), and an inner chunked (1002), an unknown coding (1003) or a decoding failure (1027) is reported exactly once and leaves the body unavailable, while malformed or truncated chunked framing gives 1005 and no body.",
  ["inputs"],
  "All chunk sequences, sizes, extensions, trailer sections, coding lists and truncation points.",
  "Tests contain a dozen chunked samples; chunk counts, boundaries and coding stacks are unbounded.",
  ["httpolice/framing1.py", "httpolice/codings.py"],
  [("_parse_chunk", "httpolice/framing1.py"), ("_parse_chunked", "httpolice/framing1.py"), ("_decode_transfer_coding", "httpolice/framing1.py")])
p("C04", "Start line and header section are split exactly at wire boundaries",
  "A request line, status line or header section is accepted exactly when it has the RFC 7230 line structure HTTPolice supports (single-space separated start line with HTTP-version and 3-digit status, lines ended by CRLF or bare LF and at most 16 KiB long, name and colon, obs-fold continuation lines), and then method, target, version, status, reason and every field name and value (surrounding blanks removed, folds joined by one space) are reported byte for byte in order. "
  "Each bare-LF line gives notice 1224 and each fold gives notice 1016, on the message they belong to and not on any other; anything else is rejected without inventing a message.",
  ["inputs"],
  "All byte strings up to and beyond the line limit.",
  "A few dozen samples cannot cover every placement of blanks, CR, LF, colons, folds and limits.",
  ["httpolice/framing1.py", "httpolice/stream.py"],
  [("_parse_request_heading", "httpolice/framing1.py"), ("_parse_response_heading", "httpolice/framing1.py"),
   ("parse_header_fields", "httpolice/framing1.py"), ("Stream.readline", "httpolice/stream.py"), ("Stream.dump_complaints", "httpolice/stream.py")])
p("C05", "Every known header's syntax accepts exactly its RFC language",
  "For every header and argument syntax that HTTPolice knows, the set of byte strings it accepts without a syntax notice is exactly the language that the governing specification's ABNF defines (with the list rules, optional whitespace and documented special cases of that specification), and likewise for request methods, targets, field names and reason phrases. "
  "No valid value is called malformed and no malformed value passes.",
  ["inputs"],
  "All byte strings of every length, for every syntax in the tables.",
  "The tests parse some hundred strings; the languages are infinite and errors in repetition, optionality or character classes hide in unsampled strings.",
  ["httpolice/syntax/rfc7230.py", "httpolice/syntax/rfc7231.py", "httpolice/syntax/rfc3986.py", "httpolice/syntax/rfc5646.py",
   "httpolice/syntax/rfc7232.py", "httpolice/syntax/rfc7233.py", "httpolice/syntax/rfc7234.py", "httpolice/syntax/rfc7235.py",
   "httpolice/syntax/rfc7239.py", "httpolice/syntax/rfc7240.py", "httpolice/syntax/rfc7838.py", "httpolice/syntax/rfc8187.py",
   "httpolice/syntax/rfc8288.py", "httpolice/syntax/rfc6266.py", "httpolice/syntax/rfc6797.py", "httpolice/parse.py", "httpolice/known/__init__.py"],
  [("grammar symbols", "httpolice/syntax/*.py"), ("combinators", "httpolice/parse.py"), ("syntax_for", "httpolice/known/__init__.py")])
p("C06", "The parser recognises exactly the grammar and never depends on history",
  "For any grammar built with the parsing combinators and any byte string, parsing succeeds exactly when the string is in the language of the target symbol, returns the result of one valid derivation with complaints and annotations of that same derivation, and otherwise reports a syntax error at the first position where no continuation exists. "
  "The answer for a given input never depends on what was parsed before, and the annotated form of an accepted string always reproduces the string. "
  "The number of remembered results never exceeds its limit.",
  ["inputs", "programs", "histories"],
  "All grammars over the combinators (nullable, ambiguous, left- and right-recursive), all strings, all sequences of parse calls.",
  "Tests use the built-in grammars with fixed strings in one order; Earley bugs need particular nullable or ambiguous shapes and memo bugs need particular histories.",
  ["httpolice/parse.py"],
  [("_inner_parse", "httpolice/parse.py"), ("_find_results", "httpolice/parse.py"), ("parse", "httpolice/parse.py"), ("_splice_annotations", "httpolice/parse.py")],
  [("_memo", "results of earlier parses", "httpolice/parse.py")])
p("C07", "Header views aggregate all entries of a name and compare safely",
  "A view of a header covers exactly the entries with that name (case-insensitively, headers before trailers, excluding forbidden trailers which give 1026), single-valued headers take the last entry and give 1013 when repeated, list-valued headers concatenate the elements of all entries in order, and unparsable entries are present but never yield a usable value. "
  "Presence, absence, truth, membership, iteration and every comparison are consistent with that value, and every comparison against an absent or malformed value is false.",
  ["inputs", "histories"],
  "All header/trailer entry lists, all header names, all access orders, all comparison operands.",
  "Tests reach these through fixed messages; the aggregation rule must hold for any number, order and validity of entries.",
  ["httpolice/header.py", "httpolice/known/__init__.py"],
  [("HeaderView._pre_parse", "httpolice/header.py"), ("SingleHeaderView._parse", "httpolice/header.py"), ("MultiHeaderView._parse", "httpolice/header.py"), ("HeaderView._compare", "httpolice/header.py")])
p("C08", "Directive and parameter arguments are interpreted per their declared rules",
  "For headers made of name[=argument] pairs (Cache-Control, Strict-Transport-Security, Alt-Svc, Prefer, Preference-Applied, Forwarded) a missing required argument gives 1156, a forbidden argument gives 1157, a malformed argument gives 1158, each exactly for the offending pairs, and the pair's name and order are kept with an argument that is the parsed value or unavailable. "
  "Looking up a directive returns the argument of its first occurrence (unavailable when that is malformed), true when it has none, and nothing when the directive is not there; the quoting-form notices 1154, 1155, 1299 and 1300 and the Forwarded notices 1296 and 1297 are given exactly when their condition holds.",
  ["inputs"],
  "All lists of pairs, names, argument shapes and entry splits.",
  "The combination of directive name, argument form and position is unbounded; tests show a few.",
  ["httpolice/header.py", "httpolice/known/__init__.py"],
  [("ArgumentsView._process_pair", "httpolice/header.py"), ("DirectivesView.__getitem__", "httpolice/header.py"),
   ("CacheControlView._process_pair", "httpolice/header.py"), ("ForwardedView._process_parsed", "httpolice/header.py")])
p("C09", "Protocol value types obey their equality, ordering and hashing laws",
  "Case-insensitive protocol strings compare and hash by case-folded content and case-sensitive ones by content, equality agrees with inequality and with hashing, items with parameters and warning values compare to a bare item by the item, and unavailable values equal only unavailable values with the same known content. "
  "Entity-tag weak and strong comparison follow RFC 7232, multi-valued parameter maps keep order, return the first value, all values, exact duplicates and first index, and status-code classes partition 100 to 599 by hundreds.",
  ["inputs"],
  "All values and pairs of values of these types.",
  "Algebraic laws over all values; tests compare a few constants.",
  ["httpolice/structure.py", "httpolice/util/data.py"],
  [("CaseInsensitive", "httpolice/structure.py"), ("Parametrized", "httpolice/structure.py"), ("MultiDict", "httpolice/structure.py"), ("Unavailable", "httpolice/structure.py"), ("EntityTag", "httpolice/structure.py")])
p("C10", "Notices are logged once, kept in order, and hidden exactly when silenced",
  "After any sequence of reporting and silencing on an exchange and its messages, each object shows exactly the reported notices not silenced for it, each identical report once, in order of first report. "
  "Silencing on an exchange covers its request and responses and later reports too, silencing one message affects no other message (ids in a HTTPolice-Silence header hide notices on the message that carries it, or, when marked resp in a request, on its responses), and silencing never changes which other notices appear.",
  ["histories", "inputs"],
  "All sequences of complain/silence calls on all object trees; all silence header values.",
  "Tests silence one or two ids in one order.",
  ["httpolice/blackboard.py", "httpolice/exchange.py", "httpolice/request.py", "httpolice/response.py"],
  [("Blackboard.complain", "httpolice/blackboard.py"), ("Blackboard.silence", "httpolice/blackboard.py"), ("Exchange.children", "httpolice/exchange.py")],
  [("_complaints", "reported so far", "httpolice/blackboard.py"), ("_silenced", "hidden ids", "httpolice/blackboard.py")])
p("C11", "Exit status and reports reflect exactly the reported notices",
  "The command line exits non-zero because of --fail-on exactly when some visible notice has at least the given severity, exits non-zero on input errors, and silences exactly the ids given with -s. "
  "The text report lists every visible notice of every exchange, in order and each exactly once, under the request and response it belongs to, and nothing else.",
  ["inputs", "configurations"],
  "All sequences of exchanges with any notices and severities, all option combinations.",
  "Tests run a handful of fixed reports.",
  ["httpolice/cli.py", "httpolice/reports/text.py", "httpolice/reports/common.py", "httpolice/util/ordered_enum.py"],
  [("run_cli", "httpolice/cli.py"), ("text_report", "httpolice/reports/text.py"), ("OrderedEnum", "httpolice/util/ordered_enum.py")])
p("C12", "Payload decoding undoes content codings and never hands out corrupt data",
  "The decoded payload equals the body with the listed content codings undone from last to first; a coding that fails (1037), is unknown (1036) or is malformed makes it unavailable and is reported once. "
  "Text is available only when it decodes entirely in the charset in force (UTF-8 by default); JSON, XML, multipart and form data are produced, or refused with their notices (1038, 1281, 1039, 1275, 1139, 1140, 1040), exactly when the media type says so and the payload is a complete instance, and the body shown to the user is a printable prefix of at most 1000 characters with every transformation listed.",
  ["inputs"],
  "All bodies, coding lists, charsets, media types, statuses and request methods.",
  "Bodies and coding stacks are unbounded; tests hold a few files.",
  ["httpolice/message.py", "httpolice/codings.py", "httpolice/response.py", "httpolice/util/text.py"],
  [("decoded_body", "httpolice/message.py"), ("guessed_charset", "httpolice/message.py"), ("json_data", "httpolice/message.py"), ("displayable_body", "httpolice/message.py")])
p("C13", "Request notices are reported exactly when their documented condition holds",
  "For every request, each notice about requests or about messages in general is reported on it exactly when the condition given in that notice's documentation holds for its method, target, version, headers, trailers and body, independent of all unrelated headers. "
  "What is unknown (missing body, scheme or version, malformed header values) never triggers a notice that needs it.",
  ["inputs"],
  "All requests.",
  "Each of some 90 conditions depends on several fields whose combinations are unbounded; tests have one or two messages per notice.",
  ["httpolice/request.py", "httpolice/message.py", "httpolice/notices.xml", "httpolice/known/__init__.py"],
  [("check_request", "httpolice/request.py"), ("check_message", "httpolice/message.py")])
p("C14", "Response notices are reported exactly when their documented condition holds",
  "For every response taken by itself, each notice about responses or about messages in general is reported on it exactly when the condition given in that notice's documentation holds for its status, version, headers, trailers and body, independent of all unrelated headers; 103 responses only get the checks that apply to them. "
  "What is unknown (missing body or version, malformed header values) never triggers a notice that needs it.",
  ["inputs"],
  "All responses.",
  "Each of some 90 conditions depends on status and several fields; tests have one or two messages per notice.",
  ["httpolice/response.py", "httpolice/message.py", "httpolice/notices.xml", "httpolice/known/__init__.py"],
  [("check_response_itself", "httpolice/response.py"), ("check_message", "httpolice/message.py")])
p("C15", "Request-response consistency notices are exact",
  "For every request and response pair, each notice about their relation (method against status, negotiation, conditional and range requests, caching, upgrade, authentication, redirects, preferences) is reported on the response exactly when its documented condition holds. "
  "Across the responses of one exchange, only responses after the final one get 1304, and 1305 is reported exactly on a protocol switch that jumps an expected 100 (Continue).",
  ["inputs", "histories"],
  "All pairs, and all sequences of responses to a request.",
  "The condition space is the product of two messages; tests have about a hundred pairs.",
  ["httpolice/response.py", "httpolice/exchange.py", "httpolice/notices.xml"],
  [("check_response_in_context", "httpolice/response.py"), ("check_responses", "httpolice/response.py"), ("check_exchange", "httpolice/exchange.py")])
p("C16", "Captured TCP streams are recombined into the right pairs, ordered by time",
  "Each captured stream file ends up in exactly one connection, paired with the file of the opposite direction of the same connection or reported as one-sided, and the direction is decided by which side talks HTTP requests. "
  "Exchanges are output exactly once each, in their own order within a connection, and always taken from the connection whose current position in time (Date plus Age, else the last known time, else the capture's time hint) is earliest.",
  ["inputs", "histories", "schedules"],
  "All sets of file names and all interleavings of connections with or without dates.",
  "Tests hold three captures.",
  ["httpolice/inputs/streams.py"],
  [("_recombine_streams", "httpolice/inputs/streams.py"), ("_rearrange_by_time", "httpolice/inputs/streams.py"), ("_exchange_time", "httpolice/inputs/streams.py")])
p("C17", "HAR entries and CGI or HTTP/2 header lists convert without loss or invention",
  "Every HAR entry becomes one exchange whose method, target, scheme, status and headers are those recorded (pseudo-headers removed, target form chosen by the presence of Host), whose version is unknown for creators known to misreport it, and whose body is present, empty, unavailable or unknown as the recorded sizes and text say. "
  "Removing HTTP/2 pseudo-headers leaves all other headers in order and returns every removed one, and CGI variables convert to exactly the corresponding header fields with Host first; a malformed HAR file gives an input error, never a wrong exchange.",
  ["inputs"],
  "All HAR documents, header lists and CGI environments.",
  "Tests hold about fifteen HAR files from specific browsers.",
  ["httpolice/inputs/har.py", "httpolice/helpers.py"],
  [("_process_request", "httpolice/inputs/har.py"), ("_process_response", "httpolice/inputs/har.py"), ("pop_pseudo_headers", "httpolice/helpers.py"), ("headers_from_cgi", "httpolice/helpers.py")])
p("C18", "No input makes the analysis crash",
  "For all byte streams and all messages built from well-typed parts, framing, checking and text reporting finish without raising an exception other than the documented input error.",
  ["inputs"],
  "All byte streams and messages.",
  "Tests run only inputs someone thought of; crashes need unusual values.",
  ["httpolice/framing1.py", "httpolice/request.py", "httpolice/response.py", "httpolice/message.py", "httpolice/header.py", "httpolice/syntax"],
  [("check_exchange", "httpolice/exchange.py"), ("parse_streams", "httpolice/framing1.py"), ("semantic actions", "httpolice/syntax/*.py")])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
