#!/usr/bin/env python3
"""Writes /verif/known-findings.json: the genuine defects that were found."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines()
fixed = {  # start of the subject: (properties, what failed)
 "keep looking for a match": ("P01", "a matched node whose handler rejects the method hid other matching routes: with GET on /a/:b and POST on /:x/c, POST /a/c gave 405"),
 "don't treat an exhausted variable sequence": ("P01 P06", "a path that ended inside a multi-segment variable was treated as matching the variable's parent"),
 "don't let a rejecting route affect": ("P01", "the status set by routes that were tried and rejected was still set when another route's handler ran"),
 "restore the route state when a tree router rejects": ("P05", "a fallback path router continued from where the rejecting router had stopped reading the path"),
 "accept empty segments in router paths": ("P01 P03", "registering a path with an empty segment in the middle put the handler at another path"),
 "ignore variable segments that were saved": ("P02 P25", "variables of abandoned routes were mixed into the variables of the route that ran"),
 "set the handler when on_route is used": ("P03", "on_route on a node that already existed dropped the handler"),
 "restore the variables when a handler rejects": ("P05 P02", "variables of a route whose handler rejected the request leaked to the fallback"),
 "order links consistently": ("P06", "unequal links compared as equal and the order was not antisymmetric"),
 "don't make parameters of empty parts": ("P07 P08", "an empty query or a doubled '&' gave a parameter with an empty name"),
 "keep the bytes of query parameters": ("P07 P08", "bytes of query values that are not UTF-8 were replaced in absolute-form targets"),
 "separate the fragment from the path": ("P07", "a question mark inside a fragment was taken as the start of a query"),
 "accept a multipart boundary": ("P09", "a multipart boundary that reads utf-8 was not accepted"),
 "run the ends of the response filters": ("P11", "the end pieces of response filters came in the wrong order, were filtered by the wrong filters, and their errors were lost"),
 "report the unfiltered length": ("P24 P11", "writing to a chunked response reported the filtered length, so that write_all repeated or lost data"),
 "don't panic when ending a chunked response": ("P24 P11", "dropping or ending a chunked response that had failed panicked"),
 "forget the content length of responses": ("P11", "a content length set by the handler stayed beside the filtered body"),
 "don't panic when a filter silently aborts": ("P11 P24", "a chunk that a filter silently stopped made the chunked writer panic"),
 "don't drop the data of other filters": ("P11", "a filter that silently stopped a piece made the pieces of other filters disappear"),
 "map extensions of video files": ("P16", "extensions of video types were mapped to other types"),
 "report directories as errors": ("P14", "sending a directory began a response, and a file that had been read from was declared longer than what was sent"),
 "don't reverse the order of strings": ("P17", "str < MaybeUtf8 and MaybeUtf8 < str contradicted each other"),
 "release the thread when a handler panics": ("P20", "connections whose handler panicked were counted as in use for ever"),
 "close the connection also when a response filter": ("P20", "the close instruction was missing when a response filter failed, and the connection stayed open"),
 "skip the unread rest of request bodies": ("P21", "what a handler did not read of a request body was taken for the next request on the connection"),
 "accept the data that is written to mock": ("P24", "writing to the streaming forms of a mock response failed"),
 "release the thread also when a panic comes": ("P20", "a request with an invalid Content-Length makes hyper panic before the handler is called, and its connection was counted as in use for ever"),
 "stop reading multipart forms": ("P22", "a multipart form without its last boundary made the parser read for ever"),
 "don't parse content types": ("P22", "a Content-Type with certain characters that are not ASCII, as in a/b; c=\"é\", made every handler's request panic before it was routed"),
 "close the connection if a filter removes": ("P20", "the connection stayed open if one response filter removed the Connection header and a later one failed"),
 "apply the builder context to the items": ("P28", "a TreeRouter merged in a scope without variable names didn't pass the builder context on to its items"),
 "don't overflow when more threads": ("P20", "free_threads near usize::MAX overflowed: a panic in debug builds, never refusing in release builds"),
 "let Arc and boxed handlers describe": ("P30", "a handler in an Arc or a box lost its description, also in hyperlinks"),
 "don't send the body of a response to a HEAD": ("P10", "the body of a response to a HEAD request was sent, and was taken for the next response on the connection"),
 "don't complete the response of a handler that panics": ("P32", "a response whose handler or filter panicked was sent as an empty or complete one, with the status it had so far"),
 "don't keep the connection of a file": ("P14", "a file that became shorter while it was sent left a response without its end on a connection that was kept, and the next response was taken for its rest"),
 "don't print while routers": ("P04", "merging routers printed to the standard output, and panicked when that could not be written"),
}
out = []
for line in reversed(log):
    h, s = line.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    hit = [v for k, v in fixed.items() if s[5:].startswith(k)]
    assert len(hit) == 1, line
    for p in hit[0][0].split():
        out.append(dict(property=p, status='fixed', commit=h, what='fixed: property=%s %s %s' % (p, h, hit[0][1])))
for f in json.load(open(root + '/tools/open-findings.json')):
    out.append(dict(f, status='open'))
open(root + '/known-findings.json', 'w').write(json.dumps(dict(findings=out), indent=1) + '\n')
print(len(out), 'findings')
