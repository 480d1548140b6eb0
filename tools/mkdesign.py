import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
T={}
def d(i,**k): T[i]=k
d('C01',spec='`Routing.tla`: a table is a sequence of route descriptions (pattern parts, host, converters with arguments, defaults, alias, redirect, build-only), registered through the same factories (Submount, Subdomain, EndpointPrefix, RouteTemplate) the user has. `Match` is written from the documented ranking as a choice over *all* covering routes, not as the sorted scan the code does.',
  bounds='every pair of routes of a pool of overlapping patterns x a pool of paths (RoutingMC; quick 2 routes, thorough 3), plus seeded tables of up to eight routes with nested factories, five converters and paths derived from the patterns; redirects to a template or computed by a callable, routes without endpoint bound twice, routes that must not bind, `iter_routes`.',
  why='the answer depends on the relative weight of all routes in the table and on converters; tests look at single tables.')
d('C02',spec='`Routing.tla`: `Build` is the choice among suitable routes; StateInv/StepInv state that the built URL matches back to the same endpoint and values (or to a better ranked route).',bounds='pool pairs x value assignments (RoutingMC "build"), seeded tables, query values as text, lists and multi dicts, `None`, Latin-1 maps; build followed by match of the result in the real code.',why='an inverse has to hold for every value a converter can yield, including escapes, blanks, delimiters.')
d('C03',spec='`Routing.tla`: `Redirect` gives the target; "follow" replays the chain of redirects to its end; StepInv: absolute, same scheme/host/script, query kept, chain shorter than the table.',bounds='RoutingMC "follow" over pool pairs (thorough: triples), seeded tables rich in branch routes, defaults and aliases; hostile paths (`//evil`, `%2F`, `\\\\`, `http:`).',why='termination and same-site are statements over every table and every path.')
d('C04',spec='`Dispatch.tla`: a dispatcher is a tree of bindings; lookup is defined on the tree, histories of adding interleave with lookups.',bounds='all histories of McDepth additions over a small vocabulary; seeded deeper trees with class views and representations.',why='the answer depends on the whole history of registrations.')
d('C05',spec='`Negotiate.tla` (acceptability and rank as an order on tuples) and `Accept.tla` (histories on accept headers and choices, single questions of acceptability with their details, headers made from their parts).',bounds='every header of up to two ranges over a small alphabet x representation lists (AcceptMC) and seeded malformed headers.',why='"never worse than another available one" quantifies over all alternatives.')
d('C06',spec='`ErrDispatch.tla`: exception classes with multiple inheritance, handlers with representations, nested exception dispatchers, applications answering requests.',bounds='all small hierarchies x handler tables x outcomes; seeded larger.',why='the closest class in the MRO *that is acceptable* depends on hierarchy, registrations and request together.')
d('C07',spec='`Lifecycle.tla`: application, middleware stack, body kinds, server that takes k chunks then closes (or a body that raises); counters for every callback; middleware closes by a function, a list it shares over requests or nested iterators. `Resp.tla` for responses outside of an application.',bounds='every configuration x every disconnect point within the bound (exhaustive), seeded larger stacks.',why='exactly-once must hold at every disconnect and failure point.')
d('C08',spec='`Resp.tla`: the state of a response body (sequence, stream, frozen, passthrough) with the lengths; sending is a transition with the emitted octets; the writable stream of a response (write, writelines, flush, close, encoding) and passing a body on unchanged are part of it.',bounds='all histories of body operations to McDepth x all methods and statuses of interest; seeded.',why='framing depends on the history of body operations and on method x status.')
d('C09',spec='`ETags.tla` (tag lists), `Conditional.tla` (response histories x conditional requests; the announced length before and after, freezing, contradictory arguments).',bounds='McDepth 3/5 over a small vocabulary; seeded tag lists incl. malformed ones.',why='the decision is over pairs (tags of the response, lists of the request) with dates as fall-back.')
d('C10',spec='`Headers.tla`: an ordered list of (name, value); each public operation a transition; all reads are the observation after every step.',bounds='all histories to depth 3/5; seeded histories of 14 operations.',why='an abstract data type holds over histories.')
d('C11',spec='`Headers.tla` and `HeaderWrite.tla`: the latter has one event per interface that can write a response header.',bounds='every entry point x texts with line breaks at every position (exhaustive) plus seeded histories with many of them.',why='one forgotten entry point is enough.')
d('C12',spec='`MultiDict.tla`: two dictionaries (plain or ordered) and their combination, aliasing and equality (by content, by order) included.',bounds='all histories to depth 3/4 over two keys and two values; seeded histories of up to 14, some on equal content in another order.',why='abstract data type over histories, views must agree at each step.')
d('C13',spec='`Immutable.tla`: twelve kinds of objects, every mutating method (inherited ones included), copies, construction from keys.',bounds='depth 4/6 exhaustive over operations, seeded.',why='inherited mutators are a long list; each must be closed.')
d('C14',spec='`Views.tla`: the header text and the view as one state; after each event the text is parsed by the specification and compared; the same change on a view nobody listens to has to end the same way.',bounds='depth 3/4 per view kind; seeded.',why='text and view are two representations that drift over histories.')
d('C15',spec='`HttpText.tla` (list, dict, options, quoting), `Ranges.tla`; `HeaderForms.tla` drives them.',bounds='every text to length 4/6 over delimiters for every parser; seeded values dumped and parsed.',why='"arbitrary text never raises" is a statement over all texts.')
d('C16',spec='`CookieText.tla`, `Cookies.tla`: server and echoing client.',bounds='every header text to length 4/6 and every value to length 2/3 over the characters that matter; seeded.',why='round trip and injection are over all values.')
d('C17',spec='`Streams.tla`: the server stream, the limit, position; reads as transitions, disconnects, fragmented delivery for the iterators.',bounds='every sequence of reads (depth 3/4) on every short body and limit; every cut of every short text x buffer sizes.',why='chunking and disconnect schedules.')
d('C18',spec='`Mounts.tla`: mount table and export table, a file system that changes, cached validators.',bounds='every path of 3/4 segments incl. `..`, `.`, empty; all fetch/change histories to the bound.',why='"any path leading outside" quantifies over all paths.')
d('C19',spec='`Hosts.tla` over `UrlForms.tla`: trust as a relation on host texts; URL reconstruction.',bounds='every host text of 2/3 pieces (ports, brackets, at-signs, dots) x trusted lists; seeded environments.',why='one accepted hostile host is enough.')
d('C20',spec='`Calendar.tla` (proleptic Gregorian calendar from first principles), `Dates.tla`.',bounds='year sweep (step 59 quick, 1 thorough) x second sweep; seeded moments, zones, layouts.',why='leap years, century rules, zones.')
d('C21',spec='`Client.tla`: request descriptions to environments (forms, multipart bodies octet for octet, queries, base URLs), applications as rule tables, cookie jar, redirect chains.',bounds='every two-page site of a few statuses, Locations and cookies asked twice (ClientMC); every delicate path/base/query/name/value alone; seeded sites, histories of requests.',why='a redirect graph with a cookie jar is a state machine; tests use the client as a tool only.')
d('C22',spec='`Url.tla`, `Utf8.tla`, `UrlForms.tla`, `UrlConv.tla`: both conversions, strict, replacing or ignoring broken octets.',bounds='every combination of delicate pieces in every component; seeded whole URLs.',why='idempotence and meaning are over all URLs.')
d('C23',spec='`Filename.tla`.',bounds='every text of 2/3 delicate pieces; seeded longer.',why='a safety statement over all texts.')
d('C24',spec='`AuthText.tla`, `Auth.tla` (Basic, Digest, challenges) with base 64 from first principles.',bounds='every user/password/parameter of 2/3 delicate characters in each way of writing; seeded malformed.',why='round trip over all credentials.')
d('C25',spec='`Request.tla`: every property of a request as a function of the environment, for classes that decode strictly, loosely or with replacements and keep their own kinds of structures; stream reading order, the stream handed to a parser, attached files and closing.',bounds='every way of announcing and reading short bodies, every short query/path/header value; seeded environments.',why='dozens of views x absent/malformed forms.')
d('C26',spec='`Threads.tla` (what answers are allowed to overlapping calls: a linearisation of `Routing.tla`) and `Table.tla` (a PlusCal-like model of the shared table: the designs *publish*, *norecheck*, *flagfirst* satisfy it, *inplace*, *unlocked*, *flagearly* are refuted by TLC).',bounds='the driver runs real threads under a deterministic scheduler (sys.settrace, switch at chosen lines); for two threads every single pre-emption point and seeded multi-switch schedules.',why='schedules.')
d('C27',spec='`Redirects.tla`: reference resolution (RFC 3986 as `urllib.parse` does it), the root of a request (`Hosts.tla`), plain forms (`UrlForms.tla`), the redirect page, slash appending; a response is set and sent to several environments.',bounds='every location of a head and two (thorough: three) pieces of delimiters, dots, escapes, quotes and international text; every path of two (three) pieces; seeded histories of set, redirect, append and send over up to three environments.',why='every delimiter can stand at every place of a location or path; the tests have four plain ones.')
d('C28',spec='`RespHead.tla`: status as number and text, content types, the typed header properties (texts, numbers, dates, retry delay), rebuilding a response from an application, removing entity and hop-by-hop headers; the wire form comes from `Resp.tla`, dates from `Calendar.tla`.',bounds='every pair of some 230 operations on two classes (utf-8 with automatic length, Latin-1 without length or default type); seeded histories of up to 14 operations over all status codes and header names.',why='a property reads the same header another operation, a raw write or a rebuilt response wrote; the tests set each property once.')
d('C29',spec='`App.tla`: the state is the builder and the applications built so far; requests are answered by composing `Routing.tla`, `Dispatch.tla`, `Negotiate.tla` and `ErrDispatch.tla` (INSTANCE), wrapped in the layers of middleware; links come from Routing and are requested again.',bounds='all combinations of eight layer lists, four handler lists, with and without default redirects and address, for some 60 requests and links (depth 1), every pair of a building operation, build, request or link (depth 2); seeded builders of up to thirty operations with applications built in between.',why='what an application answers depends on the order in which things were added, on when it was built and on five components agreeing; the tests of the application cover single paths through them.')
d('C30',spec='`Files.tla`: name, headers, octets and position of one wrapped stream, and the places it was saved to; an octet of the specification may stand for a block of thousands in the real file, so that every internal buffer is crossed.',bounds='every way of wrapping (given, added, by path, by descriptor) times names and headers; every sequence of up to four (thorough: five) operations on short files of each kind of stream; seeded longer files.',why='position and destinations are a history; every kind of stream names itself differently.')
d('C31',spec='`Errors.tla`: the classes there are (with those of the application and the wrapped ones), the mappings and the aborters made of them.',bounds='every error made of every combination of arguments, every history of three operations of registering, wrapping, making aborters and aborting; seeded histories over class hierarchies.',why='inheritance of number and description through several levels and the moment a mapping is copied are invisible to single calls.')
d('C32',spec='`Builder.tla`: the description as base, query or arguments, body or fields and files, headers; the encodings of forms are those of `Client.tla` (INSTANCE).',bounds='every history of three (thorough: four) of some thirty changes, looks and builds from a bare description; seeded descriptions of every kind with up to ten changes.',why='the views replace each other: what a later look says depends on the order of the changes before.')
out=[]
w=out.append
w(open('/verif/tools/design/head.md').read().rstrip()+'\n')
w('## Per property\n')
for p in props:
    i=p['id']
    t=T.get(i)
    if not t: raise SystemExit('no text for '+i)
    w('### %s %s\n' % (i,p['title']))
    w('- **Specified:** '+t['spec'])
    w('- **Bounds:** '+t['bounds'])
    w('- **Beyond tests:** '+t['why'])
    w('')
w(open('/verif/tools/design/tail.md').read().rstrip()+'\n')
import os
w('## Planted bugs and the checks that catch them\n')
w('Built and confirmed by `tools/seed.py` from `tools/bugs.py`; `tools/trybugs.py` applies each and runs the check of its property. Each one below is reported by that check (quick tier, exit 1) unless marked.\n')
missed=set()
for p in props:
    bugs=[]
    for b in sorted(os.listdir('/verif/seeded')):
        m=json.load(open('/verif/seeded/%s/meta.json'%b))
        if m['property']==p['id']: bugs.append('`%s`%s - %s'%(b,' (MISSED)' if b in missed else '',m['needs']))
    w('**%s** (%d)\n'%(p['id'],len(bugs)))
    for b in bugs: w('- '+b)
    w('')
k=json.load(open('/verif/known_findings.json'))
w('## Defects found in verktyg\n\nRepaired, one `fix:` commit each (also in `known_findings.json`):\n')
for f in k['fixed']:
    w('- '+f.replace('fixed: property=','',1))
w('\nKnown, not repaired: %s\n' % ('none.' if not k['known'] else ''))
for f in k['known']: w('- %s: %s'%(f['property'],f['what']))
open('/verif/DESIGN.md','w').write('\n'.join(out).rstrip()+'\n')
