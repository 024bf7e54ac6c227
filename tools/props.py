"""What each property's check builds and runs."""
PROPS = {
    'C01': dict(builds=[dict(harness='c01')], quick_s=420,
                technique='explicit-state exploration of operation sequences on the real Value/Collection against an executable register/map specification',
                bounds='full product of write options on every prefix state; every operation sequence of length 3 (quick) / 4 (thorough) over a 35-operation alphabet; 8 resource configurations',
                note='Exhaustive over the stated operation alphabets and depths; deeper histories and other message types are not covered. The reference semantics in harness/rm are trusted.'),
}
PROPS['C05'] = dict(builds=[dict(harness='c05')], quick_s=420,
    technique='exhaustive enumeration of (stored message, written message, update/writable/reset mask) triples on the real write path against an independent FieldMask interpreter',
    bounds='every pair (quick) / triple (thorough) of 17 mask paths incl. invalid ones x 10 writable sets x 5 reset masks x a product universe of messages; every field kind of a message with all protobuf field kinds',
    note='Exhaustive over the stated universe of messages and masks. Trusts harness/rm/mask.go. A mask naming a parent of writable fields may be rejected or intersected; an empty intermediate message equals an absent one.')
PROPS['C06'] = dict(builds=[dict(harness='c06')], quick_s=420,
    technique='exhaustive enumeration of (message, read mask) over every read path of the real code against an independent projection',
    bounds='every list of up to 3 of 17 mask paths (valid and invalid) x a product universe of messages for filters; every pair of paths x message pairs for Get/List/Pull/PullID; every field kind with nested and bogus continuations',
    note='Exhaustive over the stated universe. Trusts harness/rm/mask.go. Results for invalid masks are only required not to panic and not to mutate.')
PROPS['C04'] = dict(builds=[dict(harness='c04')], quick_s=420,
    technique='exhaustive enumeration of single-writer operation sequences with a subscriber at every position, plus bounded exploration of all interleavings of a writer with an opening subscriber, on the real Value/Collection',
    bounds='every sequence of 3 (quick) / 4 (thorough) of 19 collection and 12 value operations x 36 subscription/resource configurations, a Pull and a PullID opened before every operation; all schedules with <=2 (quick) / 3 (thorough) deviations of five 3-write scripts against an opening subscriber',
    note='Exhaustive over the stated alphabets, depths and deviation bounds. Whether an updates-only subscriber already holds the current value for duplicate suppression is left open.')
PROPS['C08'] = dict(builds=[dict(harness='c08')], quick_s=420,
    technique='exhaustive enumeration of predicate truth tables x operation sequences x subscription positions on the real Collection and booking server against the filtered-collection specification, plus bounded schedule exploration of racing writers',
    bounds='all 64 predicates over 2 ids x {two values, absent} x every sequence of 3 (quick) / 4 (thorough) of 8 operations x 12 configurations, backpressured, lossy and slow lossy subscribers at every position; all schedules with <=2 / 3 deviations of 56 racing scenarios; all booking/request period triples on a 4/5 point grid',
    note='Exhaustive over the stated alphabets and bounds. An absent item is never part of the filtered collection whatever the predicate says about it.')
ST = dict(tag='.st', instr=['pkg/resource', 'internal/minibus'])
PROPS['C03'] = dict(builds=[dict(harness='c03', weight=3), dict(harness='c03', args=['-mode', '8', '-bound', '1'], **ST)], quick_s=420,
    technique='stateless model checking of the real code: all schedules of two or three writers racing with an opening subscription within a deviation bound, virtual time and exact quiescence',
    bounds='every pair-plus-one assignment of 5 collection operations to two writers x {Pull, PullID} x updates-only x backpressure x initial contents, <=1 (quick) / 2 (thorough) deviations; 5 chosen races and all single-operation races, <=2-3 / 4 deviations; value writers 2+1, 1+1+1 and 1 with <=2,1,3 / 3,3,5 deviations; the same scenarios with a scheduling point before every statement of pkg/resource and internal/minibus, 1 deviation',
    note='Exhaustive within the stated deviation bounds over synchronisation-point schedules; unsynchronised code is race checked in C11 and interleaved per statement in a second build.')
PROPS['C09'] = dict(builds=[dict(harness='c09')], quick_s=420,
    technique='exhaustive enumeration of write/receive sequences and bounded exploration of writer/subscriber schedules on the real code, in virtual time',
    bounds='every sequence of 7 writes/receives on one id, 6 on two ids, 5 with drains (9/7/6 thorough) x 8 subscription configurations, view folded strictly after every receive; idle lossy subscribers after 0-2 receives against 1-2 writers under all schedules with <=2 / 3 deviations; backpressured readers that stop after 0-2 receives; Value writes against readers with 6 pacing patterns and 0-4 other subscribers in virtual time',
    note='Exhaustive over the stated alphabets, depths and deviation bounds. How far a writer may run ahead of a backpressured reader is allowed a small fixed pipeline.')
PROPS['C10'] = dict(builds=[dict(harness='c10')], quick_s=420,
    technique='stateless model checking of the real code: all schedules of subscriptions, writers, cancellations, deadlines and bus senders within a deviation bound, with exact quiescence, virtual time and goroutine counting',
    bounds='one subscription of every kind x backpressure x updates-only x stops receiving after {0,1,never} against a cancel at any point, a deadline, and item removal, with 0-8 other subscriptions and 0-4 writes (<=3 / 5 deviations for one subscription, fewer the more goroutines); bus with 0-2 senders x 1-2 events x 1-3 listeners x late join x cancel x listener that stops and cancels (<=1-3 / 3-5 deviations); Send with a stalled listener; DropExcess with 0-3 inputs; every Pull method of all 22 trait models (<=1-2 / 2 deviations)',
    note='Exhaustive within the stated deviation bounds. Subscriptions of the trait servers are covered by C13/C14.')
PROPS['C02'] = dict(builds=[dict(harness='c02', weight=2), dict(harness='c02', args=['-mode', '8', '-bound', '1', '-only', '[pvlw]*/*/*'], **ST)], quick_s=420,
    technique='stateless model checking of the real code with a brute-force linearizability check of every explored history against the write specification',
    bounds='every pair of 22 calls (adds, plain/masked/reset updates, increments, compare-and-set by value and check, create-if-absent, generated ids, deletes with preconditions, reads) from 4 initial states (<=3 quick / 6 thorough deviations); every triple and every 2x2 program of 9 calls (<=2 / 3); 17 chosen programs of 3-5 calls on up to 4 goroutines (<=2 / 3); the same for Value; up to 7 interfering calls forced into the windows of 14 calls; pairs and chosen programs again with a scheduling point before every statement of pkg/resource and internal/minibus (1 deviation)',
    note='Exhaustive within the stated deviation bounds. A call that fails with one of the five codes while overlapping a successful write is accepted as a lost race and must have no effect; every other outcome must be linearizable.')
PROPS['C17'] = dict(builds=[dict(harness='c17')], quick_s=420,
    technique='exhaustive enumeration of member outcomes x completion orders x cancellation behaviour with exact quiescence after each completion, plus bounded exploration of all schedules of free-running members, on the real executors and trait groups',
    bounds='every strategy (and unspecified/unknown values) through Execute and its own function, 0-3 (quick) / 0-4 (thorough) members, every vector of {ok, nil result, error, error with result} x every completion order x members that do or do not obey cancellation x caller cancelling before any completion; free-running members under all schedules with <=3,2,1 / 5,4,3 deviations for 1,2,3 members; onoff and light groups: unary calls with 0-4 members, subscriptions with 0-2/3 members x open failures x stream ends x failing Send',
    note='Exhaustive within the stated bounds. With no members only absence of panics and leaks is demanded of Any/One/Fast/Race. Whether a failed gathering call waits for the remaining members is left open.')
PROPS['C18'] = dict(builds=[dict(harness='c18')], quick_s=420,
    technique='exhaustive enumeration of a bounded space of timestamps, periods, segment lists and modes, and of operation sequences on segment lists, on the real functions against a reference step-function/point-set semantics',
    bounds='every pair of 70 timestamps spanning the valid range; every pair of periods with optional bounds on 4- and 7-instant grids; every list of up to 3 segments with magnitudes {0,1,2,-1} x lengths {0,1,2,infinite} and every list of up to 2/3 with shapes; every cut and shift at half-unit steps inside and outside; sums of every pair (3 x 2/3 segments), triples of lists of 2, lists with rounding magnitudes; every sequence of 3 (quick) / 4 (thorough) of 11 operations from every 2-segment list; modes with every combination of 5 start times, pairs and triples',
    note='Exhaustive over the stated universes; functions are piecewise constant, so sampling every half unit, and a nanosecond to each side of a breakpoint, decides equality. A level of 0 and no level are interchangeable where Sum or Shift add or drop them.')
PROPS['C19'] = dict(builds=[dict(harness='c19')], quick_s=420,
    technique='explicit-state exploration of a reference model of the electric modes with every transition replayed on the real model and server, exhaustive operation sequences, and stateless model checking of concurrent calls with a brute-force linearizability check',
    bounds='every reference state with <=4 (quick) / 5 (thorough) modes within 5 / 9 operations x 110 operations (add, create, update with 8 masks / preconditions / create-if-absent, delete with allow-missing and preconditions, set, change and clear active, through the model and its server) from 4 initial configurations; every sequence of 3 / 4 of 20 operations; PullModes and PullActiveMode views after every sequence of 2; every pair of 11 calls (<=2 / 4 deviations), triple and 2+1 program (<=1 / 2), pairs with subscribers (<=1 / 2)',
    note='Exhaustive within the stated bounds. The initial active mode is one of the modes or the dummy. The start time after re-selecting the active mode is left open. An update that would mark a second mode normal may fail or demote the other.')
PROPS['C20'] = dict(builds=[dict(harness='c20')], quick_s=420,
    technique='exhaustive enumeration of request sequences, masks and configurations on the real trait models and servers against small executable specifications, and stateless model checking of concurrent calls whose outcome must match some order of the calls',
    bounds='parent: every sequence of 3 (quick) / 4 (thorough) of 39 operations from 3 states, every subset of 5 traits x every list of up to 3 / 4; vending: every used/remaining x unit (8, incl. unknown) x amount x quantity (incl. absent), sequences of 5 / 6 of 7 quantities; every unit pair x 9 values; fan: every pair (thorough: triples) of ~90 requests x 4 preset lists, every combination of fields x 16 masks x relative from 6 states, every unambiguous initial value; modes: sequences of 3 / 4 of 18 requests x 6 mode lists, steps -12..12 and int32 extremes; enter/leave: sequences of 6 / 7 of 7; meter: sequences of 5 / 6 of 6 x 13 initial readings; publication: sequences of 4 / 5 of 18 requests, 2916 contents for version collisions; all pairs (some triples) of the concurrent operations of each (<=1..3 deviations quick, <=5 thorough)',
    note='Exhaustive within the stated bounds. Left open: what a request without a mask does to parts of the fan speed it gives no value for, whether modes not mentioned by a non-relative update without a mask are kept, and refusing to dispense an absent quantity.')

PROPS['C16'] = dict(builds=[dict(harness='c16')], quick_s=420,
    technique='exhaustive enumeration of message pairs over all field kinds and of tolerances against independent specifications of the comparers (exact rational arithmetic), and of write sequences on the real Value, Collection and models against the fold of what each subscriber holds',
    bounds='default comparer: every pair of ~4..14 values of each of the fields of TestAllTypes (all kinds, lists, maps, oneofs, presence) plain, nested in a message, list, map, oneof and as dynamic message; mutations of an empty and a full message in up to two places; 60 unknown-field encodings pairwise in 5 places; 49 messages of various types pairwise; change_time of 32 changes in lists up to 2 and of 7 message names. Tolerances: 28 floats pairwise in 15 places x 5 margins x 4 fractions; 28 timestamps and 90 durations pairwise in 4 places x 8 tolerances; percentages 5; all subsets of 3 comparers; And/Or truth tables up to 4 operands. Streams: sequences of 4 (quick) / 5 (thorough) writes of 4..7 values x 8 equivalences x 6 subscriptions (+6 late) of Value, Collection (x include) and PullID; all patterns of pauses of a subscriber without backpressure; the fan, demand, energy level and electric mode models',
    note='Exhaustive within the stated bounds. Left open: whether a subscription for updates only receives a first change that is equivalent to the value before it; rounding at the edge of a percentage.')

PROPS['C14'] = dict(builds=[dict(harness='c14')], quick_s=420,
    technique='exhaustive enumeration of update requests, read requests and short histories with open streams through wrapper, router and wrapper against every model server and memory device, in virtual time with exact quiescence, plus bounded schedule exploration of updates racing with each other and with opening streams',
    bounds='36 registers of all 30 servers with a resource (all but waste, which has no Get); reads: every mask of one or two of the top level and nested paths, in the initial state and after each operation of the alphabet (pairs of operations thorough); updates: every meaningful, empty, full and single-field body x {no mask, empty, every path, all, unknown, some chosen} masks x every bool flag from 3 (quick) / all start states with 2 streams; histories: every sequence of 2 / 3 operations x {no, one, two} streams with every mask x updates-only opened at every point, and of 3-4 / 4-5 operations with two streams; races: every update against an opening stream and pairs of updates under an open stream, every schedule with <=1 / 2 deviations',
    note='Exhaustive over the stated alphabets and bounds. After every operation the next Get, all streams and rejected updates are checked. Traits without an update method are written through their model.')
PROPS['C15'] = dict(builds=[dict(harness='c15')], quick_s=420,
    technique='exhaustive enumeration of collection sizes, id families, page sizes, page size sequences, read masks, tokens and deletions between pages on the real model servers, every token chain followed to its end against the model\'s listing',
    bounds='7 paged RPCs. Sizes 0-60 x 3 id families (incl. prefixes of each other, empty id) x ~15 page sizes (incl. 0, 1000, 5000) x 4 read masks; sizes 99..2001 around the default and the cap; every sequence of 5 (quick) / 7 (thorough) page sizes on up to 7 / 10 items; negative sizes incl. the int32 minimum at every page; ~30 hand-made tokens and every single-character corruption and truncation of issued tokens; every subset of items deleted after page 0 or 1',
    note='Exhaustive within the stated bounds. A token whose corruption still decodes to a key is only required to end (any page of valid items or an error status). An extra empty last page is not judged.')

PROPS['C13'] = dict(builds=[dict(harness='c13', weight=3), dict(harness='c13', tag='.st', instr=['pkg/wrap'], args=['-mode', '9', '-bound', '2', '-only', '[sc][ca][hn]*/*'])], quick_s=420,
    technique='exhaustive enumeration of call scripts (both sides in lock step), each executed over a real gRPC connection and through the wrapper inside the controlled scheduler and compared after every step; and all schedules of free-running calls, with and without a concurrent cancellation, within a deviation bound',
    bounds='5 call shapes (unary, unary as stream, server, client, bidi). Lock-step scripts: every sequence of client steps (receive, send, half-close, header, cancel/deadline) and server steps (receive, set/send header, set trailer, send, return) in which sends meet a receiver: depth 6-7 (quick) / 7-8 (thorough) with metadata, 9 / 11 with messages only, 5 / 6 with a deadline, 5 / 6 with 26 kinds of returned error, 7 / 9 with a receiver of its own on the server. 169 pairs of header/trailer metadata x 9 places, 70 messages as generated/dynamic in each place, every mismatch of shapes, misuse. Schedules: 20 programs, each also with a cancellation at any point, 2 deviations (quick) / 3 (thorough), also with a scheduling point before every statement of pkg/wrap',
    note='Exhaustive within the stated bounds. Not compared: how sends fail once a call is cancelled, what the server sees after a cancellation (other than a half-close or messages that never were), transport details (content-type, user-agent, grpc-status-details-bin).')

PROPS['C12'] = dict(builds=[dict(harness='c12', weight=3), dict(harness='c12', tag='.gen', regen=True, args=['-only', 'route/*']),
                            dict(harness='c12', tag='.st', instr=['pkg/router'], args=['-mode', '8', '-bound', '2', '-only', 'conc/*/*/*'])], quick_s=420,
    technique='exhaustive enumeration of routes, requests and client scripts over every method of every generated router and wrapper, of registry histories against a reference map, and stateless model checking of concurrent registry use with a brute-force linearizability check; the same enumeration on freshly generated routers and wrappers',
    bounds='all 65 services and every method: 17 ways for a name to lead to a client or not x requests with each field alone, all fields, unknown fields; 5 errors, responses with each field; streams of 0-2 (and one per field) messages x header x trailer x end {EOF, 5 errors, none} x failures of opening, header, and of the caller at the header or any message; wrapper, served and default-named callers x wrapped, routed, remote clients compared with calling directly; every history of 5 (quick) / 6 (thorough) of 7 operations x 64 fallback/factory behaviours, of 3 / 4 of 9 operations for each generated router; all pairs, triples and chosen programs of concurrent calls (<=4,2,2 / 6,3,3 deviations, and per statement of pkg/router <=2); interceptors with every request and response type and 13 kinds of name field; generated files against checked-in ones by file, exported declaration and behaviour',
    note='Exhaustive within the stated bounds. Checked-in generated code is compared with the generators\' output by declarations and behaviour rather than by text. Header and trailer of unary calls are not covered.')

PROPS['C07'] = dict(builds=[dict(harness='c07')], quick_s=420,
    technique='exhaustive enumeration of call sequences over the exported methods and the servers of every trait model and of the core resources, run on the real code under the controlled scheduler with exact quiescence; every message that crosses the API is copied and compared again after every later call, and the caller overwrites every message it passed in',
    bounds='31 models (Value and Collection each plain, with writable fields, without duplicates; all trait models and memory devices) with their servers: every pair of calls up to 4,000 (quick) / 60,000 (thorough) pairs per model and every triple of writes up to 2,200 / 40,000 per model, calls thinned evenly per method where there are more; arguments from 2-6 messages with nested, repeated and map content, an empty message and the message read last; masks on nested, list, map and whole fields, reset masks, preconditions, interceptors; subscribers with and without backpressure for every kind of Pull from the start, plus those opened by the sequence; a second model built the same way, to see state shared between models',
    note='Exhaustive within the stated alphabets. A result of a write may share the message the caller passed to that same write. Interceptors that change the message they are given (documented) are not combined with messages obtained from reads.')

def _race(h, quick='', thorough='', weight=1, bound=0):
    o = lambda p: ['-only', p] if p else []
    return dict(harness=h, race=True, weight=weight, args=o(quick) + (['-bound', str(bound)] if bound else []), targs=o(thorough))


PROPS['C11'] = dict(
    builds=[
        _race('c07', weight=10),
        _race('c12', 'conc/**'),
        _race('c13', 'schedules/**,cancelled/**,duplex/**'),
        _race('c17', ''),
        _race('c19', 'conc*/**,watched/**'),
        _race('c20', 'parent/race/**,publication/race/**,enterleave/race/**,vending/race/**,mode/race/**', weight=2, bound=1),
        _race('c14', 'race/**', weight=2),
        _race('c10', 'cancel/**,sendCtx/**,dropExcess/**,deadline/**', weight=2),
        _race('c09', 'waits/**,idleValue/**,dropExcess/**', weight=2),
        _race('c08', 'racing/**', weight=2),
        _race('c02', 'pair/**,vpair/**', 'pair/**,vpair/**,triple/**,vtriple/**,window/**,vwindow/**', weight=3),
        _race('c03', 'val/**,deep/**', 'val/**,col/**,col1/**,col3/**', weight=3, bound=1),
        _race('c04', 'openingValue/**', 'opening/**,openingValue/**', weight=2, bound=1),
    ],
    quick_s=520, thorough_s=800,
    technique='exhaustive bounded exploration of the schedules of concurrent calls on the real code, built with the Go race detector: the detector judges every explored execution, and a race it reports is confirmed by running the same schedule again',
    bounds='quick: per model and wrapped server, every public method with itself and two others (all pairs for models with up to 8 calls; thorough: all pairs, with several argument choices per method) made by two goroutines at once, on one model and on two models, while a subscriber of each kind reads all that it receives, all schedules with up to 1 deviation; plus the concurrent scenarios of the checks for C02, C03, C04, C08, C09, C10, C12, C13, C14, C17, C19 and C20 at their quick bounds (2-4 goroutines, 1-2 deviations). Scheduling points: the synchronisation operations of the repository, for the wrapped streams and the event bus also those of context and grpc',
    note='A race is judged by happens-before, not by the order in which the accesses happened, so that two accesses without synchronisation between them are reported in every schedule that makes both of them; the schedules are enumerated to reach the accesses that only some of them make, and the orders of lock acquisition that hide a race. Races between two accesses of the harness are not judged.',
)
