"""Writes known_findings.json; fixed entries are found by the subject of their commit in /repo."""
import json, os, subprocess
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ('C01', 'fix: read XES booleans by value', "a boolean attribute 'False' was read back as True"),
 ('C01', 'fix: write XES log properties', 'log properties were written as untyped tags the reader could not read back'),
 ('C01', 'fix: keep the type of XES global default', 'declared default values of non-string types were read back as strings and wrongly elided'),
 ('C01', 'fix: save XES to a bare file name', "saving to a bare file name raised FileNotFoundError; non-ASCII text depended on the locale"),
 ('C02', 'fix: copies of traces and logs keep', 'copies of traces and logs lost trace attributes and declared default values'),
 ('C02', 'fix: use a hash base above', "distinct short names such as 'aA' and 'BB' had equal hashes (also C05, C07, C14)"),
 ('C02', 'fix: compare events, traces and logs', 'different objects with colliding hashes compared equal'),
 ('C05', 'fix: report a tandem array also when', 'a tandem array was not reported when its block occurred earlier without being repeated'),
 ('C05', 'fix: a tandem array is not primitive only', 'primitive tandem arrays were dropped when only a part of the block was a repetition'),
 ('C11', 'fix: the position entropy in a log with a single', 'position entropy of a log with one non-empty trace was NaN / raised'),
 ('C12', 'fix: entropy filters stop when nothing', 'entropy filters looped for ever or raised when all removable classes were gone'),
 ('C04', 'fix: activity discovery parts honour', 'should_narrow_activity was ignored by the combined discovery parts'),
 ('C08', 'fix: adding activities of unattached', 'activities of unattached events were added to a list shared with other contexts'),
 ('C12', 'fix: entropy filters remove nothing', 'max_events_to_remove=0 removed one class'),
 ('C14', 'fix: split traces into variants by event names', 'traces with different names but equal name hashes were put in one variant'),
 ('C17', 'fix: promotion of activity instances looks at', 'instances promoted from an upper level were looked up in the wrong log'),
 ('C17', 'fix: logs of promoted activity instances hold', 'logs of promoted instances shared their events with the log of the context'),
 ('C24', 'fix: edges of activity and class graphs lead', 'edges from and to names with colons led to ports of other nodes'),
 ('C19', 'fix: executing a remote pipeline does not remove', 'the backend address was removed from the initial context of the caller, so the second execution went to another backend'),
 ('C19', 'fix: a stream of results without any message', 'an empty stream of results raised AttributeError'),
 ('C20', 'fix: event log info is encoded', 'an event log info in the initial context raised TypeError'),
 ('C21', 'fix: markings absent from a petri net message', 'absent markings were decoded as empty ones'),
 ('C20', 'fix: PrintEventlogInfoBeforeAfter can be sent', 'PrintEventlogInfoBeforeAfter could not be encoded and its parts did not get their values'),
 ('C20', 'fix: DiscoverActivitiesUntilNoMore2 sends', 'the maximum tandem array length was sent under a key the backend does not read for it'),
 ('C21', 'fix: drawings can be exported to a file name', 'exporting to a file name without a directory raised FileNotFoundError (also C22)'),
 ('C21', 'fix: names in drawn petri nets and graphs', 'backslashes and <...> in names were interpreted as markup'),
 ('C24', 'fix: activity and class graphs contain the children', 'children of a node were missing if another node with its name had been added'),
 ('C22', 'fix: different names never share a color', 'colours could be black (undefined) and, after a nested pipeline or a placement diagram, equal to colours of other names'),
 ('C22', 'fix: the legend of activities diagrams', 'undefined events at the end of traces were not in the legend'),
 ('C22', 'fix: legends of diagrams contain names', "names starting with '_' were left out of legends, names with $ were formulas"),
 ('C22', 'fix: diagrams of logs without traces', 'drawing a log without traces raised'),
 ('C22', 'fix: histograms of traces of a single log', 'TracesHistogram always raised AttributeError, histograms of one log TypeError'),
 ('C22', 'fix: the histogram of position entropies', 'DrawPosEntropyHistogram painted over a diagram drawn before'),
 ('C22', 'fix: occurrences of a pattern have the same color', 'occurrences of a pattern got different colours if other attributes (timestamps) differ'),
 ('C22', 'fix: patterns which overlap each other', 'overlapping patterns shifted everything after them'),
 ('C23', 'fix: names are saved in the same encoding', 'saving names with non-ASCII text raised or depended on the locale of the process'),
 ('C23', 'fix: saved names of activities contain', 'children of activities which share a name were lost from the saved names'),
 ('C26', 'fix: no name gets the colour of undefined activities', 'Rust: the random colour of a name could be black, the colour of undefined events'),
 ('C26', 'fix: a part with an invalid option', 'Rust: an invalid regex of a diagram or of patterns, or a missing option, ended the execution without any final result'),
 ('C26', 'fix: discover tandem arrays for several levels', 'Rust: DiscoverActivitiesForSeveralLevels with tandem arrays ended without any final result'),
 ('C26', 'fix: without activities all events are unattached', 'Rust: discovery from unattached sub-traces failed when nothing is attached yet'),
 ('C26', 'fix: report the number of underlying events', 'Rust: the number of underlying events was not sent, the client printed 0'),
 ('C27', 'fix: stop reading a XES log at the end', 'Rust: a XES file cut inside an event, trace or global was read forever'),
 ('C27', 'fix: read XES attributes with separate', 'Rust: attributes written as start and end tag were lost, nested attributes were read as attributes of the event, the defaults or the log'),
 ('C27', 'fix: unescape names of XES extensions', 'Rust: entities in names of extensions, classifiers, scopes were not decoded; an unknown entity ended the process'),
 ('C27', 'fix: read XES dates of artificial events', 'Rust: events with the minimal or maximal date (names logs, activities) were lost when a written log was read'),
 ('C27', 'fix: read large unsigned integers', 'Rust: unsigned integers above 2^63 were lost'),
 ('C27', 'fix: keep a XES global without', 'Rust: a global without defaults was lost'),
 ('C27', 'fix: read every trace of a bxes variant', 'Rust: a bxes variant of several traces was read as one trace'),
 ('C27', 'fix: restore the default attributes of bxes', 'Rust: attributes equal to the defaults were lost in bxes'),
 ('C27', 'fix: report dates which bxes can not', 'Rust: writing a log with the minimal or maximal date to bxes panicked'),
 ('C27', 'fix: report unsupported bxes values', 'Rust: reading a bxes file with artifacts, drivers or software event types panicked'),
 ('C28', 'fix: discover alpha++ nets when nothing', 'Rust: alpha++ discovery panicked in a process which had created no place yet'),
 ('C28', 'fix: discovery of traces with less than two', 'Rust: discovery panicked for traces with one or two events'),
 ('C28', 'fix: ignored events do not start or end', 'Rust: alpha+ and nfc panicked when a trace starts or ends with a repeated event'),
 ('C28', 'fix: alpha++ nfc terminates on cyclic', 'Rust: alpha++ nfc did not terminate, for instance for the trace a b c b d b c'),
 ('C28', 'fix: sets with the same elements in different', 'Rust: places of alpha++ nfc nets were lost, as sets with the same elements in other roles were taken for equal'),
 ('C28', 'fix: forget cached alpha++ nfc', 'Rust: relations cached before causal relations were added were used afterwards'),
 ('C28', 'fix: the heuristic miner connects a place', 'Rust: the heuristic miner made the same arc twice for loops of length two'),
 ('C28', 'fix: incoming neighbours of a node', 'Rust: clusters of the fuzzy graph took no account of incoming edges'),
 ('C28', 'fix: one length loops with different neighbours', 'Rust: two loops of length one with different neighbours shared a place when the texts of their neighbours were alike'),
 ('C31', 'fix: Levenshtein distance of traces', 'Rust: the matrix of the Levenshtein distance had an empty first row and the wrong cell was read as result'),
 ('C31', 'fix: invalid clustering parameters are answered', 'Rust: DBSCAN or k-means with invalid parameters panicked the server instead of failing the request'),
 ('C31', 'fix: an invalid class extractor', 'Rust: an invalid regex for classes of events panicked the server instead of failing the request'),
 ('C31', 'fix: activities merged by DBSCAN', 'Rust: merged activities were named by another number and colour than the label of their cluster in the dataset'),
 ('C29', 'fix: replay takes tokens only where', 'Rust: a transition was fired without enough tokens (or the process panicked on an underflow) when two arcs lead to it from one place'),
 ('C29', 'fix: replay ends for nets with cycles', 'Rust: replay did not end (and took all memory) for nets with cycles of silent transitions'),
 ('C29', 'fix: ensure the initial marking for logs', 'Rust: EnsureInitialMarking panicked for logs with an empty trace'),
 ('C29', 'fix: keep tabs and line breaks', 'Rust: tabs and line breaks in names were written raw to attributes of PNML and XES, where parsers replace them by spaces'),
 ('C30', 'fix: what a trace has computed about its events', 'Rust: counts and positions of a trace stayed as they were after its events were filtered, renamed or extended; entropies were wrong or panicked'),
 ('C30', 'fix: interval tree finds enveloped point', 'Rust: search_envelopes missed point intervals at the right end of the range'),
 ('C25', 'fix: the backend reports a tandem array also', 'Rust: a tandem array was missing when its block occurs earlier in the trace without being repeated there'),
 ('C25', 'fix: the backend drops a tandem array', 'Rust: a tandem array was not primitive when only a part of its block is a repetition'),
 ('C25', 'fix: repeat sets of the backend', 'Rust: repeat sets of different classes were merged when sums of hashes are equal'),
 ('C25', 'fix: ends of traces are different symbols', 'Rust: repeats of merged traces were missing or wrong when traces end alike'),
]
EXTRA = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'findings_extra.json')
extra = json.load(open(EXTRA)) if os.path.exists(EXTRA) else {'known': [], 'fixed': []}
log = [l.split(' ', 1) for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s']).decode().splitlines()]
fixed = []
for p, subj, what in FIXED + [tuple(e) for e in extra['fixed']]:
    h = [c for c, s in log if s.startswith(subj)]
    assert len(h) == 1, (subj, h)
    fixed.append(f'fixed: property={p} {h[0]} {what}')
json.dump({'known': extra['known'], 'fixed': fixed}, open(os.path.join(VERIF, 'known_findings.json'), 'w'), indent=1)
print(len(fixed), 'fixed', len(extra['known']), 'known')
