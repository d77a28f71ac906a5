"""Writes /verif/DESIGN.md: prose from this file, bounds from the families of the checks, defects from known_findings.json,
planted bugs from seeded/ and tools/detection.json (written by try_seeds.py)."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.path[:0] = [VERIF, '/repo/src/python']

HEAD = '''# Design

## What is checked and how

Ficus is a process-mining toolkit: a Python library (`src/python/ficus`, pipelines over event logs: discovery of patterns and
activities, abstraction, filtering, entropies, drawing, XES I/O) and a Rust backend reached over gRPC by a Python client
(`ficus/grpc_pipelines`). On the client side (C19-C22) the backend is replaced by scripted message streams. The backend itself
(C25 and later) cannot be built as it is, because some of its dependencies are not in the offline crate cache; it is compiled
unchanged from /repo's working tree against stand-ins for those crates (see *The Rust backend* below).

Every property is decided in the same way, by **explicit-state bounded exhaustive exploration of the real code**: a check lists
*families*; a family is a generator of all cases within stated bounds (all words, logs, layouts, operation sequences, pipeline
trees, message streams, outcomes of random choices ...) and a function that drives the real code through the case and compares
every intermediate and final state with an independent reference model (written from the property, in `vlib/ref.py` or in the
check). Nothing is sampled; nothing is decided by a solver. There is no separate model whose binding to the code would have to be
argued: each explored trace is an execution of the code of `/repo` (imported from the current working tree), and
`traces_validated_against_impl` counts the comparisons of implementation and reference state. Where an algorithm is
nondeterministic by contract (ties between equally good removals, random colours) the reference is a nondeterministic automaton
and the check verifies that the execution is one of its paths; where the code draws random numbers, the choice is made by the
harness and all outcomes of the first choices are enumerated.

*Symmetry reduction*: where the code treats names as opaque tokens, words are enumerated up to renaming (restricted growth strings);
that names really are opaque is checked by separate families over confusable names (equal hash candidates, prefixes, separators,
empty and non-ASCII names). *Small-scope completion*: most checks have a family of a few long regular inputs, so that limits hidden
behind a size (recursion, a default maximum length, block sizes) are met.

`run.py PROPERTY quick|thorough` re-executes itself in a fixed environment (hash seed, locale, matplotlib backend), forks 8 workers
which take the cases of all families in turn (`vlib/core.py`), watches each case with a CPU-time limit (non-termination is a
violation), catches crashes, and writes `evidence/<id>.json`. A violation is minimised over the failing cases found, written to
`replays/<id>.json`, re-run from there (`run.py --replay FILE`), and reported as `VIOLATION property=<id> replay=<path>`. Unexpected
exceptions of the code under test on valid input are violations. Quick and thorough differ only in the bounds. `VERIF_SEED` only
permutes the order in which workers take the cases.

Why this reaches what the tests cannot: the tests of the repository compare one or two fixed logs with stored results. The defects
found (listed below) all needed a combination a test author did not think of (a repeated block which occurred before without being
repeated, colliding name hashes, a trace of length one next to an empty one, two nested pipelines with one random colour repeated).

Files: `vlib/core.py` (engine), `vlib/gen.py` (enumerators), `vlib/ref.py` (reference models of the algorithms), `vlib/fic.py`
(building and snapshotting logs and hierarchies), `vlib/dot.py` (reader of DOT text), `vlib/figure.py` (reads matplotlib figures and
canvas command streams back into cells), `vlib/fakegrpc.py` (scripted backend), `vlib/capture.py` (captured prints and displays),
`checks/Cxx.py` (one per property), `tools/` (generators of the committed JSON and of this file; `mkseed.py`, `try_seeds.py`,
`mutate.py` are development aids and are not used by the checks).

### The Rust backend

`vlib/rustlib.py` builds, in the scratch directory of the check, a crate from `/repo/src/rust/ficus_backend/src/lib.rs` (the whole
backend), a small driver (`rust/driver/cNN.rs`: JSON lines in, JSON lines out, calls public functions of the backend only) and the
crates of the cargo cache. Not in the cache, and replaced by stand-ins in `rust/stubs/`: `lazycell`, `stopwatch`, `nameof`, `tonic`
(types only; the code generated by protoc is replaced by `proto_to_rust`, a translation of the messages and the service trait of
`protos/*.proto`), `bxes` (the same data models, another file format), `ndarray`, `linfa*` (a matrix, DBSCAN by its definition and a
deterministic k-means), and `quick_xml` (a thin adapter over a newer cached version). A check explores all its cases in one or
more driver processes; a panic, the death of the process or no answer within 30 s is a violation. If the backend does not compile,
the check gives no answer (exit 2).

No hooks were needed in /repo: the checks drive public functions and parts, replace the gRPC channel from outside, and intercept
matplotlib, IPython display and `random` from outside.
'''

P = {
'C01': ('The in-memory log is the model: what is written and read back has to be the same tree of attributes with the same types, minus exactly what defaults imply. Files of other writers are generated as XML text.',
        'Tests round-trip one file; types, defaults, absent values, paths and locales interact.'),
'C02': ('Events, traces and logs are state machines: all sequences of operations are executed next to dictionaries and lists, also on copies made at every point of the sequence, with aliasing checked both ways; equality and hashes are compared for all pairs of small objects, including all pairs of short names.',
        'Equality through hashes fails only for names nobody writes by hand.'),
'C03': ('An interval model says what the abstracted trace is; expanding it back must give the identical event objects. Nested abstraction is iterated.', 'Off-by-one errors at the borders need instances at particular positions.'),
'C04': ('A reference automaton of the greedy segmentation (extend, else look for a containing activity, else close and narrow) is run over all traces and all hierarchies of class sets; order, disjointness and justification are checked separately from equality with the automaton.',
        'The stored results of the tests say nothing about other hierarchies.'),
'C05': ('Brute-force definition over all words up to renaming: a tandem array is a maximal run of >= 2 copies of a block; each kind must be reported exactly.', 'The defects found need specific words of 6 to 8 events.'),
'C06': ('Brute-force definitions (left and right maximality by contexts; super-maximal; near-super-maximal by coverage of occurrences) over all words.', 'The algorithms use suffix trees whose corner cases are at the borders of words.'),
'C07': ('Repeat sets are compared with the set of distinct class sets; the hierarchy with the containment order of all families of class sets: every node once, children strictly contained, a parent exactly when a container exists.', 'Needs families of sets with several containers.'),
'C08': ('A gap model: existing instances stay, in each free stretch of at least the minimum size exactly the instances of the reference segmentation are added, nothing is shared with the input context.', 'Positions have to be shifted in every stretch; boundaries of the minimum size.'),
'C09': ('Direct counting.', 'Empty traces, ignored events and single events interact.'),
'C10': ('The definition, evaluated from direct counts.', 'Needs logs where terms vanish.'),
'C11': ('The definition evaluated for every position; fast and plain computation against it and each other, with and without precomputed tables.', 'Traces of different lengths and names absent from some traces.'),
'C12': ('A nondeterministic removal automaton: each step may remove exactly the classes the metric ranks first (ties open), until the stop condition; the sequence of removals and the final log must be a path of it. A CPU watchdog decides termination.', 'Loops for ever only when nothing removable is left.'),
'C13': ('Lists of lists of dictionaries are the model; all operations and all sequences of three operations, input unchanged where promised.', 'Sequences and selectors which depend on what an operation changes.'),
'C14': ('Grouping by tuples of names.', 'Hash collisions of whole traces.'),
'C15': ('A small-step interpreter of pipeline trees over probe parts: what every part sees, in which order, what the caller sees afterwards, executed twice; contexts are explored as a state machine with copies at every point.', 'Isolation depends on nesting and on which values are set.'),
'C16': ('A transition system: every round of the iterated discovery is checked to be a correct discovery + abstraction step of the reference, the last state to be a fixpoint, and the expanded log to be the original one.', 'The number of rounds depends on the log.'),
'C17': ('Direct model of which instance contributes to which log, with which names, at each level; class trees from the definition.', 'Needs instances of several levels and repeated names.'),
'C18': ('Round trips and pm4py objects compared field by field; discovered nets compared with a direct call of pm4py up to renaming.', 'Empty traces, separators and absent attributes.'),
'C19': ('The protocol is explored against a reference client automaton: all streams of messages up to a length, a transport failure at every point, all nestings of callback parts, repeated executions; a part of the streams is replayed through a real gRPC server on the loopback interface, which validates the scripted channel.', 'No backend is available to the tests.'),
'C20': ('A table states for every part the registered name and the key and type of each option; every configuration is encoded and decoded again. Names, keys, value types and enum values are looked up in the Rust sources. All pairs and nestings of parts check that identities differ and nothing leaks between parts.', 'No test encodes a request.'),
'C21': ('Every small message is decoded and compared field by field; drawings are read back from the DOT text.', 'No test decodes or draws.'),
'C22': ('Figures and canvas command streams are read back into rows of cells and compared with the expected tiling; colours: equal iff same name, in one diagram and in all sequences of diagrams of a pipeline, for all outcomes of the first random choices. Legends, histograms, scatter plots and files likewise.', 'No test looks at a diagram; colour clashes need a random coincidence.'),
'C23': ('Reports are parsed back and compared with the data; the log and the activities must be unchanged.', 'No test reads a report; the locale of the process matters.'),
'C24': ('Graphs are read back from their DOT text and compared with the hierarchy, for all small hierarchies (several parents, equal names, special characters), all class trees, all options.', 'Tests compare a few stored serializations.'),
'C26': ('The Python client encodes the pipeline, the compiled Rust service executes it, every streamed value is decoded by the client and compared with a reference interpretation of the parts (greedy segmentation, maps and counts over plain lists); hierarchies come from the functions that C25 checks. Random colours are scripted.', 'Option combinations, nestings, failing parts at every place and histories of results; no test runs the client with the backend.'),
'C27': ('An interpreter of XES written over ElementTree reads the documents the backend writes and interprets the documents the backend reads; a table of values for bxes models; damaged files are compared with the prefix that is complete.', 'Every fragment at every place, every prefix of a file, every value type and default; tests read a few well-formed files.'),
'C28': ('The alpha family, the heuristic miner, the directly follows graph and the fuzzy miner are written again over Python sets from their definitions (vlib/discovery.py); nets are compared up to ids, the clusters of the fuzzy miner with the set of all outcomes which some order of the nodes allows.', 'Every small log up to renaming, every set of thresholds; tests compare a few logs with gold files (absent here for most).'),
'C31': ('The model computes datasets, distances and DBSCAN from the log; labels of the dataset, colours of the log, names of merged activities and logs of clusters must tell one story, which k-means is held to as well; distances to closest activities are metrics on their definition.', 'All logs up to a bound with every distance, tolerance between attained distances and minimal size; tests use stand-alone examples of one dataset.'),
'C29': ('A breadth first search over (events replayed, marking) says which traces can be replayed; a replay of the backend is followed step by step; counts are compared with those of all replays without circles; PNML is read back by ElementTree.', 'Every net of two transitions up to renaming with every short trace; tests replay logs on the nets discovered from them.'),
'C30': ('Operations on a log are replayed on lists of names and dates; after every operation everything the backend can measure (names, hashes, counts, positions, entropies in three ways, groups, information) is compared with its definition on these lists. Interval trees, graphs and user data are driven through all short sequences against sets and dictionaries.', 'All sequences of operations with measures between them reach values computed before a change (caches) that tests, which measure once, never see.'),
'C25': ('Brute-force definitions over all words up to renaming, as for C05-C07. Two known findings are described by an exact weaker definition; a result which is neither is a violation.', 'The defects found need words of 5 to 8 events, merged traces with equal ends, or colliding sums of hashes.'),
}

TAIL = open(os.path.join(HERE, 'design_tail.md')).read()
props = [json.loads(l) for l in open(VERIF + '/properties.jsonl')]
out = [HEAD, '## Properties\n']
for p in props:
    i = p['id']
    q = importlib.import_module('checks.' + i)
    fq, ft = ({f.name: f.bounds for f in q.families(t)} for t in ('quick', 'thorough'))
    out.append(f"### {i} {p['title']}\n\n*Oracle.* {P[i][0]}\n\n*Beyond tests.* {P[i][1]}\n\n*Families and bounds* (thorough bounds in brackets where they differ):\n")
    for n, b in ft.items():
        a = fq.get(n)
        out.append(f'- `{n}`: ' + (b + ' (thorough only)' if a is None else a if a == b else f'{a} [{b}]'))
    if getattr(q, 'ASSUMPTIONS', None):
        out.append('\n*Assumptions.* ' + '; '.join(q.ASSUMPTIONS) + '.')
    out.append('')
out.append('## Genuine defects found\n\nAlmost all were repaired by a `fix:` commit in /repo (each checked to be reported again when its commit is reverted); the others are known findings, which the checks print and which existing tests of the repository or the size of the repair forbid to repair.\n')
kf = json.load(open(VERIF + '/known_findings.json'))
for l in (kf if isinstance(kf, list) else kf['fixed']):
    out.append('- ' + (l if isinstance(l, str) else json.dumps(l)))
for e in kf['known']:
    out.append(f"- **known finding** property={e['property']} `{e['id']}`: {e['what']}")
out.append('\n## Planted bugs\n\n| bug | property | needs | caught by |\n|---|---|---|---|')
det = json.load(open(HERE + '/detection.json')) if os.path.exists(HERE + '/detection.json') else {}
for s in sorted(os.listdir(VERIF + '/seeded')):
    m = json.load(open(f'{VERIF}/seeded/{s}/meta.json'))
    out.append(f"| {s} | {m['property']} | {m['needs']} | {', '.join(det.get(s, [])) or '(not recorded)'} |")
out.append('\n' + TAIL)
with open(VERIF + '/DESIGN.md', 'w') as f:
    f.write('\n'.join(out).rstrip() + '\n')
