"""Writes /verif/MANIFEST.json: every property with a checks/<ID>.py is claimed."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
T = 'bounded exhaustive exploration of the real code'
RN = 'Exhaustive within the listed families; the backend is compiled from its sources with stand-ins for a few crates that are not available offline.'
TECH = {
    'C01': (T + ' (all small logs x attribute values x defaults x paths), write-read round trip against the in-memory log',
            'Exhaustive within the listed families; XML parsing of the Python standard library is trusted.'),
    'C02': (T + ' as a state machine: all operation sequences to a bounded depth against a list/map model, all copy/alias histories',
            'Exhaustive over operation sequences up to the depth; the model is plain Python lists and dicts.'),
    'C03': (T + ' (all layouts of instances, all nested abstraction histories) against an interval model',
            'Exhaustive for traces up to the stated lengths; losslessness beyond is extrapolated, helped by regular long layouts.'),
    'C04': (T + ' (all traces x all activity families) against a reference greedy segmentation automaton',
            'Exhaustive within bounds; the reference automaton is written from the property text.'),
    'C05': (T + ' (all words up to renaming of classes) against a brute-force definition of tandem arrays',
            'Exhaustive within bounds; symmetry reduction: words are enumerated up to renaming, names are covered by their own families.'),
    'C06': (T + ' (all words up to renaming) against brute-force definitions of maximal, super-maximal, near-super-maximal repeats',
            'Exhaustive within bounds; symmetry reduction as in C05.'),
    'C07': (T + ' (all families of class sets, all small logs through the pattern pipelines) against a containment-order oracle',
            'Exhaustive within bounds.'),
    'C08': (T + ' (all traces x all disjoint instances x activity sets; multi-level pipelines) against a gap/segmentation model',
            'Exhaustive within bounds; filters are position independent.'),
    'C09': (T + ' (all small logs x ignored subsets) against direct counting', 'Exhaustive within bounds.'),
    'C10': (T + ' (all small logs x ignored subsets) against the entropy definition', 'Exhaustive within bounds; floats compared to 1e-9.'),
    'C11': (T + ' (all small logs x ignored subsets x precomputed tables) against the position entropy definition', 'Exhaustive within bounds; floats compared to 1e-9.'),
    'C12': (T + ' (all small logs x filters x untouchable sets x thresholds x limits): every removal sequence is checked to be a path of the specified nondeterministic removal automaton',
            'Exhaustive within bounds; ties may be broken either way; non-termination is detected by a CPU watchdog per case.'),
    'C13': (T + ' as a state machine: all logs x operations and all operation sequences against a list model', 'Exhaustive within bounds.'),
    'C14': (T + ' (all small logs, all short names) against grouping by name sequences', 'Exhaustive within bounds.'),
    'C15': (T + ' as programs: all pipeline trees of bounded depth over probe parts, against a small-step interpreter', 'Exhaustive within bounds; real discovery parts are included in one family.'),
    'C16': (T + ' as a transition system: every round of every run is checked to be a correct abstraction step, to a verified fixpoint', 'Exhaustive within bounds; non-termination is detected by a CPU watchdog per case.'),
    'C17': (T + ' (all small logs x instances at several levels x extractors) against a direct model', 'Exhaustive within bounds; class extractors of successive levels coarsen each other.'),
    'C18': (T + ' (all small logs x names x separators x attributes) as round trips', 'Exhaustive within bounds; pm4py is trusted.'),
    'C19': (T + ' as a protocol: all server message streams to a bounded length with a failure at every point, against a reference client automaton; part of the streams also over a real loopback server',
            'Exhaustive within bounds; the gRPC library is replaced by a scripted channel in most families and validated against a real loopback server in one.'),
    'C20': (T + ' (all parts x configurations x nestings), requests decoded and compared with the configuration; names and keys looked up in the backend sources',
            'Exhaustive within bounds; this check looks names and keys up in the sources of the backend and does not execute it.'),
    'C21': (T + ' (all small messages, nets, graphs) against the message content; drawings are read back from the produced DOT', 'Exhaustive within bounds; graphviz is trusted.'),
    'C22': (T + ' (all small logs and activity layouts), by all outcomes of the first random choices of colours; figures and canvas commands are read back and compared cell by cell', 'Exhaustive within bounds; the rendering of matplotlib figures and of canvas commands is trusted.'),
    'C23': (T + ' (all small logs and activity layouts x report options), reports parsed back and compared with the data', 'Exhaustive within bounds.'),
    'C24': (T + ' (all small hierarchies x options; all small logs x chains of extractors), graphs are read back from their DOT text and compared with the hierarchy', 'Exhaustive within bounds; graphviz is trusted.'),
    'C26': (T + ' (logs x parts and options, part sequences, nestings, failing parts, histories of results) of the client and the Rust backend together, every streamed value compared with a reference interpretation', RN),
    'C27': (T + ' (logs, XES documents, every prefix and every single damage of a file, bxes models, pipelines) of the Rust readers and writers, compared with an interpreter of XES over ElementTree', RN),
    'C28': (T + ' (logs, timings, thresholds, sets of forks, parameters of the fuzzy miner, names) of the discovery of nets and graphs of the backend, compared with models of the algorithms over sets', RN),
    'C31': (T + ' (small logs x clusterings x parameters) of datasets, distances, clusters and what the client receives, compared with a model of the clustering and its relation to the shown dataset', RN),
    'C29': (T + ' (small nets x all short traces, logs, texts, pipelines) of replay, annotation and serialization of nets, compared with a breadth first search over markings and an XML parser', RN),
    'C30': (T + ' (all sequences of operations up to a depth on all small logs, everything measured after each; graphs, interval trees, user data) of the Rust backend, compared with a model of lists', RN),
    'C25': (T + ' (all small words, logs and families of class sets) of the Rust backend against brute-force definitions', RN),
}
props = [json.loads(l)['id'] for l in open(os.path.join(VERIF, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(VERIF, 'checks', p + '.py')):
        checks.append(dict(property=p, quick_cmd=f'python3 run.py {p} quick', thorough_cmd=f'python3 run.py {p} thorough',
                           evidence_file=f'evidence/{p}.json', technique=TECH[p][0], level='model_checking', level_note=TECH[p][1]))
    else:
        na.append(dict(property=p, reason='check not built yet'))
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python -c "import pm4py, grpc, matplotlib"', checks=checks, not_applicable=na), f, indent=1)
    f.write('\n')
print(len(checks), 'claimed,', len(na), 'not')
