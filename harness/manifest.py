"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PARSE = ('The parser machine (Blocks, Inlines) is run by TLC step by step on every document over small alphabets of lines or tokens, with its '
         'invariants, and the real tree of each is compared with the one the specification derives; random, boundary and mutated documents are then '
         'compared by TLC with the same specification. Exhaustive within the stated bounds, sampled beyond. Trusted: TLC, the observation of the '
         'tree in harness/observe.py, and that the specification renders CommonMark 0.29 (cross-checked with the examples of the standard).')
NOTES = {
    'S': 'model',
    'B01': PARSE, 'B02': PARSE, 'B03': PARSE, 'B04': PARSE, 'B05': PARSE, 'R01': PARSE, 'I01': PARSE, 'I02': PARSE, 'I03': PARSE, 'I04': PARSE, 'I05': PARSE,
    'P01': 'Prefix.tla states what a longer document may change; TLC checks it on the parser machine for all documents over line alphabets and on the trees the code returns for every prefix of recorded documents. Exhaustive within bounds, sampled beyond.',
    'H01': 'Html.tla gives the output for any tree; TLC compares the real output for all small trees over all node kinds, and for random trees and documents. Exhaustive within bounds, sampled beyond.',
    'H02': 'Html.tla with the safe option; TLC compares the real output for trees and documents with all letter cases and surroundings of the schemes and raw HTML, and states the absence of unsafe targets directly.',
    'H03': 'Html.tla with all combinations of options; TLC compares the real outputs for all small trees and for random ones.',
    'H04': 'Custom.tla gives the calls of own methods and the output of any renderer derived from the three of the library, for any node of any tree; TLC compares calls and outputs for every kind of node, all small trees, every node as the root, and random renderers on random trees and documents. Exhaustive over kinds and helpers, sampled beyond.',
    'X01': 'Rst.tla gives the output for any parsed tree; TLC compares the real output for small trees and random documents.',
    'N01': 'TreeOps.tla: every state of the real objects reachable with up to 4 (thorough: 5) nodes under all operations is walked along with the specification by TLC; longer random histories on up to 12 nodes are validated.',
    'N02': 'Walker.tla: all walks with redirections and edits on trees of 3 (4) real nodes, and recorded walks over larger trees, are validated by TLC.',
    'N03': 'Normalize.tla: normalize() on all small trees and on random ones is validated by TLC.',
    'D01': 'Dump.tla: both dumps of all small trees and of random ones are validated by TLC against the recorded tree.',
    'S01': 'Session.tla: all short histories of calls on several parsers and renderers (with calls broken off by exceptions) generated by TLC, and long random ones, are carried out on real objects and validated against results of fresh processes; Interleave.tla: calls of several threads under all schedules with few parts, preempted at the lines of the code.',
    'S02': 'Growth.tla generates families of documents and judges recorded measurements of all stages: completion, no exception, and growth below a fixed power. Exploration of families within bounds; processor times are trusted.',
    'C01': 'Cli.tla: all histories of two runs of the real command over sources, targets and formats, and random longer ones, are validated against the library results.',
    'A01': 'Facade.tla: all histories of up to three calls over texts and formats, and all documents of the standard with all formats, are validated against parsing and then rendering.',
}


def main():
    ids = [json.loads(x)['id'] for x in open(os.path.join(ROOT, 'properties.jsonl'))]
    run = '/opt/venv/bin/python -B harness/check.py %s %s'
    m = dict(version=1, setup_cmd='/opt/venv/bin/python -B harness/setup.py',
             hooks=dict(guard='VERIF_HOOKS', enable='no hooks are needed: the public interface shows all that is checked', source_commits=[]),
             checks=[dict(property=i, quick_cmd=run % (i, 'quick'), thorough_cmd=run % (i, 'thorough'),
                          technique='TLA+ specification checked with TLC, bound to the code by conformance checks of generated and recorded behaviours',
                          level='model_checking', level_note=NOTES[i]) for i in ids],
             not_applicable=[])
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
