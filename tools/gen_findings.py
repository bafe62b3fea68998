"""known_findings.json: open findings (with replay files) and the fix commits in /repo."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPEN = [
    {"property": "A04", "replay": "findings/A04-closure-entered-start.json",
     "what": "k2.closure() of an FSA with an arc entering its start state also accepts a path that stops in the start "
             "state (input (1)*2: the closure accepts '1'); replay findings/A04-closure-entered-start.json"},
    {"property": "F03", "replay": "findings/F03-backward-after-edit.json",
     "what": "assigning fsa.scores between computing a total/forward/backward score and calling backward() on it makes the "
             "gradient that of the new scores, silently; replay findings/F03-backward-after-edit.json"},
]
FIXED = {
    'is_rand_equivalent() compared': 'E01',
    'let RaggedTensor.to()': 'R01', 'index a RaggedTensor': 'R01', 'empty slice': 'R01', 'check the index in': 'Z01',
    'RaggedTensor from a list': 'R01', 'backward of RaggedTensor.normalize': 'R02', 'accept a one-element': 'R03',
    'backward of get_forward': 'S02', 'union of FSAs': 'A04', 'closure of an FSA without arcs': 'A04',
    'index_select of an empty': 'R03', 'aux_labels of the closure': 'A04', 'connect() of': 'A01',
    'integer attributes with': 'A02', 'NaN scores in': 'A02', 'determinize() of': 'A03', 'closure of an FST': 'A04',
    'OpenFst reader accepts': 'F01', 'k2 text reader accepts': 'F01', 'refused label': 'F02', 'an attribute reassigned': 'F03',
    "renaming 'scores'": 'F03', 'FSAs selected from': 'F03',
    'SymbolTable': 'M01', 'comparing symbol tables': 'M01', 'swoosh': 'M02', 'get_best_matching_stats': 'M03',
    'intersect_dense used other': 'D01', 'OnlineDenseIntersecter.decode accepts': 'D02',
    'RnntDecodingStreams.format_output': 'T03', 'NaN smoothed': 'T01', 'get_rnnt_prune_ranges() for': 'T02',
    'whole_lattice_rescoring': 'B02', 'generate_nbest_list': 'B02',
    'OnlineDenseIntersecter revived': 'D02', 'OnlineDenseIntersecter pruned': 'D02', 'ctc_loss mean': 'C01',
    'levenshtein_alignment renamed': 'C02', 'Nbest.from_lattice': 'N01', 'Nbest.top_k': 'N01', 'Nbest.intersect': 'N01',
    'an OpenFst text with a sign': 'Z01', 'FsaVecFromTensor accepted': 'Z01', 'ragged text with malformed': 'Z01', 'nested lists with values': 'Z01', 'FsaFromArray1 wrote': 'Z01', 'FsaVecFromTensor read': 'Z01', 'create_fsa_vec() of no': 'Z01', 'ReplaceFsa read': 'A04',
    'Invert of the C++': 'X01', 'FsaClass::CopyAttrs': 'X01', 'the wave reader': 'X01', 'Array1FromTorch': 'X01',
    'intersect_dense kept states': 'D01', 'linear_fst() of': 'A06', 'expand_ragged_attributes() of': 'A06',
}
out = [dict(status='open', **f) for f in OPEN]
for l in subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True,
                        text=True).stdout.splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    s = s[5:]
    p = [v for k, v in FIXED.items() if s.startswith(k)]
    assert len(p) == 1, (s, p)
    out.append({'status': 'fixed', 'property': p[0], 'commit': h, 'what': s, 'line': f'fixed: property={p[0]} {h} {s}'})
json.dump({'findings': out}, open(os.path.join(HERE, 'known_findings.json'), 'w'), indent=1)
print(len(OPEN), 'open', len(out) - len(OPEN), 'fixed')
