""" Writes MANIFEST.json out of properties.jsonl and of the checks that exist. """
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
TECHNIQUE = {
    'P01': 'model-based histories over two ends and over one end with a reference peer (Hypothesis)',
    'P02': 'metamorphic: whole / split / reframed deliveries must agree (Hypothesis)',
    'P03': 'differential: an independent strict record layer decodes all output (Hypothesis)',
    'P04': 'mutation of genuine record streams against a prefix model (Hypothesis)',
    'P05': 'man-in-the-middle fuzzing with semantic edits, agreement oracle (Hypothesis)',
    'P06': 'generated certificate presentations against an acceptance model (Hypothesis)',
    'P07': 'stateful histories against a reference peer and a model (Hypothesis)',
    'P08': 'structure-aware fuzzing of every stage, totality oracle (Hypothesis, byte havoc)',
    'P09': 'stateful histories after a failure against a model (Hypothesis)',
    'P10': 'generated offers against a model of the negotiation (Hypothesis)',
    'P11': 'reference peers around retry requests, generated deviations (Hypothesis)',
    'P12': 'round trip and differential with an independent encoder (Hypothesis)',
    'P13': 'differential with an independent strict decoder over generated and mutated bytes (Hypothesis)',
    'P14': 'differential with an independent key schedule (Hypothesis)',
    'P15': 'generated histories, nonce bookkeeping by an instrumented AEAD, budget model (Hypothesis)',
    'P16': 'differential with independent curve and field arithmetic (Hypothesis)',
    'P17': 'differential signing/verifying with the tools of cryptography and mutation (Hypothesis)',
    'P18': 'generated responses against an acceptance model (Hypothesis)',
    'P19': 'stateful testing of the cache against a model, generated HTTP servers (Hypothesis)',
    'P20': 'stateful closing histories against a model (Hypothesis)',
    'P21': 'generated socket behaviours against a stream model (Hypothesis)',
    'P22': 'differential with OpenSSL over generated configurations (Hypothesis)',
    'P23': 'generated configurations against a validity model, interleaved connections (Hypothesis)',
    'P24': 'generated flights of a peer holding all keys against a grammar of legal orders (Hypothesis)',
    'P25': 'generated client behaviours against a server demanding authentication (Hypothesis)',
    'P26': 'round trip and model-based testing of the helpers (Hypothesis)',
    'P28': 'model-based testing of both ends with a recording status service and generated chains, statuses and faults (Hypothesis)',
    'P29': 'stateful testing of misuse and buffer reuse against a stream model (Hypothesis)',
    'P30': 'generated histories with audit events, logs and exceptions searched for side effects and secrets (Hypothesis)',
    'P31': 'generated systems and bundles, and a connection to the server of each authority (Hypothesis)',
    'P32': 'generated record lengths around the limits at generated moments, by a reference peer (Hypothesis)',
    'P33': 'generated heartbeats and agreements against a model, by a reference peer (Hypothesis)',
    'P27': 'end-to-end runs of the bundled programs against generated peers, systems and options (Hypothesis)',
}


def main():
    checks, missing = [], []
    for line in (ROOT / 'properties.jsonl').read_text().splitlines():
        prop = json.loads(line)['id']
        if (ROOT / 'checks' / f'{prop.lower()}.py').exists():
            checks.append({
                'property': prop,
                'quick_cmd': f'./run.sh {prop} --tier quick',
                'thorough_cmd': f'./run.sh {prop} --tier thorough',
                'evidence_file': f'evidence/{prop}.json',
                'technique': TECHNIQUE[prop],
                'level': 'exploration',
                'level_note': 'random generated cases within the bounds stated in DESIGN.md; the '
                              'evidence file counts them',
            })
        else:
            missing.append({'property': prop, 'reason': 'its check is not written yet'})
    doc = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': missing}
    (ROOT / 'MANIFEST.json').write_text(json.dumps(doc, indent=1) + '\n')


main()
