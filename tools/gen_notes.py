#!/opt/venv/bin/python
"""writes tools/notes.json (the level notes of MANIFEST.json) from the contracts; run with PYTHONPATH=/verif:/repo"""
import glob, importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.environ.get('PYVC_REPO', '/repo')]
from pyvc import harness as H

TRUST = {
    'V02': 'the round trip of the iterative latitude/depth formula is only sampled (transcendental functions are uninterpreted beyond the axioms given); longitude, poles and the forward formula are proved.',
    'D01': 'the distances are proved over exact reals; the quadrilateral contract uses the segment and plane functions through their contracts.',
    'D02': 'OpenQuake distance functions for point ruptures are external (sampled).',
    'R01': 'JSON reading is external; the text of a line is represented by its tokens.',
    'O02': 'XML parsing, obspy and file reading are external; the proof covers the values handed over.',
    'I01': 'h5py, json and pandas are replaced in the proofs by stand-ins with the documented behaviour of a mapping of names to values, of arbitrary content; the sampled histories use real HDF5 files.',
    'M02': 'pandas filtering is modelled row-wise (a boolean mask selects the rows it is true for).',
    'C01': 'numpy.interp is modelled by its definition.',
    'X01': 'os, shutil and glob are external: their effect is an axiom in the proofs, real scratch directories in the sampled runs.',
    'X02': 'smtplib is replaced by a recording stand-in; the e-mail library is real in the sampled runs. No server is contacted.',
    'X03': 'the Java command is never run: the command line handed to the shell is captured; exit status and output are arbitrary in the proof.',
    'X04': 'no server is contacted: ftplib and paramiko are replaced by in-memory servers (sampled) or by arbitrary outcomes (proof).',
    'N01': 'no network is used: the answer of every attempt is arbitrary (any text, any HTTP status, no connection).',
    'T03': 'strftime of the C library is trusted for years from 1900; pytz is external; the shipped raster is not in the checkout, so its content is arbitrary.',
    'T04': 'shapely, fiona, PROJ and pytz are external: in the proof every polygon may or may not contain the place and offsets are arbitrary functions of the moment; projecting is taken to keep containment. The sampled runs use the real libraries.',
    'Q04': 'sine and cosine are uninterpreted functions of the angle; two known findings (sign of the east component of the dip-slip part, reversed vertical of get_quad_slip) are pinned by a stable test and reported as such.',
    'M04': 'matplotlib and cartopy are replaced by figures and axes whose maps onto the page depend on their place and on the aspect ratio; sampled on the real ones.',
    'X05': 'bounded only: the client is a protocol driver of while loops over sockets and files, which this verifier does not cut at invariants; decided by sampled sessions with an in-memory server that follows the OpenSSH rules.',
    'M03': 'matplotlib and cartopy are replaced by axes whose transforms are affine and which record what is drawn; the units are those of PROJ to 9 digits.',
    'V03': 'sine, cosine, arcsine and arctangent are uninterpreted with the axioms listed in the evidence (the addition theorems at the angles named in the contract).',
    'M01': 'sine, cosine and arctangent are uninterpreted with the axioms listed in the evidence.',
}
LEVEL = {'X02': 'other', 'X04': 'other'}


def main():
    for f in sorted(glob.glob(os.path.join(HERE, 'contracts', '*.py'))):
        n = os.path.basename(f)[:-3]
        if len(n) == 3 and n[1:].isdigit():
            importlib.import_module('contracts.' + n)
    out = {}
    for ct in H.REGISTRY:
        out.setdefault(ct.prop, []).append(ct)
    notes = {}
    for p, cts in sorted(out.items()):
        nm = lambda k: [c.name for c in cts if c.kind == k]
        t = []
        if nm('proof'):
            t.append('Proved for all inputs (real arithmetic), on the functions extracted from /repo: ' + ', '.join(nm('proof')) + '.')
        for c in cts:
            if c.kind == 'bounded':
                t.append(f'Bounded, symbolic: {c.name} ({c.kw["bound"]}).')
        for c in cts:
            if c.kind == 'exhaustive':
                t.append(f'Exhaustive over a finite domain: {c.name} ({c.kw["bound"]}).')
        s = [f'{c.name}{" (" + c.kw["bound"] + ")" if c.kw.get("bound") else ""}' for c in cts if c.kind == 'concrete']
        if s:
            t.append('Not proved, run-time check of the contract on sampled inputs only: ' + '; '.join(s) + '.')
        t.append('Trusted: the generator pyvc and its numpy model, z3/cvc5, floats as reals; ' + TRUST.get(p, 'no external library is involved beyond numpy.'))
        notes[p] = dict(level=LEVEL.get(p, 'proof'), note=' '.join(t))
    json.dump(notes, open(os.path.join(HERE, 'tools', 'notes.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
