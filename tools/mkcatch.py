"""Rewrites the section of DESIGN.md that lists the planted changes (from seeded/*/meta.json)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
first_missed = {
    'C03-large-items': 'batches in large rings that need a late hash function',
    'C17-wide-extract': 'extractions in rings up to 8192',
    'C06-skip-dummy-rows': 'traces of whole calls by operation',
    'C08-buffer-held': 'watchdog by CPU time and thread states',
    'C09-buffers-per-column': 'bound per idle worker',
    'C14-add-halves': 'products by sums of gadget ciphertexts',
    'C25-sampled': 'errors placed in single coefficients',
    'C20-comparison-cache': 'trees with repeated comparisons',
    'C20-unordered': 'ordered results of simulations',
    'C27-persistent-pool': 'valid calls of every kind after refusals',
    'C09-latency-log': 'histories of 4000 calls',
    'C24-wrapping-counter': '1100 contexts in one process',
    'C13-copy-skip': 'copies onto ciphertexts that agree in part',
    'C14-zero-body': 'degenerate inputs of products',
    'C28-replay-skip': 'scripted write, overwrite, repetition',
    'C09-snapshot': 'batched calls on hundreds of rows',
    'C09-kept-selectors': 'what is live after a call against before the first',
    'C13-monomial-shortcut': 'sparse, periodic and one-sided factors',
    'C04-nine-functions': 'up to 20 hash functions',
    'C20-index-order': 'nodes numbered out of order',
    'C11-signed-32': 'wide moduli with large signed noise',
    'C17-trivial-shortcut': 'sparse masks',
    'C26-noisier-keys': 'two-sided prediction of conversions',
    'C05-reseed': 'masks compared between clients',
    'C07-completion-order': 'delays at single rows',
    'C03-flag-order': 'repetition under delays',
    'C29-display-decomp': 'descriptions of contexts and simulations',
    'C09-scratch-per-item': 'smaller constants in the bound',
    'C23-partial-params': 'parameter files with partial or misspelt entries',
    'C18-eq-sign': 'rings of 4096 and 8192 coefficients',
    'C22-fixed-table': 'hashes compared with each other, frequencies of cells',
    'C19-wide-base': 'bases with empty or sparse bodies',
    'C05-db-shared-mask': 'ciphertexts of the owner',
    'C05-quiet-ksk': 'noise of substitution keys',
    'C04-sixteen-bits': 'databases of more than 65536 items',
    'C27-missing-feature': 'trees that ask for more than they are given',
    'C24-thirty-two-bits': '165000 contexts in one process, compared with each other',
    'C30-includes-repair': 'the property itself came from this change',
}
extra = os.path.join(root, 'tools', 'missed.json')
if os.path.exists(extra):
    first_missed.update(json.load(open(extra)))
out = ['## Planted changes and what catches them', '',
       'Each change below compiles, passes the existing tests and has a demonstration (`seeded/<id>/`). Every one is reported by the quick '
       'check of its property with `VERIF_SEED=1`. "first missed" names what was added to the check after a miss.', '']
base = os.path.join(root, 'seeded')
never = json.load(open(os.path.join(root, 'tools', 'notcaught.json'))) if os.path.exists(os.path.join(root, 'tools', 'notcaught.json')) else {}
for b in sorted(os.listdir(base)):
    m = json.load(open(os.path.join(base, b, 'meta.json')))
    line = f"- `{b}` ({m['property']}): {m['what_it_breaks']}; shows with {m['needs']}."
    if b in never:
        line += f" **Not caught**: {never[b]}."
    if b in first_missed:
        line += f" First missed; added: {first_missed[b]}."
    out.append(line)
text = open(os.path.join(root, 'DESIGN.md')).read()
head = '## Planted changes and what catches them'
if head in text:
    text = text[:text.index(head)]
open(os.path.join(root, 'DESIGN.md'), 'w').write(text.rstrip() + '\n\n' + '\n'.join(out) + '\n')
