"""Writes DESIGN.md: the fixed text below, with tables generated from the property list, the harness modules and the seeded changes."""
import json, os, ast
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = dict(
C01='the value itself (round trip) and the declared range; LEB128 written out independently in the harness',
C02='"a value in range, or DeserializationError" on every byte string; nothing else may escape',
C03='a Python list of the same bits', C04='comparison of the bit lists', C05='a reference encoder of the documented format',
C06='deep attribute-by-attribute equality (not the library ==)', C07='ideal hash: digests equal iff alg, length and bytes of the input equal',
C08='list of accessed attribute chains kept by the harness', C09='serialization and hash before and after every attempted change',
C10='a Python list with the same history', C11='the documented shape, built recursively by the harness; ideal hash', C12='a Python dict with the same history',
C13='set semantics over the (symbolic) keys; ideal hash', C14='contents before serialization / the accessed parts', C15='keyed-hash definition over the ideal hash',
C16='closing condition written from the documentation over the transaction fields', C17='one input per seal, one committing output, checked against C16\'s definition',
C18='transaction id from a reference serializer', C19='the documented commitment of an entry', C20='pairs of arbitrary received structures with equal hash must not answer differently',
C21='reference compact-size coder', C22='reference wire-format serializer/parser in props/_tx.py', C23='field copies taken before each operation; reference serialization for hashes',
C24='level-by-level Merkle definition', C25='the validity rules as one formula', C26='the block rules as one formula, including sigops and size',
C27='compact-target definition over integers', C28='element lists; reference push-form chooser', C29='an independent script parser (props/_script.py)',
C30='sign-and-magnitude definition', C31='an independent reference interpreter (props/_eval.py)', C32='the same, with limits and exact boundary sizes',
C33='type of the exception', C34='reference interpreter run twice (three times for P2SH)', C35='the Bitcoin signature-hash algorithm written out in props/_sig.py',
C36='order-preserving matching over an arbitrary validity relation (uninterpreted predicate)', C37='the number denoted by the digits; checksum over the ideal hash',
C38='script templates and version bytes per network', C39='reference frames per message type', C40='MurmurHash3 and BIP37 index definition written out in the harness',
C41='integer arithmetic on satoshis; hex digit tables', C43='a stand-in OpenSSL following its documented interface and ctypes conversion rules, with symbolic addresses, results and an ideal signature scheme', C42='the seal rules of C16 over the files the tool writes (all file, RPC and argv access stubbed in memory)',
C44='the exact rational ratio, compared up to a counted number of roundings', C45='the JSON-RPC request each method documents and the library value its reply denotes (transport and JSON text replaced by stand-ins)')
TEXT = open(os.path.join(V, 'tools', 'design.md')).read()

def consts(p):
    out = {}
    for n in ast.parse(open(p).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('BOUNDS', 'ASSUMPTIONS', 'PRELOAD'):
            try: out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError: pass
    return out

def table():
    ms = json.load(open(os.path.join(V, 'MANIFEST.json')))
    claimed = [c['property'] for c in ms['checks']]
    rows = []
    for l in open(os.path.join(V, 'properties.jsonl')):
        p = json.loads(l)
        if p['id'] not in claimed: continue
        c = consts(os.path.join(V, 'props', p['id'].lower() + '.py'))
        rows.append('### %s %s\n\n- **Encoded code:** %s\n- **Oracle:** %s.\n- **Bounds:** %s.\n%s- **Cost (quick, 8 cores):** %s\n- **Reach beyond tests:** %s\n' % (
            p['id'], p['title'], ', '.join('`%s`' % m for m in c.get('PRELOAD', [])) or '`sus-tool.py`', ORACLE[p['id']], c.get('BOUNDS', '').rstrip('.'),
            '- **Assumes:** %s.\n' % '; '.join(c['ASSUMPTIONS']) if c.get('ASSUMPTIONS') else '', COST.get(p['id'], 'seconds'), p['why_tests_cant']))
    return '\n'.join(rows)

def seeds():
    res = json.load(open(os.path.join(V, 'tools', 'seed_results.json')))
    rows = ['| change | property | needs | caught by |', '|---|---|---|---|']
    for i in sorted(os.listdir(os.path.join(V, 'seeded'))):
        m = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))
        rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), res.get(i, 'not run')))
    return '\n'.join(rows)

COST = json.load(open(os.path.join(V, 'tools', 'costs.json')))
na = '\n'.join('- **%s** %s' % (n['property'], n['reason']) for n in json.load(open(os.path.join(V, 'MANIFEST.json')))['not_applicable']) or 'None: every property is claimed.'
known = '\n'.join('- ' + l.strip() for l in open(os.path.join(V, 'known_findings.txt')) if l.startswith(('fixed:', 'finding:')))
text = (TEXT.replace('@@TABLE@@', table()).replace('@@SEEDS@@', seeds()).replace('@@NA@@', na).replace('@@KNOWN@@', known))
open(os.path.join(V, 'DESIGN.md'), 'w').write(text)
