"""Writes DESIGN.md: design.md (hand written) + the section of each property
from properties.jsonl, the harnesses and the table below."""
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOW = {
 'V01': 'The validators run on h.fp (every IEEE double, as its canonical text) and on short arbitrary texts; the oracle is the documented range as a z3 FP predicate on the parsed number. NaN, infinities, signed zeros and denormals are values of the sort, no test lists them all.',
 'V02': 'The texts are arrays of symbolic characters; the regular expressions of the validators are executed by the symbolic matcher (vf/remodel.py). Oracle: a character-by-character definition of names, and word membership for choices.',
 'V03': 'As V02; the oracle is a hand-written grammar of intensity measure types over the same characters.',
 'G01': 'block_splitter on symbolic items; oracle: concatenation, weight and kind conditions stated on the yielded blocks (no reference implementation), plus maximality of each block.',
 'G02': 'split_in_blocks on symbolic items and hints; oracle as G01 with the bound ceil(total/hint).',
 'G03': 'Every history of operations up to the bound (the operation at each step is a symbolic choice) on two WeightedSequences, compared with a plain list model after each step.',
 'G04': 'deep_eq on pairs of structures of which every node is a symbolic choice of shape; oracle: a recursive definition of closeness; the verdict has to agree on every pair.',
 'G05': 'Small functions on arbitrary arguments against their definition.',
 'G06': 'Calls on a model of the file system with arbitrary contents; the descriptors given by mkstemp are checked to be closed.',
 'P01': 'TaskManager on a stand-in pool completing tasks in an arbitrary (symbolic) order with arbitrary results and failures; oracle: fold over the results.',
 'P02': 'safely_call and Pickled on arbitrary nested arguments; outcomes (value or any of 9 exceptions) are symbolic choices.',
 'P03': 'log_percent_gen for every number of tasks up to the bound; oracle: the exact integer percentages.',
 'P04': 'pickle_sequence with a model of object identity where the id of a dead object may be given to a new one (the adversary chooses).',
 'P05': 'PerformanceMonitor over a stand-in psutil and clock returning arbitrary readings.',
 'P06': 'psutil is a stand-in returning arbitrary percentages; the log is captured by a handler; the variable is an array of symbolic characters.',
 'R01': 'Record types are built by the real metaclass with symbolic field order; field validators are stand-ins returning an arbitrary verdict; and every record type of the library is run with arbitrary texts in two fields.',
 'R02': 'Histories of assignments by position or name; after each step the list and the attributes of the record are compared with a plain list model.',
 'R03': 'Histories of table operations with arbitrary keys (equality between keys is decided by the solver); compared with a model that is a list of records.',
 'R04': 'Insertion histories on three related tables; the oracle recomputes the missing keys from scratch.',
 'R05': 'Pairs of records, tables and lists with arbitrary texts; the oracle is sequence equality.',
 'R06': 'A table of the documented columns and kinds, written from the documentation, is the oracle; arbitrary texts, all integer texts and multiples of 1/64 run through the validator of each column.',
 'R07': 'Record types are declared in every order by the real metaclass and built with arbitrary arguments; the oracle is a plain list of names, defaults and values.',
 'R08': 'Tables of symbolic texts are printed and read back with the model of csv (the reader and the writer are executed symbolically on each character).',
 'L08': 'Documents are stand-in trees with a symbolic seed and line; the draws of the samples tell the seed they come from.',
 'L01': 'Trees are built directly from the real classes with arbitrary weights and ids; every path is enumerated and compared with the recursive definition, the weights as exact decimals.',
 'L02': 'The random generator is a stand-in returning arbitrary draws in [0,1); the sampled branch is compared with the interval of the draw.',
 'L03': 'The parsed document is a stand-in tree whose ids, weights and applyToBranches are symbolic; the oracle decides from the document alone whether it is to be refused and which child each branch has.',
 'L04': 'As L03 with filters, types and value texts arbitrary; the value syntax is decided character by character.',
 'L05': 'Stand-in sources of each class record the modifications made to them; the oracle recomputes which apply.',
 'L06': 'As L03 for GMPE trees; the dictionaries of each path are compared with the definition.',
 'L07': 'As L03 for GSIM trees; the realizations are compared with the product of the relevant branch sets.',
 'S01': 'Collectors are updated, filtered and compared with arbitrary magnitudes; oracle: minimum, maximum, list.',
 'S02': 'parse_source_model over a stand-in parser giving arbitrary sources; oracle: grouping of the list.',
 'S03': 'Sources of the stand-in hazard library have symbolic rates; conservation is an arithmetic formula (log10 of the a value is kept as a symbolic logarithm).',
 'S04': 'gen_blocks with arbitrary outcomes of filter and split; oracle: list and block conditions.',
 'S05': 'Each NRML attribute is a distinct symbolic value, so a swapped, dropped or defaulted parameter is a counterexample; the stand-in library records the constructor arguments.',
 'C01': 'node -> records -> node on symbolic models (both directions run the real converters, tables and records); oracle: structural equality of the trees.',
 'C02': 'As C01 for fragility models.',
 'C03': 'As C01 for exposures; equality of coordinates is a solver decision.',
 'C04': 'As C01 for ground motion fields.',
 'C05': 'Histories of archive operations (symbolic choices, symbolic names and contents) on a model of the file system, against a dictionary.',
 'C06': 'CSV files with arbitrary validity of each field; the oracle lists the invalid rows.',
 'C07': 'Models with arbitrary characters in texts go through the real writer, a model of csv (quoting included, executed symbolically) and the real reader.',
 'C08': 'bin/NRMLconvert.py:main is run with symbolic arguments and archives; output, exit status and the files are compared with the definition.',
 'I01': 'parse_config on job files with symbolic keys, values and paths; the ConfigParser of the Jython distribution is translated and executed symbolically too.',
 'K01': 'The loaders over stand-in parsers giving arbitrary records; oracle: dictionaries.',
 'K02': 'As K01 for fragility models.',
}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
out = [open(V + '/tools/design.md').read(), '\n## The properties\n']
for p in props:
    pid = p['id']
    f = V + '/harness/%s.py' % pid
    out.append('### %s: %s\n' % (pid, p['title']))
    if not os.path.exists(f):
        out.append('Not applicable.\n')
        continue
    src = open(f).read()

    def const(n):
        m = re.search(r"^%s = (\(.*?\)|\[.*?\]|'.*?')$" % n, src, re.S | re.M)
        return eval(m.group(1))
    out.append('- How: %s' % HOW[pid])
    out.append('- Bounds: %s.' % const('BOUNDS'))
    out.append('- Outside: %s.' % const('OUTSIDE'))
    a = const('ASSUMES')
    if a:
        out.append('- Assumes: %s.' % '; '.join(a))
    out.append('')
out.append('## Seeded bugs\n')
out.append('Each was written from the property and the code, with a demo that '
           'fails with it and passes without; the last column is the result '
           'of the quick checks.\n')
out.append('| bug | property | needs | checks |\n|---|---|---|---|')
cf = V + '/tools/caught.json'
caught = json.load(open(cf)) if os.path.exists(cf) else {}
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % d))
    out.append('| %s | %s | %s | %s |' % (
        d, m['property'], m['needs'].replace('|', '/'),
        caught.get(d, 'not run')))
out.append('')
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
