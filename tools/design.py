#!/usr/bin/env python3
"""Writes the per-property part of DESIGN.md from the texts below and the bounds and costs in evidence/.

Run after all quick checks; the text between the two markers in DESIGN.md is replaced."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, '..')
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
# id: (enumerated and checked, oracle, why tests cannot reach it)
TEXT = {
 'C01': ('decorated lattices in every basis and supercell; the search runs on each, and again on its own result',
         'translations of the crystal computed exactly on the grid; the result must be the same infinite crystal, right-handed, of volume = cell / number of translations',
         'a wrong cell needs a particular coincidence of sublattice, decoration and site order; tests hold five crystals'),
 'C02': ('integer Niggli forms written in every unimodular basis of both hands',
         'the form itself: the Gram matrix of the result must be the form we started from, exactly; the crystal and the determinant must be kept',
         'the special conditions (equalities) each govern a face of the cone of forms; only enumeration of all small forms meets every face and every pair of faces'),
 'C03': ('the same forms and bases, both modes, and shears up to far beyond the iteration limit',
         'same infinite crystal and volume; pairwise scalar products of the four vectors are not positive; a refusal is accepted only beyond a fixed strength of shear',
         'the number of steps to convergence grows with the shear; no test comes near the limit'),
 'C04': ('transformation matrices: unimodular, supercells, reductions, rational changes between any two supercells, rows and blocks of cells; each is undone again',
         'new lattice = old lattice x matrix; same infinite crystal; site count scales with the volume; 30 s watchdog',
         'lost or doubled sites depend on the shape of the new cell and on the position of sites relative to its faces'),
 'C05': ('breadth-first exploration of the state graph: all sequences over 7 operations and 8 transformations from every start crystal; states are hashed exact cells and site lists',
         'after every step: equal list lengths, cartesian = lattice x fractional, same infinite crystal, sites inside the cell and grouped by species. A refusal by Delaunay reduction ends the branch (C03 allows it)',
         'histories: a field left stale by one operation shows only in the next one'),
 'C06': ('all lattice matrices with small integer entries, scaled and turned; all pairs of them for transformation matrices',
         'integer Gram matrix, adjugate and determinant', 'left-handed and very skewed cells, near-singular pairs'),
 'C07': ('all species sequences up to a length; all counts of three species; large counts', 'counting in the harness',
         'gcd of more than two counts, ties, counts around 127, 255 and 32767'),
 'C08': ('all 32 groups, all products, all pairs of groups, hash seeds', 'point groups rebuilt from their symbols by exact closure; counts of each rotation type',
         'tests compare one group'),
 'C09': ('all groups in all unimodular bases, centring reductions, their inverses and supercells', 'exact conjugation with integers',
         'non-symmetric matrices separate M from its transpose and inverse; tests use one diagonal-like matrix'),
 'C10': ('all 230 entries, all operations, all products, all pairs of entries', 'reference generated from Hall symbols by `tools/hall.py` (committed as `sgdata.rs`), reduced to the primitive basis exactly',
         'one wrong code among 4000 numbers; tests look at a few types. Complete, no bound'),
 'C11': ('all 512 x 19683 codes; digits of all numbers below a bound in all bases', 're-encoding must return the code; digits by division', 'tests decode one number. Complete for operation codes'),
 'C12': ('all integer Niggli forms up to a bound (all 44 characters and their boundaries) x decorations x bases; all small bases; supercells; tolerances and scales',
         'holohedry of the lattice by exact search of all Gram-preserving integer matrices; the returned cell must satisfy the metric constraints of that system exactly and have a centring allowed for it; all 14 Bravais types have to occur',
         'each lattice character has its own table row and special conditions; tests cover five'),
 'C13': ('the families of C12', 'standard primitive basis = conventional basis x tabulated centring matrix, exactly; primitive volume; same crystal', 'as C12'),
 'C14': ('for each crystal a list of descriptions: bases, supercells, rotations, origins, site orders', 'cell parameters of the three standard cells agree between descriptions; attribute functions agree with the metric',
         'ties between equally short vectors are decided by rounding; only many descriptions of the same crystal show it'),
 'C15': ('pairs of operations at 11 offsets per component around the limits; all rotations x translations x positions; all products', 'exact arithmetic modulo lattice vectors; products compared by where they move positions',
         'wrap-around at cell faces on either side, per-axis tolerances'),
 'C16': ('for all 230 types: full lists, every order of a generator list, redundant lists, all operations and pairs', 'closure modulo lattice translations by exact arithmetic',
         'a closure that stops early or keeps duplicates shows only for certain orders'),
 'C17': ('all 230 types x basis changes x supercells x centring reductions, and back', 'exact change of basis: operations that map the new lattice onto itself, with all translations',
         'symmetry-breaking and elongated supercells'),
 'C18': ('crystals of all 230 types (orbits of generic points, special positions) on several metrics, in all orientations on their lattice, bases, supercells, scales and tolerances; all grid decorations',
         'exact space group of the crystal (all Gram-preserving matrices x all translations) and its type by exact affine conjugation to the reference of that type; a reported number must be that type, its symbol that of the number',
         'a mislabelled crystal needs the right combination of setting, origin and accidental metric'),
 'C19': ('the same crystals', 'those whose exact operations in the standard primitive cell are the reference operations must be identified, and all 230 types have to occur',
         'axis orders and ratios; every type'),
 'C20': ('the same crystals, symmetric and symmetry-breaking supercells, elongated cells', 'exact group of the crystal in the input basis, compared as a set both ways', 'operations lost or doubled only in particular cells; tests count operations of a few'),
 'C21': ('hash seeds through an overridden `getrandom`, all site orders up to 5 sites, all assignments of names from a pool', 'all outputs identical under seeds, group and operations identical under orders and names',
         'hash order is random in a test run and cannot be chosen'),
 'C22': ('every site x every direction x sizes, pairs of sites, collective patterns, supercells with one displaced copy', 'primitive site count, number and rotations equal those of the undisplaced crystal (at the same tolerance)',
         'a displacement matters only for a site and direction that some comparison treats one-sidedly'),
 'C23': ('the compiled extension module in a Python child process driven over a pipe with every input', 'Rust calls on the same input; lists compared entry by entry, operations as sets within 1e-6; an error in Rust must be an exception in Python',
         'layout errors (transposes, row order) vanish for symmetric matrices'),
 'C24': ('all values, all strings up to length 4, all strings one edit from a name, all table keys', 'reference tables in the harness', 'rejections need the strings that are not names'),
 'C25': ('a value grid on both sides of every limit in several cells, all combinations', 'arithmetic on the grid index, not on the floats', 'limits on either side'),
 'C26': ('all 230 types, original and mirrored, in bases of both hands', 'partner table of the eleven pairs; type of the exact group', 'handedness is lost by any single sign error'),
 'C27': ('displacements of half to five tolerances at loose tolerances', 'termination (watchdog), sites per volume of every species, rotations form a group with equally many translations each, same answer under two hash seeds',
         'inconsistent site matching occurs only in a narrow band of displacements around the tolerance'),
 'C28': ('the same crystal and tolerance in several units of length', 'the answer in the first unit, lengths multiplied by the factor', 'a fixed number compared with a length shows only in other units'),
 'C29': ('one site of a supercell or of a crystal of each type moved by one grid step in each of 26 directions, tolerance a quarter of a step',
         'exact primitive cell, space-group type and operations of the moved crystal', 'the move has to break the one symmetry that a generous comparison accepts'),
 'C30': ('lattice matrices with every single entry and patterns of all entries changed by 1e-8 and less', 'the answer for the undisturbed lattice', 'only particular sign patterns cross the boundary of a reduction condition'),
 'C31': ('list lengths, non-finite numbers at each place, flat lattices exactly and up to rounding', 'an error at construction or from every analysis; termination (watchdog)', 'a few of many invalid inputs get through'),
 'C32': ('crystals with two species on the same positions, on grids and for all types', 'exact crystal, primitive volume, space-group type and operations', 'all other crystals are treated rightly by a comparison of positions alone'),
 'C33': ('list lengths, coordinate lengths, wrong types at each place and wrong numbers of arguments for the five functions', 'an exception, and the same answer to a well-formed call before and after', 'surplus numbers were dropped without notice; every place and function has to be tried'),
 'C34': ('singular and non-finite matrices; point and space groups in bases with and without a storable result', 'exact integer conjugation: equal operations where they can be stored, an error otherwise', 'cut-off or rounded matrices look like operations'),
 'C35': ('sequences of two and three calls, calls after calls with large structures, pairs of simultaneous calls', 'answers of single calls in processes of their own; inputs unchanged', 'state kept between calls shows for particular pairs of inputs only'),
 'C36': ('chains of primitive, Niggli, Delaunay, standard and doubled cells', 'Niggli and standard cells, number, symbol and operations per volume of the first crystal; a refusal of the space group, which depends on the setting, is compared with nothing', 'tests never feed results back'),
 'C37': ('zero, negative, undefined, infinite, tiny and huge length and angle tolerances', 'termination (watchdog), finite cells and unchanged composition', 'tests use one reasonable tolerance'),
 'C38': ('rotated, shifted and rewritten descriptions of one crystal', 'cells, number, symbol and operations of the first description; after a shift of the origin by s translations change by s-R*s, and a refusal, which depends on the origin, is compared with nothing', 'tests give each structure once'),
 'C39': ('breadth-first, all chains of changes of basis; states are exact groups, each reached by the library object of its first chain, so that rounding errors accumulate', 'the exact group in the product basis, translations over the least common denominator; the product applied at once', 'tests change a basis once'),
 'C40': ('supercells of up to 260 cells and large primitive cells', 'the answer for the primitive description; exact space group for large primitive cells; where the origin is found in some equivalent cells only (a documented limit) the number must still be the true one', 'tests have small cells'),
 'C41': ('tolerances relative to the finest grid step of the crystal', 'the answer at one tolerance in the middle of the range', 'tests use one tolerance')
}
out = []
for p in props:
    e, o, t = TEXT[p['id']]
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append('- Enumerated: %s.' % e)
    out.append('- Oracle: %s.' % o)
    try:
        ev = json.load(open(os.path.join(root, 'evidence', p['id'] + '.json')))
        c = ev['coverage']
        out.append('- Bounds, quick (thorough): %s.' % c['bounds'])
        if ev['tier'] == 'quick':
            out.append('- Cost of the quick run on 8 cores: %d cases, %d states, %d library calls, %.0f s.' % (c['traces_validated_against_impl'], c['states'], c['transitions'], max(1, ev['wall_s'])))
        for a in ev['assumptions']:
            out.append('- Assumed: %s.' % a)
    except FileNotFoundError:
        pass
    out.append('- Beyond tests: %s.\n' % t)
f = os.path.join(root, 'DESIGN.md')
d = open(f).read()
a, b = '<!-- properties -->\n', '<!-- end of properties -->\n'
i, j = d.index(a) + len(a), d.index(b)
open(f, 'w').write(d[:i] + '\n' + '\n'.join(out) + '\n' + d[j:])

# planted bugs, with the outcome of the quick check of their property (tools/detected.txt)
rows = ['', '| bug | property | what it breaks | needs | quick check |', '|---|---|---|---|---|']
for l in open(os.path.join(here, 'detected.txt')):
    i, p, verdict, secs = l.split()
    m = json.load(open(os.path.join(root, 'seeded', i, 'meta.json')))
    rows.append('| %s | %s | %s | %s | %s, %s |' % (i, p, m['what_it_breaks'], m['needs'], verdict, secs))
d = open(f).read()
a, b = '<!-- bugs -->\n', '<!-- end of bugs -->'
i, j = d.index(a) + len(a), d.index(b)
open(f, 'w').write(d[:i] + '\n'.join(rows) + '\n\n' + d[j:])
