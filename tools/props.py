#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the list below (one place to edit)."""
import json, os
S='src/structure.rs'; R='src/reduce.rs'; A='src/analyzer.rs'; G='src/spacegroup.rs'; P='src/pointgroup.rs'
O='src/symmop.rs'; U='src/utils.rs'; DC='src/data/core.rs'; DP='src/data/pointgroup.rs'; DS='src/data/spacegroup.rs'; L='src/lib.rs'
props=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if observe: a['observe_at']=observe
    if state: a['state']=state
    props.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

p('C01','Primitive-cell search returns the smallest cell of the same crystal',
 'For any periodic crystal, in whatever basis or supercell it is described, the primitive-cell search returns a right-handed cell that describes exactly the same infinite crystal (every site, every species, nothing duplicated or lost). The volume of that cell is the volume of the smallest cell with the periodicity of the crystal.',
 ['inputs','configurations'],
 'Every decoration of a small grid by up to two species, every lattice of a bounded family, every supercell up to a bounded index and every bounded basis change of it.',
 'The result depends on which of many equally short vectors sort first and on hidden translations of the decoration; the suite has one structure, and the failing bases are a scattered minority that only a full enumeration of cells and supercells meets.',
 [R,S,U],[('candidate translations and spanning-vector choice',R),('site folding into the new cell',R)],['result of the primitive-cell search'])
p('C02','Niggli reduction yields the unique reduced cell of the same crystal',
 'For every crystal and every choice of basis of its lattice, right- or left-handed, Niggli reduction returns a cell that meets all Niggli conditions, has the handedness, volume and atoms of the input, and does not depend on the basis the crystal was given in. Reducing a reduced cell leaves it unchanged.',
 ['inputs'],
 'Every integer Niggli form within a bound, in every basis reached by a unimodular matrix within a bound, at several length scales and orientations.',
 'Each of the eight reduction steps has equality cases that only special lattices in special bases trigger; a handful of examples cannot visit all step sequences, an exhaustive walk over forms and bases does.',
 [R,S,U],[('reduction steps and tolerance',R)],['result of Niggli reduction'])
p('C03','Delaunay reduction returns an obtuse superbase of the same crystal',
 'Delaunay reduction always returns a cell of the same lattice and the same crystal with unchanged volume. Without the final shortest-vector selection the three returned vectors and the negative of their sum have no positive pairwise scalar product; if the reduction cannot finish it stops with an error and never hands back an unreduced cell.',
 ['inputs'],
 'Every integer lattice form within a bound in every bounded basis, both reduction modes, in very small and very large units of length, plus strongly skewed bases around the iteration limit.',
 'The number and order of reduction steps depends on the basis, and the step limit is only reached by skewed cells no example contains.',
 [R,S],[('superbase transformation loop and iteration limit',R)],['result of Delaunay reduction'])
p('C04','Changing the cell of a structure keeps the crystal and always finishes',
 'Applying a basis transformation gives exactly the transformed lattice and a site list that describes the same infinite crystal: the site count scales with the volume and every site keeps its species. This holds for basis changes, supercells of any shape and reductions to a smaller cell, and the operation always terminates.',
 ['inputs'],
 'Every integer transformation matrix with bounded entries and determinant, every supercell up to a bounded index, the inverse reductions of all of those, and elongated supercells, for several crystals.',
 'Lost, merged or endlessly searched sites appear only for particular volume ratios and cell shapes; enumerating all shapes is the only way to meet each of them.',
 [S,U],[('search for sites of the transformed cell',S)],['lattice, species and coordinates after the transformation'])
p('C05','A structure stays consistent over any sequence of operations',
 'After any sequence of structure operations the cartesian and fractional coordinates of every site agree, all per-site lists have equal length, and the crystal described is still the original one. Operations that return a tidied cell list fractional coordinates inside the unit cell (up to the tolerance at its faces) and group sites by species.',
 ['histories','inputs'],
 'Every sequence up to a bounded length over the structure-changing operations, from every start crystal of a bounded family, explored as a state graph.',
 'Errors surface only when one operation consumes the output of another, for instance a left-handed or unsorted cell; the number of sequences is far beyond hand-written tests.',
 [S,R,A,U],[('coordinate normalisation and species sorting',S),('cell-changing operations',R)],['lattice, species, coords, frac_coords after each operation'],['lattice','species','coords','frac_coords'])
p('C06','Cell geometry values agree with the lattice they describe',
 'The reported lengths, angles, volume, metric tensor, reciprocal lattice, Delaunay vectors and cell-to-cell transformation matrix are the exact geometric quantities of the lattice for every non-degenerate cell of either handedness. Converting coordinates between cartesian and fractional form and back returns the starting values. A lattice that is flat, also up to rounding, has no reciprocal lattice and no fractional coordinates, and asking for them is an error.',
 ['inputs'],
 'Every lattice matrix with bounded integer entries and non-zero determinant, at several scales, and every pair within a smaller bound for the transformation matrix.',
 'Sign, transposition and axis mix-ups cancel out in the symmetric cells tests tend to use; exhausting all small matrices leaves no place for such a coincidence.',
 [S],[('scalar attributes and basis conversions',S)],['attribute values'])
p('C07','Formula and rarest element are right for any composition',
 'The formula lists every species once in alphabetical order with its exact site count, the reduced formula divides all counts by their greatest common divisor, and counts of one are left out. The rarest-element query returns the species with the fewest sites (alphabetically first on ties) together with the exact count and first position of every species, or an error if there are more sites than it can count.',
 ['inputs'],
 'Every species sequence up to a bounded length over a bounded alphabet, and every composition with bounded counts including counts far above one hundred.',
 'Counting limits and tie rules only show for particular counts; the suite has two compositions.',
 [S],[('species tally',S)],['formula strings, element maps'])
p('C08','Each of the 32 point groups is generated completely and correctly',
 'For each point-group number the listed operations are exactly the crystallographic point group named by its symbol: a closed set of distinct integer rotations with the right order and the right number of each rotation type, containing its generators. The set does not depend on hash order or on repetition of the construction. Any other number is refused.',
 ['inputs','configurations'],
 'All 256 numbers, all pairs of operations of each of the 32 groups, under every hash seed of a bounded range.',
 'The suite never checks point groups as such, and generation runs through hash sets whose order changes from run to run.',
 [P,DP,U],[('closure of encoded generators',P),('generator table',DP)],['symbol, operations, generators'])
p('C09','Transforming a point group conjugates every operation',
 'Re-expressing a point group in another basis replaces each operation and each generator by its exact conjugate, so the result is the same group written in the new basis and transforming back restores it.',
 ['inputs'],
 'All 32 groups, every unimodular matrix with bounded entries, and all primitive-cell transformations of the centring types compatible with the group.',
 'A wrong side or a transposed matrix is invisible for the symmetric matrices examples use.',
 [P,DC],[('conjugation of operations',P)],['operations and generators after transformation'])
p('C10','The table of 230 space groups matches the international tables',
 'For each of the 230 space-group types the stored operations are exactly those of the standard setting written in the primitive basis, filed under the right lattice system and group order with the right Hermann-Mauguin symbol. No two types share a set of operations.',
 ['inputs'],
 'All 230 entries, every operation, every product of two operations, every pair of entries with equal system and order.',
 'The table has thousands of encoded numbers, and a wrong one only affects crystals of that one type; examples cover a handful of types.',
 [DS,DC,U],[('encoded operation table and symbols',DS)],['decoded table entries'])
p('C11','Encoded symmetry data decodes correctly over its whole range',
 'Decoding an encoded operation returns, for every valid code, the rotation with entries -1, 0, 1 and the translation in twelfths that the code stands for, and different codes give different operations. Decoding in a given base returns exactly the shifted digits of the number.',
 ['inputs'],
 'Every code of the full rotation and translation range, and every number, base and length within bounds for the general decoder.',
 'The domain has ten million codes, of which tests touch one.',
 [U],[('digit decoding',U)],['decoded vectors'])
p('C12','Standard conventional cell shows the full symmetry of the lattice',
 'For every lattice the standard conventional cell describes the same crystal with a right-handed cell whose lengths and angles satisfy the constraints of the crystal system of the lattice (for example a=b and 90 degree angles for tetragonal). Its number of lattice points and their positions are those of a P, C, I, F or obverse R centring allowed for that system.',
 ['inputs'],
 'Every integer Niggli form within a bound, so all 44 lattice characters and their boundary cases, each in several bases and scales and with several decorations.',
 'The classification has 44 branches with equality conditions; boundary lattices between branches need systematic generation.',
 [A,DC,R],[('lattice character decision',A),('character to conventional cell table',DC)],['standard conventional structure'])
p('C13','Standard primitive cell is a primitive cell of the conventional one',
 'The standard primitive structure describes the same crystal as the input in a right-handed cell of primitive volume. Its basis is the tabulated centring reduction of the standard conventional cell of the same input.',
 ['inputs'],
 'Every integer Niggli form within a bound, bounded bases, supercells and decorations.',
 'Each centring type uses its own matrix and sites can be lost while folding; only systematic generation covers every character and centring.',
 [A,DC,S],[('centring to primitive transformation',DC)],['standard primitive structure'])
p('C14','Standard cells do not depend on how the crystal was described',
 'The cell lengths and angles of the Niggli-reduced primitive, standard conventional and standard primitive cells are the same for every basis, supercell, rigid rotation, origin and site order used to describe the same crystal.',
 ['inputs','configurations'],
 'For each crystal of a bounded family: every bounded basis change and supercell, several rigid rotations, origin shifts and site orders.',
 'It is a relation between two runs on different descriptions of one crystal, over more pairs than tests can list.',
 [A,R,S,DC],[('reduction pipeline',A)],['cell parameters of the standard structures'])
p('C15','Symmetry operations act, compare and normalise correctly',
 'Applying a symmetry operation to a position gives rotation times position plus translation. Two operations compare equal exactly when their rotations are identical and their translations agree modulo lattice vectors within the tolerance, and normalising an operation only shifts its translation by lattice vectors into the unit cell. The product of two operations moves every position as the two operations applied one after the other do.',
 ['inputs'],
 'Every rotation of the 32 point groups combined with every translation and offset of a bounded grid around cell faces and tolerance limits, as pairs.',
 'Wrap-around at cell faces combined with tolerance limits gives cases that individual examples do not reach.',
 [O,U],[('action, comparison, normalisation',O)],['resulting vectors, comparison results'])
p('C16','Generating a space group yields exactly the group of its generators',
 'Building a space group from generators returns every product of the generators modulo lattice translations, once each, and nothing else. The resulting set does not depend on the order or redundancy of the generators.',
 ['inputs','programs'],
 'For all 230 types: the full list, bounded generating subsets, every order of a bounded generator list and redundant lists.',
 'Mistakes in composing operations cancel for commuting operations, and most small examples commute.',
 [G,O],[('closure under composition',G)],['operations of the generated group'])
p('C17','Changing the basis of a space group gives the same group in that basis',
 'Transforming a space group to another cell yields exactly the operations of the same group that map the new lattice onto itself, written in the new basis, including all extra translations of a larger cell and without duplicates. The transformation always terminates.',
 ['inputs'],
 'All 230 types, every bounded unimodular basis change, every supercell up to a bounded index including those that break symmetry, and centring reductions.',
 'Symmetry-breaking supercells and larger cells need all operations to be checked against an exact count, for many shapes.',
 [G],[('operation transformation and translation search',G)],['operations after transformation'])
p('C18','A reported space group is never the wrong one',
 'Whenever a space-group number is reported for a crystal, the crystal really has that space-group type, and the symbol reported with it is the Hermann-Mauguin symbol of that number. Crystals whose setting is not recognised are refused with an error and never mislabelled.',
 ['inputs','configurations'],
 'Every decoration of a small grid by up to two species on lattices of all systems, and crystals of all 230 types in many orientations, bases and supercells, at several length scales and tolerances.',
 'There are 230 types with many near-identical ones; a mislabelling shows for particular crystals only and needs an exact reference for the true group.',
 [A,DS,DC,G],[('comparison with tabulated groups',A)],['number and symbol'])
p('C19','All 230 space-group types are recognised in their standard setting',
 'For each of the 230 types, a crystal whose standard primitive cell has the axes and origin of the international standard setting is identified with the right number, in whatever basis or supercell it is given. This holds for every crystal of that type, not only for special compositions or axis ratios, as long as its lattice is not by accident more symmetric than the type requires.',
 ['inputs'],
 'All 230 types, all axis-length orders and several axis ratios per system, all orientations of the group on its lattice, several decorations, bases and supercells.',
 'Most types need their own crystal to be exercised at all, and recognition depends on axis ratios.',
 [A,DS,DC,G,R],[('full identification pipeline',A)],['number'])
p('C20','Reported operations are exactly the symmetry of the input cell',
 'The operations reported with a space group are exactly the symmetry operations of the input crystal written in the basis of the input cell: each maps every atom onto an atom of the same species, none is missing, and none is listed twice. Supercells list their additional translations and only rotations that fit the cell, and no cell is too long for its operations to be listed as long as the entries of its rotations can be stored.',
 ['inputs'],
 'All 230 types in bounded bases, supercells (symmetric and symmetry-breaking), left-handed descriptions and rigid orientations, and grid decorations.',
 'Operations pass through four basis changes; an error in one shows only for skewed or enlarged input cells.',
 [A,G,S],[('back-transformation to the input basis',A)],['rotation and translation of every operation'])
p('C21','Results do not depend on hash order, site order or species names',
 'Repeating an analysis gives the same space group, the same set of operations and the same cells in every run, whatever the internal hash order. Reordering the sites or consistently renaming the species changes neither the space group nor the set of operations.',
 ['schedules','configurations','inputs'],
 'A bounded range of hash seeds, every permutation of bounded site lists and every assignment of names from a bounded alphabet, over crystals of all systems.',
 'Randomised hash order differs between runs, so an order-dependent fault is intermittent and cannot be reproduced by a normal test.',
 [A,P,G,S],[('hash-map iteration',A)],['number, operations, cells'])
p('C22','Site displacements well below the tolerance change nothing',
 'Moving sites by a small fraction of the distance tolerance leaves the number of sites of the primitive cell, the reported space group and the rotations of the reported operations unchanged.',
 ['inputs','fault_sequences'],
 'Every single-site displacement and every pair of displacements over a bounded set of directions and sizes, for crystals of all systems and for supercells with displaced copies.',
 'Which site is displaced in which direction decides whether a comparison wraps around a cell face; examples with idealised coordinates never get there.',
 [R,A,U,O],[('tolerant matching of sites and translations',R)],['site count, number, rotations'])
p('C23','The Python functions return what the Rust library computes',
 'For every input the five Python functions return the same lattice, species, coordinates, number, symbol and operations as the Rust calls they wrap: lattices as flat lists of consecutive basis vectors, coordinates in fractional form, rotations row by row. Inputs in cartesian and in fractional coordinates describe the same structure, and an analysis the library refuses raises an exception.',
 ['inputs'],
 'All five functions over crystals of all systems, asymmetric lattices, both coordinate kinds and several tolerances.',
 'The binding layer has no tests; transposed lattices and rotations go unnoticed for symmetric matrices.',
 [L],[('conversion of arguments and results',L)],['Python return values'])
p('C24','Names of centrings, lattice systems and Bravais types are consistent',
 'Printing and parsing centrings and lattice systems are inverse to each other for every value, unknown names are rejected, and every Bravais type reports its own centring letter and lattice system. The tables keyed by lattice character, centring, point group and Bravais type are complete and mutually consistent.',
 ['inputs'],
 'Every enumeration value, every string up to a bounded length over the alphabet of names, all 44 lattice characters.',
 'Each table row matters for one lattice type only.',
 [DC,DP],[('name parsing and lookup tables',DC)],['parsed values, printed names, table entries'])
p('C25','Tolerant comparisons hold their limits on both sides',
 'Fractional coordinates are brought into the unit cell by whole lattice translations only (values within the tolerance of a face end up next to the lower face), and doing it twice changes nothing. Comparisons with a tolerance accept values inside and reject values outside it, symmetrically in both arguments, and sign counting separates negative, zero and positive values by the same tolerance.',
 ['inputs'],
 'Every value of a grid that includes both sides of each tolerance limit and several cells away, every combination per vector component, several tolerances.',
 'Only values next to a limit distinguish the comparison operators.',
 [U],[('normalisation and comparisons',U)],['returned values'])
p('C26','Mirror images of a crystal are reported as mirror-image space groups',
 'Reflecting a crystal turns each of the eleven enantiomorphic space-group types into its partner and leaves every other type unchanged, and describing a crystal in a left-handed instead of a right-handed basis never changes the reported type.',
 ['inputs','configurations'],
 'All eleven pairs and all other types, each in left- and right-handed bases, original and reflected, in several orientations.',
 'Handedness errors leave all lengths, angles and counts intact; only paired runs on chiral crystals show them.',
 [A,R,DS,S],[('handedness through the reduction pipeline',R)],['number'])
p('C27','Analysing a distorted crystal ends with an answer or an error',
 'Whatever the displacements of the sites and however loose the tolerance, every analysis finishes with an answer or an error, and every reported cell holds as many sites of each species per volume as the input. The rotations of a reported space group form a group and each occurs with equally many translations. Repeating the analysis gives the same answer.',
 ['inputs','configurations'],
 'Displacements of single and of all sites in many directions, from half to several tolerances, at tight and loose tolerances, for crystals of all types and all bounded lattices.',
 'Only displacements in a narrow band around the tolerance, in certain directions, keep a search from ending.',
 [A,R,S,G,U],[('search loops and tolerant comparisons',S)],['answer, error or neither'])
p('C28','Results scale with the unit of length',
 'Expressing a crystal and the tolerance in another unit of length multiplies the lengths of every reported cell by that factor. Cell angles, site counts, space-group number, symbol and operations stay the same.',
 ['inputs','configurations'],
 'Crystals on all bounded lattices and of all types, each in several unit cells and several units of length.',
 'A fixed number compared with a length works for the usual unit and fails in others; no test changes the unit.',
 [A,R,S,U],[('tolerances compared with lengths',R)],['cells, number, symbol and operations'])
p('C29','Differences well above the tolerance are never ignored',
 'When all distinct positions of a crystal differ by at least four tolerances, the primitive search merges no sites that are not related by a lattice translation, and the reported space group and operations are those of the crystal as given, not of a more symmetric one nearby.',
 ['inputs','configurations'],
 'Supercells of all bounded lattices with one site moved in every direction, and crystals of all types with each site moved in every direction.',
 'The move has to break exactly one translation or operation that a too generous comparison would still accept.',
 [R,A,S,G],[('tolerant comparison of positions',R)],['primitive cell, number and operations'])
p('C30','Rounding noise in the lattice changes nothing',
 'Changing entries of the lattice matrix by amounts far below the tolerance changes no reported cell by more than such an amount, and leaves space-group number, symbol and operations as they are.',
 ['inputs','configurations'],
 'All single entries in both directions and patterns of all entries, for crystals on all bounded lattices and of all types in several cells.',
 'Symmetric lattices sit on the boundary of most reduction conditions; only particular combinations of signs cross it the wrong way.',
 [R,A,S],[('comparisons in the reduction',R)],['cells, number, symbol and operations'])
p('C31','Input that does not describe a crystal is refused',
 'A structure without sites, with lists of species and coordinates of different length, with a lattice that is flat, or with numbers that are not finite is refused with an error, either when it is constructed or by every search for a primitive cell, standard cell or space group. It never yields an answer and never hangs.',
 ['inputs','fault_sequences'],
 'All pairs of list lengths, non-finite numbers at every place, all flat lattices within bounds in several orientations.',
 'Invalid inputs are many and mostly fail anyway; a few places let a wrong answer or an endless loop through.',
 [S,R,A],[('construction of structures',S)],['answer, error or neither'])
p('C32','Different species on the same position are all kept',
 'Where several species share a position, primitive cells, standard cells and transformed cells keep every one of them. The primitive cell, the space group and its operations are those of the crystal with all its species.',
 ['inputs','configurations'],
 'All ways to put two species on small grids, one of them or both on each position, on all bounded lattices, and crystals of all types with further species on their positions.',
 'Mixed occupation is absent from the tests and a comparison by position alone is right for all other crystals.',
 [R,S,A],[('folding of sites',R),('new sites of a transformed cell',S)],['cells, number and operations'])
p('C33','Malformed arguments of the Python functions raise an exception',
 'A call from Python with a lattice of other than nine numbers, a site of other than three coordinates, lists of species and sites of different length, values of a wrong type or a wrong number of arguments raises an exception and returns no result. Calls after such an exception work as before.',
 ['inputs','histories'],
 'Five functions, both kinds of coordinates, all list lengths within bounds and wrong values at every place, each followed by a well-formed call.',
 'Numbers that are too many are dropped silently, and each function and each place has to be tried.',
 ['src/lib.rs',S],[('conversion of arguments','src/lib.rs')],['exception or result'])
p('C34','Changes of basis that cannot be carried out are refused',
 'Transforming a structure, a point group or a space group with a matrix that is singular, also up to rounding, or holds numbers that are not finite ends with an error. So does a change of basis after which a rotation of a point group has no integer entries, or after which a rotation of a point or space group exceeds the range of the stored entries. Wherever the result can be stored it is exact.',
 ['inputs','configurations'],
 'All singular matrices within bounds in several orientations, non-finite numbers at each place, 32 point groups in all bounded bases, supercells and shears, 230 space groups in all shears, crystals of all types in strongly sheared cells.',
 'Results that were cut off or rounded look like operations, and appear only for particular groups in particular bases.',
 [P,G,S],[('matrix inversion and conversion to integers',P)],['error, or operations and sites'])
p('C35','Results do not depend on earlier or simultaneous calls',
 'Every function gives the same result for the same input, whatever has been called before in the same process, by itself or by another thread, and the structures handed in are left as they were.',
 ['histories','schedules'],
 'All sequences of two calls from ten functions with twelve inputs, each of these calls after calls with structures of more than a hundred sites, and all sequences of three analyses, compared with calls in processes of their own; all pairs of calls in two threads.',
 'State kept between calls shows only for particular pairs of inputs in one process; tests make each call once.',
 [A,R,S,G],[('absence of state between calls',A)],['results of each call'])
p('C36','Cells returned by the library are analysed like the crystal they are from',
 'Primitive, reduced, standard and enlarged cells returned for a crystal, and cells returned for these in turn, have the same Niggli, standard conventional and standard primitive cell as the crystal. If a space group is identified for them it has the same number and symbol, and as many operations per volume where the cell has the full symmetry.',
 ['programs','inputs'],
 'All chains of seven kinds of cells up to a bounded length, from crystals of all types and on all bounded lattices.',
 'Results carry rounding errors and site lists of their own; tests never feed a result back.',
 [A,R,S],[('results as structures',A)],['cells, number, symbol and count of operations'])
p('C37','Any tolerance leads to a sound answer or an error',
 'With tolerances that are zero, negative, undefined, infinite, tiny or larger than the cell every function ends. A cell that is returned has a finite volume and finite coordinates and holds each species as often per volume as the input.',
 ['configurations','inputs'],
 'Sixteen extreme length and angle tolerances for crystals of all types in several cells and on all bounded lattices.',
 'Tests use the same reasonable tolerance throughout; at extreme ones sites are doubled, lost or exchanged.',
 [R,S,A,U],[('tolerant comparison of positions',S)],['cell, error or neither'])
p('C38','Orientation, origin and choice of periodic images do not matter',
 'Rotating a crystal rigidly, giving its coordinates in cartesian instead of fractional form, or listing other periodic images of its sites changes neither the shape and site count of any reported cell nor the space-group number, symbol and operations. Moving the origin leaves the cells as they are, and where the space group is identified in both places it has the same number and symbol and its operations move along.',
 ['inputs','configurations'],
 'Seven orientations, seven choices of periodic images, both forms of coordinates and six origins, in all combinations for crystals on all bounded lattices and one or two at a time for crystals of all types.',
 'Tests give each structure once, in one orientation and with sites inside the cell.',
 [S,R,A,U],[('folding of sites into the cell',U),('conversion of coordinates',S)],['cells, number, symbol and operations'])
p('C39','Changes of basis of a group can be chained and undone',
 'After any sequence of changes of basis, to other cells of equal volume, to larger cells and back to smaller ones, a space group or point group holds exactly the operations its first form has in the last cell, each once. The same results when all changes are made at once, unless a cell in between was incompatible with some rotation.',
 ['histories'],
 'All sequences of up to four changes for 230 space groups and 32 point groups, from 13 changes including four larger cells and the four ways back.',
 'Tests make one change of basis on a fresh group; a second change starts from a group with several translations and rounded entries.',
 [G,P,U],[('transformation of space-group operations',G),('conjugation of point-group operations',P)],['operations, generators and symbol after every change'])
p('C40','Cells with hundreds of sites are analysed like small ones',
 'A crystal described in a cell of tens to hundreds of primitive cells has the same reduced and standard cells as in its primitive description, and where its space group is identified in both it has the same number and symbol, with as many pure translations as there are primitive cells in the given one. Primitive cells of many sites keep all of them and their exact symmetry.',
 ['inputs'],
 'All 230 types and bounded lattices in supercells of 8 to 260 cells, and primitive cells of up to 80 sites (130 thoroughly) with and without inversion.',
 'Test structures have at most a few dozen sites, so counters, search ranges and tolerances that fail for larger cells go unnoticed.',
 [S,R,A,G],[('search for primitive translations',R),('transformation of operations back to the given cell',G)],['cells, number, symbol and count of operations'])
p('C41','The answer for an exact crystal does not depend on the tolerance',
 'For a crystal given without error, every distance tolerance from far below to a fifth of the finest step between its positions gives the same reduced and standard cells and the same space-group number, symbol and operations, or the same refusal.',
 ['inputs','configurations'],
 'Tolerances over four orders of magnitude for crystals on all bounded lattices in four cells each and for crystals of all 230 types in several metrics and bases.',
 'Tests use one tolerance, so a tolerance used in the wrong unit or compared with the wrong quantity is not seen.',
 [R,A,S,U],[('distance tolerance as fractional tolerance',R),('comparison of positions',S)],['cells, number, symbol and operations'])

if __name__=='__main__':
    out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
    with open(out,'w') as f:
        for x in props:
            assert len(x['title'])<=80,(x['id'],len(x['title']))
            f.write(json.dumps(x)+'\n')
    print(len(props))
