COMMON = (' Exploration only: a violation found is real (replayable input), '
          'absence is not a proof. Trusts rv/ref.py (independent exact '
          'integer geometry) and CPython.')
TECHNIQUE = {
 'C01': ('property-based testing: structured generation of region pairs against an exact arrangement oracle, coverage-guided mutation, shrinking',
         'Both sides of every arrangement piece compared for & | - ^.' + COMMON),
 'C02': ('property-based testing: generated linear pairs against an exact arrangement oracle, coverage-guided mutation, shrinking',
         'Coverage of every arrangement piece compared for & | - ^.' + COMMON),
 'C03': ('property-based testing: generated linear/region pairs against an exact arrangement oracle, shrinking',
         'Coverage of every arrangement piece compared for & (both orders) and -.' + COMMON),
 'C04': ('property-based testing: independent validity predicate over every operation result',
         'Results judged by a validity predicate written from the definitions.' + COMMON),
 'C05': ('property-based testing: algebraic (metamorphic) laws between results on generated triples',
         '20 two-sided laws and 10 laws of Empty.' + COMMON),
 'C06': ('property-based testing: relate_to of generated region pairs against the relation computed from an exact arrangement, coverage-guided mutation, shrinking',
         'Both operand orders; ring starts, directions and part orders are random.' + COMMON),
 'C07': ('property-based testing: relate_to of generated linear pairs against the relation computed from an exact arrangement, coverage-guided mutation, shrinking',
         'Both operand orders; ring starts, directions and part orders are random.' + COMMON),
 'C08': ('property-based testing: relate_to of generated linear/region pairs against the relation computed from an exact arrangement, coverage-guided mutation, shrinking',
         'Both operand orders; ring starts, directions and part orders are random.' + COMMON),
 'C09': ('property-based testing: differential (metamorphic) laws between relate_to, set operations and locate',
         'Answers of the library compared with each other on generated pairs of every kind.' + COMMON),
 'C10': ('property-based testing: locate and in of generated geometries and biased probe points against exact reference location',
         'All compounds and probe points on, level with and close to features.' + COMMON),
 'C11': ('property-based testing: trapezoidations for generated geometries, seeds and probe points against exact reference location',
         'Seeds at the limits, factorial-sized and uniform; fixed large inputs enumerated.' + COMMON),
 'C12': ('property-based testing: generated point sets against the definition of a Delaunay tiling (areas, separating lines, circumcircles), all subsets of a 3x3 grid enumerated',
         'Every clause of the definition decided exactly per case.' + COMMON),
 'C13': ('property-based testing: generated polygons against the definition of a constrained Delaunay tiling',
         'Every clause of the definition decided exactly per case.' + COMMON),
 'C14': ('property-based testing: is_valid of generated valid, invalid and nearly valid contours and multisegments against a quadratic exact predicate',
         'Both answers are generated; small grids enumerated.' + COMMON),
 'C15': ('property-based testing: box predicates of generated box pairs against rectangles as point sets, all boxes of a small grid enumerated; bounding boxes of generated compounds against coordinate extremes',
         'Every pair of interval relations occurs.' + COMMON),
 'C16': ('property-based testing: equality, hash and order of generated geometries, re-represented copies and near-copies against a normal form of specs',
         'Pairs and triples; dict and set membership.' + COMMON),
 'C17': ('property-based testing: metamorphic relation of every answer under generated invertible affine maps, with huge and tiny rational coordinates',
         'Compares the library with itself on mapped operands; base answers are also checked by C01-C14.' + COMMON),
 'C18': ('model-based testing: sequence views of generated geometries against tuples under generated sequences of reads, with the arguments mutated afterwards',
         'The model is a plain tuple.' + COMMON),
 'C19': ('property-based testing: repr round trip and str of generated geometries of every kind and coordinate form',
         'Evaluates the repr with the names it mentions.' + COMMON),
 'C20': ('stateful property-based testing: generated step sequences performed forwards, backwards and on copies, operands re-read after every step, refusals included',
         'Any escaping error is a violation.' + COMMON),
 'C21': ('stateful model-based testing: generated chains of operations whose results are fed back, each result checked against a boolean model over the initial operands, shrinking of whole histories',
         'The model never reads back what rene returned as truth.' + COMMON),
 'C22': ('property-based testing: orientation and segments of generated contours against signed area and vertex pairs, every start and direction; simple contours of a 3x3 grid enumerated',
         'Exact signed areas.' + COMMON),
 'C23': ('property-based testing: generated and enumerated cell sets and edge sets of grids (to about 1000 edges) against set algebra on cells and edges, under affine maps',
         'A second model, independent of rv/ref.py and linear in the size.' + COMMON),
 'C24': ('property-based testing: differential comparison of geometries written in generated mixtures of number types, floats at the limits enumerated',
         'Reads coordinates back exactly.' + COMMON),
 'C25': ('property-based testing: composition laws of relate_to over generated pools of geometries and operation results',
         'Compares answers of the library with each other; no reference needed.' + COMMON),
 'C26': ('property-based testing: metamorphic relation between a generated geometry and its parts under every query and operator',
         'Set equality of results decided by the exact arrangement.' + COMMON),
 'C27': ('property-based testing over generated schedules: threads moved line by line (or bytecode by bytecode) in a generated, replayable order, answers compared with those of the same steps alone',
         'The schedule is part of the case, so failures replay and shrink.' + COMMON),
 'C28': ('property-based testing with injected faults: operations abandoned at a generated line by an exception from outside, answers before and after compared',
         'The line is part of the case, so failures replay and shrink.' + COMMON),
}
