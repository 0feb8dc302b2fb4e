NA = {}
T = 'TLA+ specification checked with TLC; executions of the real code recorded and validated against it event by event (trace validation)'
G = 'TLA+ specification model-checked with TLC; its behaviours replayed into the real code and the recorded executions validated against it (trace validation)'
TR = ' Inputs outside the corpus are not decided. Trusts TLC, the Java overrides of the bignum operators (compared with their TLA+ definitions in setup) and the recorder.'
NOTE['A01'] = (G, 'Field laws of the reference machine checked exhaustively on short calculations; the code is validated on enumerated small operands, zero forms, all bit lengths, unit powers and chains of its own results.' + TR)
NOTE['A02'] = NOTE['A01']
NOTE['A03'] = (T, 'Exact linear algebra over the field in TLA+ (Lin) decides every recorded call of the vector, matrix and centroid functions of both packages.' + TR)
NOTE['A04'] = (T, 'Projection matrices and exact rational enclosures of the irrational are in the specification; every floating-point view is compared with the enclosure.' + TR)
NOTE['S01'] = (G, 'The group is a state machine generated from two rotations and the inversion (TLC enumerates all 120 elements and checks closure, inverses and orthogonality); every operation of the code is validated against it, about many centres.' + TR)
NOTE['S02'] = (G, 'As S01 with the 24-element group.' + TR)
NOTE['S03'] = (T, 'The specification computes the orbit of the domain; the returned domain must be that bag of images.' + TR)
NOTE['S04'] = (T, 'Stabiliser modulo the lattice and its left cosets are computed in the specification from the group model.' + TR)
NOTE['S05'] = (T, 'Similarity matrix and conjugate scale factors in the specification; sessions compose transformations.' + TR)
NOTE['M01'] = (T, 'Exact measure in the specification; sessions permute, shift, rotate and nest the same domain.' + TR)
NOTE['M02'] = (T, 'Sessions of shifts; the specification tracks the domain.' + TR)
NOTE['C01'] = (T, 'Set semantics of vertices and simplices up to perpendicular position.' + TR)
NOTE['C02'] = (T, 'Facet counts and exact coplanarity in the specification.' + TR)
NOTE['C03'] = (T, 'Exact hull and region comparison by clipping in the specification.' + TR)
NOTE['G01'] = (T, 'Exact point location in the specification; points closer than the documented tolerance are not judged.' + TR)
NOTE['G02'] = (T, 'Exact segment/triangle intersection in the specification.' + TR)
NOTE['B01'] = (T, 'The specification clips the two domains exactly and compares region, overlap and volume with the result.' + TR)
NOTE['B02'] = NOTE['B01']
NOTE['B03'] = NOTE['B01']
NOTE['B04'] = NOTE['B01']
NOTE['F01'] = (G, 'Files is a state machine of slots (write, overwrite, read, other writers, hand-made files), model-checked; its histories are replayed and every written file is parsed and compared field by field with what the specification demands.' + TR)
NOTE['F02'] = (T, 'Every written file is parsed; the specification derives atoms, bonds, windows and colours from the domain.' + TR)
NOTE['F03'] = (T, 'Every written pair of files is parsed; the specification derives position, vectors, counts and index lists from the domain.' + TR)
NOTE['X01'] = (G, 'Pure is a state machine of calls, noisy calls, reseeding and scribbling over results, model-checked; its histories are replayed over a catalogue of the public functions, also from several threads and in fresh interpreters with other hash seeds, and every argument, file and result is compared with what the specification remembers.' + TR)
NOTE['X02'] = (G, 'Session is a state machine of a store of domains and files over a finite world with the same algebraic structure (provenance, volume laws, commutation checked exhaustively to a depth and on random behaviours); its behaviours are replayed into the code and the recorded sessions validated with exact regions of perpendicular space in place of the finite world.' + TR)
NOTE['X03'] = (G, 'Guard says which requests are answered and is a state machine of one file asked to hold things of every kind and shape, model-checked; its histories are replayed, and every operation is asked with every nesting of its argument.' + TR)
