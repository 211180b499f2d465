P = []
NA = {}
def prop(id, title, statement, quant, why, files, mech, note, over=('inputs',)):
    P.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files.split(), mech=mech, note=note, over=list(over)))

prop('D01', 'Degree-of-freedom sets behave as sets and survive their Nastran code',
     'Every combination of the six degrees of freedom behaves as a set: union, difference, inclusion, size and enumeration agree with set algebra. Writing a set as a Nastran component code and reading it back gives the same set, and every digit string is either read as exactly the components it names or rejected.',
     'all 64 sets and pairs of them, all digit strings of bounded length', 'tests sample a handful of sets; the algebra must hold for all of them and every code, including the invalid ones',
     'Abstract/Dof.h Abstract/Dof.cpp', [('DOFS bit mask', 'Abstract/Dof.h'), ('nastranCodeToDOFS', 'Abstract/Dof.cpp')], 'Complete for the set algebra; component codes up to 4 (quick) or 6 (thorough) digits.')
prop('T01', 'Grid point positions reach every solver in the basic system',
     'A grid point whose position is given in a rectangular, cylindrical or spherical coordinate system (cards CORD2R, CORD2C, CORD2S, CORD1R), directly or through the GRDSET default, is written to Nastran, Code_Aster and Systus at the same place in the basic system. This holds for frames that refer to a rectangular frame, for frames defined by grid points that themselves lie in other frames, and for any order of the cards.',
     'all node coordinates and frame origins within the bounds, axis-aligned and five skew frame orientations, chains of up to three frames', 'tests contain a few fixed frames; the composition of frames must hold for every origin, every position and every card order',
     'Abstract/CoordinateSystem.cpp Abstract/Mesh.cpp Nastran/NastranParser_geometry.cpp Nastran/NastranParser.cpp Nastran/NastranWriter.cpp Aster/MedWriter.cpp Systus/SystusWriter.cpp',
     [('position in the global frame', 'Abstract/Mesh.cpp findNode'), ('frame chains', 'Abstract/CoordinateSystem.cpp')], 'Coordinates and origins are symbolic dyadics with axis-aligned frames; in the skew frames coordinates are symbolic and frames fixed; tolerance 1e-6.')
prop('T02', 'Elements keep their shape, nodes and orientation in every solver format',
     'Every supported element (CTRIA3, CTRIAR, CTRIA6, CQUAD4, CQUADR, CQUAD8, CTETRA, CPYRAM, CPENTA, CHEXA with 4 to 20 nodes, CBAR, CBEAM, CROD) is written exactly once for Nastran, Code_Aster (MED) and Systus with its own id, shape and the same nodes in the order that format prescribes. Grid points keep their ids and coordinates.',
     'every element kind, target, node numbering direction and rotation of the node list, all node coordinates', 'each writer permutes the nodes of each shape; tests compare a few files',
     'Nastran/NastranParser_geometry.cpp Nastran/NastranWriter.cpp Aster/MedWriter.cpp Systus/SystusWriter.cpp Abstract/Mesh.cpp',
     [('permutation tables', 'Nastran/NastranParser_geometry.cpp, Nastran/NastranWriter.cpp, Systus/SystusWriter.cpp')], 'One or four elements per deck; 17 element kinds, 4 targets.')
prop('T03', 'Elements keep their elastic material in every solver format',
     'Each shell, solid, bar, beam and rod is written to Nastran, Code_Aster and Systus with the Young modulus, Poisson ratio, density and structural damping of the MAT1 its property names, whatever the card order. A blank one of E, G, nu is completed by the Nastran rule E = 2(1+nu)G (blank when it cannot be), and PARAM WTMASS multiplies the density.',
     'all values of E, G, nu, density, damping and WTMASS, every choice of which are given', 'the completion rule and the unit conversions are arithmetic over every value; tests contain a few materials, all with E and nu',
     'Nastran/NastranParser.cpp Abstract/Material.cpp Aster/AsterWriter.cpp Systus/SystusWriter.cpp Nastran/NastranWriter.cpp',
     [('MAT1 parser', 'Nastran/NastranParser.cpp parseMAT1'), ('ElasticNature', 'Abstract/Material.cpp')], 'Two elements with different materials; relative tolerance 1e-9.')
prop('T04', 'Beams, rods and shells keep their cross section, thickness and orientation',
     'Each beam is written with the area, the two moments of inertia and the torsion constant of its PBAR, PBEAM or PBARL/PBEAML (ROD, TUBE, BAR, I) section, or with a circular or rectangular section of the same dimensions; rods keep the area of their PROD, shells the thickness of their PSHELL and, except for Systus, their own offset (ZOFFS). For Code_Aster the shear factors are those of PBAR K1 and K2. In Nastran and Code_Aster output the orientation vector of each beam lies in the same direction as in the input, given as a vector or as a grid point.',
     'all areas, inertias, dimensions, thicknesses and offsets within the bounds, every section kind, several elements and properties in any order', 'section constants are formulas over every dimension, and elements are regrouped by offset and orientation before they are written',
     'Abstract/Element.cpp Nastran/NastranParser.cpp Nastran/NastranParser_geometry.cpp Aster/AsterWriter.cpp Systus/SystusWriter.cpp Nastran/NastranWriter.cpp Abstract/Model.cpp',
     [('section formulas', 'Abstract/Element.cpp'), ('splitting by offset and orientation', 'Abstract/Model.cpp')], 'Two beams or three shells; relative tolerance 1e-9; orientation vectors parallel to an axis with any length, or six fixed skew ones.')
prop('T05', 'Non-structural mass adds mass and nothing else',
     'The non-structural mass (NSM) of a PBAR, PBARL or PSHELL appears in Nastran output on the property, and in Code_Aster and Systus output as elements on the same nodes, with the same section and offset and a density equal to the additional mass per area, without stiffness. PARAM WTMASS multiplies it like any density, and the original element keeps its own stiffness and density and stays unique.',
     'all masses, densities, areas, thicknesses, offsets and WTMASS values within the bounds, any subset of properties with mass', 'the elements that carry the mass are created by the translator; a wrong copy doubles the stiffness of every such element',
     'Abstract/Model.cpp Abstract/Element.cpp Nastran/NastranParser.cpp Nastran/NastranWriter.cpp Aster/AsterWriter.cpp Systus/SystusWriter.cpp',
     [('emulateAdditionalMass', 'Abstract/Model.cpp')], 'Two elements; relative tolerance 1e-9.')
prop('T06', 'Each subcase imposes exactly the components its SPC and SPCD cards impose',
     'In every subcase, the components of grid points constrained by the selected SPC set (SPC, SPC1 with lists or THRU, sets combined by SPCADD) or by the GRID PS field are imposed in Nastran, Code_Aster and Systus output to the value given (zero when none is), and no other component is. An SPCD of the selected load set replaces the value on a constrained component, in that subcase only.',
     'all component sets, all values, every combination of sets and subcases within the bounds', 'sets are split, merged, moved into common charges and written as bit masks; tests compare fixed files',
     'Abstract/Model.cpp Abstract/Constraint.cpp Abstract/Analysis.cpp Nastran/NastranParser.cpp Nastran/NastranParser_geometry.cpp Nastran/NastranWriter.cpp Aster/AsterWriter.cpp Systus/SystusWriter.cpp',
     [('redundant SPC removal, SPCD handling', 'Abstract/Model.cpp, Abstract/Analysis.cpp'), ('constraint writers', 'Nastran/NastranWriter.cpp, Aster/AsterWriter.cpp, Systus/SystusWriter.cpp')], 'Six nodes, up to three subcases; SPCD only on components whose SPC value is zero or on nodes constrained once.')
prop('T07', 'Multi-point constraints, rigid bodies and RBE3 averages keep their equations',
     'In every subcase, the relations between degrees of freedom written to Nastran, Code_Aster and Systus are exactly those of the selected MPC set (same terms and coefficients) and, for each RBE2, RBAR or RBAR1 and each of its dependent components, the rigid body relation between the dependent node and the independent one, each once. Each RBE3 keeps its reference node and components, and the weight and components of every averaged node.',
     'all coefficients, weights and node positions within the bounds, all component sets', 'relations are generated from node positions, regrouped per node set and distributed over subcases',
     'Abstract/Constraint.cpp Abstract/Model.cpp Nastran/NastranParser.cpp Nastran/NastranWriter.cpp Aster/AsterWriter.cpp Systus/SystusWriter.cpp',
     [('emulateWithMPCs', 'Abstract/Constraint.cpp'), ('makeCellsFromLMPC, makeCellsFromRBE', 'Abstract/Model.cpp')], 'Shell meshes; up to five terms, two relations, two dependent nodes; RBAR with all six components on one end. In Systus output the relations are checked in their Lagrangian form.')
prop('T08', 'Forces and moments on grid points reach each subcase with their total value',
     'In every subcase, the total force and the total moment on each grid point written to Nastran, Code_Aster and Systus equal those of the selected load set: the sum of its FORCE, MOMENT, FORCE1 and FORCE2 cards, each turned from its rectangular or cylindrical coordinate system to the basic one. When the set is a LOAD combination, the sum is that of its sets multiplied by the overall and individual factors. No other grid point is loaded.',
     'all magnitudes, vectors and factors, any frame orientation within the bounds, every combination of sets and subcases within the bounds', 'loads are converted per card, copied per combination, summed per node and renumbered by each writer; tests compare fixed files',
     'Abstract/Loading.cpp Abstract/Model.cpp Abstract/CoordinateSystem.cpp Nastran/NastranParser.cpp Nastran/NastranWriter.cpp Aster/AsterWriter.cpp Systus/SystusWriter.cpp',
     [('NodalForce, NodalForceTwoNodes, NodalForceFourNodes', 'Abstract/Loading.cpp'), ('combined load sets', 'Abstract/Model.cpp, Abstract/LoadSet.cpp')], 'Up to three sets and three subcases; a set is listed once in a combination; frames at right angles (relative tolerance 1e-9) or in five skew orientations with a symbolic magnitude.')
prop('T09', 'Pressures and distributed loads keep their elements, faces and values',
     'In every subcase, the force per area on each shell (PLOAD2, PLOAD4) and on each face of a solid (PLOAD4), the nodal forces of PLOAD on triangles and parallelograms, and the loads along bars (PLOAD1, for Nastran; for Systus the uniform ones over the whole bar) are written to Nastran, Code_Aster and Systus on the same elements and faces, with the same direction and value, once, multiplied by the factors of the LOAD combination that selects them. No other element is loaded.',
     'all pressures and intensities, every element kind, face, corner numbering and card order within the bounds', 'a face is found from two corner numbers and rebuilt with its own orientation for each element kind; tests contain a few faces',
     'Abstract/Loading.cpp Abstract/MeshComponents.cpp Abstract/Mesh.cpp Abstract/Model.cpp Nastran/NastranParser.cpp Nastran/NastranWriter.cpp Aster/AsterWriter.cpp Systus/SystusWriter.cpp',
     [('faces of cells', 'Abstract/MeshComponents.cpp'), ('createSkin', 'Abstract/Loading.cpp'), ('pressure writers', 'Nastran/NastranWriter.cpp, Aster/AsterWriter.cpp, Systus/SystusWriter.cpp')], 'Plates and one solid of fixed shape; uniform pressures; each element or face is loaded by one card; oblique directions with one fixed pressure.')
prop('T10', 'Gravity and rotation act in each subcase with their total value',
     'In every subcase, the acceleration written to Nastran, Code_Aster and Systus is the sum of the GRAV cards of the selected load set, or of the sets of the selected LOAD combination multiplied by their factors; PARAM WTMASS does not change it. The angular velocity of an RFORCE card, its axis and its centre are kept in Nastran and Code_Aster output, in the units of each code, a LOAD factor multiplying the square of the velocity.',
     'all accelerations, speeds, centres and factors within the bounds', 'units and combination factors differ between the formats; tests compare fixed files with one card',
     'Abstract/Loading.cpp Abstract/Model.cpp Nastran/NastranParser.cpp Nastran/NastranWriter.cpp Aster/AsterWriter.cpp Systus/SystusWriter.cpp',
     [('Gravity, Rotation', 'Abstract/Loading.cpp'), ('combined load sets', 'Abstract/Model.cpp'), ('writeGravity, writeRotation', 'Aster/AsterWriter.cpp')], 'Basic coordinate system, positive factors, vectors along an axis (one oblique axis of rotation); relative tolerance 1e-9.')
prop('I01', 'The layout of the input file does not change the translation',
     'Two Nastran decks with the same cards give the same Nastran and Code_Aster output however the cards are laid out: small, large or free fields, tabs, implicit or marked continuations, keywords in lower case, comment lines and inline comments of any text between and inside cards, blank lines, LF or CRLF line ends, and equivalent forms of the LOAD and SPC commands.',
     'all comment texts and numbers within the bounds, every pair of layouts', 'a hand-written tokenizer splits lines by format and decides about continuations by looking at the next character; tests have one deck per format',
     'Nastran/NastranTokenizer.cpp Nastran/NastranParser.cpp', [('splitFixedFormat, splitFreeFormat, readLineSkipComment', 'Nastran/NastranTokenizer.cpp')], 'One deck with 12 kinds of cards, up to three lines per card; comments of three bytes. A card keeps one format; a large field card may be continued implicitly.')
prop('I02', 'A real number is read as the value it spells',
     'Every real number of the input written as an optional sign, decimal digits with a decimal point at any place or none, and an optional exponent after E, e, D, d or only a sign, is read as the double nearest to that decimal value, in free, small and large fields.',
     'all digits and exponents within the bounds', 'Nastran spellings are rewritten character by character before conversion; tests sample some',
     'Nastran/NastranTokenizer.cpp', [('nextDouble', 'Nastran/NastranTokenizer.cpp')], 'Up to four digits and exponents of at most 22 in magnitude; the final decimal conversion of the library is modelled by its exact definition.')
prop('I03', 'THRU and BY lists denote exactly their members',
     'A list of identifiers on an SPC1 or PLOAD2 card made of single values, ranges "a THRU b" and "a THRU b BY n" (ends in either order, the last end always included) applies the card to exactly the listed nodes or elements, each once in the output, for every target; a list with an increment below one is rejected rather than accepted or looping for ever.',
     'all ends and increments within the bounds, every position of the range in the list', 'tests have a few increasing ranges that the increment divides',
     'Nastran/NastranTokenizer.cpp', [('nextInts', 'Nastran/NastranTokenizer.cpp')], 'Identifiers 1 to 8, increments -1 to 4.')
prop('I04', 'A card that is not understood is refused or leaves the rest alone',
     'In strict mode a deck with a card of an unknown keyword is refused; in best effort mode such a card, and in every mode a card the program ignores on purpose (PLOTEL, DRESP1), leaves the translation to Nastran and Code_Aster of all the other cards as it is without that card, whatever the text, layout, length and place of the card. In mesh-at-least mode an unknown card reduces the translation to the mesh.',
     'all card texts within the bounds, every layout and place', 'tests have one unknown card at one place',
     'Nastran/NastranParser.cpp Nastran/NastranTokenizer.cpp Abstract/SolverInterfaces.cpp', [('parseBULKSection', 'Nastran/NastranParser.cpp'), ('handleParsingError', 'Abstract/SolverInterfaces.cpp'), ('skipToNextKeyword', 'Nastran/NastranTokenizer.cpp')], 'One deck with 12 kinds of cards and one alien card of one to two lines.')
prop('I05', 'The order of the bulk data cards does not change the translation',
     'Two decks with the same bulk data cards in different orders give the same Nastran cards up to their order, and in Code_Aster and Systus the same node positions, elements, constraints and loads: definitions may come before or after their uses, including coordinate systems, GRDSET, PARAM WTMASS, properties, materials, and the SPCADD and LOAD combinations.',
     'all numbers within the bounds, the orders of the harness', 'tests have one order; references are resolved while reading and defaults are applied as they come',
     'Nastran/NastranParser.cpp Nastran/NastranParser_geometry.cpp Abstract/Model.cpp Abstract/Mesh.cpp', [('references to objects not yet read', 'Abstract/Model.cpp'), ('parseGRDSET', 'Nastran/NastranParser_geometry.cpp')], 'One deck of 33 cards (frames, GRDSET, shells, bars, masses, sections, materials, SPC, SPCADD, forces, moments, pressures, LOAD, RBE2, RBE3, MPC); automatic numbers of nodes and elements are not compared.')
prop('I06', 'Cards moved to included files are read as if they were in the deck',
     'A deck whose bulk data cards are partly in other files, named by INCLUDE statements relative to the file that includes them and nested or not, gives the same Nastran and Code_Aster output as the deck with all its cards in one file, whatever the comments, blank lines, end of line characters and card formats of the included files.',
     'every run of cards moved, numbers of the cards within the bounds', 'the included file is read by a tokenizer of its own in the middle of a section; no test has more than one form of include',
     'Nastran/NastranParser.cpp Nastran/NastranTokenizer.cpp Abstract/SolverInterfaces.cpp',
     [('parseInclude', 'Nastran/NastranParser.cpp'), ('readLineSkipComment', 'Nastran/NastranTokenizer.cpp')], 'INCLUDE statements of the bulk data section, on one line; a card is never split between files.')
prop('T11', 'A normal modes analysis searches the modes the deck asks for',
     'For each subcase of SOL 103, the Code_Aster command file assembles the stiffness and mass matrices with the constraints of that subcase, searches the frequency band or the number of lowest modes of the selected EIGRL or EIGR card, with its normalisation, and keeps the modes between PARAM LFREQ and HFREQ.',
     'all frequencies within the bounds, every combination of subcases, methods and constraints within the bounds', 'each analysis has its own branch that prints a chain of dependent commands; tests run a few of them',
     'Aster/AsterWriter.cpp Nastran/NastranParser.cpp Abstract/Analysis.cpp Abstract/Objective.cpp',
     [('writeAnalysis, writeAssemblage', 'Aster/AsterWriter.cpp'), ('parseEIGRL, parseEIGR', 'Nastran/NastranParser.cpp')], 'Bounds V1 and V2, ND alone, V2 alone or none (one mode); V1 and V2 together with ND is outside.')
prop('T12', 'A frequency response keeps its excitations, frequencies and damping',
     'For each subcase of SOL 108 and SOL 111, the Code_Aster command file computes a harmonic response to exactly the selected RLOAD1 or RLOAD2 excitations: node, component and amplitude of the load, table multiplied by the DLOAD factors, phase and type, each once. The frequencies are those of the selected FREQ, FREQ1 or FREQ4 card; for SOL 111 the modal base is that of the METHOD and constraints of the subcase and the damping is the selected TABDMP1 one (CRIT, or half of it for G).',
     'all forces, factors, phases, tables and frequencies within the bounds, every combination of subcases and cards within the bounds', 'modes are reused between subcases, tables are shared by excitations; tests run a few decks',
     'Aster/AsterWriter.cpp Nastran/NastranParser.cpp Abstract/Loading.cpp Abstract/Objective.cpp Abstract/Analysis.cpp Abstract/Value.cpp',
     [('writeAnalysis', 'Aster/AsterWriter.cpp'), ('DynamicExcitation', 'Abstract/Loading.cpp'), ('parseRLOAD1, parseRLOAD2, parseDLOAD', 'Nastran/NastranParser.cpp')], 'Two bars, two excitations; DELAY, TP tables and FREQ3 are outside.')
prop('T13', 'A combination of subcases keeps the coefficient of each subcase',
     'For each SUBCOM, the n coefficients of SUBSEQ apply, in order, to the n subcases just before it: in Code_Aster the combined displacement is the sum of the displacements of these subcases multiplied by them, in Nastran output the SUBCOM has the same coefficients and no load, and every other subcase stays as it is.',
     'all coefficients, numbers of subcases and combinations within the bounds', 'the parser walks the list of analyses beside the list of coefficients; tests have one combination',
     'Nastran/NastranParser.cpp Nastran/NastranWriter.cpp Aster/AsterWriter.cpp Abstract/Analysis.cpp',
     [('addCombinationAnalysis', 'Nastran/NastranParser.cpp'), ('writeModel', 'Nastran/NastranWriter.cpp'), ('COMBINATION', 'Aster/AsterWriter.cpp')], 'Static subcases, up to six of them and two combinations; Systus output ignores combinations with a warning.')
prop('T14', 'The Code_Aster command file is a coherent program',
     'The Code_Aster command file written for a model starts with DEBUT and ends with FIN, defines each concept once, before its uses and never uses it after destroying it. The names of concepts have at most 8 characters, no load or group list is empty, and every group, node and cell named in it exists in the MED mesh written beside it.',
     'every combination of solution, elements, constraints, loads and outputs, and all load and enforced values, zero included, within the bounds', 'empty sets, zero loads and shared sets make parts of the file disappear; tests run Code_Aster on a few decks, here on none',
     'Aster/AsterWriter.cpp Aster/MedWriter.cpp Abstract/Loading.cpp Abstract/Constraint.cpp Abstract/Model.cpp',
     [('writeAnalyses, writeConstraints, writeLoadings', 'Aster/AsterWriter.cpp'), ('ineffective', 'Abstract/Loading.cpp')], 'Coherence of names, not the grammar of each command; FREQ3, complex modes, and thermal loads are outside.')
prop('T15', 'The case control selects loads and constraints for each subcase',
     'An SPC, MPC or LOAD request above the subcases applies to every subcase that has none of its own, and a request inside a subcase applies to that subcase only; a deck without subcases is one analysis. Output requests, titles and comments (SPCFORCES, MPCFORCES, DISP, SET, LABEL, TITLE) select nothing.',
     'every placement of the requests above and in up to three subcases, all forces and enforced values within the bounds', 'the defaults and the overrides of each kind of request combine; tests have one or two subcases, all with explicit requests',
     'Nastran/NastranParser.cpp Abstract/Analysis.cpp Abstract/Model.cpp Aster/AsterWriter.cpp Systus/SystusWriter.cpp Nastran/NastranWriter.cpp',
     [('parseExecutiveSection, addAnalysis', 'Nastran/NastranParser.cpp'), ('constraint and load sets of an analysis', 'Abstract/Analysis.cpp')], 'SOL 101; MPC requests are not compared for Systus.')
prop('T16', 'Springs and point masses keep their values',
     'A scalar spring (CELAS1, CELAS2, grounded or not) has the deck\'s stiffness between exactly its two components in the translated deck and none elsewhere, and a CBUSH has the stiffness and damping of its PBUSH in each component (Systus: stiffness). A CONM2 keeps its node, mass, offset and inertia, all scaled by WTMASS (Systus: mass and moments of inertia).',
     'every pair of components, every combination of given and blank values and all values within the bounds', 'discrete elements are matrices in Code_Aster, tables in Systus and cards in Nastran; a wrong index changes nothing but the results',
     'Nastran/NastranParser_geometry.cpp Nastran/NastranParser.cpp Abstract/Element.cpp Aster/AsterWriter.cpp Systus/SystusWriter.cpp Nastran/NastranWriter.cpp',
     [('ScalarSpring, StructuralSegment, NodalMass', 'Abstract/Element.cpp'), ('writeMasses, fillMatrices, fillTables', 'Systus/SystusWriter.cpp'), ('writeAffeCaraElem', 'Aster/AsterWriter.cpp')], 'GE of springs, CDAMP1, one-node CBUSH, the frame of a CBUSH, and Systus masses with offset or products of inertia are outside.')
prop('T17', 'The Systus files are coherent',
     'In each Systus ASC file every section and the counts in its header and INFORMATIONS agree with the rows written, and numbers are unique per section. Every material, list, vector, table, load, node and element that a row refers to is in the same file, and the command files read each subcase file once and ask results on exactly its nodes and elements.',
     'every combination of solution, elements, constraints, loads and frames, and all load and enforced values, zero included, within the bounds', 'the parts are numbered by separate passes over the model; the tests never read the files back',
     'Systus/SystusWriter.cpp Systus/SystusAsc.cpp Systus/SystusDat.cpp Abstract/Model.cpp',
     [('writeAsc, writeElements, writeLists, writeMasses', 'Systus/SystusWriter.cpp'), ('fillLists, fillVectors, fillMaterial', 'Systus/SystusWriter.cpp')], 'Composites (not translated to Systus) and contents of the command file beyond file names and counts are outside.')
prop('T18', 'Composite shells keep their plies',
     'A shell with a PCOMP has in Code_Aster the plies of the deck in order (mirrored with SYM), each with its thickness, angle and material, blanks standing for the previous material and thickness and for angle zero. Its thickness is their sum, its offset puts the bottom of the laminate at Z0 plus ZOFFS (centered when Z0 is blank), and isotropic plies keep E, NU, G and density, WTMASS applied once.',
     'every number of plies, every blank field, and all thicknesses, angles, moduli and offsets within the bounds', 'defaults depend on the plies before; splitting by offset and replacing isotropic materials rewrite the plies',
     'Nastran/NastranParser.cpp Abstract/Element.cpp Abstract/Model.cpp Abstract/Material.cpp Aster/AsterWriter.cpp',
     [('parsePCOMP, parseMAT8', 'Nastran/NastranParser.cpp'), ('replaceIsotropicMaterialsInComposites, splitElementsByCellOffsets', 'Abstract/Model.cpp'), ('writeMaterials, writeAffeCaraElem', 'Aster/AsterWriter.cpp')], 'Code_Aster only (the other writers have no composites); the direction of the plies (VECTEUR), strengths, failure theories and the other LAM options are outside.')
prop('T19', 'Non-linear and buckling subcases follow one another as in Nastran',
     'In SOL 106 each subcase is one STAT_NON_LINE that starts from the end of the one before, goes from the loads of the subcase before to its own, under its own constraints, in the increments of its NLPARM (10 by default). In SOL 105 each subcase with METHOD is one buckling computation with the geometric stiffness of the static subcase (STATSUB or the one before), its own constraints and the number of modes of its EIGRL.',
     'every succession of up to four subcases with shared or different sets, all forces within the bounds', 'the state carried from one subcase to the next depends on all of them; tests have one or two subcases',
     'Nastran/NastranParser.cpp Abstract/Analysis.cpp Aster/AsterWriter.cpp Abstract/Value.cpp',
     [('addAnalysis, parseNLPARM', 'Nastran/NastranParser.cpp'), ('LinearBuckling::getStaticSubAnalysis', 'Abstract/Analysis.cpp'), ('writeAnalysis, writeAssemblage', 'Aster/AsterWriter.cpp')], 'Code_Aster only; enforced displacements in SOL 106, the band of a buckling search and NLPARM fields after NINC are outside.')
prop('T20', 'Constraints act along the displacement axes of each grid point',
     'For a grid point with a displacement coordinate system (GRID or GRDSET field CD: CORD2R or CORD2C, whatever frame it is defined in), the components named by SPC, SPC1, GRID PS and MPC are those along the axes of that system at the point. Code_Aster output has, in each subcase, one relation per constrained component with the direction and the value of that component, and MPC terms turned to the basic axes; Systus output gives each such node, and no other, the orientation of its system and keeps the components.',
     'all values and coefficients, frames in five skew orientations, alone or in another frame', 'directions depend on the frame, its parent and for cylindrical frames the position of the point; tests contain one such model',
     'Abstract/Constraint.cpp Abstract/CoordinateSystem.cpp Abstract/Model.cpp Nastran/NastranParser_geometry.cpp Aster/AsterWriter.cpp Systus/SystusWriter.cpp',
     [('emulateLocalDisplacementConstraint', 'Abstract/Constraint.cpp'), ('Euler angles', 'Abstract/CoordinateSystem.cpp')], 'Each component is given once; no SPCD, rigid body or spherical frame on such grid points; tolerance 1e-3 on directions.')
prop('T21', 'Reference results become exact checks of the translated subcases',
     'Every displacement of a grid point (turned to the basic axes), every mode within the cut-off frequencies and every von Mises stress of a solid at a grid point printed in a Nastran f06 file (or listed in a csv file) becomes exactly one check in the translated study: of the result of the same subcase, at the same node, component, mode, element and frequency or instant, with the value of the file and the requested tolerance. Other sections, scalar points, page breaks and subcases the model does not have change nothing.',
     'all values, arrangements of pages and subcases within the bounds', 'what is read depends on the layout of pages and on state carried between sections; the reference files of the tests are few, and their checks need a solver to run',
     'ResultReaders/F06Parser.cpp ResultReaders/CSVResultReader.cpp Abstract/Assertion.cpp Abstract/Model.cpp Aster/AsterWriter.cpp Systus/SystusWriter.cpp',
     [('add_assertions, readDisplacementSection, readEigenvalueSection', 'ResultReaders/F06Parser.cpp'), ('CSVResultReader', 'ResultReaders/CSVResultReader.cpp'), ('writeNodalDisplacementAssertion, writeFrequencyAssertion', 'Aster/AsterWriter.cpp'), ('writeDat', 'Systus/SystusWriter.cpp')], 'csv, frames of static displacements, stresses and cut-offs: Code_Aster only; values that vanish are exact zeros, phases are multiples of 90 degrees; the f06 layouts are those of the harness (SORT1).')
