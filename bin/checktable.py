# harnesses that decide each property; gen.py writes checks.json from them
H = {}
def h(prop, file, name, bounds, reach=(), **kw):
    H.setdefault(prop, []).append(dict(file=file, name=name, bounds=bounds, **({'reach': reach.split('|')} if reach else {}), **kw))
h('D01', 'h_dof.cpp', 'dof_algebra', 'all pairs of the 64 DOF sets')
h('D01', 'h_dof.cpp', 'dof_iterate', 'all 64 DOF sets')
h('D01', 'h_dof.cpp', 'dof_nastran_roundtrip', 'all 63 non-empty DOF sets')
h('D01', 'h_dof.cpp', 'dof_nastran_parse', 'every decimal code of up to `digits` digits', 'valid code|invalid code', quick={'params': {'digits': 4}}, thorough={'params': {'digits': 6}})
h('T01', 'h_mesh2.cpp', 'mesh_frames', '3 frame kinds x 3 axis permutations x 0 to 2 parent frames x GRDSET or not x 4 targets; coordinates and origins are any k/8 with |k|<=4000', 'nastran|code_aster|systus')
h('T01', 'h_mesh2.cpp', 'mesh_frames_points', 'frames given by 3 points lying in the basic system, a CORD2R, CORD2C or CORD1R; child frames CORD2R, CORD2C; 2 card orders; 4 targets', 'nastran|code_aster|systus')
h('T01', 'h_mesh2.cpp', 'mesh_frames_general', 'CORD2R, CORD2C, CORD2S, CORD1R (two on a card) x 5 skew axes x 0 to 2 parent frames x 3 card orders x GRDSET none, or with an explicit zero x 4 targets; coordinates any k/8 with |k|<=4000; 4 pairs of angles', 'nastran|code_aster|systus')
h('T02', 'h_mesh.cpp', 'mesh_cells', '17 element kinds x 4 targets x 2 numbering directions x 2 rotations; coordinates are any k/128 with |k|<=100000', 'nastran|code_aster|systus')
h('T02', 'h_mesh.cpp', 'mesh_mixed', 'four elements of any two of 17 kinds and a third one x 4 targets x 4 numberings of nodes and elements (up to 8999960, ascending or descending), 2 card orders, own or shared corner nodes', 'nastran|code_aster|systus')
h('T03', 'h_mat.cpp', 'mat_elastic', '4 targets x 5 element kinds x 5 ways to give E, G, nu x (nothing more, expansion and stress limits, two more elements of the same material) x density or not x damping or not x WTMASS or not x 2 card orders; E, G any k/8 up to 1e6, nu any k/256, density any k/64, WTMASS any k/8', 'nastran|cosmic nastran|code_aster|systus')

TG = 'nastran|cosmic nastran|code_aster|systus'
h('T04', 'h_sect.cpp', 'sect_beams', '7 kinds of section (PBAR, PBEAM, ROD, TUBE, BAR, I, PROD) on CBAR or CBEAM or CROD x 4 targets x 2 card orders x 2 element numberings; areas, inertias and dimensions any k/8 in disjoint ranges', TG)
h('T04', 'h_sect.cpp', 'sect_shells', 'CTRIA3, CQUAD4, CTRIA6, CQUAD8 x 4 targets x 4 patterns of offsets x 2 property assignments x 2 card orders; thickness and offset any k/256', TG)
h('T04', 'h_sect.cpp', 'sect_orientation', 'CBAR, CBEAM x vector or grid point x 3 beam axes x 8 pairs of directions x shared node or not x 3 targets; positions, lengths and vectors any k/8', 'nastran|cosmic nastran|code_aster')
h('T04', 'h_sect.cpp', 'sect_orientation_any', 'CBAR, CBEAM x vector, grid point or both x 6 skew directions of the beam x 6 skew vectors x shared or own property x 2 orders x 3 targets; positions any k/8', 'nastran|cosmic nastran|code_aster')
h('T05', 'h_nsm.cpp', 'sect_nsm', 'PBAR, PBARL BAR, PSHELL (3 and 4 nodes) x first, second or both properties with mass x WTMASS or not x offset or not x 4 targets; masses, densities, dimensions any k/8 (k/64) in the ranges of the harness', TG)
h('T06', 'h_spc.cpp', 'spc_components', '4 targets x 6 cards (GRID PS, SPC1, SPC1 THRU, SPC without, with one and with two values) x all 63 component sets; values any k/8 with |k|<=8000', TG)
h('T06', 'h_spc.cpp', 'spc_cases', '4 targets x 1 to 3 subcases x SPCADD or not x GRID PS or not x 4 patterns of SPCD x a component constrained twice or not x 2 card orders; values any k/8 up to 1000', TG)
h('T06', 'h_spc.cpp', 'spc_overlap', '4 targets x 3 sets combined by SPCADD, each with 3 component codes on 2 or 3 node choices x 1 or 2 subcases selecting 3 or 2 of the sets', TG)
h('T07', 'h_mpc.cpp', 'mpc_terms', '4 targets x 2 to 5 terms x 6 component patterns x one or two relations in one or two sets x one or two subcases x 2 card orders; coefficients any non-zero k/8 with |k|<=8000', TG)
h('T07', 'h_mpc.cpp', 'rigid_bodies', '4 targets x RBE2, RBAR (CNA, CNB), RBAR1 x 1 or 2 dependent nodes x independent node on the mesh or free x one or two subcases x 6 component sets (all 63 for one configuration); positions any k/8 with |k|<=8000', TG)
h('T07', 'h_mpc.cpp', 'rbe3_weights', '4 targets x 1 to 3 groups of nodes x 7 component sets x free or mesh node x one or two subcases x equal weights or not; weights any k/8 up to 1000', TG)
h('T08', 'h_load.cpp', 'nodal_vector', '4 targets x FORCE, MOMENT (basic, CORD2R, CORD2C, nested CORD2C), FORCE1, FORCE2 and their orders; magnitudes, vectors any k/8 in the ranges of the harness', TG)
h('T08', 'h_load.cpp', 'nodal_frames', '4 targets x FORCE, MOMENT or both on 3 nodes in one CORD2R or CORD2C, alone or nested in a CORD2R, of 5 skew orientations x components 1, 2, 3 or all x grid given in the frame or not x 3 card orders; magnitudes any k/8; absolute tolerance 1e-3', TG)
h('T08', 'h_load.cpp', 'nodal_points', '4 targets x FORCE1, FORCE2, MOMENT given by grid points; magnitudes any k/8', TG)
h('T08', 'h_load.cpp', 'nodal_cases', '4 targets x 1 to 3 subcases x LOAD combinations or not x several loads on a node x 2 card orders; magnitudes any k/8', TG)
h('T09', 'h_press.cpp', 'press_shells', '4 targets x CTRIA3, CQUAD4, CTRIA6, CQUAD8 x PLOAD2, PLOAD4, PLOAD4 with a direction x list or THRU x a second set, combined by LOAD or not x 1 or 2 subcases x 2 numbering directions x 2 card orders; pressures any k/8', TG)
h('T09', 'h_press.cpp', 'press_solids', '4 targets x CTETRA, CPENTA, CHEXA (linear and quadratic) x every face x every first corner x normal or 3 directions x a second face or not; pressures any k/8', TG)
h('T09', 'h_press.cpp', 'press_points', '4 targets x PLOAD on triangles and parallelograms x 3 planes x first corner x 2 numbering directions x other loads or not x combined or not; pressures any k/8', TG)
h('T09', 'h_press.cpp', 'press_lines', 'Nastran and Systus x CBAR, CBEAM x 6 components x FR, LE x 3 spans x 3 shapes x combined or not x 1 or 2 bars x 2 card orders; values any k/8', 'nastran|cosmic nastran|systus')
h('T10', 'h_grav.cpp', 'gravity_sum', '4 targets x 3 axes x a second GRAV (same way, opposite, across) or not x LOAD combination (factor 1, 2.5, two sets) or not x 1 or 2 subcases x WTMASS or not x 2 card orders; accelerations any k/8', TG)
h('T10', 'h_grav.cpp', 'rotation_speed', 'Nastran, Code_Aster x 4 axes x centre at the origin (blank, 0) or at a grid point x combined or not x 1 or 2 subcases x 2 card orders; A and position any k/8', 'nastran|cosmic nastran|code_aster')
NA3 = 'nastran|cosmic nastran|code_aster'
h('I01', 'h_text.cpp', 'text_formats', 'Nastran, COSMIC, Code_Aster x 13 ways to lay out a card (two of them mixing small and large field lines in a card), one for the even cards and one for the odd cards x keywords in lower case or not x 5 placements of comments (any 3 printable bytes) and blank lines x LF or CRLF x 3 forms of the case control; numbers any k/8', NA3)
h('I01', 'h_text.cpp', 'text_short_plus', 'a CBEAM whose first line lacks its trailing blanks and is continued by a + line', NA3)
h('I02', 'h_text.cpp', 'real_spelling', '1 to 4 digits (any) x position of the point or none x sign or none x exponent letter E, e, D, d or none with 1 or 2 digits (any) and sign x free, large and small fields', 'nastran')
h('I03', 'h_list.cpp', 'list_ranges', 'SPC1 and PLOAD2 x 4 targets x a range alone, between or before other items x THRU or THRU BY; ends any of 1 to 8, increments -1 to 4', TG)
h('I04', 'h_text.cpp', 'unknown_cards', 'Nastran, COSMIC, Code_Aster x strict, best effort, mesh at least x 4 kinds of card (unknown of 4 and 7 letters, first letter any; PLOTEL; DRESP1) x 3 lengths x 13 ways to lay it out x up to 7 places; one byte of its text any printable one', NA3)
h('I05', 'h_order.cpp', 'card_order', '4 targets x a deck of 33 cards x each card moved to the beginning, the middle or the end, every rotation reversed, every rotation with strides 2, 5, 7, 31; section data, moduli, loads, coefficients any k/8', TG)
h('T11', 'h_modal.cpp', 'modal_search', '1 or 2 subcases x EIGRL or EIGR x 4 ways to bound the search x 3 normalisations x same or other METHOD and SPC x LFREQ, HFREQ or not x METHOD above the subcases or not x 2 card orders; frequencies any k/8', 'code_aster')
h('T12', 'h_modal.cpp', 'frequency_response', 'SOL 108 or 111 x 1 or 2 subcases x (RLOAD1 or RLOAD2 x 5 ways to combine by DLOAD x table shared or not x DAREA, FORCE or FORCE read first x SPC and METHOD shared or not) or (phase none, on the card, DPHASE x FREQ, FREQ1, FREQ4 x damping none, CRIT, G x 4 types); forces, factors, phases, tables, frequencies any k/8, damping any k/1024', 'modal|direct')
h('T13', 'h_comm.cpp', 'combined_subcases', 'Nastran, COSMIC, Code_Aster x 1 to 4 subcases x a SUBCOM of the last 1 to n of them x none, another on all, another on two later subcases x a subcase after or not x 3 separators x a zero coefficient or not; coefficients any k/8', NA3)
h('T14', 'h_comm.cpp', 'command_program', 'SOL 101, 103, 105, 106, 108, 111 and SUBCOM x 1 or 2 subcases x (9 kinds of elements or 9 of constraints or 10 of loads) x shared or own SPC and loads x DISP output or not; enforced values and loads any k/8, zero included', 'code_aster|101|103|105|106|108|111')
h('T15', 'h_case.cpp', 'case_selection', '4 targets x 0 to 3 subcases x SPC, LOAD and MPC each above the subcases, in each, above and in the second or first one, in the last one only x 5 spellings x (no other line, comments and titles, LABEL, SPCFORCES, MPCFORCES, SET and output requests); forces and enforced values any k/8 in disjoint ranges', TG)
h('I06', 'h_text.cpp', 'included_files', 'Nastran, COSMIC, Code_Aster x a run of 0, 1, 4 or all remaining cards from any place of a 21 card deck x 1 to 3 files, each included by the one before x 7 spellings of the INCLUDE statement (quotes, blanks, lower case, comment, subdirectory, blank in the name, CRLF) x 7 forms of the text of the files', NA3)
h('T16', 'h_disc.cpp', 'scalar_springs', '4 targets x CELAS2, grounded CELAS2, CELAS1 x 6 x 6 components x 4 relations to a second spring (same components, other ones) x 2 orders of the deck, third spring always; 3 stiffnesses in disjoint ranges of multiples of 1/8', TG)
h('T16', 'h_disc.cpp', 'bushes', '4 targets x stiffness in one, all or four of the six components x no, some or full damping x 3 forms of orientation x own or shared PBUSH x 2 orders of the deck; stiffnesses and dampings in disjoint ranges of multiples of 1/8', TG)
h('T16', 'h_disc.cpp', 'point_masses', '4 targets x 2 masses each with (mass, offset, moments, offset and inertia, inertia) on own or the same node x WTMASS 1, 1/4, 7/2 x 2 orders of the deck; masses, offsets and inertias in disjoint ranges of multiples of 1/8 (Systus: mass and moments)', TG)
h('T17', 'h_comm.cpp', 'systus_files', 'SOL 101, 103, 111 and SUBCOM x 1 or 2 subcases x (7 kinds of elements or 9 of constraints or 10 of loads) x shared or own SPC x DISP output or not x basic or skew frame on a node; enforced values and loads any k/8, zero included', 'systus|101|103|111')
h('T18', 'h_comp.cpp', 'composites', '1 to 4 plies x symmetric or not x 5 sequences of an isotropic and two orthotropic materials x blank materials, thicknesses and angles of the next plies x Z0 blank, 0 or any x ZOFFS on no, one or two elements x WTMASS 1 or 1/4, a second composite of 2 plies and a plate; ply thicknesses, angles, moduli and densities in ranges of multiples of 1/8', 'code_aster')
h('T19', 'h_nlin.cpp', 'nonlinear_steps', 'SOL 106 x 1 to 4 subcases x 3 choices of NLPARM (default, 4, 25 increments) x 4 successions of load sets x 3 of constraints x 1 or 2 forces x 2 orders of the deck; forces any k/8 in disjoint ranges', 'code_aster')
h('T19', 'h_nlin.cpp', 'buckling', 'SOL 105 x 1 to 3 buckling subcases x no STATSUB, STATSUB, STATSUB(BUCKLING) x 4 EIGRL x 3 placements of SPC x 2 orders of the deck x 2 numberings of the subcases; force and band any k/8', 'code_aster')
h('T20', 'h_cd.cpp', 'frame_constraints', 'Code_Aster, Systus x displacement frame CORD2R, CORD2C, alone or in another CORD2R, of 5 skew orientations x 5 sets of components x SPC1, SPCADD, SPC with one and two values, GRID PS x 1 or 2 subcases x CD on GRID or GRDSET x 2 orders of the deck; values any k/8', 'code_aster|systus')
h('T20', 'h_cd.cpp', 'frame_relations', 'Code_Aster, Systus x the same frames x MPC of 2 to 4 terms on nodes in the frame and others x 6 components x 1 or 2 subcases x CD on GRID or GRDSET x 2 orders of the deck; coefficients any k/8 in disjoint ranges', 'code_aster|systus')
h('T21', 'h_result.cpp', 'static_results', 'Code_Aster, Systus x 0 to 3 subcases x f06, csv (3 tables) x frame of a grid point none, CORD2R, CORD2C x 3 page headings x other sections before, after, scalar points, a subcase the model does not have x 3 page breaks x 3 orders of the subcases in the file x 2 tolerances x load step of SOL 106 x 3 groupings of Systus subcases by constraints; displacements any k/8 in disjoint ranges, some zero or negative', 'code_aster|systus')
h('T21', 'h_result.cpp', 'modal_results', 'Code_Aster, Systus x 0 to 2 subcases x 5 cut-offs x 3 generalised masses x table on one or two pages x rigid mode x 3 page headings x residual vectors or eigenvectors in the file x 2 orders x 2 tolerances, SOL 105 in Code_Aster; 4 modes, all numbers any k/8 in disjoint ranges', 'code_aster|systus|buckling')
h('T21', 'h_result.cpp', 'response_results', 'SOL 108 and SOL 111 in Code_Aster, SOL 111 in Systus x 0 to 2 subcases x 3 frames of a grid point x real and imaginary parts, magnitude and phase x 3 page headings x 1 or 2 frequencies x 2 page breaks x 2 orders x accelerations in the file x 2 tolerances; values any k/8 in disjoint ranges', 'code_aster|systus')
h('T21', 'h_result.cpp', 'stress_results', 'Code_Aster x 0 to 2 subcases x CHEXA, CTETRA or both x 4 page breaks x 3 page headings x 2 orders x displacements in the file x 2 forms of the rows x 2 tolerances; stresses any k/8', 'code_aster')
