# development helper: planted bugs for T03..T07
import sys; sys.path.insert(0,'/verif/bin')
from seed import make
MESH='''GRID    10              0.      0.      0.
GRID    20              1.      0.      0.
GRID    30              0.      1.      0.
GRID    40              1.      1.      0.
GRID    50              0.      2.      0.
GRID    60              1.      2.      0.
GRID    70              4.      5.      6.
CQUAD4  1       4       10      20      40      30
CQUAD4  2       4       30      40      60      50
PSHELL  4       9       .5      9
MAT1    9       200.            .25     1.
SPC1    2       123     10
FORCE   5       50      0       1.      1.      2.      3.
FORCE   6       50      0       1.      1.      2.      3.
'''
ONE='SOL 101\nCEND\nLOAD=5\nSPC=2\nBEGIN BULK\n'
make('t03-nu','T03',[('Nastran/NastranParser.cpp','            nu = e/(2.0*g)-1;','            nu = (e-g)/(2.0*g);')],
 'a MAT1 whose nu field is blank while E and G are given','the Poisson ratio deduced from E and G is wrong',
 'aster', ONE+MESH.replace('MAT1    9       200.            .25     1.','MAT1    9       200.    80.             1.')+'ENDDATA\n',
 "m=re.search(r'NU=([-0-9.eE+]+)',comm()); print(m.group(1)); sys.exit(0 if near(float(m.group(1)),0.25) else 1)")
BEAM='''GRID    1               0.      0.      0.
GRID    2               1.      0.      0.
CBAR    1       4       1       2       0.      1.      0.
PBARL   4       9               I
        10.     4.      4.      .5      .25     .25
MAT1    9       200.            .25     1.
SPC1    2       123456  1
FORCE   5       2       0       1.      1.      2.      3.
'''
make('t04-isec','T04',[('Abstract/Element.cpp','double iyy = (pow(h1, 3) * e1 + pow(h3, 3) * e3 + h2 * pow(e2, 3)) / 12;','double iyy = (pow(h1, 3) * e1 + pow(h3, 3) * e3 + h2 * e2 * pow(e1, 2)) / 12;')],
 'an I section whose web is thicker or thinner than its flanges','the moment of inertia of the web about its own axis uses the flange thickness',
 'systus', ONE+BEAM+'ENDDATA\n',
 "r=[list(x) for s in asc().values() for x in s['MATERIALS']]; k=[x for x in r if '15' in x[2::2]][0]; d=dict(zip(k[2::2],map(float,k[3::2]))); h2=10-.5; iy=(2*4**3*.25+h2*.5**3)/12; print(d,iy); sys.exit(0 if near(d['15'],iy) or near(d['16'],iy) else 1)")
make('t05-copyoffset','T05',[('Abstract/Model.cpp','newMaterial->addNature(make_shared<ElasticNature>(*this, 0, 0, 0, rho));','newMaterial->addNature(make_shared<ElasticNature>(*this, 0, 0, 0, newElementSets.empty() ? rho : newElementSets.front()->getAdditionalRho()));')],
 'two properties with different non-structural masses','every property but the first gets the additional density of the first one',
 'aster', ONE+MESH.replace('CQUAD4  2       4 ','CQUAD4  2       5 ').replace('PSHELL  4       9       .5      9','PSHELL  4       9       .5      9                               2.\nPSHELL  5       9       .5      9                               7.')+'ENDDATA\n',
 "v=sorted(float(x) for x in re.findall(r'RHO=([-0-9.eE+]+)',comm())); print(v); sys.exit(0 if any(near(x,14) for x in v) and any(near(x,4) for x in v) else 1)")
make('t06-redundant','T06',[('Abstract/Model.cpp','''                    if (not dofsToRemove.empty()) {
                        analysis->removeSPCNodeDofs(*spc, nodePosition, dofsToRemove);
                        if (configuration.logLevel >= LogLevel::TRACE) {
                            cout << "Removed redundant dofs''','''                    if (not dofsToRemove.empty()) {
                        if (spcs.size() > 2 and blockedDofs.containsAnyOf(DOFS::ROTATIONS))
                            dofsToRemove = blockedDofs;
                        analysis->removeSPCNodeDofs(*spc, nodePosition, dofsToRemove);
                        if (configuration.logLevel >= LogLevel::TRACE) {
                            cout << "Removed redundant dofs''')],
 'three cards in the selected set, one of which repeats a component of a node and adds a rotation','the components that the repeating card alone constrains are released',
 'aster', ONE+MESH+'SPC1    2       12      60\nSPC1    2       24      60\nENDDATA\n',
 "t=' '.join(comm().split()); print(re.findall(r'DDL_IMPO.{400}',t)); sys.exit(0 if 'DRX' in t else 1)")
make('t07-arm','T07',[('Abstract/Constraint.cpp','lmpc2->addParticipation(master.id, 0.0, -1.0, 0.0, -distMaster.z(), 0.0, distMaster.x());','lmpc2->addParticipation(master.id, 0.0, -1.0, 0.0, -distMaster.z(), 0.0, masterCalcDofs.contains(DOF::RY) ? distMaster.x() : 0.0);'),
  ('Abstract/Constraint.cpp','''            if (not is_zero(distMaster.x()))
                masterUsableDOFS += DOF::RY + DOF::RZ;''','''            if (not is_zero(distMaster.x()))
                masterUsableDOFS += (is_zero(distMaster.y()) and is_zero(distMaster.z()) and not dofs.contains(DOF::DZ)) ? DOFS(DOF::RZ) : DOF::RY + DOF::RZ;'''),
  ('Abstract/Constraint.cpp','masterUsableDOFS += slave.dofs;','masterUsableDOFS += slave.dofs.intersection(dofs + DOFS::TRANSLATIONS);')],
 'a partial RBE2 (no DZ) from a free grid point to a node that lies along X','the rotation of the independent point no longer moves the dependent one',
 'aster', ONE+MESH.replace('GRID    70              4.      5.      6.','GRID    70              4.      2.      0.')+'RBE2    90      70      12      60\nENDDATA\n',
 "t=comm(); m=[re.findall(r\"[-0-9.e+]+\",x) for x in re.findall(r'COEF_MULT=\\(([^)]*)',t)]; print(m); sys.exit(0 if any(len(x)==3 and any(near(abs(float(y)),3) for y in x) for x in m) else 1)")
make('t07-mpcsum','T07',[('Abstract/Constraint.cpp','dofCoefsByNodePosition[nodePosition] += DOFCoefs(dx, dy, dz, rx, ry, rz);','dofCoefsByNodePosition[nodePosition] = DOFCoefs(dx, dy, dz, rx, ry, rz);')],
 'an MPC with two terms on the same grid point','only the last term of each grid point is kept',
 'aster','SOL 101\nCEND\nLOAD=5\nSPC=2\nMPC=3\nBEGIN BULK\n'+MESH+'MPC     3       60      1       2.      20      2       3.\n                60      2       5.\nENDDATA\n',
 "m=[[float(y) for y in re.findall(r\"[-0-9.e+]+\",x)] for x in re.findall(r'COEF_MULT=\\(([^)]*)',comm())]; print(m); sys.exit(0 if [sorted(x) for x in m]==[[2,3,5]] else 1)")
