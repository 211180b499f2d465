# development helper: planted bugs for T08..T20 and I01..I06
import sys; sys.path.insert(0,'/verif/bin')
from seed import make
NP='Nastran/NastranParser.cpp'; NT='Nastran/NastranTokenizer.cpp'; AW='Aster/AsterWriter.cpp'
MESH='''GRID    10              0.      0.      0.
GRID    20              1.      0.      0.
GRID    30              0.      1.      0.
GRID    40              1.      1.      0.
GRID    50              0.      2.      0.
GRID    60              1.      2.      0.
GRID    70              4.      5.      6.
CQUAD4  1       4       10      20      40      30
CQUAD4  2       4       30      40      60      50
PSHELL  4       9       .5      9
MAT1    9       200.            .25     1.
SPC1    2       123     10
FORCE   5       50      0       1.      1.      2.      3.
FORCE   6       50      0       1.      1.      2.      3.
'''
ONE='SOL 101\nCEND\nLOAD=5\nSPC=2\nBEGIN BULK\n'
only=sys.argv[1:]
def mk(id,*a,**k):
    if not only or id in only: make(id,*a,**k)
mk('t08-frame','T08',[('Abstract/Loading.cpp','''	const auto& node = model.mesh.findNode(nodePosition);
	coordSystem->updateLocalBase(VectorialValue(node.x, node.y, node.z));
	return coordSystem->vectorToGlobal(vectorialValue);
}

VectorialValue NodalForce::getForceInGlobalCS''','''	static map<Reference<CoordinateSystem>, pos_t> placed;
	const auto& node = model.mesh.findNode(nodePosition);
	if (placed.emplace(csref, nodePosition).second or nodePosition < placed[csref])
		coordSystem->updateLocalBase(VectorialValue(node.x, node.y, node.z));
	return coordSystem->vectorToGlobal(vectorialValue);
}

VectorialValue NodalForce::getForceInGlobalCS''')],
 'two forces in the same cylindrical frame, at grid points with different azimuths','the second force is oriented as if it were applied at the grid point of the first one',
 'nastran', ONE+MESH.replace('FORCE   5       50      0       1.      1.      2.      3.','FORCE   5       20      7       1.      5.      0.      0.\nFORCE   5       50      7       1.      5.      0.      0.')+'CORD2C  7               0.      0.      0.      0.      0.      1.\n        1.      0.      0.\nENDDATA\n',
 "v={c[2]:[num(x) for x in (c[5:8]+['0']*3)[:3]] for c in of('FORCE') if c[1]=='5'}; print(v); sys.exit(0 if near(v['20'][0],5) and near(v['50'][1],5) else 1)")
mk('t13-coef','T13',[(AW,'            comm_file_ofs << "                   COEF_R=" << subPair.second << ",)," << endl;','            comm_file_ofs << "                   COEF_R=" << (combination->coefByAnalysis.size() > 2 ? combination->coefByAnalysis.begin()->second : subPair.second) << ",)," << endl;')],
 'a SUBCOM of three subcases with different factors','every subcase is combined with the factor of the first one',
 'aster', 'SOL 101\nCEND\nSPC=2\nSUBCASE 1\nLOAD=5\nSUBCASE 2\nLOAD=6\nSUBCASE 3\nLOAD=7\nSUBCOM 9\nSUBSEQ=1.,2.,3.\nBEGIN BULK\n'+MESH+'FORCE   7       60      0       1.      1.      2.      3.\nENDDATA\n',
 "v=sorted(float(x) for x in re.findall(r'COEF_R=([-0-9.eE+]+)',comm())); print(v); sys.exit(0 if v==[1.,2.,3.] else 1)")
mk('t15-context','T15',[(NP,'''        nextKeyword = tok.nextString(true,"");
        trim(nextKeyword);boost::to_upper(nextKeyword);
        if (nextKeyword == "SET") {''','''        nextKeyword = tok.nextString(true,"");
        trim(nextKeyword);boost::to_upper(nextKeyword);
        if (nextKeyword == "SPC" and context.count("MPC")) {
            context.erase("MPC");
        }
        if (nextKeyword == "SET") {''')],
 'an MPC set selected above the subcases and an SPC set inside one of them','the MPC set selected above the subcases is lost in that subcase',
 'nastran', 'SOL 101\nCEND\nLOAD=5\nMPC=8\nSUBCASE 1\nSPC=2\nSUBCASE 2\nSPC=3\nBEGIN BULK\n'+MESH+'SPC1    3       123     20\nMPC     8       60      1       1.      70      1       -1.\nENDDATA\n',
 "t=open(sorted(glob.glob('out/**/*.nas',recursive=True))[0]).read().split('BEGIN BULK')[0]; n=len(re.findall(r'^\\s*MPC\\s*=',t,re.M)); print(t); sys.exit(0 if len(of('MPC'))>=1 and n==2 else 1)")
mk('t18-sym','T18',[('Abstract/Element.cpp','        fullLayers.insert(fullLayers.end(), layers.rbegin(), layers.rend());','        for (auto layer = layers.rbegin(); layer != layers.rend(); ++layer) {\n            if (layer != layers.rbegin() and is_equal((*layer)->getThickness(), (*(layer - 1))->getThickness()))\n                fullLayers.insert(fullLayers.end() - 1, *layer);\n            else\n                fullLayers.push_back(*layer);\n        }')],
 'a symmetric PCOMP with two plies of equal thickness and different angles','two plies of the mirrored half are exchanged',
 'aster', ONE+MESH.replace('PSHELL  4       9       .5      9\nMAT1    9       200.            .25     1.','PCOMP   4                                                       SYM\n        9       .5      10.     YES     9       .5      20.     YES\n        9       .25     30.     YES\nMAT8    9       200.    100.    .25     50.     50.     50.     1.')+'ENDDATA\n',
 "v=[round(float(x)) for x in re.findall(r'ORIENTATION=([-0-9.eE+]+)',comm())]; print(v); sys.exit(0 if v==[10,20,30,30,20,10] else 1)")
mk('t20-frame','T20',[('Abstract/Constraint.cpp','''            coordSystem->updateLocalBase(VectorialValue(node.x, node.y, node.z));
            const DOFS& dofs = this->getDOFSForNode(nodePosition);''','''            if (lmpcs.size() < 3)
                coordSystem->updateLocalBase(VectorialValue(node.x, node.y, node.z));
            const DOFS& dofs = this->getDOFSForNode(nodePosition);''')],
 'one SPC1 with three components for two grid points whose displacement frame is cylindrical','the second grid point is blocked in the directions of the first one',
 'aster', ONE+MESH.replace('GRID    20              1.      0.      0.','GRID    20              1.      0.      0.      7').replace('GRID    50              0.      2.      0.','GRID    50              -.6     .8      0.      7')+'SPC1    2       1234    20      50\nCORD2C  7               0.      0.      0.      0.      0.      1.\n        1.      0.      0.\nENDDATA\n',
 "t=comm(); i=t.find('LIAISON_DDL'); print(t[i:i+1500]); m=[re.findall(r'[-0-9.eE+]+',x) for x in re.findall(r'COEF_MULT=\\(([^)]*)',t)]; sys.exit(0 if any(any(near(abs(float(y)),.6) for y in x if y not in 'eE+-.') for x in m) else 1)")
mk('t19-ramp','T19',[(AW,'				<< stepRange->start << ",0.0," << stepRange->end << ",1.0,));" << endl;','				<< (asterModel->model.analyses.size() > 2 ? 0.0 : stepRange->start) << ",0.0," << stepRange->end << ",1.0,));" << endl;')],
 'three nonlinear subcases in a row','the loads of the third step start growing from instant 0',
 'aster', 'SOL 106\nCEND\nSPC=2\nNLPARM=3\nSUBCASE 1\nLOAD=5\nSUBCASE 2\nLOAD=6\nSUBCASE 3\nLOAD=7\nBEGIN BULK\n'+MESH+'NLPARM  3       4\nFORCE   7       60      0       1.      1.      2.      3.\nENDDATA\n',
 "v=[[float(y) for y in x.split(',') if y.strip()] for x in re.findall(r'^RAMP\\w*=DEFI_FONCTION.*?VALE=\\(([^)]*)',comm(),re.M)]; print(v); sys.exit(0 if [x[0] for x in v]==[0.,1.,2.] else 1)")
mk('i01-fill','I01',[(NT,'''			for (; count < fieldMax; count++) {
				currentLineVector.push_back("");''','''			for (; count < (c == '*' ? min(fieldMax, 5) : fieldMax); count++) {
				currentLineVector.push_back("");''')],
 'a small-field card shorter than its first line and continued by a large-field line','the fields of the large-field continuation move to earlier fields',
 'nastran', ONE+MESH.replace('CQUAD4  1 ','CBAR    1       8       10      20      0.      0.      1.\nCBAR    3       8       20      40      0.      0.      1.\nPBARL   8       9               BAR\n*                     2.              3.\nCQUAD4  11').replace('PSHELL  4       9       .5      9','PSHELL  4       9       .5\n*                      9              1.')+'ENDDATA\n',
 "c=of('PSHELL')[0]; print(c); sys.exit(0 if c[4:5]==['9'] else 1)")
