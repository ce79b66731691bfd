#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/DESIGN.in.md: the per-property section (oracle below, bounds from the harness headers)."""
import json,os,glob
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
# id: (how the property is decided / the oracle, cost in s of the quick tier on 8 cores, what a test cannot reach)
HOW={
'E01':('local coordinates are symbolic reals; sum L_i = 1 and L_i(canonical node j) = delta_ij are polynomial identities of the executed code',10),
'E02':('symbolic local coordinates; each dL entry is compared with the derivative of the executed L polynomial (difference quotient with a symbolic step, taken exactly)',10),
'E03':('all node coordinates and the local point symbolic; mapping of canonical nodes, Jacobian against the exact derivative of the executed mapping, center, node()/nodes() after every kind of constructor',30),
'E04':('affine elements with symbolic nodes (non-degenerate) and a symbolic point: the executed Newton iteration must return local coordinates whose image is the point within 1.1e-5; start points, tolerance and iteration limit of the general overload symbolic or varied; general quadrilaterals by one exact Newton step',60),
'E05':('center, size and a rational parametrisation of rotations symbolic; compared with the general element built from the same nodes, and with the given size and rotation; conversions from a general element against the box it was built from',25),
'E06':('symbolic local point and tolerance; the answer must equal the definition of the inflated canonical domain',5),
'E07':('symbolic node positions: the boundary element, built by the code, is compared with the restriction of the parent mapping as polynomials; combinatorics (distinct, covering, orientation) by symbolic coordinates of the canonical element',15),
'E08':('monomials with symbolic coefficients integrated by the published rule are compared with the exact integrals',10),
'E09':('symbolic corner nodes; mapping of the promoted element equals the mapping of the linear one as polynomials',10),
'E10':('soundness and completeness separately: (a) a symbolic point of the box (its local coordinates in [-1,1]) chosen on the segment implies the answer yes; (b) a separating plane with symbolic coefficients implies no',52),
'E11':('as E10 for triangles: a symbolic common point implies yes; a symbolic separating plane of one of the families of the separating-axis theorem implies no',113),
'E12':('symbolic rectangle/box/tetrahedron frames; orthonormality, direction and handedness of the returned matrix',15),
'M01':('symbolic displacements and derivatives; F compared with the definition; affine displacement on every element type',10),
'M02':('symbolic symmetric tensor; all 36 entries of both products against the index formula',5),
'M03':('symbolic Young modulus, Poisson ratio, strain: stress = 2 dPsi/dC and tangent = 2 dS/dC as exact polynomial identities',5),
'M04':('as M03, with ln J as a symbolic value and its exact derivative 1/2 C^-1; the entries of C are symbolic, positive definite',20),
'G01':('symbolic subdivisions and index; both conversions composed in both orders, ranges, counts',10),
'G02':('symbolic subdivisions and a pair of symbolic edge indices: validity of one, distinctness of two, and the count formula; together this is "each edge exactly once"',15),
'G03':('as G02 for the faces of a 3D grid',20),
'G04':('symbolic anchor, size, subdivisions and cell; nodes of the cell element against anchor + coordinates * h and against the positions of the reported indices',15),
'G05':('symbolic grid and point; the reported cell must satisfy the containment inequalities',20),
'G06':('symbolic grid and point, per axis either on a symbolic border or at a symbolic place inside a symbolic cell; the returned list against the set given by the definition',30),
'G07':('symbolic anchor, sizes and point offsets, picked placement classes; the returned set against the smallest block by the definition',130),
'H01':('symbolic element nodes, cell size and query point; membership implication and "only inserted ids"; the hash table of the real std::unordered_map is executed',70),
'B01':('small container domains with symbolic shape and a symbolic point (inside with symbolic barycentric coordinates / outside behind a symbolic side): element, coordinates and the list of outside points',60),
'B02':('symbolic field values on the nodes and symbolic points; rows against the shape-function combination, unchanged rows, exceptions for mismatched sizes',66),
'T01':('symbolic positions in every container kind; each accessor against the given values',13),
'T02':('every history up to the bound: the operations and their arguments are symbolic picks explored by the executor, compared with a list model',27),
'T03':('as T02 for copy/move/assign/swap/destroy; positions and connectivity symbolic; use after free is an executor violation',37),
'T04':('symbolic indices, strides and positions; indices and element nodes against the definition of the layout',33),
'V01':('the reader is compiled against stand-ins for the VTK classes (harness/stub/vtk) whose grid has symbolic points, cells, types and ids; the resulting mesh against the grid',30),
'A01':('the wrapper is compiled against stand-ins for the SOFA base classes; entry values are symbolic, operations, positions and ranges are symbolic picks; every entry is compared with a plain array after each history. Uninitialised reads are turned into arbitrary values',31),
'F01':('the real force field and topology are compiled in a stand-in scene; current coordinates are symbolic. The energy is a polynomial of degree four in each coordinate (quadratic material), so a five-point difference formula is its exact derivative: force = -dW/dx and K = -df/dx are polynomial identities of the executed code',170),
'F02':('the real component in a stand-in scene; edge vectors, traction and slope symbolic, animation steps and reset executed; nodal forces against exact shape-function integrals and the increment schedule of the definition',118),
'F03':('the real components in a stand-in scene; displacements, moduli, factors and (in corotated mode) the deformed shape within a frame symbolic; forces, products and assembled matrices against an independent evaluation of the strain, the stress and its integral, turned by the rotation between the two frames',100),
'P01':('the real component in a stand-in scene; points at symbolic places, symbolic positions, velocities, forces and constraint rows; outputs against the combination with the shape functions at the known local coordinates, and its transpose',25),
'T05':('the real component in a stand-in scene; positions symbolic, indices and cases symbolic picks explored by the executor',44),
'S01':('the component classes are compiled against stand-ins for SOFA (harness/stub); symbolic radius, center and point',5),
}
def sect():
    out=[]
    for l in open(os.path.join(V,'properties.jsonl')):
        p=json.loads(l); i=p['id']; b=[];o=[]
        for h in sorted(glob.glob(os.path.join(V,'harness',i+'.cpp'))+glob.glob(os.path.join(V,'harness',i+'_*.cpp'))):
            for x in open(h):
                if x.startswith('// @bounds'): b.append(x[10:].strip())
                if x.startswith('// @outside'): o.append(x[11:].strip())
        how,cost=HOW.get(i,('',0))
        out.append('**%s – %s.** %s.\n*Bounds:* %s.%s *Cost:* about %s s (quick).\n'%(i,p['title'],how[:1].upper()+how[1:],'; '.join(b),' *Outside:* %s.'%'; '.join(o) if o else '',cost))
    return '\n'.join(out)
def seeds():
    r=json.load(open(os.path.join(V,'tools','seed_results.json'))) if os.path.exists(os.path.join(V,'tools','seed_results.json')) else {}
    out=['| planted change | property | what it needs | caught by the quick check |','|---|---|---|---|']
    for d in sorted(glob.glob(os.path.join(V,'seeded','*','meta.json'))):
        m=json.load(open(d)); s=os.path.basename(os.path.dirname(d)); out.append('| %s | %s | %s | %s |'%(s,m['property'],m['needs'],r.get(s,'?')))
    return '\n'.join(out)
t=open(os.path.join(V,'tools','DESIGN.in.md')).read()
open(os.path.join(V,'DESIGN.md'),'w').write(t.replace('PERPROP',sect()).replace('SEEDTABLE',seeds()))
