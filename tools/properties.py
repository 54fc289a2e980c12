#!/usr/bin/env python3
# Source of properties.jsonl (run from /verif: python3 tools/properties.py)
import json
P=[]
def prop(id,title,statement,over,text,why,files,mech):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
B='dune/functions/functionspacebases/'; C='dune/functions/common/'; G='dune/functions/gridfunctions/'; AN='dune/functions/analyticfunctions/'; K='dune/functions/backends/'
prop('C01','Merged bases enumerate exactly the index tree they advertise',
 'A power, composite or Taylor-Hood basis gives every basis function of every element the multi-index its merging strategy (flat/blocked, lexicographic/interleaved) prescribes from the child multi-index, writes exactly as many multi-indices as the element has basis functions, and never gives two local functions the same one. Every multi-index is a leaf of the tree described by the size queries (each digit is below the size of its prefix, the full index has size zero, its length is within the advertised bounds), and every leaf of that tree comes from exactly one child function. Dimension, maximal local size, initialisation and grid-view update are those of the children combined.',
 ['inputs','configurations'],'For every child basis satisfying the pre-basis contract (arbitrary, also non-uniform index trees and sizes), every number of children, every element and every prefix.',
 'The tests sample a few concrete bases on small grids; index arithmetic that is only wrong for a non-uniform tree, an empty child or particular sizes passes them.',
 [B+'dynamicpowerbasis.hh',B+'powerbasis.hh',B+'compositebasis.hh',B+'taylorhoodbasis.hh',B+'basistags.hh'],
 [('index merging per strategy',B+'dynamicpowerbasis.hh'),('index merging of heterogeneous children',B+'compositebasis.hh'),('prefix size computation per strategy',B+'dynamicpowerbasis.hh')])
prop('C02','Container descriptors and containers match the index tree',
 'The container descriptor of a basis describes the same nested structure as its size queries: at every prefix the number of entries equals the reported size. A container created from the descriptor, or resized for the basis, has exactly one scalar entry per leaf multi-index and every multi-index addresses its own entry.',
 ['inputs','configurations'],'For all child descriptors, numbers of children, sizes and nestings of merging strategies.',
 'Tests build a handful of nestings with small sizes and mostly check that things compile.',
 [B+'containerdescriptors.hh',K+'containerfactory.hh',K+'istlvectorfactory.hh',K+'istlvectorbackend.hh'],
 [('descriptor algebra (flat merge, append)',B+'containerdescriptors.hh'),('container construction',K+'containerfactory.hh'),('recursive resize',K+'istlvectorbackend.hh')])
prop('C03','Local ansatz trees number their basis functions contiguously',
 'After binding a local view or tree to an element, the local indices of the leaf nodes partition 0..size-1 in depth-first order, every inner node covers exactly its children, and tree indices number all nodes consecutively. The i-th multi-index of a bound view is the one the basis assigns to local index i, also for views of subspaces, after rebinding, and for copies.',
 ['inputs','histories','configurations'],'For all tree shapes, all (possibly empty) local sizes and all sequences of bind, rebind, copy and assignment.',
 'Tests bind a few bases with constant nonzero local sizes; empty nodes, copies that outlive their source and rebinding histories are not sampled.',
 [B+'nodes.hh',B+'defaultlocalview.hh',B+'defaultglobalbasis.hh',B+'subspacebasis.hh',B+'subspacelocalview.hh'],
 [('offset propagation on bind',B+'nodes.hh'),('index buffer filled on bind',B+'defaultlocalview.hh'),('subtree selection',B+'subspacelocalview.hh')])
prop('C04','Lagrange degrees of freedom are shared consistently between elements',
 'For a Lagrange basis of any supported order and element type, the global index of every local basis function is in range, distinct functions of one element get distinct indices, and the dimension counts them exactly. Two elements sharing a vertex, edge or face assign the same global index to basis functions attached to it exactly if their Lagrange nodes coincide, however each element orders or orients the shared sub-entity.',
 ['inputs','configurations'],'For all polynomial orders, grid sizes, index assignments and relative orientations of shared sub-entities.',
 'Conformity depends on the orientation of every shared edge and face; test grids have few orientations and the affected tests need a grid manager that is not available here.',
 [B+'lagrangebasis.hh',C+'mapperutilities.hh'],
 [('face and edge index orientation',B+'lagrangebasis.hh'),('offsets of sub-entity blocks',B+'lagrangebasis.hh')])
prop('C05','Element-local and mapper-based leaf bases number degrees of freedom correctly',
 'For discontinuous Lagrange bases and every basis whose degrees of freedom are counted per sub-entity (Raviart-Thomas, Brezzi-Douglas-Marini, Nedelec, Rannacher-Turek, Hermite, Morley, Argyris, refined and hierarchical Lagrange, bubbles), each local function gets an in-range index, distinct functions of an element get distinct indices, functions attached to the same sub-entity share their indices across elements, and all others do not. The dimension is exactly the number of such indices, the local size never exceeds the advertised maximum, and both follow the grid view after an update.',
 ['inputs','configurations'],'For all grid sizes and index assignments, element types and supported orders.',
 'Most of these bases are not exercised by the tests that can run here, and tests use one grid each.',
 [B+'lagrangedgbasis.hh',B+'leafprebasismappermixin.hh',B+'lfeprebasismixin.hh',B+'leafprebasismixin.hh',C+'mapperutilities.hh'],
 [('mapper layout and offset computation',B+'leafprebasismappermixin.hh'),('element blocks',B+'lagrangedgbasis.hh')])
prop('C06','Index transformations identify and drop exactly the requested indices',
 'A periodic basis gives two degrees of freedom the same index exactly if they are connected by requested identifications, its indices are consecutive from zero, and its size and containers count the classes. A basis with transformed indices reports for each degree of freedom the transformation of the original index, and a restricted basis has the original basis functions on elements of the subdomain and none elsewhere, with its own consistent numbering.',
 ['inputs','histories'],'For all sets and orders of identified pairs, all base indices and all subdomains.',
 'Tests use one geometric identification; chained or crossing identifications and other orders are not sampled.',
 [B+'periodicbasis.hh',B+'transformedindexbasis.hh',B+'restrictedbasis.hh',C+'subdomain.hh'],
 [('pair bookkeeping and renumbering',B+'periodicbasis.hh'),('index transformation forwarding',B+'transformedindexbasis.hh')])
prop('C07','Multi-index containers and multi-index access address the right entry',
 'The bounded and static index containers behave like a sequence under every series of insertions, removals, resizing, copying and comparison. Resolving a static or dynamic multi-index in a nested container, through views, flat views or the vector backend, reaches exactly the entry obtained by indexing digit by digit, and a vector whose shape does not fit is rejected instead of being accessed out of range.',
 ['inputs','histories'],'For all operation sequences, contents, index lengths and container nestings.',
 'The sequence containers are tested with one or two operation sequences; wrap-around and overflow states are not reached.',
 [C+'reserveddeque.hh',C+'overflowarray.hh',C+'multiindex.hh',C+'indexaccess.hh',C+'densevectorview.hh',B+'flatvectorview.hh',K+'istlvectorbackend.hh'],
 [('ring buffer arithmetic',C+'reserveddeque.hh'),('buffer with static part',C+'overflowarray.hh'),('hybrid index resolution',C+'indexaccess.hh')])
prop('C08','Analytic functions evaluate to their definition and differentiate exactly',
 'Polynomials, monomial sets and trigonometric functions return the value of the defining expression at every point, and their derivatives (including Hessians and derivatives of derivatives) equal the exact derivatives of that value. Monomial exponents enumerate each monomial of the given order once, in the order in which the values are returned.',
 ['inputs','configurations'],'For all coefficients, arguments, coefficient container types, orders and dimensions.',
 'Tests compare a few points and degrees with tolerance; an error in one coefficient type, one order or a mixed second derivative is not sampled.',
 [AN+'polynomial.hh',AN+'monomialset.hh',AN+'trigonometricfunction.hh'],
 [('Horner/derivative coefficients',AN+'polynomial.hh'),('per-dimension monomial evaluation',AN+'monomialset.hh')])
prop('C09','B-spline functions are the B-splines of the knot vector',
 'On every knot span and for every order and dimension the local functions of a B-spline basis are the (tensor-product) B-splines of the given knot vector: non-negative, summing to one, supported where they should be, with derivatives equal to the exact derivatives of the values and descriptors naming these functionals. The global index of each local function identifies the same spline on every element, and size and dimension count the splines, for any knot multiplicities. Each local function is attributed to the facet or corner of the element on whose side it comes first or last, by a key of its own.',
 ['inputs','configurations'],'For all non-decreasing knot vectors including repeated knots, all orders, spans and evaluation points.',
 'Tests evaluate uniform knot vectors at quadrature points and check against finite differences.',
 [B+'bsplinebasis.hh'],[('recursive evaluation per direction',B+'bsplinebasis.hh'),('span and offset lookup',B+'bsplinebasis.hh')])
prop('C10','Interpolation sets exactly the selected coefficients to the right values',
 'Interpolating a function into a coefficient vector sets each degree of freedom that is selected (all, a subtree, or those flagged in a bit vector) to the local interpolation coefficient of the matching component of the function on an element containing it, and leaves every other entry unchanged. The vector is resized to the basis, and components of vector-valued functions reach the tree nodes they belong to.',
 ['inputs','configurations'],'For all functions, element sets, masks, tree shapes, local-to-global maps and previous contents.',
 'Tests interpolate a few smooth functions on full masks and compare errors with a tolerance.',
 [B+'interpolate.hh',B+'hierarchicnodetorangemap.hh',C+'densevectorview.hh'],
 [('mask test and write back',B+'interpolate.hh'),('node to range component map',B+'hierarchicnodetorangemap.hh')])
prop('C11','Discrete functions evaluate the linear combination of their basis functions',
 'A discrete function built from a basis and coefficients evaluates, at each point of each element, to the sum over all local basis functions of coefficient times shape function, routed to the range component of its tree node; its derivative is the derivative of that value with respect to global coordinates. Local functions give the same result after copying, rebinding and for subspace bases, and coefficients are taken from the entries the basis addresses.',
 ['inputs','histories'],'For all coefficients, points, local sizes, shape function values, Jacobians and tree shapes.',
 'Tests compare at quadrature points of a few polynomial functions on affine grids.',
 [G+'discreteglobalbasisfunction.hh',B+'hierarchicnodetorangemap.hh'],
 [('coefficient gathering on bind',G+'discreteglobalbasisfunction.hh'),('shape function accumulation and chain rule',G+'discreteglobalbasisfunction.hh')])
prop('C12','Type-erased functions have value semantics',
 'A type-erased function, local function or grid function, and a function assembled from callables, behaves like the object it was created from: evaluation, derivative, binding and element queries are forwarded, copies are independent of each other and of the source, moved or assigned objects take over the value, and every stored object is destroyed exactly once without leaks. This also holds for empty, self-assigned and differently sized contents.',
 ['inputs','histories'],'For all sequences of construction, copy, move, assignment, binding and destruction, with contents smaller and larger than the internal buffer.',
 'Tests construct and copy a few objects; the lifetime and independence of contents under assignment histories is not observed.',
 [C+'typeerasure.hh',C+'polymorphicsmallobject.hh',C+'differentiablefunction.hh',C+'differentiablefunction_imp.hh',C+'differentiablefunctionfromcallables.hh',C+'localfunction.hh',C+'localfunction_imp.hh',G+'gridfunction.hh',G+'gridviewfunction.hh'],
 [('small buffer clone/move/destroy',C+'polymorphicsmallobject.hh'),('forwarding wrappers',C+'typeerasure.hh')])
prop('C13','Grid functions are consistent between local and global coordinates',
 'The local function of an analytic, composed, face-normal or coarse/fine-grid function evaluates at a local point of the bound element to the value of the global function at the corresponding global point (the composition applied to the component values, the outer normal of the nearest face, the coarse or fine function on the ancestor or descendant containing the point). Geometry between an element and its ancestor is the composition of the father geometries, and derivatives are taken with respect to global coordinates.',
 ['inputs','histories'],'For all callables, element geometries, hierarchy depths, points and sequences of bind, copy and unbind.',
 'Several of these functions have no test that runs here; the rest compare integrals on one grid.',
 [G+'analyticgridviewfunction.hh',G+'composedgridfunction.hh',G+'facenormalgridfunction.hh',G+'coarsefunctiononfinegridview.hh',G+'finefunctiononcoarsegridview.hh',C+'geometryinancestor.hh'],
 [('local to global transformation',G+'analyticgridviewfunction.hh'),('father geometry chain',C+'geometryinancestor.hh')])
prop('C14','Boundary and sub-entity degrees of freedom are found exactly',
 'The degrees of freedom reported for a sub-entity of an element are exactly the local basis functions attached to that sub-entity or to one of its own sub-entities, and iterating over boundary degrees of freedom visits exactly those attached to boundary intersections, each reported with a view bound to an element containing it. Counting and orienting sub-entities for index maps matches the reference element.',
 ['inputs','configurations'],'For all element types, sub-entities, distributions of local functions over sub-entities and boundary configurations.',
 'Tests check one or two bases on cubes.',
 [B+'subentitydofs.hh',B+'boundarydofs.hh',C+'mapperutilities.hh'],
 [('sub-entity containment marking',B+'subentitydofs.hh'),('boundary traversal',B+'boundarydofs.hh')])
prop('C15','Transformed and globally valued finite elements satisfy their definition',
 'Vector-valued bases map reference shape functions with the matching Piola transformation, so values, Jacobians and interpolation in global coordinates are the transforms of the reference ones for every element geometry, and the fluxes and circulations of the lowest order bases agree between neighbours. Hermite, Morley and Argyris bases transform the reference functions so that each global functional (point value, derivative, normal derivative) of each global basis function is one for its own and zero for all others, with derivatives equal to the exact derivatives of the values and descriptors naming these functionals.',
 ['inputs','configurations'],'For all affine element geometries, orientations, points and coefficient values.',
 'The tests of these bases need a grid manager that is not available here, so nothing exercises them.',
 [B+'globalvaluedlocalfiniteelement.hh',B+'transformedfiniteelementmixin.hh',B+'cubichermitebasis.hh',B+'morleybasis.hh',B+'argyrisbasis.hh',B+'raviartthomasbasis.hh',B+'nedelecbasis.hh',B+'brezzidouglasmarinibasis.hh'],
 [('Piola transformations',B+'globalvaluedlocalfiniteelement.hh'),('basis transformation matrices',B+'transformedfiniteelementmixin.hh')])
open('properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
print(len(P))
