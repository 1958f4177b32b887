import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
G='dune/geometry/'
p('C01','Concurrent quadrature requests behave like a single-threaded lookup',
 'Any number of threads may request quadrature rules at the same time without synchronising, first-time requests included. Every call returns a finished rule of the requested geometry type and at least the requested order, with exactly the points and weights (in the same sequence) that a single-threaded program gets for that request in a fresh process, and it integrates polynomials up to its reported order. No interleaving contains a data race or a crash.',
 ['schedules','histories','inputs'],
 'all interleavings, at single memory accesses, of threads issuing arbitrary sequences of rule requests (number types, dimensions 0-5, all geometry types, all rule families, orders up to the advertised maximum) starting from a cold process',
 'Every existing test is single threaded and asks for each rule once in ascending order; nothing ever overlaps two first requests or observes a rule while it is being built.',
 [G+'quadraturerules.hh',G+'quadraturerules/tensorproductquadrature.hh',G+'quadraturerules/jacobiNquadrature.hh',G+'quadraturerules/simplexquadrature.hh',G+'quadraturerules/quadraturerules.cc'],
 [('three nested std::call_once levels (family, geometry type, order)',G+'quadraturerules.hh QuadratureRules::_rule'),('thread-safe initialisation of function-local statics',G+'quadraturerules.hh QuadratureRules::instance/_rule')],
 [('quadratureCache','process-wide table of built rules',G+'quadraturerules.hh QuadratureRules::_rule')],
 ['return value of QuadratureRules<ct,dim>::rule','contents, order() and type() of the returned rule'])
p('C02','A quadrature rule once handed out never moves or changes',
 'Equal requests (same number type, geometry type, order and family) made by any thread at any time return a reference to the same rule object. That object keeps its address and contents, and can be read without synchronisation by every thread, until the process ends, whatever is requested afterwards, whichever requests fail and whichever threads have ended.',
 ['histories','schedules','fault_sequences'],
 'all histories of later requests, failing requests and thread exits following the moment a rule was handed out',
 'Tests use a rule immediately and drop the reference; none keeps references across further requests, failures or threads.',
 [G+'quadraturerules.hh'],
 [('cache tables are sized once and never resized afterwards',G+'quadraturerules.hh QuadratureRules::_rule'),('rules returned by const reference into the static cache',G+'quadraturerules.hh QuadratureRules::rule')],
 [('quadratureCache','process-wide table of built rules',G+'quadraturerules.hh QuadratureRules::_rule')],
 ['address and contents of every rule reference ever returned'])
p('C03','A failed quadrature request has no lasting effect',
 'When building a rule fails part-way, because memory runs out or the number type throws, the caller whose request ran the construction receives that very exception. No thread ever receives an unfinished rule, hangs or crashes because of it, and rules handed out before stay intact. Once the cause is gone the same request succeeds and yields the same rule as if the failure had never happened.',
 ['fault_sequences','schedules','histories'],
 'every position of one or more failing allocations or throwing number-type operations inside rule construction, combined with every interleaving with other requesters',
 'No test injects an allocation failure or uses a number type that throws; the failure path through the once-flags and nested constructions is never executed.',
 [G+'quadraturerules.hh',G+'quadraturerules/tensorproductquadrature.hh',G+'quadraturerules/numberfromstring.hh',G+'quadraturerules/gaussquadrature.hh',G+'quadraturerules/compositequadraturerule.hh'],
 [('an exception leaving std::call_once keeps the flag unset',G+'quadraturerules.hh QuadratureRules::_rule'),('rules are built in a temporary and assigned to the cache slot as a whole',G+'quadraturerules.hh QuadratureRules::_rule')],
 [('once flags and rule slots','whether a rule is built',G+'quadraturerules.hh QuadratureRules::_rule')],
 ['exceptions leaving rule()','results of later equal requests'])
p('C04','Requests that cannot be served are refused with the documented error',
 'A request for an order outside 0..advertised maximum, or for a rule the number type or dimension does not provide, raises the not-implemented error class documented for quadrature rules, every time it is made, in any history and from any thread, including when the request is made internally by a geometry computing its volume. It never yields a rule of lower order or another type, never touches memory outside the library\'s tables, and leaves every other request unaffected.',
 ['histories','schedules','inputs'],
 'all histories mixing servable and unservable requests from several threads, orders far outside the supported range, and curved geometries whose volume iteration does not settle',
 'Tests never ask for an order above the advertised maximum, and never repeat a refused request or mix it with concurrent good ones.',
 [G+'quadraturerules.hh',G+'quadraturerules/jacobiNquadrature.hh',G+'mappedgeometry.hh',G+'localfiniteelementgeometry.hh'],
 [('advertised maximum order sizes the cache',G+'quadraturerules.hh QuadratureRules::_rule'),('QuadratureOrderOutOfRange / NotImplemented',G+'quadraturerules.hh')],
 (),['exception type leaving rule() and volume()'])
p('C05','Concurrent first use of reference elements is safe and consistent',
 'Any number of threads may look up reference elements of any dimension at the same time without synchronising, first use included. All lookups of one topology in one number type give handles that compare equal and hash equal on every thread, handles of different types compare unequal, and through each handle every thread reads the complete data (subentity counts, numbers and types, positions, volume, outer normals, subentity embeddings) that a single-threaded program reads. No interleaving contains a data race or a crash, and handles stay valid until the process ends.',
 ['schedules','histories'],
 'all interleavings, at single memory accesses, of threads whose first lookups hit different dimensions, number types and entry points (direct lookup, iteration over all elements, construction of a geometry) from a cold process',
 'The test looks up reference elements from one thread after a fixed start-up order; overlapping first uses of nested per-dimension tables never occur.',
 [G+'referenceelements.hh',G+'referenceelementimplementation.hh',G+'referenceelementimplementation.cc',G+'referenceelement.hh'],
 [('function-local static container per number type and dimension',G+'referenceelements.hh ReferenceElements::container'),('tables of lower dimensions are built on demand during construction',G+'referenceelementimplementation.hh ReferenceElementImplementation::initialize')],
 [('container','all reference elements of one dimension',G+'referenceelements.hh')],
 ['ReferenceElements<ct,dim>::general/simplex/cube/begin','Geo::ReferenceElement accessors'])
p('C06','Failed set-up of reference elements can simply be retried',
 'If memory runs out, or the number type throws, while reference elements are set up on first use, the exception reaches the caller that triggered the set-up. No thread hangs, crashes or gets a handle to incomplete data. The next lookup after the cause is gone succeeds on every thread with the same complete data as if the failure had never happened.',
 ['fault_sequences','schedules'],
 'every position of failing allocations or throwing number-type operations in the nested set-up of all dimensions, combined with interleavings with other lookups',
 'Tests never make an allocation fail, so the abort-and-retry path of the nested static initialisation has never run.',
 [G+'referenceelements.hh',G+'referenceelementimplementation.hh',G+'referenceelementimplementation.cc'],
 [('an exception leaves the function-local static uninitialised',G+'referenceelements.hh ReferenceElements::container'),('manually managed numbering arrays',G+'referenceelementimplementation.hh SubEntityInfo')],
 (),['exceptions leaving lookups','results of later lookups'])
p('C07','Threads evaluating geometries never disturb each other',
 'Threads may construct, copy and evaluate their own geometry objects of every kind at the same time, even when those objects share a type, a finite element, a mapping or a corner array, and may evaluate one shared affine, axis-aligned, multilinear or mapped geometry. Every result equals the one the same call gives in a single-threaded program. No interleaving contains a data race or a crash.',
 ['schedules','inputs'],
 'all interleavings of threads constructing and evaluating affine, axis-aligned, multilinear, cached multilinear, mapped and finite-element geometries, including the first use of the tables they rely on',
 'Geometry tests run in one thread; per-thread scratch storage and shared tables are never used by two threads.',
 [G+'localfiniteelementgeometry.hh',G+'mappedgeometry.hh',G+'multilineargeometry.hh',G+'affinegeometry.hh',G+'axisalignedcubegeometry.hh'],
 [('per-thread scratch vectors for shape values and derivatives',G+'localfiniteelementgeometry.hh'),('const evaluation methods without shared mutable state',G+'multilineargeometry.hh MultiLinearGeometry')],
 [('shapeValues, shapeJacobians','scratch storage shared by all geometries of one type on a thread',G+'localfiniteelementgeometry.hh')],
 ['global, local, jacobian*, integrationElement, volume, center, corner'])
p('C08','Errors raised by user code pass through geometries without after-effects',
 'When user-supplied code (a mapping, its derivative, a finite-element basis or interpolation, corner storage, a number type) or an allocation throws during construction or evaluation of a geometry, exactly that exception reaches the caller. Afterwards the geometry, every other geometry, and every later evaluation on any thread give the same results as if the interrupted call had not been made.',
 ['fault_sequences','histories','schedules'],
 'every invocation of user code and every allocation as the throwing point, in every history of later calls on the same or other geometries on the same or other threads',
 'Test mappings and finite elements never throw; no call is ever interrupted half-way.',
 [G+'mappedgeometry.hh',G+'localfiniteelementgeometry.hh',G+'multilineargeometry.hh',G+'utility/algorithms.hh'],
 [('scratch vectors are refilled by every evaluation',G+'localfiniteelementgeometry.hh'),('lazy-cache flags are set only after the value is stored',G+'multilineargeometry.hh CachedMultiLinearGeometry, '+G+'localfiniteelementgeometry.hh affine')],
 (),['exception leaving the call','results of all later calls'])
p('C09','What a geometry reports does not depend on what it was asked before',
 'For every non-degenerate geometry of every kind, including those that keep computed values, each query returns the same value no matter which queries were made before on the object, on the objects it was copied, moved or assigned from, or on copies made from it, whether those earlier queries succeeded or were interrupted by an exception, and whichever thread made them.',
 ['histories','schedules','fault_sequences'],
 'all histories of queries, copies, moves, assignments and interrupted queries over a population of geometries handed between threads',
 'Tests query each object in one fixed order, and never copy or assign an object in the middle of a sequence of queries.',
 [G+'multilineargeometry.hh',G+'localfiniteelementgeometry.hh',G+'mappedgeometry.hh',G+'affinegeometry.hh',G+'axisalignedcubegeometry.hh'],
 [('mutable cached transforms with validity flags',G+'multilineargeometry.hh CachedMultiLinearGeometry'),('lazily determined affinity flag',G+'localfiniteelementgeometry.hh')],
 [('jacobianTransposed_, jacobianInverseTransposed_, flags','lazily cached values',G+'multilineargeometry.hh'),('affine_','lazily cached affinity',G+'localfiniteelementgeometry.hh')],
 ['all geometry queries'])
p('C10','Shared refinements enumerate completely for every traverser',
 'Threads may obtain and traverse virtual refinements at the same time without synchronising, first use included; equal requests give the same refinement object. Every traversal, however it is interleaved with other traversals and with copies of its own iterators, visits the announced number of vertices and elements once each, with indices counting up from 0, and with the coordinates and corner indices a lone traversal reports. No interleaving contains a data race or a crash.',
 ['schedules','histories'],
 'all interleavings of traversals (several intervals and types) by several threads, with iterator copies advanced independently, from a cold process',
 'The test runs one complete traversal after another in a single thread and never copies an iterator mid-way.',
 [G+'virtualrefinement.hh',G+'virtualrefinement.cc',G+'refinement/base.cc',G+'refinement/hcube.cc',G+'refinement/simplex.cc',G+'refinement/hcubetriangulation.cc',G+'refinement/prismtriangulation.cc',G+'refinement/pyramidtriangulation.cc'],
 [('function-local static refinement objects',G+'virtualrefinement.cc'),('iterators own a private cloned backend',G+'virtualrefinement.cc')],
 (),['buildRefinement','VirtualRefinement begin/end iterators'])
p('C11','Objects survive failed copies and assignments',
 'If constructing, copying or assigning one of the library\'s value objects (refinement iterators, geometries, quadrature rules, composite rules, vertex orders) runs out of memory, the exception reaches the caller, the source keeps its value and the destination can still be assigned to and destroyed. No memory is released twice, used after release or lost, and assigning an object to itself changes nothing.',
 ['fault_sequences','histories'],
 'every allocation of every construction, copy and assignment as the failing one, in arbitrary histories of copies, self-assignments, retries and destructions',
 'Tests never run out of memory and never assign an object to itself.',
 [G+'virtualrefinement.hh',G+'virtualrefinement.cc',G+'quadraturerules/compositequadraturerule.hh',G+'generalvertexorder.hh',G+'multilineargeometry.hh'],
 [('cloned backend owned by raw pointer',G+'virtualrefinement.cc'),('standard containers elsewhere','throughout')],
 (),['state of source and destination after the failed call'])
p('C12','Per-topology singletons are created exactly once and survive failures',
 'The singleton factory returns, for each topology and key, one object created by exactly one successful call of the user-supplied creator, and returns that same object for every later equal request, including requests the creator itself makes for other topologies. A creator that throws, or an allocation that fails, leaves nothing behind: the exception reaches the caller, other objects are unaffected, and the next request creates the object afresh.',
 ['fault_sequences','histories'],
 'all histories of requests over types and keys with creators that fail at arbitrary calls and that request other singletons while running',
 'The factory is not covered by any test in this repository.',
 [G+'topologyfactory.hh'],
 [('map from key to per-topology unique_ptr array',G+'topologyfactory.hh TopologySingletonFactory')],
 [('storage_','created objects',G+'topologyfactory.hh')],
 ['create() results and creator call counts'])
p('C13','Every lookup finishes: no deadlock or lost wake-up between lazy tables',
 'Whatever mixture of rule lookups, reference-element lookups, refinement requests and geometry evaluations threads start with on a cold process, including lookups made from inside user-supplied mappings, basis functions and number types, and including constructions that fail while other threads wait for them, no thread waits forever. Once failures stop, every outstanding request completes within a bounded number of steps.',
 ['schedules','fault_sequences','histories'],
 'all interleavings of first uses of all lazily built tables from all entry points, with failures injected while other threads are waiting',
 'Tests have one thread and no failures; nothing ever waits.',
 [G+'quadraturerules.hh',G+'referenceelements.hh',G+'virtualrefinement.cc',G+'quadraturerules/tensorproductquadrature.hh'],
 [('lazy tables only wait for tables of lower dimension or lower construction step',G+'quadraturerules.hh, '+G+'referenceelementimplementation.hh')],
 (),['completion of every call'])
p('C14','No operation loses memory, whether it succeeds or fails',
 'After any sequence of lookups, constructions, evaluations and traversals by any threads, with any of them cut short by a failing allocation or a throwing user function, all memory still held is reachable from the library\'s process-wide tables or from objects the caller still owns. Repeating requests that were already served does not make the retained memory grow.',
 ['histories','fault_sequences','schedules'],
 'all histories of operations with failures at arbitrary points and threads ending at arbitrary points',
 'Tests do not check for leaks and never take a failure path.',
 [G+'referenceelementimplementation.hh',G+'referenceelementimplementation.cc',G+'virtualrefinement.hh',G+'virtualrefinement.cc',G+'quadraturerules.hh',G+'topologyfactory.hh'],
 [('raw new[]/delete[] for numbering and normals',G+'referenceelementimplementation.hh, '+G+'referenceelementimplementation.cc'),('owning containers elsewhere','throughout')],
 (),['memory reachable at quiescence'])
p('C15','Composite rules, static refinements, vertex orders and type indices on threads',
 'Threads may, at the same time and without synchronising, build, copy and read composite quadrature rules, traverse statically chosen refinements, build and reduce vertex orders, and convert between geometry types, indices, vertex counts and text, first use of the tables underneath included, and may read one shared object of these kinds together. Every result equals the one the same call gives in a single-threaded program. No interleaving contains a data race or a crash.',
 ['schedules','inputs'],
 'all interleavings, at single memory accesses, of threads constructing, copying, assigning and reading such objects from a cold process, over dimensions 1-3 (types 0-4), all subdivisions up to a bound and all vertex numberings',
 'The tests of these facilities are single threaded, so hidden shared scratch data or counters would go unnoticed.',
 [G+'quadraturerules/compositequadraturerule.hh',G+'refinement/base.cc',G+'refinement/simplex.cc',G+'refinement/hcube.cc',G+'refinement/hcubetriangulation.cc',G+'refinement/prismtriangulation.cc',G+'refinement/pyramidtriangulation.cc',G+'generalvertexorder.hh',G+'typeindex.hh',G+'utility/typefromvertexcount.hh'],
 [('iterators carry all traversal state',G+'refinement/simplex.cc RefinementIteratorSpecial'),('composite rules are filled on construction and constant afterwards',G+'quadraturerules/compositequadraturerule.hh CompositeQuadratureRule')],
 (),['points and weights of composite rules','vertices, elements and indices of static refinements','reduced vertex orders','type indices'])
p('C16','Ending threads and the ending process leave everything usable',
 'When a thread ends, every rule, reference element, refinement and geometry it obtained or built stays valid and unchanged for the other threads, and memory the library kept for that thread alone is released. When the process ends normally, code that runs then on behalf of static objects created after the first use of the tables can still read and request again every rule, reference element and refinement handed out before. Afterwards each process-wide table is released exactly once and nothing touches released memory.',
 ['schedules','histories','fault_sequences'],
 'all interleavings of threads that end at different times while others go on using what they left behind, with failed requests among them, followed by a normal process end',
 'Tests neither start threads nor look at anything after main returns.',
 [G+'quadraturerules.hh',G+'referenceelements.hh',G+'virtualrefinement.cc',G+'localfiniteelementgeometry.hh'],
 [('tables have static storage duration and are never bound to a thread',G+'quadraturerules.hh QuadratureRules::_rule'),('per-thread scratch vectors are released with their thread',G+'localfiniteelementgeometry.hh')],
 [('quadratureCache, container, refinement singletons','process-wide tables',G+'quadraturerules.hh, referenceelements.hh, virtualrefinement.cc'),('shapeValues, shapeJacobians','per-thread scratch storage',G+'localfiniteelementgeometry.hh')],
 ['everything handed out earlier, after thread end and at process end'])
# ---- pure functions of their input: listed, not claimed ----
def n(id,title,statement,text,why,files,mech):
    p(id,title,statement,['inputs'],text,why,files,mech)
n('C20','Quadrature rules are exact up to their reported order',
 'Every rule integrates all polynomials up to its reported order over its reference element, with the family\'s weight function, to rounding accuracy.',
 'all number types, geometry types, families and orders','test-quadrature samples monomials per order with fixed tolerances for a few number types and dimensions up to 4.',
 [G+'quadraturerules.hh',G+'quadraturerules'],[('tabulated and computed rules',G+'quadraturerules')])
n('C21','Quadrature points lie in the reference element',
 'All points of every rule lie inside the closed reference element and the weights add up to the volume (weighted volume) of the element; end-point rules contain the promised end points.',
 'all number types, geometry types, families and orders','Tests check the volume sum only up to a tolerance and never that points are inside.',
 [G+'quadraturerules'],[('tabulated points',G+'quadraturerules')])
n('C22','Reference element topology is self-consistent',
 'Subentity counts, types and numbering form a consistent complex: nested numbering commutes, each subentity\'s data equal those of the reference element of its type, and each codimension-two subentity lies in exactly two facets.',
 'all dimensions and topology ids','Only dimensions up to 4 and selected relations are tested.',
 [G+'referenceelementimplementation.hh',G+'referenceelementimplementation.cc'],[('recursive construction from topology id',G+'referenceelementimplementation.cc')])
n('C23','Subentity embeddings and normals fit the reference element',
 'Embedding maps send the corners of a subentity\'s reference element to the numbered corners, barycentres agree, and integration outer normals satisfy the divergence theorem.',
 'all dimensions, types and subentities','Tests cover selected types.',
 [G+'referenceelementimplementation.cc',G+'affinegeometry.hh'],[('origins, Jacobians and normals computed recursively',G+'referenceelementimplementation.cc')])
n('C24','Derivative queries of a geometry agree with its mapping',
 'Jacobian, transposed, inverse and integration element of every geometry are the derivatives of its mapping and mutually consistent.',
 'all geometries and local positions','Sample points and tolerances only.',
 [G+'multilineargeometry.hh',G+'affinegeometry.hh',G+'mappedgeometry.hh',G+'localfiniteelementgeometry.hh',G+'utility/defaultmatrixhelper.hh'],[('recursive multilinear evaluation',G+'multilineargeometry.hh')])
n('C25','local() inverts global()',
 'For every non-degenerate geometry and point in its image, the local coordinate found maps back to the point, or an error is reported.',
 'all geometries and points','A few fixed geometries are tested.',
 [G+'multilineargeometry.hh',G+'utility/algorithms.hh',G+'mappedgeometry.hh'],[('Gauss-Newton iteration',G+'utility/algorithms.hh')])
n('C26','Volume and centre match the mapping',
 'volume() is the integral of the integration element and center() the image of the barycentre.',
 'all geometries','Fixed examples only.',
 [G+'multilineargeometry.hh',G+'utility/convergence.hh'],[('quadrature to convergence',G+'mappedgeometry.hh volume')])
n('C27','Refinements partition the reference element',
 'Subelements of a refinement are non-degenerate, do not overlap and add up to the refined element.',
 'all types and interval counts','Tests check the volume sum for small interval counts.',
 [G+'refinement'],[('Kuhn triangulation and index arithmetic',G+'refinement/simplex.cc')])
n('C28','Geometry type indices are a bijection and comparison is an order',
 'Local and global indices enumerate all types of a dimension without gaps and invert correctly, equality is an equivalence and the less-than comparison a strict weak order compatible with it.',
 'all dimensions and topology ids','Sampled in low dimension.',
 [G+'type.hh',G+'typeindex.hh'],[('bit arithmetic on topology ids',G+'typeindex.hh')])
n('C29','Geometry type identifiers round-trip',
 'Converting a type to its compile-time identifier and back gives an equal type with equal properties, at compile time and at run time.',
 'all types','A handful of types tested.',
 [G+'type.hh'],[('packed 64-bit id',G+'type.hh GeometryType::Id')])
n('C30','Vertex order reduction preserves the order relation',
 'Reduced vertex orders are permutations of 0..n-1 in the same relative order as the global ids, and subentity orders restrict the element order.',
 'all id vectors and subentities','Not covered by tests in this repository.',
 [G+'generalvertexorder.hh'],[('reduceOrder',G+'generalvertexorder.hh')])
n('C31','Element type is recovered from its number of vertices',
 'For every standard element type of dimension at most three, the type computed from dimension and vertex count is that type, and impossible counts are rejected.',
 'all dimensions and vertex counts','Fixed list of counts.',
 [G+'utility/typefromvertexcount.hh'],[('table of vertex counts',G+'utility/typefromvertexcount.hh')])
n('C32','Python views agree with the C++ objects',
 'Text form, hash and equality of Python geometry types, the array view of a rule and range checks of Python reference elements agree with the underlying C++ objects.',
 'all types, orders and index arguments','Short scripts with fixed arguments.',
 ['dune/python/geometry/type.hh','dune/python/geometry/referenceelements.hh','dune/python/geometry/quadraturerules.hh','python/dune/geometry/__init__.py'],[('binding code','dune/python/geometry')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
