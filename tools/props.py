prop('C01', 'Every signal an update reads or an output exposes is a declared dependency',
     'Whenever a node of the computation graph is constructed, each of its updates declares an input dependency on every output of another node it reads, each output declares the updates that compute the value its accessor exposes, and every update named in a dependency is registered. A value forwarded from another node is declared as a direct dependency on the forwarded signal. As a consequence, updating a graph built on an output refreshes everything that output is computed from.',
     'programs configurations', 'every node class of the library, every construction route and every route through each registered update',
     'Tests only observe stale values for the update orders and the few node combinations they build; a missing declaration is masked whenever another node of the same graph happens to require the same signal.',
     'src/function/abstract/LinearFunction.cpp src/constraint/abstract/LinearConstraint.cpp src/constraint/internal/LinearizedTaskConstraint.cpp src/task_dynamics include/tvm/task_dynamics src/geometry/Plane.cpp',
     [('registerUpdates/addInputDependency/addOutputDependency/addDirectDependency calls of the constructors', 'include/tvm/graph/abstract/Node.hpp')])
prop('C02', 'A call graph update runs all required updates once, dependencies first',
     'Executing an updated call graph runs every update that its inputs transitively depend on, each exactly once, and each after all updates it depends on. A graph whose dependencies contain a cycle is refused with an exception instead of silently dropping or misordering updates. Clearing the graph forgets every recorded update, and dependencies declared by a node are exactly those followed.',
     'programs inputs', 'every dependency graph (any shape, with or without roots and cycles) and every order in which inputs are added',
     'Tests cover a dozen hand-made graphs; the guarantee quantifies over all graphs, including a cycle disjoint from the rooted part, which no test contains.',
     'src/graph/CallGraph.cpp src/graph/DependencyGraph.cpp include/tvm/graph/abstract/Node.hpp',
     [('CallGraph::addOutput/addCall/update/execute', 'src/graph/CallGraph.cpp'), ('DependencyGraph::order_/orderUtil/reduce', 'src/graph/DependencyGraph.cpp')])
prop('C03', 'Only enabled outputs can be depended upon, and output selection obeys its locks',
     'A signal can be registered as an input of a node, or used in a dependency, only if it is enabled in its source, statically and dynamically; a refused registration leaves the registry unchanged. The registry records exactly the signals asked for, keeps a shared source alive while one of its signals is used, and forgets and releases it when the last one is removed. Outputs can be enabled or disabled one by one only while the selection is unlocked, and a statically disabled output can never be enabled.',
     'inputs histories', 'every node type, every combination of statically and dynamically disabled outputs, and every sequence of add/remove/enable/disable/lock calls',
     'Tests exercise a few mock nodes; the guards must be on every overload and every route, including the multi-signal overloads.',
     'include/tvm/graph/internal/Inputs.hpp src/graph/Inputs.cpp include/tvm/graph/abstract/OutputSelector.h include/tvm/graph/abstract/Outputs.h include/tvm/graph/abstract/Node.hpp',
     [('Inputs::addInput/removeInput', 'include/tvm/graph/internal/Inputs.hpp'), ('OutputSelector::enableOutput/disableOutput/lock', 'include/tvm/graph/abstract/OutputSelector.h')])
prop('C04', 'Constraint types and right-hand sides stay coherent from the task to the constraint',
     'A constraint of type EQUAL uses e only, GREATER_THAN l only, LOWER_THAN u only, DOUBLE_SIDED l and u (none with right-hand side ZERO), and every accessor, setter, constructor and task expression follows this table: the bound or side written by the user reaches the corresponding vector, unchanged, with the dynamics built for that side; vectors of the wrong size and accesses to vectors the type does not have are refused.',
     'inputs configurations', 'every constraint type, right-hand side convention, constructor, setter and proto-task operator',
     'The table has type x convention x constructor x accessor cells; tests visit a handful and a swapped bound only shows on asymmetric data.',
     'src/constraint src/Task.cpp include/tvm/utils/ProtoTask.h include/tvm/constraint/internal/RHSVectors.h',
     [('RHSVectors::use/access', 'src/constraint/RHSVectors.cpp'), ('Task constructors', 'src/Task.cpp'), ('BasicLinearConstraint setters', 'src/constraint/BasicLinearConstraint.cpp')])
prop('C05', 'A linearized task constraint bears on the derivative its task dynamics prescribes',
     'For a task dynamics of order k, the constraint built from it is expressed on the k-th derivative of each variable of the function with the matching jacobian, its bounds are the value of the dynamics minus the normal acceleration exactly at order two, both sides of a double-sided task have the same order, a zero-order task is accepted only for functions linear in each variable, and a task-dynamics description announces the order its implementation has.',
     'inputs configurations', 'every function, task dynamics (and composition), order and constraint type',
     'Tests build one task per dynamics on a few functions; the coherence must hold for all type x order combinations and for user-defined dynamics.',
     'src/constraint/LinearizedTaskConstraint.cpp src/task_dynamics include/tvm/task_dynamics',
     [('LinearizedTaskConstraint::initialize/jacobian/update*', 'src/constraint/LinearizedTaskConstraint.cpp'), ('TaskDynamics::order/impl', 'src/task_dynamics')])
prop('C06', 'Every change of a problem reaches all its users',
     'Adding a task to a problem registers it once; adding, removing or reweighting a task, and adding or removing a substitution, queues exactly one event of the right kind for every scheme using the problem, in order, and marks the problem as needing finalization. Removing a task forgets its constraint, its callbacks, its inputs in the update graph and the substitution that uses it, and discards exactly its own pending events. The next update rebuilds the update graph on the current constraints (jacobian and the vectors of each constraint type), runs it, and refreshes the substitutions after it.',
     'inputs histories', 'every sequence of additions, removals, weight changes and substitutions between two resolutions, with any number of schemes',
     'Tests exercise a few event sequences with one scheme; missed events show up only for specific interleavings of changes between two resolutions.',
     'src/ControlProblem.cpp src/LinearizedControlProblem.cpp include/tvm/ControlProblem.h include/tvm/scheme/internal/ProblemComputationData.h include/tvm/requirements/abstract/SingleSolvingRequirement.h',
     [('ControlProblem::add/remove/notify/addCallBackToTask', 'src/ControlProblem.cpp'), ('LinearizedControlProblem::add/remove', 'src/LinearizedControlProblem.cpp'), ('ProblemComputationData::addEvent', 'include/tvm/scheme/internal/ProblemComputationData.h')],
     [('events_', 'queue of pending changes of a scheme', 'include/tvm/scheme/internal/ProblemComputationData.h'), ('finalized_', 'problem unchanged since the last finalization', 'include/tvm/ControlProblem.h')])
prop('C07', 'A scheme gives its solver the problem as it currently is',
     'When a scheme builds the data of a problem, each constraint not used by a substitution is given to the solver exactly once: as a bound when it can be used as one and has priority 0, as a constraint when it has priority 0, else as an objective weighted by its level; the additional constraints of the substitutions are given too, the sizes announced to the solver are those of what it is given, and minimum norm is requested only when there is no objective. After incremental changes the solver has been told of the same items, variables and weights as a fresh build would give it; additions and removals of the same item cancel. Solving updates the problem, then the data, solves, and writes the solution to the variables before computing the substituted ones.',
     'inputs histories', 'every combination of priority, bound/general, equality/inequality, substitution, and every sequence of events between two resolutions',
     'The concrete solvers and most scheme tests need optional back-ends; destinations and sizes form a table that a few examples do not cover.',
     'src/scheme/WeightedLeastSquares.cpp src/scheme/HierarchicalLeastSquares.cpp include/tvm/solver/internal/SolverEvents.h include/tvm/scheme/abstract/ResolutionScheme.h',
     [('processProblem/addTask/removeTask', 'src/scheme/WeightedLeastSquares.cpp'), ('SolverEvents::addIfPair', 'include/tvm/solver/internal/SolverEvents.h'), ('ResolutionScheme::solve', 'include/tvm/scheme/abstract/ResolutionScheme.h')])
prop('C08', 'The least-squares solvers keep sizes, maps and assignments in step',
     'Starting a build forgets everything of the previous one and records the announced sizes, variables and substitutions before memory is initialised. Each added constraint, bound or objective is filed with its own assignments under its own category, and its rows (twice its size for a double-sided constraint the solver does not handle natively) are counted after its range was attributed. Solving is refused in build mode; otherwise bounds are reset, every assignment runs between pre- and post-processing, and the problem is then solved. Processing events updates weights first, then removes, then counts additions, resizes, recomputes every impacted range from zero, points every impacted target to current memory, refreshes the impacted assignments, and adds new items last; a removal gives back exactly what the addition took; variables changed iff some were added, removed or moved; and a weight change rebuilds an assignment whose form does not allow it and otherwise just refreshes it.',
     'inputs histories', 'every sequence of builds, solves and incremental changes, every category and every solver capability',
     'The abstract solvers are compiled but the tests that run them need optional back-ends; the interactions of removals, additions and resizes form a large table.',
     'src/solver/LeastSquareSolver.cpp src/solver/HierarchicalLeastSquareSolver.cpp include/tvm/solver/abstract/LeastSquareSolver.h include/tvm/solver/abstract/HierarchicalLeastSquareSolver.h',
     [('LeastSquareSolver::startBuild/add*/solve/process', 'src/solver/LeastSquareSolver.cpp'), ('HierarchicalLeastSquareSolver::startBuild/add*/solve', 'src/solver/HierarchicalLeastSquareSolver.cpp')],
     [('eqSize_, ineqSize_, objSize_', 'rows counted so far', 'include/tvm/solver/abstract/LeastSquareSolver.h'), ('*ToAssignments_', 'assignments of each constraint', 'include/tvm/solver/abstract/LeastSquareSolver.h')])
prop('C09', 'Constraints are classified as bounds, and tasks accepted, exactly as documented',
     'A constraint is treated as a bound exactly when it is linear, on exactly one variable, with a matrix declared diagonal and invertible, and that variable either shares nothing with the substituted variables or is itself substituted by a function of exactly one variable whose matrix is diagonal and invertible. It can be used with a target convention exactly when the target is double-sided, or both are one-sided and the sign of the matrix (times that of the substitution) is positive definite for the same direction and negative definite for opposite directions. A scheme refuses a level beyond its hierarchy unless it emulates it by scalarization, in which case the abilities of its last level apply; any other level has its own abilities or the general ones; a level refuses inequalities it cannot handle and violation evaluations it does not list. The abilities are checked for every task not used by a substitution before it is given to the solver.',
     'inputs', 'every combination of variables, linearity, declared matrix properties, substitution, conventions, level and abilities',
     'The classification is a product of more than ten finite conditions; tests exercise a few dozen of several hundred combinations.',
     'src/scheme/helpers.cpp include/tvm/scheme/internal/SchemeAbilities.h src/scheme/SchemeAbilities.cpp src/scheme/WeightedLeastSquares.cpp src/scheme/HierarchicalLeastSquares.cpp',
     [('isBound, canBeUsedAsBound', 'src/scheme/helpers.cpp'), ('SchemeAbilities::check, LevelAbilities::check', 'include/tvm/scheme/internal/SchemeAbilities.h')],
     [('abilities_', 'abilities of a scheme', 'include/tvm/scheme/internal/SchemeAbilities.h')])

prop('C10', 'The permission to allocate memory is put back as it was found',
     'When dynamic allocations are being checked, any library function that overrides the permission to allocate restores it before it returns, on every path: after it the permission is the one in force before the call, whatever the nesting. An override records the permission in force and a restoration puts back the last one recorded and forgets it; the library and the calling module agree on the permission. Creating and updating the computation data of a scheme, and building a substitution, which must allocate, run with the allocations allowed.',
     'inputs', 'every path of every function that overrides the permission, every nesting of overrides',
     'A pending override makes the allocation checks of the control loop silently ineffective: nothing fails, so no test reports it.',
     'src/utils/memoryChecks.cpp include/tvm/utils/memoryChecks.h include/tvm/scheme/abstract/ResolutionScheme.h src/hint/SubstitutionUnit.cpp',
     [('override_is_malloc_allowed, restore_is_malloc_allowed', 'src/utils/memoryChecks.cpp'), ('createComputationData, updateComputationData', 'include/tvm/scheme/abstract/ResolutionScheme.h')],
     [('malloc_is_allowed_override_', 'stack of recorded permissions', 'src/utils/memoryChecks.cpp')])
prop('C15', 'An assignment writes the constraint it is given, in the conventions of its target',
     'For every combination of type (=, >=, <=, double-sided) and right-hand side convention (zero, as given, opposite) of a source constraint and of its target, an assignment either refuses the combination (incompatible types, non-zero right-hand side for a target without one, inconsistent sizes), or writes in the rows of its target an equivalent constraint: each side of the source goes to the side of the target that bounds the same way, with the sign the conventions require, and the missing side is infinite. '
     'The columns written are those of each variable of the source; substituted variables contribute the product of the matrices to the columns of the replacing variables and their constant to every side, and the columns of replacing variables absent from the source are zeroed. Rows are scaled by sqrt(weight) times the scalarization weight, times sqrt(anisotropic weight), alike for the matrix and every side, at creation and after a change of weights; changing a weight compiled as neutral is refused. '
     'Bounds D x in [l, u] (D identity, minus identity or diagonal) are intersected with those already assigned to the variable. A change of the rows, of the data or of the variables of the target reaches every atomic assignment that writes there.',
     'inputs', 'every combination of conventions, weights, substitutions and bounds; every change of target, mapping or weight',
     'The conventions multiply (4x4 types, 3x3 right-hand sides, 3x2 weights, substitution or not, first bound or not): a wrong sign or side in one combination silently gives the solver another problem.',
     'src/scheme/Assignment.cpp include/tvm/scheme/internal/Assignment.hpp src/scheme/AssignmentTarget.cpp src/scheme/MatrixAssignment.cpp',
     [('build, addAssignments, addBounds, addVectorAssignment, createAssignment, processRequirements, onUpdateWeights', 'src/scheme/Assignment.cpp'), ('A, b, l, u and halves; changeData', 'src/scheme/AssignmentTarget.cpp'), ('updateMapping', 'src/scheme/MatrixAssignment.cpp')],
     [('matrixAssignments_, vectorAssignments_ and their substitution counterparts', 'atomic assignments', 'include/tvm/scheme/internal/Assignment.h')])
prop('C12', 'A vector of variables gives each variable its place in the concatenation',
     'A vector of variables only holds variables that share nothing: adding one that is contained in one already there changes nothing, adding one that overlaps one without being contained in it is refused and changes nothing. Its total size is the sum of the sizes of its variables, and after any sequence of additions, removals and clearings the range it gives for a variable it contains, or for a part of one, is its place in the concatenation of the variables in order, whichever of the vector or the variable is asked; '
     'positions remembered by a variable are never used for another vector or an older state of the vector, each change gives the vector a new stamp, and copies have their own identity. Searches (contains, intersects, index) designate the right variable, values are read and written in the order of the variables, removing a variable or a rank that is not there changes nothing or is refused.',
     'inputs histories', 'every sequence of additions, removals, clearings, copies and queries, on any number of vectors sharing variables',
     'Positions are cached in the variables and shared between vectors: stale ones only show for specific sequences of changes and queries over several vectors.',
     'src/VariableVector.cpp src/Variable.cpp include/tvm/VariableVector.h include/tvm/Variable.h include/tvm/internal/ObjWithId.h',
     [('add_, remove_, clear, getMappingOf', 'src/VariableVector.cpp'), ('getMappingIn', 'src/Variable.cpp')],
     [('startIn_', 'positions of a variable, by vector', 'include/tvm/Variable.h'), ('stamp_', 'state of a vector', 'include/tvm/VariableVector.h')])
prop('C17', 'Task dynamics compute the value of their law from the parameters in force, and refuse unusable ones',
     'Whatever the function, the right-hand side and the gains, updating a task dynamics leaves in its value what its documented law prescribes from the current outputs of the function and the current parameters: -kp (f - rhs) for P, -kv df - kp (f - rhs) for PD with scalar, diagonal or matrix gains in any mix, the one-step laws, the reference, the constant, the velocity damper in each of its regions (with, in automatic mode, the coefficient fixed when a component enters the interaction zone and kept until it leaves), the scaling of the wrapped value by the one largest factor in [0, 1] that brings every component in the bounds for Clamped, the sum with the feed-forward term. '
     'Constructors, gain setters and factories (also through composed dynamics) hold exactly the parameters given, with kv = 2 sqrt(kp) when only the stiffness is given; sizes that do not match the function and parameters for which the law has no meaning are refused, a refused setter leaving the gains as they were; the order announced by the descriptor is the order of what it builds.',
     'inputs histories', 'every value of the function, its derivative, the right-hand side and the parameters; every kind of gain and every composition instantiated',
     'The laws are case distinctions over signs and kinds of gains, component by component; tests sample a few values, a scalar gain and one composition.',
     'src/task_dynamics include/tvm/task_dynamics',
     [('updateValue()', 'src/task_dynamics/ProportionalDerivative.cpp'), ('VelocityDamper::Impl', 'src/task_dynamics/VelocityDamper.cpp'), ('Clamped', 'include/tvm/task_dynamics/Clamped.h'), ('factories', 'include/tvm/task_dynamics/abstract/TaskDynamics.h')],
     [('kp_, kv_', 'gains in force', 'include/tvm/task_dynamics/ProportionalDerivative.h'), ('active_, axsi_', 'components in the interaction zone, and their damping', 'include/tvm/task_dynamics/VelocityDamper.h')])
prop('C19', 'What is deduced about a matrix from its declared properties holds for every such matrix',
     'For every combination of declared shape, positiveness, constness and invertibility, given in any order: a contradictory declaration (one no matrix can have, or a negative flag on a matrix that is necessarily constant or invertible) is refused and every other one is accepted; '
     'each predicate (isInvertible, isDiagonal, isPositiveDefinite...) is true exactly when every matrix with the declared properties is such; copies say the same. The properties computed for the opposite, the product by a scalar, the sum, the difference and the product of matrices never throw on valid operands, hold for every matrix so obtained, '
     'and lose nothing of what the shapes, the positiveness values or the flags determine by themselves.',
     'inputs', 'every combination of declared properties and, for the operators, every pair of properties that can be declared and every sign of the scalar',
     'Shapes and positiveness are used to choose specialised products and inversions; a wrong deduction silently gives a wrong matrix, and the table of combinations is much larger than what tests sample.',
     'src/internal/MatrixProperties.cpp include/tvm/internal/MatrixProperties.h',
     [('MatrixProperties::build and deductions', 'src/internal/MatrixProperties.cpp'), ('predicates', 'include/tvm/internal/MatrixProperties.h'), ('operators', 'src/internal/MatrixProperties.cpp')],
     [('shape_, positiveness_, symmetric_, constant_, invertible_', 'what is known of the matrix', 'include/tvm/internal/MatrixProperties.h')])
prop('C18', 'What is said of a matrix is true of what was last put in it',
     'Assigning, adding or subtracting an expression to a matrix with properties writes the value and forgets what was said of the matrix, unless the caller asks for the properties to be kept; operations that would change it behind its properties are refused at compile time. A copy has the value and the properties of the original. '
     'A part of the columns of a matrix is those columns, and is said to be only what follows from the whole (constant, zero); a part that can be written shares its properties with the whole, so that writing it weakens the whole. '
     'Wherever the library itself declares properties (functions built from identity or diagonal expressions, identity functions, linear functions without constant term, accumulation on a variable already present), the value written has them.',
     'inputs histories', 'every expression type and every sequence of assignments, accumulations and slices',
     'Assignments skip multiplications and substitutions skip inversions on the faith of these properties: a stale one silently gives a wrong problem, only for particular sequences of operations.',
     'include/tvm/internal/MatrixWithProperties.h include/tvm/internal/FirstOrderProvider.h src/function/BasicLinearFunction.cpp include/tvm/function/BasicLinearFunction.h src/constraint/BasicLinearConstraint.cpp src/function/IdentityFunction.cpp',
     [('ObjectWithProperties', 'include/tvm/internal/MatrixWithProperties.h'), ('slice_matrix', 'include/tvm/internal/FirstOrderProvider.h'), ('BasicLinearFunction::add', 'include/tvm/function/BasicLinearFunction.h')],
     [('properties_', 'what is said of the matrix', 'include/tvm/internal/MatrixWithProperties.h')])
prop('C20', 'Functions and linear constraints follow their variables',
     'After any sequence of additions and removals of variables and changes of size, a function (or constraint) has exactly one jacobian, one linearity and, for functions, one JDot per variable, and every enabled output has the size of the representation (value) or tangent space (derivatives) of the image, with one column per dimension of the tangent space of the variable. '
     'Removing a variable that is not used is refused and changes nothing. The jacobian, JDot and linearity asked for a part of a variable are the corresponding part of those of the variable, and an exception is thrown for a variable that does not appear. The value of a linear function is the sum of the A_i x_i plus b, its velocity the sum of the A_i dot(x_i), its other derivatives are null; the identity function gives its variable and its derivative. '
     'Building a linear function or constraint refuses matrices and vectors that do not fit before anything changes, stores each matrix for its variable, and accumulates the matrices given for a same variable or its parts; right-hand sides are stored where the type of the constraint says, and refused where it has none.',
     'inputs histories', 'every sequence of additions, removals and resizes, every part of a variable, every combination of constraint type and right-hand side convention',
     'Solvers read these caches column by column: an entry of the wrong size, or left over from a removed variable, corrupts the problem only for particular histories (parts of variables, non-Euclidean spaces, repeated variables).',
     'src/internal/FirstOrderProvider.cpp include/tvm/internal/FirstOrderProvider.h src/function/Function.cpp src/function/LinearFunction.cpp src/constraint/LinearConstraint.cpp src/function/BasicLinearFunction.cpp include/tvm/function/BasicLinearFunction.h src/constraint/BasicLinearConstraint.cpp src/function/IdentityFunction.cpp include/tvm/utils/internal/MapWithVariableAsKey.h',
     [('addVariable/removeVariable', 'src/internal/FirstOrderProvider.cpp'), ('resizeCache', 'src/function/Function.cpp'), ('MapWithVariableAsKey::at', 'include/tvm/utils/internal/MapWithVariableAsKey.h'), ('BasicLinearFunction::add', 'include/tvm/function/BasicLinearFunction.h')],
     [('jacobian_, linear_, JDot_', 'what is known per variable', 'include/tvm/internal/FirstOrderProvider.h')])
prop('C13', 'A counting vector gives the variables that are currently counted',
     'After any sequence of additions and removals of variables and parts of variables, the variables given are rebuilt from the current counts: every change of the counts (and every change of count when ranges are split on counts) outdates what was computed, in the three spaces alike, for the containing variable; a removal of something that was not added is refused before anything is changed; a variable of which nothing is left is forgotten. '
     'There is one flag per variable given, and a variable is given itself exactly when it is counted entirely. Adding or removing a range tells exactly whether the union changes, and its limits are inserted in the list of limits according to the documented rules; the ranges given are those of the current limits for the kind of split asked for.',
     'inputs histories', 'every sequence of additions, removals and queries, every local shape of the list of limits',
     'What is given is computed lazily from a compressed representation; stale or mixed results depend on the order of changes and queries.',
     'src/internal/VariableCountingVector.cpp src/internal/RangeCounting.cpp include/tvm/internal/RangeCounting.h include/tvm/internal/VariableCountingVector.h',
     [('VariableCountingVector::add/remove/update', 'src/internal/VariableCountingVector.cpp'), ('RangeCounting::add/remove/insert/ranges', 'src/internal/RangeCounting.cpp')],
     [('upToDate_', 'variables computed since the last change', 'include/tvm/internal/VariableCountingVector.h'), ('recompute_, recomputeSplit_', 'ranges to recompute', 'include/tvm/internal/RangeCounting.h'), ('limits_', 'list of limits', 'include/tvm/internal/RangeCounting.h')])
prop('C11', 'Variables, their derivatives and their subvariables share values, positions and lifetimes',
     'A variable holds the values of a point of its space (or of the tangent space for a derivative) in a buffer of that size, starting at zero, freed once. dot(x, n) is the n-th derivative of x: it is created the first time it is asked for and is the same variable ever after; following the primitives back gives x. A subvariable that does not fit in its variable is refused; otherwise it designates the coefficients of the base supervariable at the accumulated shift, and its derivatives the corresponding coefficients of the derivatives of the supervariable; creating it, or its derivatives, changes no value, whatever exists already. '
     'Positions, inclusion, intersection and equality of variables follow from the coefficients they designate, and the orders of derivation from the links; these never change after creation. Values are set only where they fit: a value, a coefficient or a segment out of the variable is refused and changes nothing. Every pointer given on a variable keeps alive what it points to, through its base primitive and supervariable. Ranges and spaces follow the arithmetic of integer intervals and of products of spaces.',
     'inputs histories', 'every sequence of derivations and subvariables, every order of release of the pointers obtained, every space (Euclidean or not)',
     'Which variable owns the memory and the reference count depends on the whole history of derivations and subvariables and on the order in which pointers are released; non-Euclidean spaces have different sizes in each role.',
     'src/Variable.cpp include/tvm/Variable.h src/Space.cpp include/tvm/Space.h include/tvm/Range.h',
     [('constructors, dot, subvariable, shared_from_this', 'src/Variable.cpp'), ('operator<=, operator*', 'include/tvm/Space.h'), ('contains, intersects', 'include/tvm/Range.h')],
     [('memory_, value_', 'coefficients', 'include/tvm/Variable.h'), ('primitive_, superVariable_, derivative_', 'links', 'include/tvm/Variable.h')])
prop('N01', 'The solution of a problem is the minimiser of its objectives under its constraints',
     'After a successful resolution, the values of the variables minimise the weighted (or lexicographic) least-squares objective subject to the constraints, up to the tolerance of the back-end.',
     'inputs', 'every problem', 'The optimum depends on real data.', 'src/solver src/scheme', [('solve', 'src/solver/LeastSquareSolver.cpp')],
     na='the claim is about the numerical result of a back-end (not even compiled here) on real-valued data; what is decidable from the source - that the back-end receives the right matrices, at the right places, in the right conventions - is claimed by C07, C08 and C15')
prop('N02', 'Velocities, jacobians and their derivatives are the derivatives of the values',
     'For every function, velocity = J dx, JDot is the time derivative of J, and J the derivative of the value.',
     'inputs', 'every value of the variables', 'Needs differentiation of arbitrary user code.', 'src/function src/robot include/tvm/utils/checkFunction.h', [('checkFunction', 'include/tvm/utils/checkFunction.h')],
     na='user functions and the robot functions (not compiled here) compute them with arbitrary numerical code; no static argument in reach bounds it. The library linear functions, whose derivatives are symbolic, are claimed by C18')
prop('N03', 'Substituting variables does not change the solution of a problem',
     'A problem solved with and without hint substitutions gives the same values.',
     'inputs', 'every problem and every admissible substitution', 'Equality of numerical optima.', 'src/hint', [('SubstitutionCalculatorImpl', 'src/hint/SubstitutionCalculatorImpl.cpp')],
     na='depends on ranks and on QR factorisations of real matrices computed at run time; the routing of substituted variables in assignments is claimed by C15')
prop('N04', 'A warm control loop does not allocate memory',
     'Once a problem has been solved, solving it again without structural change performs no dynamic allocation.',
     'inputs', 'every problem', 'Depends on Eigen temporaries.', 'include/tvm/utils/memoryChecks.h src/scheme', [('memory checks', 'include/tvm/utils/memoryChecks.h')],
     na='whether an Eigen expression allocates depends on run-time sizes, alignment and expression-template specialisation inside Eigen; C10 claims the handling of the permission itself')
prop('N05', 'A damped constraint is never violated',
     'With a velocity damper, the distance never goes below the safety distance.',
     'histories', 'every trajectory', 'Property of an integrated closed-loop system.', 'src/task_dynamics/VelocityDamper.cpp', [('VelocityDamper', 'src/task_dynamics/VelocityDamper.cpp')],
     na='a control-theoretic property of closed-loop trajectories, dependent on the integration and on the feasibility of the problems; the law itself is claimed by C17')
