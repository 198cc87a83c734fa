"""The properties: one table, from which properties.jsonl and MANIFEST.json are generated."""

REAL = 'floating-point arithmetic is treated as exact real arithmetic'
P = []
NA = []
META = {}
A = 'arboris/'


def prop(id, title, statement, files, mechanism, text, why, over=('inputs',), level='proof',
         note='', assumptions=(), state=(), observe=()):
    anchors = dict(files=[A + f for f in files],
                   mechanism=[dict(name=n, where=A + w) for n, w in mechanism])
    if state:
        anchors['state'] = [dict(name=n, meaning=m, where=A + w) for n, m, w in state]
    if observe:
        anchors['observe_at'] = list(observe)
    anchors['hook_needed'] = None
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=list(over), text=text), why_tests_cant=why, anchors=anchors)
    P.append(d)
    META[id] = dict(level=level, note=note, assumptions=[REAL] + list(assumptions))


hm, adm, tw, rm = 'homogeneousmatrix.py', 'adjointmatrix.py', 'twistvector.py', 'rigidmotion.py'
mm, jt, co, ct = 'massmatrix.py', 'joints.py', 'core.py', 'controllers.py'
cs, cl, ob, sh = 'constraints.py', 'collisions.py', 'observers.py', 'shapes.py'

prop('C01', 'Elementary displacements build the rigid displacement they are named after',
     'A translation by a vector, a rotation about the x, y or z axis, and the composite rotations '
     '(successive rotations about z, y, x; z, y; z, x; y, x) return, for every vector and every '
     'angle, the 4x4 homogeneous matrix of exactly that displacement, with the right-hand sign '
     'convention, leftmost rotation applied last. No other entry is touched.',
     [hm], [('transl', hm), ('rotx/roty/rotz', hm), ('rotzyx/rotzy/rotzx/rotyx', hm)],
     'all vectors of R^3 and all real angles', 'Tests evaluate one or two angles per function; a '
     'sign error or a swapped factor can cancel at those angles.')
prop('C02', 'Homogeneous matrices: inverse, point and vector transport, recognizer',
     'For every rigid displacement H the inverse is a rigid displacement whose products with H on '
     'both sides are the identity; transporting a point applies rotation and translation, '
     'transporting a vector applies the rotation only. The recognizer accepts every rigid '
     'displacement and rejects 4x4 matrices whose rotation block does not have determinant one '
     '(scaled or mirrored) or whose last row is not (0, 0, 0, 1), and a matrix of the wrong shape; '
     'none of these '
     'operations modifies its arguments.',
     [hm], [('inv', hm), ('pdot/vdot', hm), ('ishomogeneousmatrix', hm)],
     'all rotations, all translations, all points',
     'Tests use one displacement; the property quantifies over SE(3).')
prop('C03', 'Roll-pitch-yaw angle extraction round-trips, gimbal lock included',
     'For every rotation, the three angles extracted from its homogeneous matrix rebuild the same '
     'rotation when composed as rotations about z, y, x. This includes both gimbal lock '
     'configurations, where the second angle is a right angle.',
     [hm], [('rotzyx_angles', hm)], 'all rotations, singular ones included',
     'The singular configurations have measure zero and are not sampled by tests.')
prop('C04', 'Frame built from a direction has its z axis along that direction',
     'For every unit direction vector the constructed homogeneous matrix is a direct '
     'orthonormal rotation without translation whose z axis is the direction. This '
     'holds for directions along a coordinate axis or with equal components; vectors that are '
     'clearly not of unit length are refused.',
     [hm], [('zaligned', hm)], 'all unit vectors of R^3',
     'The construction branches on which component is smallest; tests reach a few directions.')
prop('C05', 'Adjoint matrices represent rigid displacements acting on twists',
     'The adjoint of a displacement maps the twist of a body to the same twist seen in the other '
     'frame, is multiplicative, and its inverse is the adjoint of the inverse displacement; the '
     'derivative adjoint equals the time derivative along the motion. The bracket matrix of a twist '
     'is the antisymmetric Lie bracket of twists, and improper matrices are refused. The recognizer '
     'accepts the adjoint of every displacement, and no matrix whose blocks are not those of one.',
     [hm, adm, tw], [('adjoint/iadjoint/dAdjoint', hm), ('inv/isadjointmatrix', adm), ('adjacency', tw)],
     'all displacements and all twists', 'Tests check shape or one numerical instance.')
prop('C06', 'Twist exponential is the displacement generated by the twist',
     'For every twist the exponential is the homogeneous matrix reached after unit time at that '
     'constant body twist: a pure translation when there is no rotation, and otherwise the screw '
     'motion given by the Rodrigues formula. It is a rigid displacement whose inverse is the '
     'exponential of the opposite twist.',
     [tw], [('exp', tw)], 'all twists, zero rotation included',
     'Tests evaluate one twist; the coefficients only show for generic twists.',
     assumptions=['twists with rotation speed under the small-angle cutoff of the code are '
                  'integrated by its series branch and compared only in the limit'])
prop('C07', 'A relative motion and its inverse describe the same motion',
     'For every relative motion of two frames, the inverse pose is the inverse displacement, the '
     'inverse twist is the twist of the reverse motion expressed in the other frame, and the '
     'adjoint matrices and their time derivatives are those of the pose and of its inverse along '
     'the motion.',
     [rm], [('RigidMotion.ipose/itwist/adjoint/iadjoint/dadjoint/idadjoint', rm)],
     'all poses and twists', 'No test evaluates the derivative adjoints against the motion.')
prop('C08', 'Joint pose, jacobian and jacobian derivative are mutually consistent',
     'For every joint type, the pose is the displacement its name describes (translations and '
     'elementary rotations composed in the order of the name), the jacobian times the joint '
     'velocity is the body twist given by the time derivative of the pose, and the jacobian '
     'derivative is the time derivative of the jacobian along the motion. The number of degrees '
     'of freedom equals the number of jacobian columns, and joints built from integer values '
     'behave as joints built from reals.',
     [jt, co], [('pose, jacobian, djacobian of each joint class', jt),
                ('LinearConfigurationSpaceJoint', co)],
     'all configurations and velocities of all joint types',
     'Tests look at a few configurations, mostly at zero where many terms vanish.',
     over=('inputs', 'configurations'))
prop('C09', 'Joint integration moves the configuration at the given velocity',
     'Integrating a joint over a time step stores the new velocity and moves the configuration by '
     'exactly velocity times step, or, for the free joint, by composing the pose with the '
     'exponential of the twist times the step, so that the pose stays a rigid displacement. The '
     'arrays given by the caller are not modified, and joints without degrees of freedom '
     'stay unmoved.',
     [jt, co, tw], [('integrate', jt), ('LinearConfigurationSpaceJoint.integrate', co)],
     'all configurations, velocities and time steps',
     'Tests integrate one or two joints from rest.')
prop('C10', 'Mass matrices of solids',
     'The mass matrices of the box, cylinder, ellipsoid and sphere are, for '
     'every size and mass, diagonal matrices holding the mass and the principal moments of inertia '
     'of the homogeneous solid, about its center, for the axes documented.',
     [mm], [('box/ellipsoid/cylinder/sphere', mm)], 'all sizes and masses',
     'Tests evaluate one size per solid, often with equal dimensions.')
prop('C11', 'Transporting a mass matrix preserves the solid',
     'Expressing a mass matrix in another frame preserves the kinetic energy of every motion, '
     'keeps the matrix symmetric with the mass unchanged, composes along successive displacements '
     'and is undone by the inverse displacement. The recognizer accepts the mass matrices of '
     'rigid solids and refuses matrices that are not symmetric, have a negative mass, or a '
     'wrong shape.',
     [mm], [('transport', mm), ('ismassmatrix', mm)], 'all mass matrices and displacements',
     'Tests use one transport.')
prop('C12', 'The principal frame of a solid diagonalizes its mass matrix',
     'For every solid, repeated principal moments included, the principal frame is a rigid '
     'displacement centered on the center of mass and the mass matrix expressed in it is diagonal. '
     'For a solid whose matrix is already diagonal about its center of mass, the result is still '
     'a direct orthonormal frame.',
     [mm], [('principalframe', mm)], 'all inertia matrices, repeated eigenvalues included',
     'Repeated moments and axis permutations are not sampled.',
     assumptions=['numpy.linalg.eigh/eig/eigvalsh satisfy their documented specification'])
prop('C13', 'Forward kinematics: poses and velocities of the tree',
     'After a geometric or a dynamic update every body pose is the product of the relative '
     'displacements along the path from the ground, whatever the frames joints are attached to, '
     'and the two updates agree; every frame pose is its body pose times its own. Every body and '
     'frame twist is the body velocity given by the time derivative of its pose.',
     [co], [('Body.update_geometric', co), ('Body.update_dynamic', co), ('SubFrame.pose', co)],
     'all joint states, all joint frames, all trees (induction on the tree: one arbitrary link)',
     'Tests use one three-link arm at a few configurations.', over=('inputs', 'configurations'))
prop('C14', 'Jacobians map generalized velocities to body twists',
     'After a dynamic update each body\'s and frame\'s jacobian times the generalized velocity is its '
     'twist, each jacobian column is the twist produced by a unit velocity of that degree of '
     'freedom, and the jacobian derivative is the exact time derivative of the jacobian along the '
     'motion. Degrees of freedom that are not ancestors of a body do not appear in its jacobian.',
     [co], [('Body.update_dynamic', co), ('SubFrame.jacobian/djacobian', co)],
     'all joint states, all joint frames, all trees (induction on the tree: one arbitrary link)',
     'No test differentiates a jacobian.', over=('inputs', 'configurations'))
prop('C15', 'Body dynamics follow the Newton-Euler equations',
     'For every rigid body with any mass, center of mass and inertia, moving at any twist, the '
     'velocity-dependent wrench of the model (nonlinear effects matrix times twist) is the one '
     'of the Newton-Euler equations: mass times twist derivative plus that wrench equals the time '
     'derivative of the momentum, seen in the body frame. It does no work on the motion of the '
     'body, and massless bodies have none (a mass under 1e-9 counts as none).',
     [co], [('Body.update_dynamic (nonlinear effects)', co)],
     'all mass matrices and twists', 'Tests use bodies with centered mass at rest.')
prop('C16', 'World mass, viscosity and nonlinear matrices assemble the bodies',
     'After a dynamic update the world mass matrix gives the total kinetic energy of the bodies '
     'for every velocity and is symmetric, the viscosity matrix gives the total power dissipated '
     'in the bodies, and the nonlinear matrix times the velocity is the sum of the inertia '
     'wrenches at constant generalized velocity, all seen in generalized coordinates. Repeating '
     'the update without moving gives the same matrices, and the free motion conserves the '
     'kinetic energy.',
     [co], [('World.update_dynamic', co)], 'all states of the tree, all mass matrices, any number of bodies',
     'Tests compare one configuration of one arm against stored numbers.',
     over=('inputs', 'configurations'))
prop('C17', 'Controllers add up into the generalized force and the impedance',
     'Updating the controllers makes the generalized force the sum of the forces of all '
     'registered controllers and the impedance the mass divided by the step, plus viscosity and '
     'nonlinear effects, minus the controllers\' impedances; the admittance is its inverse. '
     'Nothing accumulates from one step to the next, and a nonpositive step is refused.',
     [co], [('World.update_controllers', co)], 'all matrices, forces, steps; any number of controllers',
     'Tests use at most one controller.', over=('inputs', 'configurations'),
     assumptions=['the number of degrees of freedom is enumerated (1, 2; the run-time contracts go to 26 bodies); the number of controllers is not (loop rule)'])
prop('C18', 'Gravity pulls every body by its weight at its center of mass',
     'The generalized force of the weight controller is, for every state, the one whose power on '
     'any velocity is the sum over the massive bodies of mass times gravity times the velocity of '
     'the center of mass along the up axis, with no impedance; it equals minus the '
     'derivative of the potential energy. The gravity magnitude and the world up axis are both '
     'taken into account.',
     [ct], [('WeightController', ct)], 'all states, mass matrices, gravity values, any number of bodies',
     'Tests run one arm configuration without checking values.')
prop('C19', 'Proportional-derivative control is the implicit spring-damper of its gains',
     'The force and impedance of the controller are such that force plus impedance times the next '
     'velocity equals stiffness times the next position error plus damping times the next velocity '
     'error, on exactly the controlled degrees of freedom, for every gain matrix, subset of joints '
     'in any order, and time step. Omitted gains and targets mean zero, and joints that are not '
     'linear are refused.',
     [ct], [('ProportionalDerivativeController', ct)],
     'all gains, targets, states, steps; all ordered subsets of the joints of small worlds',
     'Tests use scalar gains on contiguous joints.', over=('inputs', 'configurations'))
prop('C20', 'The time step solves the implicit equations of motion',
     'One integration step sets the generalized velocity to the solution of the linear implicit '
     'equation: impedance times new velocity equals mass times old velocity over the step plus '
     'generalized force; each joint then receives exactly its own part of the velocity and moves '
     'with it over the step. The clock advances by exactly the step, and a nonpositive step is '
     'refused.',
     [co], [('World.integrate', co)], 'all masses, forces, velocities, steps; any number of joints',
     'Tests compare one step with stored numbers.')
prop('C21', 'Constraint forces enter the dynamics exactly once',
     'When constraints are updated, each enabled and active constraint is solved against the '
     'velocity that the implicit dynamics give for the current forces, its own block of the '
     'constraint-space admittance, and the time step; sweeps are repeated until one changes '
     'the velocities by less than the tolerance. The generalized force finally gains exactly '
     'the sum of the final forces seen through the jacobians. Disabled or inactive constraints are not solved and exert no '
     'force, and the forces of the controllers are kept.',
     [co], [('World.update_constraints', co)],
     'all dynamics, jacobians, reactions; up to three constraints, small dimensions',
     'Tests use one constraint kind at a time and check the final trajectory loosely.',
     over=('inputs', 'configurations'),
     assumptions=['the number of constraints is enumerated up to 3 and the solver sweeps up to 2'])
prop('C22', 'Joint limits act as unilateral stops',
     'A joint limit is active only near a bound; when solved, a limited degree of freedom either '
     'stays free with no force, or, alone, is stopped at the bound it would cross within the step '
     'by a force pushing back inside; the force is never adhesive. The degrees of freedom of a '
     'joint that do not influence each other are treated one by one, at the lower and the upper bound.',
     [cs], [('JointLimits', cs)], 'all positions, velocities, admittances, bounds, steps',
     'Tests limit one rotation joint in one direction.')
prop('C23', 'Ball-and-socket constraints keep two points together',
     'The constraint jacobian gives, for every state, the velocity of the second body relative to '
     'the first at the first anchor point, the derivative of the gap when the points coincide; '
     'solving makes it cancel the present position gap within one time step, '
     'and the force change returned is the one accumulated. It acts by equal and opposite '
     'forces at that point, doing no work when the points coincide.',
     [cs], [('BallAndSocketConstraint', cs)], 'all poses, jacobians, admittances, steps',
     'Tests close one loop from one configuration.')
prop('C24', 'Point contacts track the contact frames and gap',
     'Updating a contact moves both contact frames to the poses given by the collision geometry, '
     'expressed in their bodies, records the distance, and resets the force; '
     'a contact is active exactly when the gap would close within the next step. The '
     'contact jacobian gives the velocity of the second body relative to the first at the contact '
     'point, in the contact frame, for any pair of moving bodies or ground.',
     [cs], [('PointContact', cs)], 'all poses, velocities, gaps, steps',
     'Tests drop one ball.')
prop('C25', 'Soft-finger contacts obey unilateral contact and Coulomb friction',
     'For every symmetric positive definite contact admittance, solving a contact leaves it free '
     'with no force if the surfaces separate; otherwise '
     'the normal velocity cancels the gap within the step and the force lies in the elliptic friction '
     'cone: a sticking contact has zero tangential and spin velocity with force inside the cone, a '
     'sliding one has its force on the cone, opposed to the sliding velocity (of several solutions, '
     'the one with the least friction). The normal force '
     'is repulsive unless the admittance couples it strongly to the tangential directions. Frictionless '
     'and grazing contacts included, the velocity change equals the admittance times the force change.',
     [cs], [('SoftFingerContact.solve', cs)], 'all admittances, velocities, friction and spin '
     'coefficients, steps',
     'Tests cover one sticking and one separating case.',
     assumptions=['numpy.linalg.eigvals returns the eigenvalues of its argument; the sliding '
                  'eigenvalue used is a real root of the characteristic polynomial'])
prop('C26', 'Sphere-sphere and point-sphere collision geometry',
     'For every two distinct-centered spheres the signed distance is center distance minus radii, '
     'each contact point lies on its own sphere on the line of centers, the '
     'contact frames have their normal along that line, and the gap between the points along the normal is the '
     'distance. Points behave as spheres of radius zero, and frames attached anywhere on moving '
     'bodies are taken into account.',
     [cl], [('sphere_sphere_collision, point', cl)], 'all positions and radii, overlapping included',
     'Tests use two positions along an axis.')
prop('C27', 'Box-sphere collision geometry',
     'For every box pose and size and every sphere, center inside or outside the box, the signed '
     'distance is the distance from the sphere center to the box surface (negative inside) '
     'minus the radius, the contact point of the box lies on its surface closest to the center, the one '
     'of the sphere lies on the sphere, and both contact frames have their normal along the '
     'separating direction, expressed in ground coordinates.',
     [cl], [('box_sphere_collision', cl)], 'all poses, sizes, positions and radii',
     'Tests use axis-aligned boxes at the origin.')
prop('C28', 'Plane-sphere collision geometry',
     'For every plane (points with a x + b y + c z = d), attached to any moving frame, and every sphere or point, the signed distance is the '
     'height of the center above the plane minus the radius, the contact point of the plane is the '
     'projection of the center on it, the one of the sphere is its lowest point towards the '
     'plane, and both contact frames have their normal along the plane normal, in ground coordinates.',
     [cl, sh], [('plane_sphere_collision', cl), ('Plane', sh)],
     'all planes, poses, positions and radii', 'Tests use a horizontal plane through the origin.')
prop('C29', 'Collision solvers are chosen for the right pair of shapes',
     'For every pair of shapes the chosen solver and the order it is given the shapes in match '
     'their types, whatever the order they are given in, and unsupported pairs are '
     'reported as such. Enumerating all contacts of a world creates one contact for each '
     'supported pair of shapes on different bodies, no pair twice and none of a shape with itself.',
     [cl, cs], [('choose_solver', cl), ('get_all_contacts', cs)],
     'all ordered pairs of shape types; all small sets of shapes',
     'Tests exercise two pairs.', over=('configurations',), level='other')
prop('C30', 'Degrees of freedom partition the generalized velocity',
     'Initializing a world gives each joint its own contiguous range of degrees of freedom in '
     'depth-first order, the ranges covering the generalized velocity exactly once; the world '
     'velocity then holds the joint velocities, and writing one updates the other. Initializing '
     'again, or after the tree changed, keeps the joint velocities.',
     [co], [('World.init', co)], 'all small trees of joints with 0 to 6 degrees of freedom, any velocities',
     'Tests use serial arms.', over=('inputs', 'configurations', 'histories'), level='other')
prop('C31', 'Building the world keeps it a tree',
     'Adding links makes the new body the child of the joint and of the given body, enumerated once, '
     'parents first, depth first; adding a link that would give a body two parents or close a loop '
     'is refused, leaving the tree unchanged. Replacing a joint by one or several links keeps the place of the '
     'branch, and registering an object twice keeps one.',
     [co], [('World.add_link', co), ('World.replace_joint', co), ('World.register', co),
            ('Body.iter_descendant_bodies', co)],
     'all construction histories of small trees', 'Tests build two fixed worlds.',
     over=('histories', 'configurations'), level='other')
prop('C32', 'Frames fixed to a body move rigidly with it',
     'A frame attached to a body has at every time the pose, twist, jacobian and jacobian '
     'derivative of the body seen at its own fixed offset, and its offset is independent of the '
     'array it was built from and of the arrays it returns; only moving frames can be moved, to '
     'any rigid displacement, by assignment. Invalid offsets and parents are refused.',
     [co], [('SubFrame/MovingSubFrame', co)], 'all offsets and body states',
     'Tests build one frame.')
prop('C33', 'Objects are found by their names',
     'Looking up a name returns the first object bearing it, searching returns all in order, '
     'integer and slice indexing behave as for lists, and a name that is missing is an error; '
     'the dictionary view maps each name to its object, ignores unnamed ones, and refuses duplicates. '
     'Naming all elements keeps existing names, names the others uniquely, and detects '
     'duplicates on request; a list of joints gives their degrees of freedom in order.',
     [co], [('NamedObjectsList', co), ('name_all_elements', co), ('JointsList', co)],
     'all small lists over named, unnamed and foreign objects', 'Tests use one list.',
     over=('inputs', 'configurations'), level='other')
prop('C34', 'A simulation runs every stage of every step in order',
     'A simulation sets the clock to the first instant, initializes the world and then the '
     'observers, and at each later instant updates dynamics, controllers, constraints and '
     'observers, in that order and with the step to that instant, before integrating; observers '
     'are finished once at the end. The clock follows the instants even when they are not evenly spaced, and '
     'observers given as a list or a dictionary are treated the same.',
     [co], [('simulate', co)], 'all timelines, evenly spaced or not (loop invariant on one arbitrary step)',
     'Tests only run evenly spaced timelines.', over=('inputs', 'histories', 'configurations'),
     level='proof')
prop('C35', 'Energy monitoring reports the mechanical energy',
     'The energy monitor records at each step the time, the total kinetic energy of the bodies, '
     'their gravitational potential energy, and the sum of both as mechanical energy, for every state, '
     'massless bodies contributing nothing.',
     [ob], [('EnergyMonitor', ob)], 'all states and mass matrices, any number of bodies', 'Tests do not check values.')
prop('C36', 'Center of mass observation',
     'The center of mass observer gives the mass-weighted mean position of the bodies, its '
     'velocity as the time derivative of the position, its jacobian, and the time derivative of '
     'that jacobian along the motion, for every state and every set of bodies with mass.',
     [ob], [('CoMObserver', ob)], 'all states and mass matrices, any number of bodies', 'Tests do not cover this observer.')
prop('C37', 'Recorders log every step faithfully and independently',
     'Each recorder stores one entry per step, holding the value at that instant, unaffected by what '
     'happens afterwards, with the instants they were taken at. Data written to a file can be read '
     'back equal to what was recorded, element names included; elements that would share a name in '
     'it are refused.',
     [ob], [('Hdf5Logger', ob), ('PickleLogger', ob), ('RecordFramePose', ob)], 'all histories of up to three steps',
     'Tests do not read files back.', over=('histories', 'inputs'), level='other')
prop('C38', 'Simple robots are built as documented',
     'The arm, snake and simple-shape generators build, for every length, mass and number of links '
     'given, a serial chain attached to the ground, whose joints are one chain, whose '
     'bodies have the given masses with the inertia of the documented solid, and whose reach in '
     'the zero configuration is the sum of the lengths.',
     ['robots/simplearm.py', 'robots/snake.py', 'robots/simpleshapes.py'],
     [('add_simplearm', 'robots/simplearm.py'), ('add_snake', 'robots/snake.py'),
      ('simpleshapes', 'robots/simpleshapes.py')],
     'all lengths and masses; up to three links', 'Tests use default parameters.',
     over=('inputs', 'configurations'))
prop('C39', 'The human model scales with height and mass and is left-right symmetric',
     'For every height and mass the human model has the total mass asked for, every segment a valid '
     'mass matrix, lengths proportional to the height (but for the half-inch offset of the shoulder girdle), and '
     'masses proportional to the mass. The left and right sides are mirror images in masses, centers of mass, joint positions and (but for the hands) inertia; '
     'exchanging different lengths given for the limbs of each side gives the mirror image.',
     ['robots/human36.py'], [('add_human36', 'robots/human36.py')],
     'all heights and masses', 'Tests build the default model only.',
     over=('inputs', 'configurations'))
prop('C40', 'The icub model is a valid symmetric robot',
     'The icub model is a tree with its documented joints, each body having a valid mass matrix, '
     'whose left and right arms and legs are mirror images in positions and masses for mirrored '
     'postures. Its floating or fixed base, shapes (those of the solids its masses are made of, and two '
     'mirrored eyes) and contact points (each with a frame of its name) are as requested, joint and '
     'torque limits are the same on both sides, and names are unique.',
     ['robots/icub.py'], [('add', 'robots/icub.py')], 'all joint positions, both bases',
     'Tests build it once.', over=('inputs', 'configurations'), level='other')
prop('C41', 'Walking the world visits each element once, parents first',
     'Walking a world hands to the visitor the ground with its up axis and time, then every body, frame, shape, '
     'joint, constraint and controller exactly once, each body after the joint that carries it and '
     'each joint after the body it is attached to.',
     [co], [('World.parse', co)], 'all small trees with frames and shapes',
     'Tests do not compare the visit with the tree.', over=('configurations',), level='other')


prop('C42', 'The drawn scene places every object at its pose',
     'In the scene graph built from a world, hierarchical or flat, the composed transforms of the '
     'node of every body, frame and shape give its pose in the world, each is drawn exactly once, '
     'with its name, dimensions and the color of its body; only the transforms of joints and '
     'moving frames move.',
     ['visu/world_drawer.py', co], [('Drawer', 'visu/world_drawer.py')],
     'all poses; small trees', 'The drawing tests need packages that are not installed.',
     over=('inputs', 'configurations'))
prop('C43', 'Robots imported from a description file match it',
     'A robot imported from a description file has one body per link, one joint per joint with the '
     'described axis, origin and limits, and the masses and inertias described.',
     ['robots/urdf/__init__.py', 'robots/urdf/urdf_parser.py'],
     [('URDFConverter', 'robots/urdf/__init__.py')], 'all description files', 'No test.',
     over=('inputs',))

prop('C44', 'The socket observer serves its client, or nobody, and closes',
     'An observer that streams over a socket listens on the first free port from the one asked, '
     'waits for a client no longer than its timeout, and lets the simulation run either way; when '
     'the simulation ends the client is told that the connection is closed, and the port is '
     'released.',
     [ob], [('SocketCom', ob)], 'a client or none, ports taken or free', 'No test.',
     over=('configurations', 'histories'), level='other')

NA_REASON = {
    'C43': 'the importer is Python 2 source (print statements, raise with a comma): it does not '
           'compile with the Python 3 of this environment, so no contract on it can be executed or '
           'verified here',
}

# what the numbers of things range over, for the properties that sum over them
_LEN = dict(
    C13='one level of the tree is verified for any number of children (loop rule); the whole tree '
        'follows by induction on its depth, outside of the engine',
    C16='any number of bodies (loop rule); the number of degrees of freedom is enumerated (1, 2)',
    C18='any number of bodies (loop rule); the number of degrees of freedom is enumerated (1, 2)',
    C20='any number of joints (loop rule); the number of degrees of freedom is enumerated (1, 2)',
    C21='any number of constraints for rows, slices and forces (loop rule); what the sweeps do is '
        'verified for an enumerated number of constraints',
    C30='any number of joints (loop rule) of enumerated sizes',
    C31='a world of any size around one link or registration (loop rule); histories are enumerated',
    C33='lists of any length (loop rule) for searching, indexing, dictionaries and naming',
    C34='any number of observers (loop rule)',
    C37='one instant of a world of any size (loop rule)',
    C41='a world with any number of shapes and frames; a body with any number of children (loop rule)',
    C35='any number of bodies (loop rule); the number of degrees of freedom is enumerated (1, 2)',
    C36='any number of bodies (loop rule); the number of degrees of freedom is enumerated (1, 2)')
_LEN['C14'] = _LEN['C13']
for _k, _v in _LEN.items():
    META[_k]['assumptions'].append(_v)
