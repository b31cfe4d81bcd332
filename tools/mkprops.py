"""writes properties.jsonl"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, q, why, files, mech, observe=None, state=None):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': q}, 'why_tests_cant': why,
              'anchors': {'files': files,
                          'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in (state or [])],
                          'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'observe_at': observe or [], 'hook_needed': None}})


B, C, K, E, W, FO, U = ('lcp_physics/physics/%s.py' % n for n in
                        ('bodies', 'contacts', 'constraints', 'engines', 'world', 'forces', 'utils'))
L, S, LU = 'lcp_physics/lcp/lcp.py', 'lcp_physics/lcp/solvers/pdipm.py', 'lcp_physics/lcp/util.py'
T6 = ('The stable tests build four fixed bodies and check one inertia and one centroid; ')

prop('C01', 'Polygon bodies move rigidly under every history of motions',
     "A polygon's vertices, seen in the world, are at all times the image of its construction-time vertices under one rotation by the accumulated angle about its centre and a translation: side lengths, angles, orientation and the centroid are kept whatever sequence of moves and pose assignments was made. Rectangles keep opposite vertices exactly opposite, and a motion that does not turn the body leaves its shape untouched.",
     ['inputs', 'histories'], 'all vertices, poses, velocities, step sizes; every sequence of up to three pose assignments/moves',
     T6 + 'none moves a body through more than one concrete pose.',
     [B], [('Hull.set_p / rotate_verts', B), ('Rect.rotate_verts', B), ('rotation_matrix', U)], ['body.verts', 'body.pos'],
     [('verts', 'vertices in the centroid frame', B), ('p', 'pose (angle, x, y)', B)])
prop('C02', 'Polygon construction keeps world vertices and centres on the centroid',
     "Constructing a polygon from a reference point and vertices puts its position at the area centroid and leaves every vertex where the caller placed it in the world; a rectangle has its sides aligned with its pose angle and exactly the requested dimensions. Polygons with fewer than three vertices or listed in the wrong winding order are rejected, all others are accepted.",
     ['inputs'], 'all reference points and vertex lists of 3 to 5 vertices; all rectangle poses and dimensions',
     T6 + 'the quantifier is over all vertex lists, the tests use one triangle and one square.',
     [B], [('Hull.__init__', B), ('_get_centroid', B), ('_is_clockwise', B), ('Rect.__init__', B)], ['body.pos', 'body.verts'])
prop('C03', 'Inertia equals the second moment of the shape and fills the mass matrix',
     "Every body's rotational inertia is the mass times the second moment of area of its uniform shape about its centre (disk, rectangle, convex polygon), is positive, and does not change with where the shape is placed or how it is turned or ordered. The body's and the world's mass matrices are block diagonal with exactly (inertia, mass, mass) per body in body order.",
     ['inputs', 'configurations'], 'all radii, dimensions, masses, convex polygons of 3 to 5 vertices; worlds of up to three bodies',
     T6 + 'positivity, invariance and the mass matrix layout are not tested for any but fixed values.',
     [B, W], [('_get_ang_inertia', B), ('Body.__init__ M', B), ('World.__init__ _M', W)], ['body.M', 'world.M()'])
prop('C04', 'Pose integration and the coherence of pose, velocity and their views',
     "Moving a body for a time advances its pose by exactly velocity times time and nothing else; its angle and position always agree with its pose, including for bodies created from a 2-element position or velocity. Setting all poses or velocities of a world gives every body exactly its own slice, in body order, and reading them back returns what was set.",
     ['inputs', 'histories'], 'all poses, velocities, times; sequences of moves and assignments; worlds of up to three bodies',
     T6 + 'no test steps a body along arbitrary velocities or assigns world state.',
     [B, W], [('Body.move / set_p', B), ('World.set_v / set_p', W)], ['body.p', 'body.pos', 'body.rot', 'body.v', 'world.get_v()'])
prop('C05', 'Broad phase never hides a contact',
     "After construction and after any pose change, the broad-phase volume of every body follows the body's pose and contains the body inflated by half the contact distance at least, so two bodies closer than the contact distance always reach narrow-phase detection. Every body of a world is registered with it under its own index.",
     ['inputs', 'histories'], 'all shapes, poses, histories of up to two pose changes',
     T6 + 'whether a volume encloses every pose cannot be settled by sampling poses.',
     [B, W], [('_create_geom', B), ('set_p geom update', B), ('HashSpace', W)], ['geom position, rotation, size'])
prop('C06', 'External forces sum, follow their time profile and match gravity to mass',
     "The force on a body is the sum of its attached forces at the current time, zero without any, and never depends on other bodies, on earlier calls or on the order of attachment. Gravity is mass times g straight down at every time; the impulse forces equal multiplier times their unit direction strictly before time 0.1 and exactly zero from then on.",
     ['inputs', 'histories'], 'all masses, multipliers, times; sequences of calls at up to three symbolic times',
     T6 + 'no test evaluates a force.', [FO, B, W],
     [('ExternalForce', FO), ('Gravity', FO), ('Body.apply_forces', B), ('World.apply_forces', W)], ['world.apply_forces(t)'])
prop('C07', 'No-contact exclusions are symmetric and silence exactly the excluded pair',
     "After excluding two bodies from contact, no contact between them is ever reported, whichever of the two is asked about first and whatever their shapes and overlap; contacts of all other pairs are reported exactly as without the exclusion. The exclusion survives any motion of the bodies.",
     ['inputs', 'configurations', 'histories'], 'all overlaps of pairs of circles and polygons, both orders, with a third body, after moves',
     T6 + 'no test uses an exclusion.', [B, C], [('add_no_contact', B), ('no_contact filter', C)], ['world.contacts'])
prop('C08', 'Circle-circle contacts are exact',
     "Two circles yield exactly one contact when the gap between them is at most the contact distance and none otherwise. Its normal is the unit vector from the second centre to the first, its penetration is the sum of the radii minus the centre distance, and its two points coincide in the world, midway between the surfaces.",
     ['inputs'], 'all centres (distinct), radii and contact distances', T6 + 'no test detects a contact.',
     [C], [('DiffContactHandler circle/circle', C)], ['world.contacts'])
prop('C09', 'Circle-polygon contacts are exact for every position and start vertex',
     "A circle and a convex polygon yield exactly one contact when their gap is at most the contact distance, and none otherwise, independent of the random start vertex and of the order of the two. The penetration is the radius minus the signed distance from the centre to the polygon's boundary, the normal is the outward unit direction from the nearest boundary point (towards the circle), and both contact points are that boundary point.",
     ['inputs', 'schedules', 'configurations'], 'all circle positions and radii, all random choices, families of triangles and rectangles, both orders',
     T6 + 'the search for the closest feature has a branch structure no test reaches.',
     [C], [('GJK get_closest', C), ('deep SAT', C), ('flip for second circle', C)], ['world.contacts'])
prop('C10', 'Polygon-polygon detection and depth agree with the separating axis theorem',
     "Two convex polygons produce contacts only if no face normal of either separates them by more than the contact distance, and overlapping polygons always produce at least one. The deepest reported penetration is the overlap along the face normal of least overlap.",
     ['inputs'], 'all relative positions (and sizes) of rectangles/triangles at fixed families of orientations',
     T6 + 'no test detects a polygon contact.', [C], [('test_separations', C), ('get_support', C)], ['world.contacts'])
prop('C11', 'Polygon-polygon contact manifolds are geometrically consistent',
     "Each of the at most two contacts of two polygons has a unit normal pointing from the second body to the first, perpendicular to the reference edge, one that separates them most; its two points coincide in the world on the reference edge, and its penetration is the depth of the clipped incident vertex below that edge. Contact points lie within both the reference edge's extent and the incident edge, and both ends of that common stretch are reported unless they are beyond the contact distance.",
     ['inputs'], 'all relative positions (and sizes) of rectangles/triangles at fixed families of orientations',
     T6 + 'clipping has input-dependent branches no test reaches.', [C],
     [('get_incident_edge', C), ('clip_segment_to_line', C), ('manifold assembly', C)], ['world.contacts'])
prop('C12', 'Contacts do not depend on detection history or argument order',
     "What is reported for a pair of bodies depends only on their current poses: any remembered separating edge from earlier detections changes neither existence, depth nor normal. Swapping the two bodies mirrors the contact: opposite normal and same penetration, the points exchanged (for parallel faces of two polygons, up to the penetration along the normal). Where several directions separate exactly equally any of them may be reported.",
     ['inputs', 'histories'], 'all values of the remembered edges, all positions of circle/circle, circle/polygon and polygon/polygon pairs',
     T6 + 'histories are unbounded; no test runs two detections.', [C, B],
     [('last_sat_idx', C), ('circle flip', C)], ['world.contacts'], [('last_sat_idx', 'edge to start the axis search from', B)])
prop('C13', 'Contact and friction rows measure relative velocity at the contact',
     "For every contact, its row of the contact Jacobian applied to the velocities is the rate at which the two bodies separate along the normal at the contact point, and its friction rows are the two opposite tangential relative velocities. Friction coefficient and restitution of a contact are the averages of the two bodies', and the coupling matrices relate each contact to exactly its own friction directions.",
     ['inputs', 'configurations'], 'all contact geometries, velocities, up to three bodies and four contacts in any body pairing',
     T6 + 'no test assembles a contact.', [W], [('Jc, Jf, mu, E, restitutions', W)], ['world.Jc()', 'world.Jf()', 'world.mu()', 'world.E()', 'world.restitutions()'])
prop('C14', 'Joint Jacobians are the rate of change of the joint error',
     "For every joint and constraint, its Jacobian times the velocities is exactly the rate of change of what it keeps fixed: the separation of the anchor points (revolute, fixed), the relative angle (fixed), a coordinate or the angle of one body (X, Y, rotation, total). The world's joint Jacobian stacks them in order with each body's columns in that body's place.",
     ['inputs', 'configurations'], 'all poses, anchors and velocities; each joint type; worlds of up to three bodies with several joints',
     T6 + 'no test uses a joint.', [K, W], [('J()', K), ('Je()', W)], ['joint.J()', 'world.Je()'])
prop('C15', 'Joint anchors stay attached and survive retried steps',
     "A revolute joint's anchor is fixed in the frame of its first body under any motion, and its offset to the second body is always measured from the current poses. When a step is retried with a smaller time step, anchors end up exactly as if the smaller step had been taken first; retried steps leave no trace.",
     ['inputs', 'histories'], 'all anchors, poses, velocities, step sequences of length up to three, up to three halvings',
     T6 + 'no test moves a joint.', [K, W], [('Joint.move / update_pos', K), ('step_dt reset', W)], ['joint.pos, pos1, pos2, J()'],
     [('rot1', 'polar angle of the anchor on body 1', K)])
prop('C16', 'Contact-free steps are Newton-Euler steps that satisfy every joint',
     "Without contacts or joints a step changes each velocity by exactly force times time over mass (inertia). With joints the new velocities satisfy every joint's velocity equation, and what differs from the free motion is an impulse in the span of the joint directions (it does no work on admissible motions); this stays true step after step as poses change.",
     ['inputs', 'histories'], 'all masses, velocities, forces, poses; joint types alone and combined; two consecutive steps',
     T6 + 'no test steps a world.', [E, W], [('solve_dynamics', E), ('cached_inverse / static_inverse', E)], ['world.get_v()'],
     [('cached_inverse', 'inverse of the constrained system, reused for static constraints', E)])
prop('C17', 'Steps with contact obey non-penetration, restitution and Coulomb friction',
     "Whatever exact solution the complementarity solver returns, the velocities after a step satisfy at every contact: the bodies separate at least as fast as restitution demands, the normal impulse is nonnegative and acts only if they separate exactly that fast, and the friction impulse lies in the friction cone and opposes sliding, at its limit when sliding. Joint equations hold simultaneously.",
     ['inputs', 'configurations'], 'all velocities, masses, geometries of one or two contacts, with and without a joint, all exact solutions of the posed problem',
     T6 + 'no test poses a contact problem.', [E, W], [('solve_dynamics mixed LCP', E), ('Jc, Jf, mu, E', W)], ['arguments and result of the LCP solver', 'world.get_v()'])
prop('C18', 'Contact and joint impulses conserve momentum and never add energy',
     "Without external forces the impulses of contacts and two-body joints conserve total linear and angular momentum. They never increase kinetic energy: not the joints alone, nor frictionless contacts with one common restitution up to one, inelastic contacts with any friction, or impacts of round bodies with any friction and restitution up to one.",
     ['inputs', 'configurations'], 'all velocities, masses, positions of two or three bodies, all exact solutions of the posed problem',
     T6 + 'no test steps a world.', [E, W], [('solve_dynamics', E), ('Jc', W)], ['world.get_v()'])
prop('C19', 'Steps advance time exactly as far as they move and never end in penetration',
     "A step moves every body by its new velocity times the time by which the clock advanced, this is the requested step or a power-of-two fraction of it, and a strict world never ends a step with a penetration above tolerance. A fixed-length step ends at exactly the requested time whatever internal subdivision occurred; the non-strict world accepts a penetrating pose only after shrinking the step below a quarter.",
     ['inputs', 'histories', 'schedules'], 'all velocities and step sizes; every accept/reject pattern of up to four consecutive retries',
     T6 + 'no test steps a world.', [W], [('step / step_dt backtracking', W)], ['world.t', 'body.p', 'world.contacts'])
prop('C20', 'Strict worlds reject exactly the interpenetrating starts',
     "Creating a strict world fails if and only if some pair of bodies initially penetrates by more than the tolerance; a non-strict world accepts any start. A failed or accepted construction leaves the bodies' poses and velocities as given.",
     ['inputs', 'configurations'], 'all initial positions of two or three circles/rectangles, all tolerances',
     T6 + 'no test builds a world.', [W], [('World.__init__ assertion', W)], ['World(...)'])
prop('C21', 'The factored KKT solve solves the KKT system exactly',
     "For every positive definite cost, scaling, constraint matrices and right-hand sides for which the system is regular, the pre-factored and re-factored solve returns the exact solution of the full linear KKT system, also when the same factorization is reused with new scalings, for batches, and with or without equality constraints.",
     ['inputs', 'histories'], 'all real matrices of small fixed sizes (up to 3 variables, 2 inequalities, 1 equality), two consecutive scalings, every pivot order',
     'No stable test runs the solver.', [S, LU], [('pre_factor_kkt', S), ('factor_kkt', S), ('solve_kkt', S), ('efficient_btriunpack', LU)], ['dx, ds, dz, dy'])
prop('C22', 'The interior point iteration stays interior and returns its best iterate',
     "Every iterate keeps slacks and multipliers strictly positive, each step length is between zero and one, also when direction components are zero, and moves every variable alike. Each step is the Newton step to a common nonnegative complementarity target. What is returned is, per batch element, the iterate with the smallest residual, and an early return below tolerance satisfies the optimality conditions to the tolerance. An element of a batch takes the steps it takes on its own.",
     ['inputs', 'schedules'], 'all problem data of small sizes; arbitrary step directions from the linear solve; up to five iterations; failed factorizations',
     'No stable test runs the solver.', [S], [('forward', S), ('get_step', S)], ['x, y, z, s'])
prop('C23', 'The solver gradient is the derivative of the exact solution',
     "The backward pass returns the exact gradient of the loss with respect to every input of the complementarity problem, namely what implicit differentiation of its optimality conditions gives at any strictly complementary solution, for symmetric and non-symmetric coupling, with or without equalities.",
     ['inputs'], 'all solutions and loss gradients of problems of small sizes', 'No stable test differentiates the solver.',
     [L, S, LU], [('LCPFunction.backward', L), ('bger', LU)], ['gradients of Q, p, G, h, A, b, F'])
prop('C24', 'Simulated motion is differentiable with the right derivatives',
     "The derivatives obtained by backpropagating through body construction, forces, contact-free steps, joint handling (anchors, failed attempts, post-stabilization) and the posing of the contact problem with respect to masses, sizes, forces, velocities, poses and anchor positions are the true derivatives of the computed motion; no dependence is silently cut.",
     ['inputs'], 'all parameter values; circle, rectangle and triangle bodies; one and two steps; joints',
     'No stable test differentiates anything.', [B, E, W, K, FO], [('tensor operations throughout', B)], ['autograd gradients'])
prop('C25', 'Contact geometry is differentiable with the right derivatives',
     "Within a fixed contact configuration, backpropagating through a contact's normal, points and penetration gives the true derivatives with respect to the poses and sizes of both bodies.",
     ['inputs'], 'all positions and sizes of circle/circle, circle/polygon and rectangle/rectangle contacts away from switching',
     'No stable test differentiates anything.', [C], [('DiffContactHandler', C)], ['autograd gradients'])
prop('C26', 'Post-stabilization corrects poses without touching velocities or time',
     "With post-stabilization on, a step ends with the velocities and clock value it would have had without it; only poses change, by half the correction that removes the joint velocity error at minimal kinetic norm, and not at all when joints are satisfied.",
     ['inputs', 'configurations'], 'all velocities, masses, poses; no joint, one static, one revolute joint',
     'No stable test steps a world.', [E, W], [('post_stabilization', E), ('step_dt', W)], ['world.get_v()', 'world.t', 'body.p'])
prop('C27', 'Planar vector helpers are exact',
     "Conversion to polar form and back is the identity with radius the length and angle in [0, 2 pi) (or (-pi, pi] on request); the rotation helper turns counter-clockwise by exactly its angle; cross product, left orthogonal and tensor wrapping have their defining algebraic properties for all inputs.",
     ['inputs'], 'all real 2-vectors, angles and radii', 'No stable test calls them except through fixed bodies.',
     [U], [('cart_to_polar, polar_to_cart', U), ('rotation_matrix', U), ('cross_2d, left_orthogonal', U), ('get_tensor', U)], ['return values'])
prop('C28', 'The physics is the same in every inertial placement of the scene',
     "Translating a whole scene, or giving all bodies an additional common velocity, changes the reported contacts and the new velocities in no other way than by that translation or velocity; renumbering the bodies only renumbers the results.",
     ['inputs', 'configurations'], 'all translations/boosts of scenes of two or three bodies, joints and forces included',
     'Needs two related runs for every input; no test runs a world.', [W, E, C, K], [('relative coordinates throughout', C)], ['world.contacts', 'world.get_v()'])
prop('C29', 'Recording and running emit the right frames and stop on time',
     "Running a world steps it until its clock first reaches the requested time and not further. A recorder saves frames numbered consecutively from zero, at most one per call and exactly when at least its interval has passed since the previous due time, so that the frame count never exceeds elapsed time divided by the interval.",
     ['inputs', 'histories'], 'all intervals, step sizes and time sequences of up to four records/steps', 'No stable test runs or records.',
     [U, W], [('Recorder.record', U), ('run_world', W)], ['saved files', 'world.t'])
prop('C30', 'The breakout environment maps state and actions faithfully',
     "Encoding paddle, blocks and ball into a state vector and decoding it returns the same parameters, and the world built from them contains exactly those bodies at those places and sizes, the ball with its given velocity, and everything but ball and paddle immobile. A control step drives the paddle, and nothing else, at speed times control; the discrete action follows the sign of a control beyond the threshold and is neutral otherwise.",
     ['inputs', 'histories'], 'all positions, sizes, velocities and controls; zero to two blocks', 'No test covers the experiments.',
     ['experiments/breakout/encoder.py', 'experiments/breakout/run_breakout.py'], [('state encoding', 'experiments/breakout/encoder.py')], ['state vectors'])


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')


if __name__ == '__main__':
    main()
