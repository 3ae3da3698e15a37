"""Generates properties.jsonl (kept as a script so the statements stay readable)."""
import json, os
P = []
B, C, K, E, F, W, L, S, U = ('lcp_physics/physics/bodies.py', 'lcp_physics/physics/contacts.py',
    'lcp_physics/physics/constraints.py', 'lcp_physics/physics/engines.py', 'lcp_physics/physics/forces.py',
    'lcp_physics/physics/world.py', 'lcp_physics/lcp/lcp.py', 'lcp_physics/lcp/solvers/pdipm.py', 'lcp_physics/physics/utils.py')
def p(id, title, statement, over, text, why, files, mech, obs):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=obs, hook_needed=None)))

p('C01', 'A step without contacts solves the constrained Newton-Euler equations',
  "When no contact is active, the velocities v' computed for a step of length dt satisfy M v' = M v + dt f(t) + J^T l for some joint impulse l and J v' = 0, where M, v, f and J are the mass matrix, velocities, applied forces and joint Jacobian of the world at the start of that step, and M v' = M v + dt f(t) when the world has no joints. This holds at every step of a simulation, however the bodies and joints moved, forces changed or contacts came and went in earlier steps, provided the joint constraints are independent.",
  ['inputs', 'histories', 'configurations'], 'all numbers of bodies and joints, all states, forces, masses and dt, all earlier steps',
  'The tests only run demo scenes and never check a velocity; the stale-inverse and joint-coupling cases need arbitrary histories.',
  [E, W], [('PdipmEngine.solve_dynamics, branch without contacts, cached inverse', E), ('World.static_inverse', W)],
  ["World.step, World.v", "the engine's solve_dynamics(world, dt)"])
p('C02', 'A step with contacts poses and solves the Coulomb contact problem',
  "When contacts are active, the step computes velocities v' for which there are impulses ln >= 0 per contact, lf >= 0 per friction direction and l per joint with M v' = M v + dt f(t) + Jc^T ln + Jf^T lf + J^T l and J v' = 0; Jc v' >= -e (Jc v) with equality wherever ln > 0; the friction impulses of a contact sum to at most mu ln, and friction opposes sliding: there is a speed g >= 0 per contact with Jf v' + g >= 0 in each of its directions, equality wherever lf > 0, and g = 0 wherever the bound is not reached. This holds up to the accuracy of the solver, for any number of bodies, contacts and joints (none included).",
  ['inputs', 'configurations'], 'all numbers of bodies, contacts, joints and friction directions, all states, all Jacobians and coefficients',
  'Tests never look at impulses; sign or block-placement errors in the complementarity problem change results only in some sliding/sticking/separating regimes.',
  [E, L, S], [('PdipmEngine.solve_dynamics, assembly of G, F, h', E), ('LCPFunction.forward', L)], ["the engine's solve_dynamics(world, dt)", 'World.v'])
p('C03', 'Contact Jacobians and coefficients describe every active contact',
  "For every contact set, row i of the contact Jacobian applied to the velocities is the approach velocity of contact i along its normal (velocity of body 1's contact point minus body 2's), each pair of friction rows is plus and minus the relative tangential velocity, and all entries of uninvolved bodies are zero. The impulses on the two bodies of a contact are equal and opposite, so a contact applied at a common point changes neither total linear nor total angular momentum; the friction coefficient and restitution used for contact i are the means of its two bodies' values, and each contact bounds exactly its own friction directions.",
  ['inputs', 'configurations'], 'all numbers of bodies and contacts, all body pairs, normals and contact points',
  'No test calls the Jacobians; index arithmetic errors appear only with several contacts or particular body pairs.',
  [W], [('World.Jc, Jf, restitutions, mu, E', W), ('cross_2d, left_orthogonal', U)], ['World.Jc(), Jf(), restitutions(), mu(), E()'])
p('C04', 'Joint Jacobians express the velocity constraint of every joint',
  "A revolute joint's rows applied to the velocities give the relative velocity of its anchor point on the two bodies (the absolute velocity with one body), a fixed joint's rows additionally give the difference of the angular velocities, and the single-body constraints give exactly the x, y or angular velocity, or all three, of their body. The world's joint Jacobian stacks the rows of all joints in order, each in the columns of its own bodies and zero elsewhere, with as many rows as the joints declare.",
  ['inputs', 'configurations'], 'all joint kinds, anchors, poses, and all lists of joints over any bodies',
  'No test reads a Jacobian; the chain demo only exercises one kind in one layout.',
  [K, W], [('J of each joint class', K), ('World.Je', W)], ['joint.J()', 'World.Je()'])
p('C05', 'Bodies move rigidly with their pose',
  "Moving a body by dt changes its pose to exactly p + v dt and setting a pose sets exactly that pose, with the angle first and the position after it; the velocity is not changed. After any sequence of moves and pose changes, every vertex of a polygonal body is its construction-time offset rotated counter-clockwise (in the x-y coordinate sense) by the accumulated angle, so side lengths, area and vertex order never change.",
  ['inputs', 'histories'], 'all shapes with any number of vertices, all poses and velocities, all sequences of pose updates',
  'Tests rotate nothing; drift or sign errors need sequences of rotations.',
  [B, U], [('Body.move, Body.set_p, Hull.set_p, rotate_verts', B), ('rotation_matrix', U)], ['body.p, rot, pos, verts after move()/set_p()'])
p('C06', 'Mass properties are those of the uniform shape',
  "A body's moment of inertia is that of the uniform lamina of its mass about its position: m r^2/2 for circles, m (w^2+h^2)/12 for rectangles, and the polygon formula for any convex polygon given in the accepted orientation. A polygon's position is its area centroid and its vertices keep their given world positions; polygons in the opposite orientation or with fewer than three vertices are rejected, and the mass matrix of a body is diag(inertia, mass, mass).",
  ['inputs'], 'all masses, radii, dimensions and vertex lists of any length, tensors or plain numbers',
  'Two tests compare one or two shapes with known values.',
  [B], [('_get_ang_inertia, _get_centroid, _is_clockwise, Body.__init__', B)], ['body.mass, ang_inertia, M, pos, verts after construction'])
p('C07', 'Circle-circle contacts are geometrically exact',
  "Two circles with distinct centres produce exactly one contact when the distance of their boundaries is at most the world's contact margin, and none otherwise. The normal is the unit vector from the second centre to the first, the penetration is the sum of radii minus the centre distance, and the two contact offsets designate the same world point, midway between the two boundaries on the line of centres.",
  ['inputs'], 'all positions, radii and margins, and either order of the bodies',
  'No test checks a contact; thresholds and signs need all relative positions.',
  [C], [('DiffContactHandler.__call__, circle branch', C)], ['contacts recorded in the world'])
p('C08', 'Circle-polygon contacts are geometrically exact',
  "For a circle and a convex polygon, in either order, at most one contact is recorded, exactly when the circle is within the contact margin of the polygon. When the centre is outside the polygon the polygon's contact point is the point of the polygon closest to the centre and the penetration is radius minus that distance; when it is inside, the contact uses the edge with the least penetration. The normal is a unit vector pointing from body 2 towards body 1, and the two offsets designate the same world point, on the polygon's boundary.",
  ['inputs', 'histories'], 'all convex polygons of any number of vertices containing their position, all circles, all rotations, all values of the cached search start and random seeds',
  'No test checks a contact; which region of the polygon is closest depends on continuous inputs and a random starting vertex.',
  [C], [('DiffContactHandler.__call__ (GJK and edge search), get_closest, get_support, get_barycentric_coords', C)], ['contacts recorded in the world'])
p('C09', 'Polygon-polygon contacts are geometrically exact',
  "Two convex polygons separated by more than the contact margin along an edge normal get no contact, and any two that interpenetrate get one or two contacts, the deepest of which has as penetration the least overlap over all edge normals of both polygons. Each contact's normal is the unit edge normal of least overlap, pointing from body 2 towards body 1; its two offsets designate the same world point, which lies on the line of that edge, and moving along the normal by the penetration leads to a point of the other polygon's supporting edge clipped to the sides of the first edge.",
  ['inputs', 'histories'], 'all pairs of convex polygons with any numbers of vertices containing their positions, all poses and cached search starts',
  'No test checks a contact manifold; demos use rectangles in a few poses.',
  [C], [('DiffContactHandler.__call__ (separating axes), test_separations, get_support, get_incident_edge, clip_segment_to_line', C)], ['contacts recorded in the world'])
p('C10', 'The factorised KKT solve solves the KKT system',
  "For every invertible problem with symmetric Q the solver's factorisation followed by its solve returns directions (dx, ds, dz, dy) that satisfy Q dx + G^T dz + A^T dy = -rx, d ds + dz = -rs, G dx + ds - F dz = -rz and A dx = -ry, with the A rows absent when there are no equalities. This stays true however often the factorisation has been refreshed with other diagonals, sizes and batches before.",
  ['inputs', 'histories'], 'all dimensions, all matrices with symmetric invertible Q and invertible reduced systems, F not necessarily symmetric, all sequences of refactorisations',
  'No test calls the solver; errors in the re-pivoting or in the cached masks show only after several refactorisations or changes of size.',
  [S, 'lcp_physics/lcp/util.py'], [('pre_factor_kkt, factor_kkt, solve_kkt', S), ('efficient_btriunpack', 'lcp_physics/lcp/util.py')], ['results of the solver calls', 'LCPFunction results'])
p('C11', 'The interior-point solver keeps strict feasibility and its best iterate',
  "Throughout a solve every slack and inequality multiplier stays strictly positive, and a step never leaves the positive orthant whatever the search direction, zero components included. The returned point is the visited iterate with the smallest residual of the KKT system of the given problem (stationarity, primal feasibility and complementarity), returned unchanged together with its own multipliers and slacks, and a solve never loops beyond the iteration limit.",
  ['inputs', 'histories'], 'all problems of any size, all iteration counts and stopping points',
  'Tests do not call the solver; corruption of the stored best iterate shows only when later iterates get worse.',
  [S], [('forward, get_step', S)], ['LCPFunction results, slacks and multipliers'])
p('C12', 'Gradients of the LCP solution are exact',
  "For every LCP with a strictly complementary, locally unique solution, the gradients the solver returns for all its inputs (quadratic, linear, inequality, equality and complementarity terms) equal the derivatives of the loss through the implicit function theorem at that solution, including problems without equalities and with a non-symmetric complementarity matrix (for the quadratic term, the derivative over symmetric perturbations). Computing gradients repeatedly or for several solves in any order gives the same values.",
  ['inputs', 'histories'], 'all sizes, problems and upstream gradients',
  'The tests never call backward.',
  [L, S], [('LCPFunction.backward', L), ('factor_kkt, solve_kkt', S)], ['gradients of a loss on the solver output'])
p('C13', 'A step is an exact transition to the accepted time, also after retries',
  "A step ends in the state in which every body has moved from its start-of-step pose with the new velocities for one accepted duration, and joints accordingly, and time has advanced by exactly that duration; attempts rejected because of penetration leave no trace in poses, vertices, anchors or joint angles. The accepted duration is the given dt halved as often as needed: in strict mode no contact of the accepted state exceeds the penetration tolerance, and otherwise halving stops only when the tolerance is met or the duration is below a quarter of the world's dt.",
  ['inputs', 'histories', 'configurations'], 'all worlds, all numbers of retries, both modes, all sequences of steps',
  'Tests cannot force particular numbers of retries nor inspect the discarded attempts.',
  [W, B, K], [('World.step_dt', W)], ['World.t, bodies and joints after World.step'])
p('C14', 'Post-stabilisation moves positions only, towards the constraints',
  "With post-stabilisation on, after each step the bodies are displaced by half of a correction d times the accepted duration, where J d = -J v and, per contact, Jc d >= -(1 - e) Jc v, with d of least mass-weighted norm (M d = J^T l + Jc^T ln, ln >= 0 complementary). The velocities and the elapsed time are those of a step without it, the contacts are detected again afterwards, and a world without contacts and joints is not displaced.",
  ['inputs', 'histories', 'configurations'], 'all worlds with and without joints and contacts, all histories of steps',
  'The tests run it in demo scenes but check no value.',
  [W, E], [('World.step_dt', W), ('PdipmEngine.post_stabilization', E)], ["the engine's post_stabilization(world)", 'state after World.step'])
p('C15', 'Applied forces are the sum of the attached forces at the step\'s time',
  "The generalised force on a body at time t is the sum of all forces attached to it evaluated at t, each its force function times its multiplier, and zero if none is attached; the world's force vector concatenates them in body order, evaluated at the time the step starts. Gravity is mass times g in the downward (+y) direction without torque at all times; the impulse forces act in their own component for t < 0.1 and vanish from t = 0.1 on.",
  ['inputs', 'configurations'], 'all times, multipliers, masses and any number of forces per body and bodies per world',
  'No test evaluates a force.',
  [F, B, W], [('ExternalForce, Gravity, impulses', F), ('Body.apply_forces, add_force', B), ('World.apply_forces', W)], ['World.apply_forces(t)'])
p('C16', 'Excluded pairs never collide, and only those',
  "After collisions between two bodies are disabled, in either order, no contact between them is ever recorded by either contact handler, whichever of the two is reported first, at any later step. All pairs that were not excluded are unaffected, however many exclusions each body has.",
  ['inputs', 'histories', 'configurations'], 'all sets of exclusions and orders of declaration and of detection',
  'The demos declare exclusions once in one order.',
  [B, C], [('Body.add_no_contact', B), ('the check of no_contact in both handlers', C)], ['World.contacts'])
p('C17', 'The broadphase never misses a pair within the contact margin',
  "The broadphase volume of every body contains the body's shape enlarged by its margin and follows its pose: after construction and after any moves and pose changes its centre is the body's position, and a rectangle's box also has the rectangle's orientation. Consequently every pair of non-excluded bodies closer than the margin is handed to the contact handler exactly once per detection.",
  ['inputs', 'histories'], 'all shapes, margins, poses and sequences of updates',
  'Tests do not look at the broadphase; a volume that is too small fails only for particular poses.',
  [B, W], [('_create_geom, Body.set_p', B), ('World.find_contacts', W)], ['body.geom', 'World.contacts'])
p('C18', 'Simulated states are differentiable in the physical parameters',
  "Gradients of poses and velocities after any number of steps with respect to tensors supplied for initial positions, velocities, masses, sizes, friction and restitution coefficients and force multipliers are the derivatives of the simulated trajectory wherever the sequence of branch decisions is locally constant. No such dependence is cut: the values that reach the states pass only through differentiable operations.",
  ['inputs', 'histories'], 'all parameters, scenes and contact kinds, with no branch boundary at the point',
  'No test calls backward.',
  [B, C, E, F, K, W, L], [('tensor-valued data path of every module', E)], ['autograd gradients of World states'])
p('C19', 'Joint anchors ride with their first body',
  "After any sequence of moves the anchor of a revolute or all-motion constraint is the position of its first body plus the construction-time offset rotated by the angle that body has turned since, and the second offset is the anchor minus the second body's position; axis, rotation and fixed joints follow their first body's position. Conversion between cartesian and polar form and back is the identity for every vector, the angle of the positive form lying in [0, 2 pi).",
  ['inputs', 'histories'], 'all anchors, poses, velocities, durations and sequences of moves',
  'The tests never read an anchor.',
  [K, U], [('Joint.move, update_pos and the other joints', K), ('cart_to_polar, polar_to_cart', U)], ['joint.pos, pos1, pos2 after World.step'])
p('C20', 'All state follows the type of the tensors the user supplied',
  "If the tensors given for a body have one dtype, then every tensor of its state, and of the worlds, forces, joints and steps built on such bodies, has that dtype; without any tensor the documented default (double) is used. A tensor that is passed in is used itself, not a copy detached from it.",
  ['inputs', 'configurations'], 'all choices of which arguments are tensors, all body, joint, force and contact kinds',
  'The tests use the default type only.',
  [B, U, F, K, C, W], [('_set_base_tensor, get_tensor', B), ('get_tensor', U), ('ExternalForce.set_body', F)], ['dtypes of body, world, contact and joint state'])
p('C21', 'World and bodies share one consistent state',
  "The world's mass matrix is block diagonal with the bodies' mass matrices in body order; setting the world's velocities or poses gives every body exactly its own slice, and collecting them again returns the same vector. The k-th body in the given list is the one that contacts, joints, forces, velocities and Jacobian columns refer to by that index, for any number of bodies.",
  ['inputs', 'configurations'], 'all numbers of bodies, all values, all joints between any of them',
  'Demos only show plausible motion.',
  [W], [('World.__init__, set_v, set_p, get_v, M', W)], ['World.M(), v, bodies'])
p('C22', 'Fixed steps and runs cover exactly the requested time',
  "A fixed-length step ends at its start time plus dt, through as many sub-steps as retries require, none of which goes past that time; an ordinary step is one sub-step of the world's dt. Running a world performs steps until its time reaches the run time and then stops, and a recorder writes at most one frame per call, a frame exactly when its interval has elapsed since its previous frame time, numbering frames consecutively from 0.",
  ['inputs', 'histories', 'configurations'], 'all dt, run times, retry patterns and sequences of recording times',
  'The tests run one configuration and check nothing.',
  [W, U], [('World.step, run_world', W), ('Recorder.record', U)], ['World.t', 'frames written'])
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w').write(''.join(json.dumps(x) + '\n' for x in P))
for x in P:
    n = x['statement'].count('. ') + 1
    assert len(x['title']) <= 80, x['title']
    if n > 3: print(x['id'], n)
