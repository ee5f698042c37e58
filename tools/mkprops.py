#!/usr/bin/env python3
"""Writes properties.jsonl (the single place the statements are edited)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files, 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                          'mechanism': [dict(zip(('name', 'where'), m)) for m in mech], 'observe_at': observe, 'hook_needed': None}})


p('C01', 'Forward kinematics composes every joint along the path to the root',
  'After updating transforms, the world transform of every joint of a chain equals the composition, from the root down to that joint, of each joint\'s origin followed by its motion; the vector returned by the update has one entry per joint in the chain\'s order and equals what each joint reports afterwards.',
  ['inputs', 'configurations'], 'Every tree or serial shape, every mix of fixed, rotational and linear joints, every axis, rigid origin and joint position (exact real arithmetic).',
  'Tests compare a few numeric poses of two robots; the composition has to hold for every shape, axis, origin and position.',
  ['src/chain.rs', 'src/node.rs', 'src/joint/joint.rs'],
  [('Chain::update_transforms', 'src/chain.rs'), ('Node::parent_world_transform', 'src/node.rs'), ('Joint::local_transform', 'src/joint/joint.rs')],
  ['Chain::update_transforms', 'Node::world_transform', 'SerialChain::end_transform'])
p('C02', 'A joint\'s transform is its origin followed by its motion',
  'The local transform of a joint is its origin composed with a rotation about its axis by its position (rotational), a translation along its axis by its position (linear), or nothing (fixed), and stays a rigid transform. Origins set through the joint, node, builder or chain are exactly the origins read back and used.',
  ['inputs'], 'Every unit axis, rigid origin and position, each joint kind.',
  'Tests use coordinate axes and a few angles only.',
  ['src/joint/joint.rs', 'src/node.rs', 'src/chain.rs'],
  [('Joint::local_transform', 'src/joint/joint.rs'), ('Joint::set_origin', 'src/joint/joint.rs'), ('NodeBuilder', 'src/node.rs')],
  ['Joint::local_transform', 'Node::origin', 'Chain::origin'])
p('C03', 'Checked and clamped position setters never leave a joint outside its limits',
  'A checked set accepts a position exactly when the joint is movable and the position lies within the joint\'s limits (no limits: any), stores it unchanged, and otherwise reports which joint and limits refused it and leaves the joint as it was; a clamped set stores the nearest value within the limits. The same holds joint by joint when a whole chain is set, and a range can only be built with ordered bounds.',
  ['inputs', 'configurations'], 'Every IEEE f64 and f32 value of limits, command and previous position, including NaN, infinities, signed zeros and subnormals.',
  'Tests try one value inside and one outside; NaN, infinities and boundary values and f32 are never tried.',
  ['src/joint/joint.rs', 'src/joint/range.rs', 'src/chain.rs', 'src/node.rs'],
  [('Joint::set_joint_position', 'src/joint/joint.rs'), ('Range::is_valid, Range::clamp', 'src/joint/range.rs'), ('Chain::set_joint_positions', 'src/chain.rs')],
  ['Joint::joint_position', 'Chain::joint_positions', 'Error::OutOfLimitError'])
p('C04', 'Position vectors map to the movable joints in chain order',
  'The position vector of a chain has exactly one entry per movable joint, in the chain\'s iteration order, and the i-th value set (checked, clamped or unchecked) is the i-th value read back and moves only the i-th movable joint. A checked vector of any other length is refused with the sizes and changes nothing.',
  ['inputs', 'configurations'], 'Every mix of fixed and movable joints, tree shape, vector length around dof, and value.',
  'Tests use one or two chains with vectors of the right length and values that differ little.',
  ['src/chain.rs'], [('Chain::set_joint_positions*', 'src/chain.rs'), ('Chain::joint_positions', 'src/chain.rs'), ('movable_nodes', 'src/chain.rs')],
  ['Chain::joint_positions', 'Chain::dof', 'Chain::iter_joints', 'Error::SizeMismatchError'])
p('C05', 'A mimic joint follows its leader',
  'Whenever a position is successfully set on a leader joint, through its node or the whole chain, checked or clamped, every joint that directly mimics it holds multiplier * position + offset (clamped sets: brought into the follower\'s own limits). A value commanded for a mimic joint itself is ignored, and a position the leader refuses leaves its followers as they were.',
  ['inputs', 'configurations', 'histories'], 'Every multiplier, offset and position, any number of followers on one leader up to the bound, followers before or after the leader in the chain, sequences of sets.',
  'Tests set one leader of one robot once.',
  ['src/node.rs', 'src/chain.rs', 'src/joint/mimic.rs'], [('Node::set_joint_position', 'src/node.rs'), ('Node::set_mimic_parent', 'src/node.rs'), ('Mimic::mimic_position', 'src/joint/mimic.rs')],
  ['Node::joint_position', 'Chain::joint_positions'])
p('C06', 'Updated transforms never depend on history or stale caches',
  'After any sequence of position, velocity and origin changes, reads, updates, Jacobian, center-of-mass and link queries on a robot, an update from its root yields the transforms of the current positions and origins alone, and repeating it changes nothing. A joint whose own position or origin changed never reports the pose computed before the change.',
  ['histories', 'inputs'], 'Every sequence of operations up to the bound, with every value symbolic.',
  'Tests run update once after set; stale caches need set/read/update interleavings.',
  ['src/chain.rs', 'src/node.rs', 'src/joint/joint.rs'], [('world_transform_cache', 'src/joint/joint.rs'), ('Chain::update_transforms', 'src/chain.rs'), ('Node::set_joint_position', 'src/node.rs')],
  ['Chain::update_transforms', 'Node::world_transform', 'SerialChain::end_transform'],
  [('world_transform_cache / world_velocity_cache', 'last computed world pose / velocity of a joint, cleared by setters', 'src/joint/joint.rs')])
p('C07', 'Joint trees keep a consistent parent/child structure',
  'Through any sequence of connecting, re-connecting and disconnecting joints, a joint is listed among the children of its parent exactly once and of no other joint; ancestors are the path to the root and descendants are the whole subtree, each once, parents before children. A chain built from a root, an end, an end and a root, or nodes holds exactly the corresponding joints in order, finds each by name, and its dof is the number of movable ones.',
  ['histories', 'configurations'], 'Every tree shape up to the bound, every sequence of connect / remove operations up to the bound, every pair of end and root.',
  'Tests build two fixed trees.',
  ['src/node.rs', 'src/chain.rs', 'src/iterator.rs'], [('Node::set_parent / remove_parent', 'src/node.rs'), ('Ancestors / Descendants', 'src/iterator.rs'), ('Chain::from_root / from_end / from_end_to_root / from_nodes', 'src/chain.rs')],
  ['Node::parent', 'Node::children', 'Node::iter_ancestors', 'Node::iter_descendants', 'Chain::iter', 'Chain::find', 'Chain::dof'])
p('C08', 'A serial chain is branch-free and its end transform is its last joint\'s pose',
  'Turning a chain into a serial chain succeeds exactly when none of its joints before the last has more than one child, and never panics. At any time, without a prior update, the end transform is the pose of the chain\'s last joint for the current positions, relative to the frame the chain\'s first joint hangs on (the world for a whole robot).',
  ['inputs', 'configurations'], 'Every tree shape and end/root pair up to the bound, every position and origin.',
  'Tests try one branching and one serial chain, at a few positions.',
  ['src/chain.rs'], [('SerialChain::try_new', 'src/chain.rs'), ('SerialChain::end_transform', 'src/chain.rs')],
  ['SerialChain::try_new', 'SerialChain::end_transform', 'SerialChain::from_end_to_root'])
p('C09', 'A cloned chain is an equal and independent robot',
  'A clone has the same joints in the same order with the same structure, limits, positions, origins, velocities, links and mimic relations as the original at the time of cloning. Afterwards, no operation on either one changes what the other reports.',
  ['inputs', 'configurations', 'histories'], 'Every tree shape up to the bound, joint kinds, positions, limits, mimic relations; any single operation after cloning.',
  'Tests clone one serial chain and compare one position.',
  ['src/chain.rs', 'src/node.rs'], [('Chain::clone', 'src/chain.rs')], ['Chain::clone', 'SerialChain::clone'])
p('C10', 'The Jacobian is the derivative of the end pose',
  'Column i of the Jacobian of a serial chain is the partial derivative of the end position and orientation with respect to the i-th movable joint at the current joint positions, all in one frame. Fixed joints contribute no column.',
  ['inputs', 'configurations'], 'Every axis, origin and position for every mix of joint kinds up to the bound.',
  'Tests only use the Jacobian inside one IK run, which converges even with a slightly wrong one.',
  ['src/funcs.rs'], [('jacobian', 'src/funcs.rs')], ['jacobian'])
p('C11', 'The center of mass is the mass-weighted mean of the links\' world positions',
  'The center of mass of a chain equals the sum over all joints carrying a link of mass times the world position of that link\'s inertial origin at the current joint positions, divided by the total mass.',
  ['inputs', 'configurations'], 'Every tree up to the bound, which joints carry links, masses, inertial origins, joint positions.',
  'Tests check one tree at one configuration with axis-aligned offsets.',
  ['src/funcs.rs', 'src/link.rs'], [('center_of_mass', 'src/funcs.rs')], ['center_of_mass'])
p('C12', 'Link parts are placed in the frame of the joint that carries them',
  'After updating link transforms, the world transform of every inertial, visual and collision element equals the current world transform of the joint the link hangs on composed with that element\'s own origin.',
  ['inputs', 'configurations'], 'Every tree up to the bound, every element origin, joint position and number of visual / collision elements up to the bound.',
  'No test updates links with a moved joint.',
  ['src/chain.rs', 'src/link.rs'], [('Chain::update_link_transforms', 'src/chain.rs')], ['Chain::iter_links', 'Visual::world_transform', 'Collision::world_transform', 'Inertial::world_transform'])
p('C13', 'World velocities are the time derivative of world transforms',
  'After updating velocities, the linear and angular velocity of every joint equals the time derivative of its world transform when every movable joint moves at its set velocity; the update terminates for every chain.',
  ['inputs', 'configurations'], 'Every tree and joint mix up to the bound, any axis, origin, position and velocity.',
  'No test calls the velocity update on a movable joint.',
  ['src/chain.rs', 'src/joint/velocity.rs'], [('Chain::update_velocities', 'src/chain.rs')], ['Chain::update_velocities', 'Node::world_velocity'])
p('C14', 'IK success means the target is reached within tolerance and limits',
  'When the inverse kinematics solver reports success, the end pose at the joint positions it leaves satisfies every constrained coordinate within the solver\'s distance and angle tolerances, and every joint with limits is within them. Success and failure are decided on the positions actually left in the arm.',
  ['inputs', 'configurations'], 'Every target, tolerance, multiplier, start position and limit on the arms and iteration counts of the bounds.',
  'Tests solve a few reachable targets; success with clamped joints or partial constraints is not sampled.',
  ['src/ik.rs'], [('JacobianIkSolver::solve_with_constraints', 'src/ik.rs'), ('calc_pose_diff', 'src/ik.rs')], ['InverseKinematicsSolver::solve', 'SerialChain::end_transform'])
p('C15', 'IK failure leaves the arm where it was',
  'When the inverse kinematics solver reports any error, every joint of the arm holds the position it held before the call, whatever those positions were and whenever in the iteration the failure arose. A failure to converge is reported as such with the number of tries.',
  ['inputs', 'configurations'], 'Every unreached target, start position (also outside the limits), singular configurations reached at any iteration within the bound.',
  'Tests check one non-converging target from one start pose.',
  ['src/ik.rs'], [('solve_with_constraints_internal', 'src/ik.rs')], ['InverseKinematicsSolver::solve_with_constraints', 'Chain::joint_positions'])
p('C16', 'IK moves only the joints it may move',
  'A joint named in the constraints as ignored holds exactly its position throughout a solve, and the computed motion is applied to the remaining joints one to one, whichever joints are ignored, in whatever order they are named, redundant or not. Coordinates that are not constrained do not influence the result.',
  ['inputs', 'configurations'], 'Every subset and order of ignored joints and every constraint mask within the bounds, any target and start.',
  'Tests ignore one joint set of one redundant arm.',
  ['src/ik.rs'], [('solve_one_loop_with_constraints', 'src/ik.rs')], ['Chain::joint_positions', 'Constraints::ignored_joint_names'])
p('C17', 'Each IK step is the damped Newton step',
  'One solver iteration moves the joints by the multiplier times the solution of Jacobian * step = pose error over the constrained coordinates: the exact solution for a square regular system, and for a redundant one of full rank the minimum-norm solution plus the null-space projection of the user\'s null-space vector. The reference-position helper yields, for each joint, its weight times its offset from its reference.',
  ['inputs', 'configurations'], 'Every target, start, multiplier, reference and weight on the arms of the bounds.',
  'Tests only observe convergence, which many wrong steps also achieve.',
  ['src/ik.rs'], [('solve_one_loop_with_constraints', 'src/ik.rs'), ('create_reference_positions_nullspace_function', 'src/ik.rs')], ['InverseKinematicsSolver::solve', 'create_reference_positions_nullspace_function'])
p('C18', 'URDF joints convert to equivalent joints',
  'A joint converted from URDF has the type, axis (normalised), limits, mimic relation and origin its description states, where roll-pitch-yaw means rotations about the fixed x, y and z axes in that order, and continuous or equal-bound joints have no limits.',
  ['inputs'], 'Every origin, non-zero axis and limit value, each URDF joint type.',
  'Tests load one file and check a handful of values.',
  ['src/urdf.rs'], [('From<urdf_rs::Joint> for Joint / Node', 'src/urdf.rs'), ('isometry_from, quaternion_from', 'src/urdf.rs')], ['Node::from', 'urdf::isometry_from'])
p('C19', 'URDF links convert without loss',
  'Every inertial (mass, inertia matrix, origin), visual and collision element (geometry and its dimensions, origin, material) of a URDF link appears in the converted link with the same values and in the same order.',
  ['inputs'], 'Every numeric field value, each geometry kind, up to the bound of elements.',
  'Tests only count links.',
  ['src/urdf.rs', 'src/link.rs'], [('From<urdf_rs::*> for link types', 'src/urdf.rs')], ['Link::from'])
p('C20', 'A robot description becomes the tree it describes',
  'A chain built from a URDF robot has one joint per URDF joint plus one root joint, each joint\'s parent is the joint whose child link is its parent link (the root joint for the root link), each joint carries its child link, and mimic relations link the named joints; the joint/link name maps agree with this. The order in which the description lists joints and links does not matter to the structure.',
  ['inputs', 'configurations'], 'Every rooted tree of links up to the bound, every listing order of joints and links, joint types and mimic choices.',
  'Tests load a single file in one order.',
  ['src/urdf.rs'], [('From<&urdf_rs::Robot> for Chain', 'src/urdf.rs'), ('link_to_joint_map / joint_to_link_map', 'src/urdf.rs')], ['Chain::from', 'urdf::joint_to_link_map', 'urdf::link_to_joint_map'])
p('C21', 'IK refuses impossible requests with a typed error instead of panicking',
  'For every arm and constraint set, a solve either works or returns an error: too few free joints give a precondition error with both counts, an unknown ignored joint name gives an invalid-name error, a singular system gives an inverse error, and zero tries give a not-converged error. No request makes it panic or hang, and a refused request moves nothing.',
  ['inputs', 'configurations'], 'Every constraint mask, list of ignored names (unknown, repeated, more than the joints), number of tries and dof within the bounds.',
  'Tests try one insufficient-dof arm and one unknown name.',
  ['src/ik.rs', 'src/errors.rs'], [('solve_with_constraints_internal', 'src/ik.rs')], ['InverseKinematicsSolver::solve_with_constraints', 'Error'])
p('C22', 'Constraints survive serialization with their documented defaults',
  'Serializing constraints and reading them back gives the same constraints, and any field left out of the input takes its default (constrained, nothing ignored).',
  ['inputs'], 'Every subset of fields, every flag value and name list.',
  'Tests check a couple of TOML texts.',
  ['src/ik.rs'], [('serde attributes on Constraints', 'src/ik.rs')], ['serde::Serialize for Constraints', 'serde::Deserialize for Constraints'])
p('C23', 'Concurrent use of a shared robot cannot deadlock',
  'Threads that share the joints of a chain and call its public operations (setting and reading positions, updating transforms and velocities, iterating, printing, cloning, solving IK, linking followers and re-hanging joints) in any interleaving never end up waiting for each other for ever, and no single thread ever waits for a joint it has locked itself. (Guards a caller keeps while calling another operation are the caller\'s own affair.)',
  ['schedules', 'configurations'], 'Every interleaving of up to four threads, each running one public operation with any parameters, on the trees and mimic relations of the bounds; any operation started at any lock of a change of the structure.',
  'Tests run one thread, and a lock-order deadlock needs a particular schedule.',
  ['src/node.rs', 'src/chain.rs', 'src/iterator.rs'], [('Arc<Mutex<NodeImpl>>', 'src/node.rs')], ['any public operation returning'],
  [('NodeImpl mutexes', 'one lock per joint, taken per operation', 'src/node.rs')])
p('C24', 'A chain lists, finds and prints each of its joints and links once, in order',
  'Iterating the links of a chain gives exactly the links its joints carry, in the order of the joints; looking up a name gives the first joint of the chain with exactly that name, or nothing. Printing a chain built from a root, an end, or an end and a root gives one line per joint of the chain, each indented by four spaces per level under its parent, with the name, the kind and coordinate axis of the joint and the link it carries. All of this holds for the empty chain, too, and never panics.',
  ['inputs', 'configurations'], 'Every tree shape, part of it, naming (also equal, empty and similar names), mix of kinds, axis and set of joints with links within the bounds.',
  'Tests print one robot without looking at the text, look up a few names in a robot with distinct names, and never iterate over links of parts.',
  ['src/chain.rs', 'src/node.rs', 'src/joint/joint.rs', 'src/joint/joint_type.rs'],
  [('Chain::fmt_with_indent_level', 'src/chain.rs'), ('Chain::iter_links, Chain::find', 'src/chain.rs'), ('Display for Node, Joint, JointType', 'src/node.rs, src/joint')],
  ['to_string', 'Chain::find', 'Chain::iter_links'])
p('C25', 'A joint or link described in code is exactly what was described',
  'A joint or link made with the builders has exactly the name, kind, axis, limits, origin, inertial, visuals and collisions that were given, whatever the order of the calls: each call sets what it names and nothing else, the last call wins, added parts keep their order, and what was not given is a fixed joint at the identity without limits, or an empty link without mass. A new joint stands alone at position and velocity zero. Parts, velocities, ranges and mimic relations give back what they were made of or set to, and a part that is given another origin gives up its former world transform.',
  ['inputs', 'configurations'], 'Every sequence of builder and setter calls within the bounds, every value.',
  'Tests call the builders in one order with one set of values.',
  ['src/node.rs', 'src/link.rs', 'src/joint/joint.rs', 'src/joint/velocity.rs', 'src/joint/mimic.rs', 'src/joint/range.rs'],
  [('NodeBuilder', 'src/node.rs'), ('LinkBuilder, Inertial, Visual, Collision', 'src/link.rs'), ('Joint::new', 'src/joint/joint.rs')],
  ['Node::joint', 'Node::link', 'Link fields'])
p('C26', 'An IK solver answers by its parameters alone, whatever it solved before',
  'The outcome of a solve and the joint positions it leaves depend only on the solver\'s current parameters and null-space function, the arm\'s joints and positions, the target and the constraints. Earlier solves with the same solver, successful or refused, on the same or another arm, earlier null-space functions, and updates of the arm make no difference; clearing the null-space function makes the solver behave as one that never had any.',
  ['histories', 'inputs'], 'Every past of up to two events of the bounds, any start, target, tolerance, multiplier and null-space vector.',
  'Tests make one solver and solve once or along one path; none compares a used solver with a new one.',
  ['src/ik.rs', 'src/chain.rs'],
  [('JacobianIkSolver::solve_with_constraints', 'src/ik.rs'), ('JacobianIkSolver::set_nullspace_function, clear_nullspace_function', 'src/ik.rs')],
  ['solve_with_constraints', 'Chain::joint_positions'])

with open(V + '/properties.jsonl', 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
