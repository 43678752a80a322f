"""Writes /verif/properties.jsonl (kept as a script so that the list is easy to edit)."""
import json, os
P = []
S = "src/pytorch_kinematics/"
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[S + f for f in files],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=S + b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

p("C01", "Forward kinematics is the product of transforms along each frame's path",
  "For every robot tree and every joint configuration, the pose reported for each frame equals the product, from the root to that frame, of each frame's fixed link offset, fixed joint offset and joint motion: a rotation by the joint value about the joint's normalised axis if revolute, a translation by the joint value along that axis if prismatic, nothing if fixed. "
  "This holds for every tree shape, declaration order, naming, mix of joint types, axis, offset and joint value (zero, negative, multi-turn, large), and the frames asked for, in any order or subset, are answered under their own names.",
  ["inputs", "configurations", "programs"],
  "all rooted trees x joint types x axes x offsets x joint values x frame subsets",
  "The tests compare a handful of fixed robots at one or two configurations; they cannot cover tree shapes, mixed joint types, orderings or values.",
  ["chain.py", "frame.py", "transforms/rotation_conversions.py"],
  [("level-by-level accumulation of static offset and joint motion", "chain.py:_fk_impl"),
   ("index tables built while walking the tree", "chain.py:Chain.__init__"),
   ("axis-angle and prismatic matrices", "transforms/rotation_conversions.py")],
  ["Chain.forward_kinematics", "Chain.forward_kinematics_tensor"])

p("C02", "Every row of a batch is computed independently of the other rows",
  "In forward kinematics, Jacobians and their gradients, row i of the result depends only on row i of the joint values (and of the tool location, if one is given per row) and equals the result of computing that row alone, up to rounding. "
  "The result has exactly as many rows as the input, in the same order, for every batch size including 0 and 1, sizes equal to the number of joints or frames, large sizes, and for any memory layout (strided, transposed, expanded) of the input.",
  ["inputs"], "all batch sizes, row contents, row permutations and memory layouts",
  "Tests use one or two batch sizes on contiguous tensors and mostly check shapes.",
  ["chain.py", "jacobian.py", "transforms/rotation_conversions.py"],
  [("batched matmul over frames of one depth", "chain.py:_fk_impl"), ("batched Jacobian", "chain.py:SerialChain.jacobian")],
  ["Chain.forward_kinematics", "SerialChain.jacobian", "tensor.grad"])

p("C03", "Joint values bind to the right joints in every accepted input form",
  "A configuration given as a list, array, tensor or name-to-value mapping (of numbers, arrays or tensors) yields the same poses and Jacobians; positional values bind in the order of the reported joint names and mapped values bind by joint name, whatever the order of the mapping. "
  "A configuration with too few or too many values, or a mapping with missing or unknown joints, raises an error and is never answered with misassigned or broadcast values.",
  ["inputs"], "all input forms, all permutations of mappings, all wrong lengths, all omitted/unknown names, on chains and serial chains",
  "Tests pass one list and one complete mapping; permutations, scalars and malformed inputs are not tried.",
  ["chain.py"],
  [("conversion of inputs", "chain.py:Chain.ensure_tensor"), ("serial inputs", "chain.py:SerialChain.convert_serial_inputs_to_chain_inputs"), ("jacobian inputs", "chain.py:SerialChain.jacobian")],
  ["Chain.forward_kinematics", "SerialChain.forward_kinematics", "SerialChain.jacobian", "Chain.clamp"])

p("C04", "The Jacobian is the true geometric derivative of the end-effector pose",
  "For every serial chain, configuration and tool location (none, one point, one point per row, or a tool transform), the Jacobian's columns, in joint order, are the linear and angular velocity in the base frame of the tool point per unit rate of each joint. "
  "The end-effector pose returned alongside is the forward-kinematics pose of the tool, and asking for it or for a tool location does not change the remaining results.",
  ["inputs", "configurations"], "all serial chains (mixed revolute/prismatic/fixed), configurations, tools",
  "Existing tests compare two robots with stored numbers or with autograd for the translational part; prismatic/revolute mixes with tools are hardly touched.",
  ["chain.py", "jacobian.py"],
  [("z x dp columns", "chain.py:SerialChain.jacobian_tensor"), ("tool correction", "chain.py:SerialChain.jacobian")],
  ["SerialChain.jacobian", "SerialChain.jacobian_tensor", "calc_jacobian"])

p("C05", "Gradients of forward kinematics and Jacobian are the true derivatives",
  "The gradient with respect to the joint values of any scalar function of the poses of any frames, obtained by the default backward or by standard automatic differentiation, equals the true derivative at every configuration, for trees and serial chains with any mix of joint types. "
  "Gradients accumulate only from frames a joint actually moves, the Jacobian is differentiable too, and second-order gradients with automatic differentiation are right.",
  ["inputs", "configurations"], "all trees, configurations, upstream gradients (a basis suffices, by linearity)",
  "Tests compare the two gradient modes with each other on a few robots for one scalar loss; upstream gradients on rotations and branches are not spanned.",
  ["chain.py"],
  [("analytical backward", "chain.py:_FKAnalyticalBackward"), ("ancestor masks", "chain.py:Chain.__init__")],
  ["tensor.grad after forward_kinematics/forward_kinematics_tensor/jacobian"])

p("C06", "A serial chain extracted from a robot agrees with the whole robot",
  "For every frame and every ancestor of it taken as root, the extracted serial chain's joints are exactly the movable joints strictly below the root on that path, in path order with their limits, and its pose equals the relative transform from the root frame to the end frame in the whole robot at matching joint values. "
  "Extraction inherits the source's number type, rejects unknown frames, and leaves the source robot and earlier extractions unchanged; extracting from an extracted chain gives the same result.",
  ["inputs", "configurations", "histories"], "all trees, all (root, end) pairs, all configurations",
  "Tests extract a couple of chains from two robots; non-trivial root/end pairs with offsets at the root are rare.",
  ["chain.py"], [("path copying and root reset", "chain.py:SerialChain.__init__")],
  ["SerialChain", "build_serial_chain_from_urdf", "build_serial_chain_from_sdf", "build_serial_chain_from_mjcf"])

p("C07", "Structure queries describe the robot that was loaded, consistently",
  "Joint names, joints, frames, links, joint parents, frame indices and lookups by name describe exactly the robot that was loaded, in one consistent depth-first order and with fixed joints left out exactly when asked; frame indices select the frame with that name in the tensor results. "
  "Looking up a name finds the element with exactly that name or nothing, the printed tree shows exactly the parent-child structure, and the links reported as moved by a joint are exactly those below it.",
  ["inputs", "configurations"], "all trees with fixed/movable joints and tricky names (prefixes, non-sorted)",
  "Tests only print or compare one robot's joint names.",
  ["chain.py", "frame.py"],
  [("recursive queries", "chain.py:Chain.get_joints"), ("tree text", "frame.py:Frame.__str__")],
  ["Chain.get_*", "Chain.find_*", "Chain.print_tree"])

p("C08", "Changing number type any number of times preserves the robot",
  "After any sequence of number-type conversions of a chain or serial chain, every query works in the last requested type and returns results of that type, equal to those of the originally loaded robot within the precision of the types passed through; limits, names and structure are unchanged. "
  "The same holds for chains built or extracted before or after conversion, and for copies made by deep copy or serialisation.",
  ["histories"], "all sequences of conversions, extractions, copies and queries up to a depth",
  "Tests convert once to one type before use.",
  ["chain.py", "frame.py", "transforms/transform3d.py"],
  [("conversion", "chain.py:Chain.to"), ("conversion", "chain.py:SerialChain.to"), ("conversion", "frame.py:Frame.to")],
  ["Chain.to", "SerialChain.to", "copy.deepcopy", "pickle"])

p("C09", "Queries have no side effects and do not depend on what was asked before",
  "Any sequence of queries, solves, extractions and robot loads, on one or several robots, gives each query the answer it gives on a freshly loaded robot, and repeating a query gives the same answer. "
  "No query modifies its arguments, results returned earlier, other robots or, through values it returned that the caller then overwrites, later answers.",
  ["histories"], "all operation sequences up to a depth over several robots, keeping every earlier result",
  "Tests use each chain once or twice, with fresh inputs, and never look back at earlier results.",
  ["chain.py", "frame.py", "ik.py", "urdf.py", "sdf.py", "mjcf.py", "urdf_parser_py/xml_reflection/core.py"],
  [("caches", "chain.py:Chain.get_frame_indices"), ("shared parser registries", "urdf_parser_py/xml_reflection/core.py"), ("copying frames", "chain.py:SerialChain.__init__")],
  ["all public queries"])

p("C10", "Loading a URDF reproduces the robot it describes",
  "The chain loaded from a URDF has the described links and joints: the root is the link that is no joint's child whatever the order of elements; joint origins are translation then fixed-axis roll-pitch-yaw; axes are normalised and default to x, as the URDF format says; joint types map to revolute (also continuous), prismatic or fixed; and the first visual's shape and placement are kept. "
  "Position limits are those given for limited joints and none for continuous joints or joints without a limit element, velocity and effort limits are symmetric about zero, and descriptions with a single link load.",
  ["inputs", "configurations"], "all URDFs over an alphabet of trees, element orders, origins, axes, types and limits",
  "Tests load half a dozen fixed files.",
  ["urdf.py", "urdf_parser_py/urdf.py", "urdf_parser_py/xml_reflection/core.py"],
  [("recursive construction", "urdf.py:_build_chain_recurse"), ("root search", "urdf.py:build_chain_from_urdf")],
  ["build_chain_from_urdf", "build_serial_chain_from_urdf"])

p("C11", "Loading an SDF reproduces the robot it describes",
  "The chain loaded from an SDF model places each link, at zero joint values, at the pose given for it (translation, then roll-pitch-yaw about fixed axes), whatever the order of elements, and moves it by its joint about the given axis, expressed in the child link's frame, through that link's origin. "
  "Joint types, names and limits (each bound optional) are those described, and models with a single link, links without an inertial and joints without an axis load.",
  ["inputs", "configurations"], "all SDF models over an alphabet of trees, poses, axes, orders, limits",
  "Tests load one arm without any rotated link.",
  ["sdf.py", "urdf_parser_py/sdf.py"],
  [("relative poses", "sdf.py:_build_chain_recurse"), ("pose conversion", "sdf.py:_convert_transform")],
  ["build_chain_from_sdf", "build_serial_chain_from_sdf"])

p("C12", "Loading an MJCF agrees with MuJoCo's own kinematics",
  "For every MJCF model with at most one hinge or slide joint per body, the chain's pose of every body and site at every configuration equals MuJoCo's, joints appear with MuJoCo's names, axes and ranges (none when not limited), and starting from a chosen body gives the subtree below it. "
  "Each link carries the geoms MuJoCo gives that body, in order, with their types, sizes and places; bodies with several joints or unsupported joint types are rejected.",
  ["inputs", "configurations"], "all MJCF models over an alphabet of body trees, poses, joint types, axes, sites; all configurations",
  "Tests compare three fixed models at one configuration, two of them only by stored numbers.",
  ["mjcf.py"], [("recursive construction", "mjcf.py:_build_chain_recurse")],
  ["build_chain_from_mjcf", "build_serial_chain_from_mjcf"])

p("C13", "Joint limits are reported and applied to the joints they belong to",
  "Position, velocity and effort limits are reported in joint order, one lower and one upper bound per movable joint, infinite for joints without limits, on chains, serial chains and after conversions. "
  "Clamping a configuration in any accepted form returns, for each joint of each row, the nearest value within that joint's limits, leaves values already within unchanged, and does not modify its input.",
  ["inputs", "configurations"], "all assignments of limits to joints of all small trees; values below, at, inside and above each bound",
  "Two tests read limits of fixed files; clamping is not tested at all.",
  ["chain.py", "frame.py"], [("limit tables", "chain.py:Chain._get_joint_limits"), ("clamping", "chain.py:Chain.clamp")],
  ["Chain.get_joint_limits", "Chain.get_joint_velocity_limits", "Chain.get_joint_effort_limits", "Chain.clamp", "Joint.clamp"])

p("C14", "Rotation representations convert into each other without changing the rotation",
  "Converting between rotation matrices, quaternions (real part first or last), axis-angle vectors, six-number rotation and nine-number pose representations, and position-quaternion pairs gives the same rotation and translation and, converted back, the original one up to sign of the quaternion and full turns. "
  "This holds for every rotation, including identity, tiny and half turns about any axis, for every batch shape, and the two axis-plus-angle matrix constructors agree with Rodrigues' formula for any angle.",
  ["inputs"], "all pairs of representations; all 24 axis-aligned rotations, half turns, tiny angles, generic rotations; all batch shapes",
  "Tests use random rotations, which never hit half turns, identity or the branch boundaries.",
  ["transforms/rotation_conversions.py"],
  [("branch selection", "transforms/rotation_conversions.py:matrix_to_quaternion"), ("small angle branches", "transforms/rotation_conversions.py:quaternion_to_axis_angle")],
  ["tf.matrix_to_quaternion", "tf.quaternion_to_matrix", "tf.axis_angle_to_quaternion", "tf.quaternion_to_axis_angle", "tf.matrix_to_rotation_6d", "tf.matrix44_to_se3_9d", "tf.pos_rot_to_matrix"])

p("C15", "Euler angles follow the convention named, for every convention",
  "For each of the twelve axis orders, converting Euler angles to a matrix gives the product of the three axis rotations in the named order, and converting a matrix to Euler angles gives angles that reproduce the matrix. "
  "For each of the twenty-four static and rotating axis sequences, the quaternion built from Euler angles represents the rotation that sequence names, and invalid conventions are rejected.",
  ["inputs"], "12 + 24 conventions x a grid of angle triples in every quadrant x batch shapes",
  "Tests cover one convention at one or random angles.",
  ["transforms/rotation_conversions.py"],
  [("axis products", "transforms/rotation_conversions.py:euler_angles_to_matrix"), ("angle extraction", "transforms/rotation_conversions.py:matrix_to_euler_angles"), ("half angle formulas", "transforms/rotation_conversions.py:quaternion_from_euler")],
  ["tf.euler_angles_to_matrix", "tf.matrix_to_euler_angles", "tf.quaternion_from_euler", "Transform3d(rot=...)"])

p("C16", "Quaternion operations agree with the rotations they stand for",
  "Multiplication, inversion and application of unit quaternions agree with composing, inverting and applying the rotations, with broadcasting; standardising keeps the rotation and makes the real part non-negative. "
  "The angular distance of two quaternions is the angle between their rotations (zero iff equal up to sign, symmetric, at most pi), and spherical interpolation starts at the first, ends at the second, and moves at constant speed along the shorter arc; each pair in a batch is treated on its own.",
  ["inputs"], "all pairs from the 48-element octahedral quaternion group plus near-equal, opposite and generic quaternions; all parameters on a grid; all batch mixes",
  "Tests use random pairs, which are never equal, opposite or nearly so, and never mix those in one batch.",
  ["transforms/rotation_conversions.py", "transforms/math.py"],
  [("Hamilton product", "transforms/rotation_conversions.py:quaternion_raw_multiply"), ("slerp", "transforms/math.py:quaternion_slerp"), ("distance", "transforms/math.py:quaternion_angular_distance")],
  ["tf.quaternion_multiply", "tf.quaternion_invert", "tf.quaternion_apply", "tf.quaternion_slerp", "tf.quaternion_angular_distance"])

p("C17", "Transforms compose, invert, stack, index and apply as documented",
  "For transforms built by any combination of constructor arguments and of translate, scale, rotate and axis-angle steps, composing is function composition left to right with broadcasting of a single transform, the inverse undoes the transform on both sides, stacking concatenates, indexing selects, cloning and type conversion keep the value, and the result's number type is the requested one. "
  "Applying to points (shared or per transform) multiplies homogeneous points, normals are mapped by the inverse transpose, shapes broadcast as documented, and gradients flow to the parameters.",
  ["inputs", "programs"], "all words over the building operations up to a length, all batch-size combinations, all point shapes",
  "Tests check single translations/rotations and one combination.",
  ["transforms/transform3d.py"],
  [("broadcast product", "transforms/transform3d.py:_broadcast_bmm"), ("inverse", "transforms/transform3d.py:Transform3d.inverse"), ("constructor", "transforms/transform3d.py:Transform3d.__init__")],
  ["Transform3d and subclasses"])

p("C18", "Inverse kinematics reports solutions and errors honestly",
  "For every solver variant and option, a retry is reported as converged exactly if its reported position and rotation errors are both below the tolerances, a problem as converged if any of its retries is, and the reported errors are the true distance and angle between the target and the pose of the reported joint values. "
  "Results have one row per target and one entry per retry, in the order given, and a start that already solves the problem is returned as it is, up to the enforcement of joint limits. Settings a solver cannot follow are refused, and showing progress does not change the answers.",
  ["inputs", "configurations"], "all solver variants x options x targets (reachable, unreachable, singular, half-turn) x starts x batch sizes",
  "Tests run random reachable targets with one or two option sets and look at the fraction converged.",
  ["ik.py"],
  [("sticky update", "ik.py:IKSolution.update"), ("final evaluation", "ik.py:PseudoInverseIK.solve"), ("error", "ik.py:delta_pose")],
  ["PseudoInverseIK.solve", "PseudoInverseIKWithSVD.solve", "IKSolution fields"])

p("C19", "Inverse kinematics solutions respect the joint limits",
  "With limit enforcement on (the default), every solution reported for every problem and retry lies within each joint's limits, joints without limits stay finite, and convergence is judged on the limited solution; revolute joints are brought into range by full turns where that suffices, so an in-range equivalent of a solution remains a solution. "
  "With enforcement off, solutions are not altered by the limits; with clamping of every step on, no configuration stepped to lies outside them.",
  ["inputs", "configurations"], "all assignments of {none, wide, narrow, one-sided, offset} limits x joint types x targets x starts several turns away",
  "Tests use one arm with symmetric limits and random targets.",
  ["ik.py"],
  [("wrapping", "ik.py:PseudoInverseIK._wrap_revolute_joints"), ("clamped refinement", "ik.py:PseudoInverseIK._enforce_limits")],
  ["PseudoInverseIK.solve"])

p("C20", "Inverse kinematics terminates, is repeatable, and treats problems separately",
  "Solving terminates within the allowed number of iterations for every target and start, never returns non-finite values, does not modify its inputs, solves from a nearby start, and gives the same answer when repeated with the same solver or a fresh one. "
  "Without early stopping each problem and retry is solved as if it were alone, up to rounding; with early stopping, solving further problems in the same call never loses a solution that iterating on it alone finds.",
  ["inputs", "histories"], "all groupings and orders of a set of problems, all retry sets, all sequences of solves on one solver",
  "One test repeats a solve; grouping, order and reuse after other problems are not explored.",
  ["ik.py"],
  [("per-solve reset", "ik.py:InverseKinematics.clear"), ("remaining mask", "ik.py:IKSolution.update_remaining_with_keep_mask"), ("line search", "ik.py:BacktrackingLineSearch")],
  ["PseudoInverseIK.solve"])

p("C21", "Compiled kinematics give the same results as uncompiled ones",
  "Forward kinematics, Jacobian, their gradients, the rotation conversions and the inverse kinematics step give the same results compiled as a full graph as uncompiled, for every robot and for every sequence of batch sizes passed to the same compiled function. "
  "Compiling does not change the chain, and a compiled function follows the chain it was made from.",
  ["histories", "inputs"], "all sequences of batch sizes up to a length x robots x functions x dynamic/static",
  "Tests compile for one robot and two or three batch sizes.",
  ["chain.py", "ik.py", "transforms/rotation_conversions.py"],
  [("tensor-only kernels", "chain.py:_fk_impl"), ("compiled solver", "ik.py:PseudoInverseIK.__init__")],
  ["torch.compile(forward_kinematics_tensor)", "torch.compile(jacobian_tensor)", "PseudoInverseIK(use_compile=True)"])

p("C22", "Transform and rotation functions are pure and keep type, shape and layout rules",
  "No rotation, quaternion, pose or transform function modifies its arguments, the transform it is called on or a result handed out earlier, and calling it again, after any other calls, gives the same result. "
  "Results are the caller's own (writing into one reaches neither an argument nor another result; matrix_to_pos_rot and a transform made of a matrix give access to that matrix), have the number type of the inputs and their batch shape (including no batch dimension where one is allowed, and empty batches), each batch entry equals the result for that entry alone, and memory layout of the inputs does not matter.",
  ["inputs", "histories"], "every public function x batch shapes x number types x layouts",
  "Tests never check that inputs survive, nor multi-dimensional or empty batches.",
  ["transforms/rotation_conversions.py", "transforms/math.py", "transforms/so3.py", "transforms/transform3d.py", "transforms/perturbation.py"],
  [("elementwise tensor functions", "transforms/rotation_conversions.py")],
  ["all functions exported by pytorch_kinematics.transforms"])

p("C23", "Rotation exponential, logarithm and relative angle are consistent",
  "The exponential map of a vector is the rotation about it by its length (any length), the logarithm inverts it for rotations further from a half turn than the stated bound, and both are accurate within the stated tolerance near identity. "
  "The rotation angle and relative angle of rotations equal their true angles, extrapolated linearly in the cosine beyond the stated bound (or the cosine, if asked for), and inputs that are not rotation-sized or have an impossible trace are rejected.",
  ["inputs"], "a grid of axes x angles x batch sizes, all pairs for relative angles",
  "Not tested beyond using the exponential map to make inputs.",
  ["transforms/so3.py", "transforms/math.py"],
  [("Rodrigues formula", "transforms/so3.py:so3_exp_map"), ("log", "transforms/so3.py:so3_log_map"), ("extrapolated acos", "transforms/math.py:acos_linear_extrapolation")],
  ["tf.so3_exp_map", "tf.so3_log_map", "tf.so3_relative_angle", "tf.so3_rotation_angle", "tf.acos_linear_extrapolation"])

p("C24", "Random perturbations and rotations are valid for every random draw",
  "Whatever values the random generator returns, sampled rotations are proper rotations given by unit quaternions with non-negative real part, and perturbing a pose rotates it by the drawn angle about the drawn (or given) axis and shifts its position by the drawn offset, which is perpendicular to a given axis unless asked otherwise. "
  "Zero spread returns the original pose, the requested number and number type of samples is returned, and the original pose is not modified. Drawn start configurations of inverse kinematics lie within the limits for every draw.",
  ["inputs", "fault_sequences"], "all answers of the random generator over an alphabet (signs, zeros, tiny and large values)",
  "A test that samples cannot force particular draws, such as zeros or negative real parts.",
  ["transforms/perturbation.py", "transforms/rotation_conversions.py", "transforms/transform3d.py"],
  [("perturbation", "transforms/perturbation.py:sample_perturbations"), ("random quaternions", "transforms/rotation_conversions.py:random_quaternions")],
  ["tf.random_quaternions", "tf.random_rotations", "sample_perturbations", "Transform3d.sample_perturbations"])

p("C25", "The record of solution progress never loses a found solution",
  "For every sequence of candidate configurations and errors fed to a solution record, a retry's stored configuration and errors are those of the first candidate that met both tolerances, or of the latest candidate if none has; once converged it stays so and is never overwritten. "
  "Summary flags per problem are exactly the disjunction over its retries, and problems only ever leave the set of remaining ones, by converging or by the caller's mask, as requested.",
  ["histories"], "all sequences of updates over an alphabet of error patterns and masks, to a fixed point of the reachable states",
  "Only exercised indirectly through whole solves.",
  ["ik.py"], [("sticky update", "ik.py:IKSolution.update")],
  ["IKSolution.update", "IKSolution.update_remaining_with_keep_mask"],
  state=[("solutions/err_pos/err_rot", "stored candidate per retry", "ik.py:IKSolution"), ("converged*, remaining", "flags", "ik.py:IKSolution")])

p("C26", "Gradients through conversions and transforms are finite and correct",
  "Differentiating rotation conversions, quaternion operations, exponential map and transforms gives finite gradients equal to the derivative, for all inputs where the function is differentiable, including zero rotation and axis-aligned rotations, alone or in a batch with others. "
  "In particular no entry of a batch makes the gradient of another entry wrong or not a number.",
  ["inputs"], "all functions x singular and generic inputs x batch mixes",
  "Tests do not differentiate the conversions at all.",
  ["transforms/rotation_conversions.py", "transforms/math.py", "transforms/so3.py", "transforms/transform3d.py"],
  [("branch-safe formulas", "transforms/rotation_conversions.py:axis_angle_to_quaternion")],
  ["tensor.grad after tf functions"])

p("C27", "Each inverse kinematics iteration is a damped least-squares step",
  "For every robot, target and start, each attempt moves by the learning rate times the damped least-squares step of its own weighted Jacobian and weighted pose error, damped by the regularization plus the stated multiple of its own squared weighted error, never by those of another attempt or problem. "
  "The step length found by a line search is the first of the shrinking trial lengths that lowers that attempt's error enough, and clamped steps are the step brought into the limits. "
  "The pose error is the position difference together with the shortest turn, about base axes, from the current orientation to the target's, whichever sign either quaternion has.",
  ["inputs", "configurations", "histories"], "robots x targets x starts x weights x dampings x learning rates x line searches x clamping x iteration counts; all pairs of poses; all outcome sequences of a line search's trials",
  "Tests look at the fraction of solved random targets, which a wrong weight, damping or step length merely lowers.",
  ["ik.py"],
  [("step", "ik.py:_ik_step_kernel"), ("error", "ik.py:delta_pose"), ("step length", "ik.py:BacktrackingLineSearch"), ("clamping", "ik.py:PseudoInverseIK.solve")],
  ["PseudoInverseIK.solve", "PseudoInverseIKWithSVD.solve", "delta_pose", "BacktrackingLineSearch.do_line_search"])

p("C28", "Robot descriptions are read completely, written back and read unchanged",
  "For every URDF and SDF description, the object read says what the text says - every element and attribute, in every spelling of a value and order of elements, with the format's defaults where something is left out - and unknown parts change nothing; a required part that is missing or a value of a wrong form is refused. "
  "Writing the object and reading it again gives an equal object, values changed on the object arrive in the text, and writing changes nothing. "
  "Root, paths between links, and lookups by name are those of the described tree, also after links and joints are added and removed.",
  ["inputs", "histories"], "every element of both formats x every subset of its optional parts x spellings x orders x damages; all trees and pairs of links; all sequences of additions and removals up to a depth",
  "The existing tests read a few complete files and never write one or leave anything out.",
  ["urdf_parser_py/urdf.py", "urdf_parser_py/sdf.py", "urdf_parser_py/xml_reflection/core.py", "urdf_parser_py/xml_reflection/basics.py"],
  [("reflection of elements", "urdf_parser_py/xml_reflection/core.py:Reflection"), ("value types", "urdf_parser_py/xml_reflection/core.py:ValueType"), ("description", "urdf_parser_py/urdf.py:Robot")],
  ["Robot.from_xml_string", "Robot.to_xml_string", "SDF.from_xml_string", "Robot.get_chain", "Robot.get_root", "Robot.add_aggregate", "Robot.remove_aggregate"])

p("C29", "Independent queries may run in several threads at once",
  "Queries of the same robot or transform with different arguments, calls of the rotation functions, and loading of descriptions (also the first loads of a process) may run in several threads at once: under every schedule each thread gets what it gets alone, without errors and with the caller's objects unchanged.",
  ["schedules", "inputs"], "all schedules with a bounded number of preemptions of pairs of queries, functions, uses of a transform and loads",
  "Tests run in one thread, and a stress test would hit a given interleaving by luck only.",
  ["chain.py", "jacobian.py", "transforms/transform3d.py", "transforms/rotation_conversions.py", "urdf_parser_py/xml_reflection/core.py", "mjcf.py", "sdf.py", "urdf.py"],
  [("no working state kept on shared objects", "chain.py:Chain.forward_kinematics"), ("memory of the inverse", "transforms/transform3d.py:Transform3d.inverse"), ("types registered on first use", "urdf_parser_py/xml_reflection/core.py:get_type")],
  ["Chain.forward_kinematics", "SerialChain.jacobian", "Transform3d", "pytorch_kinematics.transforms", "build_chain_from_urdf", "build_chain_from_sdf", "build_chain_from_mjcf"])

p("C30", "An interrupted or refused call leaves everything usable",
  "A query, solve, conversion, extraction, transform use or load that is cut short at any point (interrupt, out of memory) or refused because of its arguments leaves the robot, transform, solver and the process (gradient mode, streams, default types) as usable as if it had not been made: every later call gives what it gives on fresh objects. A conversion cut short is completed by doing it again; one that is refused changes nothing.",
  ["fault_sequences", "histories", "inputs"], "all places in the package at which a call can be cut short, pairs of them for short calls, and all ordered pairs of refused arguments",
  "Tests hardly ever make a call fail, and never at every point of it.",
  ["chain.py", "ik.py", "transforms/transform3d.py", "urdf.py", "sdf.py", "mjcf.py", "urdf_parser_py/xml_reflection/core.py"],
  [("conversion replaces tensors one by one", "chain.py:Chain.to"), ("extraction copies frames of the source", "chain.py:SerialChain.__init__"), ("progress kept on the solver", "ik.py:PseudoInverseIK.solve"), ("types registered on first use", "urdf_parser_py/xml_reflection/core.py:get_type")],
  ["Chain.forward_kinematics", "Chain.to", "SerialChain", "PseudoInverseIK.solve", "Transform3d", "build_chain_from_urdf", "build_chain_from_sdf", "build_chain_from_mjcf"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P), "properties")
