"""Writes /verif/properties.jsonl (source of truth for titles/statements/anchors)."""
import json, os
S = "src/pytorch_kinematics/"
CH, FR, IK, JA = S + "chain.py", S + "frame.py", S + "ik.py", S + "jacobian.py"
UR, SD, MJ = S + "urdf.py", S + "sdf.py", S + "mjcf.py"
UP, SP, XC, XB = S + "urdf_parser_py/urdf.py", S + "urdf_parser_py/sdf.py", S + "urdf_parser_py/xml_reflection/core.py", S + "urdf_parser_py/xml_reflection/basics.py"
RC, SO, TM, T3, PE = (S + "transforms/" + x for x in ("rotation_conversions.py", "so3.py", "math.py", "transform3d.py", "perturbation.py"))
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                               observe_at=observe, hook_needed=None)))


p("C01", "Forward kinematics equals the product of transforms along each path",
  "For any robot tree (any shape, depth, names, and mix of fixed, revolute and prismatic joints with any axes and offsets) and any batch of joint values, the pose reported for every frame equals the product along the path from the root to it of each frame's link offset, joint offset and joint motion (rotation by the joint value about the joint's normalised axis, or translation along it). All ways of asking for poses (every frame, selected frames, or the raw stacked result) agree with each other. Every reported pose is a rigid transform whenever the offsets are.",
  ["inputs", "programs"], "every tree of frames, every joint configuration and batch size, in float32 and float64",
  "The tests compare a handful of fixed robots at one or two hand-written configurations with hard-coded numbers; wrong parent, axis, level or column bookkeeping for other tree shapes, mixed joint types, single-joint or zero-joint robots is not reached.",
  [CH, RC, FR], [("level-by-level accumulation of local transforms", CH + ":_fk_impl"), ("per-frame offsets, joint index and parent tables", CH + ":Chain.__init__"), ("axis/angle and axis/distance matrices", RC + ":axis_and_angle_to_matrix_33, axis_and_d_to_pris_matrix")],
  ["Chain.forward_kinematics", "Chain.forward_kinematics_tensor", "SerialChain.forward_kinematics", "Frame.get_transform"],
  [("frame tables", "index, direct parent, depth level, joint column and static offset of each frame", CH + ":Chain.__init__")])

p("C02", "All accepted forms of joint values give the same poses; bad ones are refused",
  "The same joint configuration gives the same result whether it is passed as a list, a numpy array, a tensor, or a dict from joint name to value in any key order, single or batched, for forward kinematics, joint clamping and (for serial robots) the Jacobian. A dict that names an unknown joint, or omits a joint, is refused with an error and never silently mapped to another configuration; so is a serial robot input with the wrong number of values. Asking for a subset of frames returns exactly those frames with the poses the full query gives.",
  ["inputs"], "every joint configuration, container type, key order, batch size and subset of frames",
  "Tests use one or two fixed configurations in the natural key order; permuted dicts, one-joint robots, numpy batches, partial dicts and frame subsets are not covered.",
  [CH], [("conversion of inputs to a tensor in joint order", CH + ":Chain.ensure_tensor, ensure_2d_tensor, get_batch_size, get_n_joints"), ("serial input conversion", CH + ":SerialChain.convert_serial_inputs_to_chain_inputs")],
  ["Chain.forward_kinematics", "SerialChain.forward_kinematics", "Chain.ensure_tensor", "Chain.clamp", "SerialChain.jacobian"])

p("C03", "Batch elements do not influence each other",
  "For every batched operation - forward kinematics, Jacobian, their gradients, rotation conversions, quaternion functions and transform operations - the result for one batch element is what the operation gives for that element alone, in any order and next to any other elements, including non-finite or special ones such as identity rotations. Splitting, permuting or duplicating a batch splits, permutes or duplicates the result.",
  ["inputs"], "every batch, every element, every neighbour",
  "Tests run fixed or same-distribution batches and never compare an element's result across different neighbours, so decisions taken with any/all over the batch or mixed-up rows go unseen.",
  [CH, RC, TM, SO, T3], [("element-wise tensor code without batch reductions", CH + ":_fk_impl, SerialChain.jacobian_tensor"), ("element-wise special cases", RC + ":matrix_to_quaternion, quaternion_to_axis_angle"), ("per-pair decisions", TM + ":quaternion_slerp, quaternion_angular_distance")],
  ["Chain.forward_kinematics_tensor", "SerialChain.jacobian", "pytorch_kinematics.transforms functions", "Transform3d methods"])

p("C04", "Calls have no side effects on inputs, earlier results or later calls",
  "No query, conversion or transform operation changes a tensor, array, list, dict or transform passed to it, or the robot model it is called on. A result obtained earlier never changes because of later calls, and repeating a call after any history of other calls (including changing previously returned name lists, indices or result tensors in place) gives the same answer.",
  ["histories", "inputs"], "every interleaving of library calls on shared robots, tensors and transforms",
  "Each test makes a few calls on fresh inputs and does not look at its inputs afterwards; reused buffers, cached mutable results and in-place arithmetic on views need a history to show.",
  [CH, RC, TM, T3, IK, SO], [("fresh tensors for every result", CH + ":_fk_impl"), ("cached name and index queries returned as copies", CH + ":Chain.get_joint_parameter_names, get_frame_indices"), ("out-of-place arithmetic", RC + ":quaternion_from_euler"), ("out-of-place arithmetic", TM + ":quaternion_slerp")],
  ["all public functions"], [("query caches", "memoised joint names and frame indices", CH + ":Chain.get_joint_parameter_names")])

p("C05", "One robot model can be used from many threads at once",
  "Forward kinematics, Jacobians, gradients and structure queries on one shared robot model give every thread the same answers as when called alone, under any interleaving of threads, including the very first calls on a fresh model.",
  ["schedules"], "every interleaving of concurrent queries on a shared model",
  "No test uses threads; a scratch buffer, cached intermediate or lazily built table shared between calls would only fail under particular interleavings.",
  [CH], [("stateless evaluation: no per-call state is stored on the model", CH + ":Chain.forward_kinematics_tensor, SerialChain.jacobian_tensor"), ("memoisation of name queries", CH + ":Chain.get_frame_indices")],
  ["Chain.forward_kinematics", "SerialChain.jacobian", "Chain.get_frame_indices"])

p("C06", "Changing dtype, copying and re-extracting preserve the robot",
  "After a robot is moved to another floating dtype, every result (poses, Jacobians, limits, clamped values, gradients) has that dtype and equals the original up to the rounding of the narrower type, for full and serial robots, in any order of moving, copying, and extracting serial robots. A deep copy (or pickled and restored copy) behaves identically, and moving or using it does not affect the original.",
  ["inputs", "histories"], "every robot, every sequence of dtype moves, copies and extractions",
  "Tests move two robots once and check two output dtypes; tables forgotten by a move, stale axes, or copies sharing storage appear only for other joint types and sequences.",
  [CH, FR, T3], [("conversion of every table", CH + ":Chain.to, SerialChain.to"), ("conversion of frames, links and joints", FR + ":Frame.to, Link.to, Joint.to"), ("conversion of transforms", T3 + ":Transform3d.to")],
  ["Chain.to", "SerialChain.to", "copy.deepcopy", "pickle"])

p("C07", "URDF robots load with the structure and kinematics they describe",
  "A robot loaded from any valid URDF has the links, joints, parent-child structure, joint types and axes the document states, and its forward kinematics equals that of the document: each joint placed by its origin (roll, pitch, yaw about the fixed x, y, z axes, then translation; identity where omitted), moving about or along its axis normalised to unit length (z where omitted). Joint columns run depth first, siblings in the document's order; otherwise the order of elements and the presence of unrelated elements do not matter.",
  ["inputs"], "every valid URDF document with revolute, continuous, prismatic and fixed joints, every joint configuration",
  "Tests load a few files and compare one configuration each against recorded numbers; other element orders, branching, rpy combinations, non-unit axes and omitted elements are not exercised.",
  [UR, UP, XC, XB, CH], [("tree building by parent link", UR + ":_build_chain_recurse, build_chain_from_urdf"), ("origin conversion", UR + ":_convert_transform"), ("Euler to quaternion", RC + ":quaternion_from_euler"), ("XML reflection", XC)],
  ["build_chain_from_urdf", "build_serial_chain_from_urdf"])

p("C08", "Joint limits are the documented ones and clamping applies them",
  "Position limits of each joint are those its description gives (for URDF: zero where a bound is omitted from a given limit; unbounded for continuous joints and joints with no limit; for SDF and MJCF unbounded where not limited), velocity and effort limits of URDF joints are symmetric about zero, and all limit lists follow the robot's joint order. Clamping a configuration returns, joint by joint and for every batch element, the nearest value within that joint's limits and leaves values inside unchanged.",
  ["inputs"], "every described set of limits, robot shape, joint order and configuration",
  "Tests check three small serial files; joints listed in another order than the tree, limits mixed with unlimited joints, prismatic ranges, and clamping of batches in dict form are not covered.",
  [UR, SD, MJ, CH, FR, UP, SP], [("limit extraction", UR + ":_build_chain_recurse"), ("limit extraction", SD + ":_build_chain_recurse"), ("limit extraction", MJ + ":_build_chain_recurse"), ("collection in joint order and clamping", CH + ":Chain._get_joint_limits, Chain.clamp")],
  ["Chain.get_joint_limits", "Chain.get_joint_velocity_limits", "Chain.get_joint_effort_limits", "Chain.low/high", "Chain.clamp", "Joint.clamp"])

p("C09", "SDF robots load with the structure and kinematics they describe",
  "A robot loaded from a valid SDF model (of revolute, prismatic and fixed joints, with or without inertial properties) has the links, joints, structure, types and axes the document states. At zero joint values every link is at the pose the document gives it in the model frame (x, y, z, then fixed-axis roll, pitch, yaw; identity where omitted), and each joint moves its child subtree about or along its axis (given in the joint's own frame or, with use_parent_model_frame, in the model's, as the document says), at the origin of the child link's frame or at the pose the joint gives relative to it. Joint columns run depth first, siblings in the document's order.",
  ["inputs"], "every such SDF model, element order and joint configuration",
  "The tests load one three-joint file whose poses have no rotation; rotated link poses, branching, reordered elements, and limits with omitted bounds, axes in the model frame and links without inertia are unreached.",
  [SD, SP, XC, CH], [("pose conversion", SD + ":_convert_transform"), ("relative joint offsets between link poses", SD + ":_build_chain_recurse"), ("root detection", SD + ":build_chain_from_sdf")],
  ["build_chain_from_sdf", "build_serial_chain_from_sdf"])

p("C10", "MJCF robots load with the kinematics MuJoCo computes",
  "For any MJCF model whose bodies have at most one hinge or slide joint, the pose of every body and site equals what MuJoCo itself computes for the same joint values (reference values included), up to the constant pose of a chosen root body. Joint types, names, axes and the set of joints match the model, unnamed elements included, joint columns are in the order of the model, and bodies with several joints are refused.",
  ["inputs"], "every such MJCF model, body tree and joint configuration",
  "Tests compare a few bodies of two models at one configuration; branching trees of sites, unnamed elements, slide joints, nested bodies with rotations and sub-body roots are not covered.",
  [MJ, CH], [("recursion over bodies and sites", MJ + ":_build_chain_recurse"), ("offset and axis conversion", MJ + ":_build_chain_recurse"), ("root selection", MJ + ":build_chain_from_mjcf")],
  ["build_chain_from_mjcf", "build_serial_chain_from_mjcf"])

p("C11", "Broken descriptions are refused; a parsed URDF survives being written out",
  "A URDF or SDF description that is not well formed, lacks a required name, type, parent or child, refers to a link that does not exist, has a malformed number or vector, or uses an unsupported joint type is refused with an error instead of yielding a robot. Writing a parsed URDF model back to XML and parsing it again gives the same links, joints, origins, axes, limits, geometry and materials.",
  ["inputs", "fault_sequences"], "every single corruption of every valid description; every valid URDF model",
  "No test feeds a malformed document or writes one; silent acceptance builds a wrong robot that only fails in use.",
  [XC, XB, UP, SP, UR, SD], [("required attribute and element checks", XC + ":Reflection.set_from_xml, Param.set_default"), ("typed value parsing", XC + ":VectorType, BasicType"), ("writing", XC + ":Object.to_xml, Reflection.add_to_xml"), ("link lookup", UR + ":_build_chain_recurse")],
  ["build_chain_from_urdf", "build_chain_from_sdf", "URDF.from_xml_string / to_xml_string"])

p("C12", "Loaded links carry the visual geometry their description gives",
  "Each link of a loaded robot carries the visuals its description gives for that very link: for URDF its first visual, for SDF all of them in order, for MJCF all geoms of the body, each with the described shape kind, dimensions and placement relative to the link. Links without a visual carry no geometry.",
  ["inputs"], "every link of every description, every shape kind, dimension and placement",
  "No test looks at visuals beyond running a viewer example.",
  [UR, SD, MJ, FR], [("visual conversion", UR + ":_convert_visual"), ("visual conversion", SD + ":_convert_visuals"), ("geoms of a body", MJ + ":body_to_geoms")],
  ["Link.visuals of build_chain_from_urdf/sdf/mjcf results"])

p("C13", "Structure queries agree with the tree and with the order of joint columns",
  "For any robot, the queries for frames, links, joints, their names, indices, ancestors, the children below each joint and the printed tree all describe the same tree, with no element missing or repeated, and honour the request to include or exclude fixed joints. The order of joint names is the order of the columns of joint value tensors, Jacobians and limits; frame indices select the named frame's row of stacked poses. Looking up by name returns the element with that name, or nothing if there is none.",
  ["inputs", "programs"], "every tree, every name, every combination of query options",
  "Tests check the names of one or two loaded robots; consistency between queries is not checked for branching robots, fixed joints in the middle, or names that are prefixes of each other.",
  [CH, FR], [("recursive queries", CH + ":Chain._get_joints, _get_frame_names, _find_frame_recursive, _get_joints_and_child_links"), ("index maps", CH + ":Chain.get_frame_indices, Chain.__init__"), ("tree printing", FR + ":Frame.__str__")],
  ["Chain.get_joints", "get_joint_parameter_names", "get_frame_names", "get_links", "get_link_names", "find_frame", "find_link", "find_joint", "get_frame_indices", "get_joint_parent_frame_names", "get_joints_and_child_links", "print_tree"])

p("C14", "A serial robot is the path between two frames of the full robot",
  "A serial robot extracted between any frame and any of its descendants has exactly the moving joints strictly below the root frame on that path, in order from root to end, with their limits. Its pose of each frame on the path equals the full robot's pose of that frame relative to the root frame, whatever the remaining joints are. Extraction leaves the full robot unchanged and independent, and an unknown root or end frame, or an end frame that is not below the root, is refused.",
  ["inputs", "programs"], "every tree, every pair of ancestor and descendant frames, every configuration",
  "One test file covers a few hand-picked pairs of one robot; branch points on the path, fixed or offset root frames, single-frame paths and independence of the original are not covered.",
  [CH], [("path copy and root reset", CH + ":SerialChain.__init__"), ("input conversion", CH + ":SerialChain.convert_serial_inputs_to_chain_inputs")],
  ["SerialChain", "build_serial_chain_from_urdf/sdf/mjcf"])

p("C15", "The Jacobian is the derivative of the end effector pose",
  "For any serial robot and configuration the first three rows of the Jacobian are the derivative of the end effector (or tool point) position with respect to each joint value, and the last three the angular velocity about the base axes per unit joint rate, with one column per moving joint in joint order and one matrix per batch element. A tool given as a position or as a transform, shared by the batch or one per element, shifts the reference point by that amount in the end effector frame; the optionally returned pose is that of the reference point. All entry points and input forms agree.",
  ["inputs"], "every serial robot, joint mix, configuration, batch and tool placement",
  "Tests compare with recorded matrices or autograd for one all-revolute arm; prismatic and fixed joints in between, oblique axes, per-element tools with rotation and returned poses are not covered.",
  [CH, JA], [("geometric Jacobian", CH + ":SerialChain.jacobian_tensor"), ("tool correction", CH + ":SerialChain.jacobian"), ("wrapper", JA + ":calc_jacobian")],
  ["SerialChain.jacobian", "SerialChain.jacobian_tensor", "jacobian.calc_jacobian"])

p("C16", "Gradients through forward kinematics are exact",
  "For any robot tree, batch and differentiable function of any of the reported poses, the gradient with respect to the joint values obtained by backpropagation equals the true derivative, and the fast default backward and the standard one agree. With the standard backward, second derivatives and gradients with respect to the model's own parameters are available and correct. Requesting gradients does not change the poses.",
  ["inputs", "programs"], "every tree, configuration, batch and upstream gradient (rotation and translation entries of any subset of frames)",
  "Tests check autograd for one serial arm's end effector; gradients through branching trees, prismatic joints, rotation entries, several frames at once and frames unaffected by some joints are not covered.",
  [CH], [("analytical backward", CH + ":_FKAnalyticalBackward.backward"), ("ancestor mask and joint frame map", CH + ":Chain.__init__"), ("backward selection", CH + ":Chain.forward_kinematics_tensor")],
  ["Chain.forward_kinematics", "Chain.forward_kinematics_tensor"], [("ancestor mask", "which joint moves which frame", CH + ":Chain.__init__")])

p("C17", "The Jacobian itself can be differentiated correctly",
  "For any serial robot and configuration, backpropagating any function of the Jacobian (with or without a tool, with or without the returned pose) gives the true derivative with respect to the joint values and with respect to the tool position.",
  ["inputs"], "every serial robot, configuration, batch, tool and upstream gradient",
  "One test differentiates the Jacobian of one revolute arm at a time and only checks the sign of progress; exact values, prismatic joints and tools are not checked.",
  [CH], [("differentiable geometric Jacobian", CH + ":SerialChain.jacobian_tensor, SerialChain.jacobian"), ("analytical backward", CH + ":_FKAnalyticalBackward.backward")],
  ["SerialChain.jacobian", "SerialChain.jacobian_tensor"])

p("C18", "Compiled evaluation equals eager evaluation",
  "For any robot, forward kinematics, the Jacobian, their gradients and the rotation conversions give the same results when run under the PyTorch compiler (also as one full graph where documented) as when run directly, for every batch size used with the same compiled function, in any order of calls and robots.",
  ["inputs", "histories", "configurations"], "every robot, batch size sequence and compiled entry point",
  "Tests compile a few fixed robots once with one batch size and mostly compare timing; wrongly specialised guards need several sizes, robots or dtypes through one compiled function.",
  [CH, IK, RC], [("compile-friendly kernels taking only tensors", CH + ":_fk_impl, SerialChain.jacobian_tensor"), ("compile-friendly custom backward", CH + ":_FKAnalyticalBackward"), ("compiled step", IK + ":PseudoInverseIK.__init__")],
  ["torch.compile of Chain.forward_kinematics_tensor", "torch.compile of SerialChain.jacobian_tensor", "PseudoInverseIK(use_compile=True)"])

p("C19", "Inverse kinematics never reports convergence it did not achieve",
  "Every solution reported as converged reaches its own target within the given position and rotation tolerances when recomputed by forward kinematics, and every solution not reported as converged does not. The reported position and rotation errors and partial convergence flags of every attempt describe the returned joint values, and a target is flagged as solved exactly when one of its attempts is. This holds for every solver option, number of targets and attempts, reachable or not.",
  ["inputs", "configurations", "histories"], "every serial robot, set of targets, initial configurations and solver options, and repeated use of one solver",
  "Tests solve reachable targets of one or two arms with a few options and check that most converge; consistency of flags, errors and solutions for unreachable targets, overshoot after convergence, limit enforcement and early stopping is not checked.",
  [IK], [("recording of solutions, errors and flags together", IK + ":IKSolution.update"), ("final evaluation after the last step", IK + ":PseudoInverseIK.solve"), ("re-evaluation after enforcing limits", IK + ":PseudoInverseIK._enforce_limits"), ("pose error", IK + ":delta_pose")],
  ["PseudoInverseIK.solve", "PseudoInverseIKWithSVD.solve", "IKSolution"],
  [("solution record", "joint values, errors and flags per target and attempt", IK + ":IKSolution")])

p("C20", "Inverse kinematics solutions are finite and respect joint limits",
  "With limit enforcement on, every returned joint value (converged or not, reachable target or not) is finite and within the limits of its joint, for any mix of limited, half-limited and unlimited, revolute and prismatic joints. A revolute joint outside its limits is brought inside by whole turns wherever that is possible, which leaves the pose unchanged; prismatic and unlimited joints are never shifted. With enforcement off, or no limits, solutions are finite too.",
  ["inputs", "configurations"], "every serial robot and limit pattern, target and option set",
  "Tests use two all-revolute arms whose limits are all finite; mixed, asymmetric, half-infinite and prismatic limits are not covered.",
  [IK], [("wrapping by whole turns", IK + ":PseudoInverseIK._wrap_revolute_joints"), ("clamped refinement", IK + ":PseudoInverseIK._enforce_limits")],
  ["PseudoInverseIK.solve"])

p("C21", "Inverse kinematics pairs each target with its own attempts, reproducibly",
  "Solving the same targets with the same initial configurations gives the same solutions every time, regardless of what the solver solved before. Permuting the targets, or (with early stopping off) solving them one at a time with the same initial configurations, gives each target the same solutions up to rounding, and per-target initial configurations are used for their own target. A target already reached by an initial configuration within limits is solved by it at once, keeping that configuration up to whole turns.",
  ["histories", "inputs"], "every order and grouping of targets, every history of earlier solves",
  "Tests solve one fixed batch once per solver; pairing errors hide when any attempt of any target converges, and carried-over state needs repeated solves.",
  [IK], [("flattening of targets times attempts", IK + ":PseudoInverseIK.solve, delta_pose, _ik_step_kernel"), ("reset of solver state", IK + ":InverseKinematics.clear"), ("sticky convergence", IK + ":IKSolution.update")],
  ["PseudoInverseIK.solve"])

p("C22", "Inverse kinematics makes progress and its options mean what they say",
  "From an initial configuration close to a regular solution, a reachable target is solved within the default iteration budget, with every solver variant and weighting, and with a line search that demands no more decrease per step than the tolerances leave. Both solver variants take the same steps; with compilation on, results match those without. Zero iterations return the initial configurations; options such as stopping when any attempt converged, clamping during the search, or sampling of initial configurations within given limits act as documented.",
  ["inputs", "configurations"], "every non-singular serial robot, nearby target and combination of options",
  "Tests require a success rate on one arm with many attempts, which tolerates large loss of solver quality, and use few options.",
  [IK], [("damped least squares step", IK + ":_ik_step_kernel"), ("SVD step", IK + ":_ik_step_kernel_svd"), ("line search", IK + ":BacktrackingLineSearch.do_line_search"), ("initial configurations", IK + ":InverseKinematics.sample_configs, gaussian_around_config")],
  ["PseudoInverseIK.solve", "PseudoInverseIKWithSVD.solve", "InverseKinematics.sample_configs"])

p("C23", "Rotation representations convert to one another without changing the rotation",
  "Conversions between rotation matrices, unit quaternions (real part first, or last where so named), axis-angle vectors, axis and angle, six-number representations, and positions with rotations give the same rotation, for every rotation including identity, tiny angles and half turns, any batch shape including none, in the dtype of the input. Converting there and back returns the same rotation.",
  ["inputs"], "every rotation, batch shape and dtype",
  "Tests convert random batches of one shape; the sets where branches switch (angles near zero and half turns, each dominant quaternion component) have measure zero under random sampling.",
  [RC], [("conversion formulas and branch selection", RC + ":matrix_to_quaternion, quaternion_to_matrix, axis_angle_to_quaternion, quaternion_to_axis_angle, rotation_6d_to_matrix, axis_and_angle_to_matrix_33, matrix_to_pos_rot, pos_rot_to_matrix")],
  ["pytorch_kinematics.transforms conversion functions"])

p("C24", "Quaternion operations obey the algebra of rotations",
  "Multiplying quaternions composes rotations, inverting inverts, applying rotates points, standardising gives the same rotation with non-negative real part, all under broadcasting. The angular distance between two quaternions is the angle of their relative rotation (zero when closer than about 0.02 rad), symmetric, blind to the sign of either; the closeness test agrees with it. Spherical interpolation gives a unit quaternion on the shorter arc at the given fraction from the first to the second, with the end points at 0 and 1, for fractions given as a number or one per pair.",
  ["inputs"], "every pair of unit quaternions, point, fraction, sign choice and batch shape",
  "Tests check a few products and one interpolation case; opposite signs, identical pairs mixed with others, half turns apart, broadcasting are not covered.",
  [RC, TM], [("quaternion products", RC + ":quaternion_raw_multiply, quaternion_multiply, quaternion_invert, quaternion_apply, standardize_quaternion"), ("distance and interpolation", TM + ":quaternion_angular_distance, quaternion_close, quaternion_slerp")],
  ["quaternion_* functions"])

p("C25", "Rotation conversions have correct and finite gradients",
  "Wherever a rotation conversion is differentiable, its backpropagated gradient is the true derivative, and it is finite at the special points users hit in practice: the identity, zero axis-angle vectors and half turns for matrix to quaternion conversion. Gradients of one element are not affected by special elements elsewhere in the batch.",
  ["inputs"], "every rotation and upstream gradient, including special points",
  "Tests differentiate random rotations only; special points have measure zero, and there an unselected branch can turn the gradient into NaN.",
  [RC, SO, TM], [("floors and safe denominators in unselected branches", RC + ":matrix_to_quaternion, axis_angle_to_quaternion, quaternion_to_axis_angle"), ("linear extrapolation of arccos", TM + ":acos_linear_extrapolation")],
  ["torch.autograd through conversion functions"])

p("C26", "The SO(3) exponential, logarithm, angle and hat maps are consistent",
  "The exponential map of a rotation vector is the rotation about that vector by its length, and the logarithm inverts it away from half turns; both stay within a small documented tolerance near zero. The rotation angle and relative angle of matrices are the angle of the (relative) rotation, or its cosine when asked, and matrices that cannot be rotations by their trace or shape are refused. The hat map gives the cross product matrix and its inverse undoes it and refuses matrices that are not skew-symmetric.",
  ["inputs"], "every rotation vector, pair of rotations and batch; every invalid matrix",
  "There are no direct tests of these functions in the repository's suite beyond incidental use.",
  [SO, TM], [("Rodrigues formula with clamped angle", SO + ":so3_exp_map"), ("logarithm with clamped sine", SO + ":so3_log_map"), ("trace check and extrapolated arccos", SO + ":so3_rotation_angle"), ("hat and inverse", SO + ":hat, hat_inv")],
  ["so3_exp_map", "so3_log_map", "so3_relative_angle", "so3_rotation_angle", "acos_linear_extrapolation"])

p("C27", "Euler angle conversions follow their stated convention",
  "Euler angles convert to the rotation matrix that is the product of the rotations about the axes named by the convention, in that order, for all twelve conventions; extracting angles and converting back gives the same rotation away from the convention's singular middle angle, with finite angles in their principal ranges everywhere. Euler angles convert to the quaternion of the rotation for all twenty-four static and rotating axis sequences. Invalid conventions and shapes are refused.",
  ["inputs"], "every convention, angle triple and batch shape",
  "Tests use one or two conventions; parity, repetition and frame cases of the other sequences are separate code paths.",
  [RC], [("product of elementary rotations", RC + ":euler_angles_to_matrix, _axis_angle_rotation"), ("angle extraction", RC + ":matrix_to_euler_angles, _angle_from_tan"), ("axis sequence table", RC + ":quaternion_from_euler")],
  ["euler_angles_to_matrix", "matrix_to_euler_angles", "quaternion_from_euler"])

p("C28", "Transforms compose, invert, stack and index as a batch of matrices",
  "Composing transforms multiplies their matrices left to right with batch broadcasting, inverting gives the matrix inverse (also for scalings and their compositions), stacking concatenates, and indexing, cloning and changing dtype select, copy and convert them. Incompatible batch sizes and shapes are refused, and the length, dtype and matrix of a transform agree with each other after any sequence of these operations.",
  ["inputs", "histories"], "every sequence of operations on transforms of any kind, batch size and dtype",
  "Tests check short fixed sequences; broadcasting in both directions, inverses of mixed compositions, slices and dtype changes in long sequences are not covered.",
  [T3], [("composition", T3 + ":Transform3d.compose, _broadcast_bmm"), ("inversion", T3 + ":Transform3d.inverse, _get_matrix_inverse of each subclass"), ("stacking, indexing and conversion", T3 + ":Transform3d.stack, __getitem__, to, clone")],
  ["Transform3d", "Translate", "Scale", "Rotate", "RotateAxisAngle"])

p("C29", "Transforms act on points, normals and shape operators geometrically",
  "Transforming points applies the matrix to each point for every documented combination of batch sizes, dividing by the last coordinate (held at least eps away from zero where eps is given), and composing transforms acts as applying them in turn. Transformed normals stay perpendicular to transformed tangent vectors, also under non-uniform scaling, and rigid transforms keep their length; shape operators transform consistently with normals and tangents. Inputs of the wrong dimension are refused.",
  ["inputs"], "every transform, set of points, normals and batch combination",
  "Tests use a few fixed shapes; broadcasting combinations, inverse-transpose behaviour under mixed rotation and scaling, and shape operators are barely tested.",
  [T3], [("homogeneous product and division", T3 + ":Transform3d.transform_points"), ("inverse transpose", T3 + ":Transform3d.transform_normals"), ("two-sided product", T3 + ":Transform3d.transform_shape_operator")],
  ["Transform3d.transform_points", "Transform3d.transform_normals", "Transform3d.transform_shape_operator"])

p("C30", "Transform constructors build the documented matrices",
  "A transform built from a matrix, a position and a rotation (matrix, real-first quaternion or XYZ Euler angles, as tensor, list or array; single, or batched with equal sizes) has exactly the given rotation and position, each overriding the matrix; translations, scalings, rotations and axis rotations have the documented matrices for every accepted argument form, in degrees or radians. Building step by step composes on the right, gradients flow to all parameters, and malformed arguments are refused.",
  ["inputs"], "every combination of argument forms, batch sizes and dtypes",
  "Tests cover common single forms; combinations such as batched quaternions with one position, per-element angles, scalar broadcasts and float64 are not covered.",
  [T3], [("argument normalisation", T3 + ":Transform3d.__init__, _handle_input, _handle_coord, _handle_angle_input"), ("subclasses", T3 + ":Translate, Scale, Rotate, RotateAxisAngle"), ("builder methods", T3 + ":Transform3d.translate, scale, rotate, rotate_axis_angle")],
  ["Transform3d", "Translate", "Scale", "Rotate", "RotateAxisAngle", "Transform3d.translate/scale/rotate/rotate_axis_angle"])

p("C31", "Random rotations and perturbations are valid and distributed as documented",
  "Random quaternions, rotations and perturbed transforms are always valid rigid motions of the requested number and dtype; random rotations are uniform over all rotations with non-negative real quaternion parts. Perturbations around a transform rotate it by zero-mean Gaussian angles of the given spread about uniformly distributed axes (or the given axis) and move it by independent Gaussian offsets of the given spread (perpendicular to the axis where asked), and zero spread returns the transform itself.",
  ["inputs"], "every transform, spread, axis and seed, with distributions decided on large samples",
  "One test draws a few samples and checks shapes; validity for all draws and the distribution need many samples.",
  [PE, RC, T3], [("perturbation sampling", PE + ":sample_perturbations"), ("random rotations", RC + ":random_quaternions, random_rotations, random_rotation"), ("method form", T3 + ":Transform3d.sample_perturbations")],
  ["sample_perturbations", "Transform3d.sample_perturbations", "random_quaternions", "random_rotations", "random_rotation"])

p("C32", "Parsed description models hold, answer, keep and print what their document says",
  "A URDF or SDF model, parsed (from text, bytes or a file) or put together in Python, holds every supported element and attribute of its document with the documented defaults. Its maps of links, joints, parents and children, its root and the chains between links agree with its links and joints, also after any sequence of additions, removals, replacements and changes in place. Writing, printing and grouping (lump_aggregates) work on every such model and leave it alone, the written document says exactly what the model holds, and changing one model never changes another, parsed before or after.",
  ["inputs", "histories"], "every supported document and sequence of edits of its model",
  "The tests only parse files to build chains; writing, printing, editing and queries of the models, and aliasing between models, are not tested at all.",
  [XC, UP, SP, XB], [("reading, defaults and writing by reflection", XC + ":Reflection, Param, Object"), ("maps and queries", UP + ":Robot.add_aggregate, remove_aggregate, get_chain, get_root"), ("SDF model", SP + ":Model"), ("printing", XB + ":to_yaml, YamlReflection")],
  ["URDF.from_xml_string", "URDF.to_xml_string", "URDF.get_root", "URDF.get_chain", "SDF.from_xml_string", "SDF.to_xml_string", "Object.add_aggregate", "Object.remove_aggregate", "Object.lump_aggregates"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
