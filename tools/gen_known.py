"""Writes known_findings.json: repaired defects (they suppress nothing) and, were there any, unrepaired ones."""
import json
import os

FIXED = [
    ("C27", "5d40691", "quaternion_from_euler halved the caller's angles in place"),
    ("C24", "8af6668", "quaternion_slerp flipped signs in its input and chose one branch for a whole batch"),
    ("C24", "0c6018c", "quaternion_angular_distance of a pair depended on the rest of the batch"),
    ("C25", "10a0aaf", "gradients of axis-angle/quaternion conversions were NaN at the identity"),
    ("C08", "76a8ef6", "unlimited MJCF joints had limits (0, 0)"),
    ("C10", "a841241", "unnamed MJCF bodies, joints and sites shared one name"),
    ("C08", "e421f7a", "a continuous URDF joint with velocity/effort limits had position limits (0, 0)"),
    ("C07", "0a33292", "URDF and SDF descriptions without joints failed to load"),
    ("C09", "c703412", "SDF poses applied roll about z and yaw about x"),
    ("C08", "f14078c", "an omitted bound of an SDF joint failed instead of being unbounded"),
    ("C09", "15c83c8", "SDF fixed joints without an axis failed to load"),
    ("C20", "cf2faf9", "IK joint limit wrapping made joints without finite limits NaN"),
    ("C19", "2ec0e61", "IKSolution.converged_pos and converged_rot described a later iterate than the stored solution"),
    ("C21", "3ac6b2a", "one set of initial configurations per IK target was refused"),
    ("C19", "e0fa8ea", "IK on a float64 chain failed or silently worked in float32"),
    ("C02", "d2540eb", "SerialChain.forward_kinematics failed on a dict of unbatched joint values"),
    ("C15", "62c3963", "SerialChain.jacobian failed on a dict of joint values"),
    ("C13", "564902c", "get_joints(exclude_fixed=False) left out fixed joints"),
    ("C13", "f068de0", "Frame(children=...) lost the children"),
    ("C14", "3fe113d", "SerialChain could not be extracted from a float64 chain"),
    ("C04", "aacbb19", "changing a returned name list or index tensor changed the chain"),
    ("C28", "fbfd939", "Transform3d.inverse was wrong for transforms with scaling"),
    ("C30", "e98869e", "Translate, Scale and Rotate reported another dtype than that of their matrix"),
    ("C30", "ffd4bf2", "translate, scale and rotate on a float64 transform lost precision or failed"),
    ("C27", "b4040d2", "matrix_to_euler_angles was NaN when rounding left an entry outside of [-1, 1]"),
    ("C19", "09537ab", "IKSolution.converged_pos_any and converged_rot_any stayed False"),
    ("C02", "b0218e3", "a wrong number of joint values gave a result instead of an error"),
    ("C29", "31b8896", "batch_to_batch failed or transformed points by other elements' transforms"),
    ("C29", "b373c6b", "transform_shape_operator failed on (N, P, 3, 3)"),
    ("C02", "1317454", "a dict of numpy arrays was refused"),
    ("C22", "aa96715", "PseudoInverseIKWithSVD failed for robots with fewer than 6 joints"),
    ("C28", "5fbab0d", "Transform3d.to(copy=True) shared its matrix with the original"),
    ("C11", "6e6aeca", "URDF and SDF joints that refer to missing links were accepted"),
    ("C12", "37109e8", "URDF capsule visuals lost their shape"),
    ("C11", "bc96c22", "SDF links and joints without a name were accepted"),
    ("C23", "77de54a", "quaternion_to_axis_angle lost precision near w = -1"),
    ("C20", "e0dbf85", "a joint with a single limit was clamped although whole turns bring it inside"),
    ("C20", "17aa726", "IK raised a singular-matrix error for robots with fewer than 6 joints in float32"),
    ("C22", "7e2cead", "clamp_to_limits was ignored for robots with upper limits only"),
    ("C09", "db30781", "an SDF boolean false was read as true (use_parent_model_frame)"),
    ("C09", "8ce2a94", "SDF axes with use_parent_model_frame were taken to be in the joint's frame"),
    ("C32", "cb486f4", "writing a URDF model moved the children of its gazebo elements out of the model"),
    ("C32", "11fa1f0", "printing a parsed URDF or SDF model failed"),
    ("C32", "c148810", "lump_aggregates failed on any parsed model"),
    ("C32", "b612f1e", "a URDF Color of three numbers failed, and a given list was extended in place"),
    ("C09", "718196c", "SDF links without (all) inertial properties were refused"),
    ("C32", "540fb74", "the visual and collision given to or set on a URDF Link were lost or not written"),
    ("C32", "05892a8", "a URDF Actuator ignored its mechanicalReduction argument"),
    ("C32", "fb08371", "an SDF document or visual put together in Python could not be written"),
    ("C32", "9730c9d", "removed links and joints stayed in link_map, joint_map, parent_map and child_map"),
    ("C32", "27b9e37", "changing the default xyz or rpy of a parsed pose in place changed every later pose"),
    ("C32", "b872b57", "writing a URDF dropped the text of gazebo elements"),
    ("C10", "ee4797d", "MJCF joint values were applied without subtracting the reference value (ref)"),
    ("C20", "ebf089c", "undamped IK (regularlization 0) raised or gave NaN where the Jacobian is singular"),
    ("C20", "35799be", "uniform sampling within the limits of a robot with unlimited joints gave NaN solutions"),
    ("C21", "fe95432", "a solver with debug on raised when asked for zero iterations"),
    ("C31", "5d322c2", "perturbations about an axis that is not a unit vector were not rigid motions"),
]
KNOWN = [
    {"property": "C10", "key": "joint-away-from-the-body-origin",
     "what": "MJCF joints with a pos: the frame of the body is put at the joint's anchor (pos + R(q)*0) instead of turning about it, and its descendants are shifted (hinge at 0.2 0.1 0, q=0.7)"},
    {"property": "C09", "key": "joint-with-its-own-pose",
     "what": "SDF joints with a <pose>: the joint's own pose is ignored, so the child turns about its link origin (pose 0.5 0 0 on a revolute joint, q=pi/2)"},
]

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    json.dump({"known": KNOWN, "fixed": [f"fixed: property={p} {c} {w}" for p, c, w in FIXED]}, open(os.path.join(here, "known_findings.json"), "w"), indent=1)
    print(len(FIXED), "fixed")
