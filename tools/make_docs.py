#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "resim/transforms/"
C = "resim/curves/"
A = "resim/actor/state/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, **anchors):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism], **anchors),
                  technique=technique, note=note))


prop("C01", "Rotations and rigid transforms behave as their groups for every element",
     "Composition, inversion, identity, action on vectors and approximate equality of 3D rotations and rigid transforms agree "
     "with the corresponding operations on rotation matrices and homogeneous matrices, for every element and in any sequence "
     "of operations, to within rounding error. Results stay valid group elements (orthonormal, determinant one), and every "
     "way of constructing an element (angle and axis, quaternion, matrix, rotation and translation) gives the element it denotes.",
     ["inputs", "histories"],
     "all pairs and triples of elements, including angles at 0, near the small-angle switch-overs and at pi, translations of "
     "1e-9 to 1e6, and sequences of up to 60 operations",
     "the tests sample some tens of uniformly random elements and never long chains of operations or the neighbourhood of 0 and pi",
     [T + "so3.cc", T + "so3.hh", T + "se3.cc", T + "se3.hh", T + "liegroup.hh"],
     [("quaternion-backed rotations normalised on construction", T + "so3.cc"), ("composition as rotation plus offset", T + "se3.cc")],
     "generated group elements and operation histories against an extended-precision matrix model", "")
prop("C02", "Exponential and logarithm are exact inverses that match the matrix exponential",
     "The exponential of a rotation or rigid-motion tangent vector equals the matrix exponential of its matrix form at every "
     "magnitude, including zero, tiny and beyond half a turn; the logarithm returns a tangent vector with rotation of at most "
     "half a turn whose exponential is the original element. Interpolation by any fraction follows the connecting geodesic, "
     "gives the identity at 0 and the element itself at 1, and arc length is the length of the path travelled along it.",
     ["inputs"], "all tangent vectors, all group elements and all interpolation fractions, concentrated at series switch-overs and at pi",
     "the tests check round trips on small random samples; the series branches and the neighbourhood of pi are reached by no or few samples",
     [T + "so3.cc", T + "se3.cc", T + "liegroup_exp_diff.cc", T + "se3.hh"],
     [("series near zero angle, closed form elsewhere", T + "liegroup_exp_diff.cc"), ("branches of the logarithm", T + "so3.cc")],
     "generated tangent vectors against an extended-precision matrix exponential, inverse and geodesic relations", "")
prop("C03", "Adjoints, brackets and exponential derivatives agree with matrix calculus",
     "The adjoint of a group element conjugates tangent vectors as the matrices do; the algebra adjoint applied to a vector is "
     "the commutator of the matrices; converting between matrix and vector form loses nothing. The coefficients describing the "
     "derivative of the exponential are accurate to rounding at every angle, without a jump between small and large angles.",
     ["inputs"], "all group elements, pairs of tangent vectors, and angles from 0 to several turns",
     "the tests compare a few random samples, hardly any of which fall near the switch-over between series and closed form",
     [T + "liegroup_exp_diff.cc", T + "so3.cc", T + "se3.cc", T + "cross_matrix.cc"],
     [("adjoint matrices", T + "se3.cc"), ("exp_diff coefficients", T + "liegroup_exp_diff.cc")],
     "generated elements against conjugation, commutators, reference exponentials and differences", "")
prop("C04", "Coordinate frames are tracked and mismatches always refused",
     "Every frame-aware operation on rotations, transforms and vectors (not the arithmetic framed vectors inherit from Eigen) gives a result whose frames follow from its operands: inner frames "
     "must agree and cancel, inverses swap frames, interpolation and identity keep them, and unframed operands give unframed "
     "results. An operation whose frames do not fit is refused with an exception and changes nothing, and equality never holds "
     "between values in different frames.",
     ["inputs", "histories"], "all operation sequences over all assignments of frames, including frames whose ids differ in a single bit, and null frames",
     "the tests check each operation once with fresh random frames, not sequences of operations or similar ids",
     [T + "liegroup.hh", T + "framed_vector.hh", T + "frame.hh", T + "so3.cc", T + "se3.cc"],
     [("frame checks on composition and action", T + "liegroup.hh"), ("null frames as unframed", T + "frame.hh")],
     "stateful generation of framed operations against a model of the frames", "")
prop("C05", "The distance between poses is that of their origins, whatever their rotations",
     "The distance between two rigid poses equals the norm of the translation between them expressed by composing one pose with the "
     "inverse of the other; it is symmetric, zero for equal poses and independent of the common reference. Framed poses are only compared if their "
     "frames fit, and refused otherwise.",
     ["inputs"], "all pairs and triples of poses with arbitrary rotations and translations, and all assignments of frames",
     "the tests only use a few poses; the original code ignored rotations and still passed",
     [T + "se3.cc", T + "se3.hh"], [("se3_distance", T + "se3.cc")],
     "generated pose pairs against the translation of the relative pose and metric relations", "")
prop("C06", "Two-jets compose, invert and convert as derivatives of moving transforms",
     "A transform with its first and second time derivatives composes and inverts exactly as the product rule says, in both the "
     "left and the right tangent convention, and converting between conventions describes the same motion and is undone by "
     "converting back. Frames are tracked as for plain transforms, and approximate equality compares transform and both derivatives.",
     ["inputs"], "all pairs of jets of rotations and rigid transforms in both conventions over many scales of derivatives, and all frames",
     "the tests compare a few random jets of moderate size with the same formulas the code uses",
     [C + "two_jet.cc", C + "two_jet.hh"], [("composition and inversion rules", C + "two_jet.cc"), ("left/right conversion", C + "two_jet.hh")],
     "generated jets against an extended-precision model of matrix functions of time", "")
prop("C07", "Time curves pass through their control points with consistent derivatives",
     "A time-parameterised curve takes exactly the pose, velocity and acceleration of each control point at its time, is continuous "
     "with continuous derivatives in between, and the derivatives it reports are the derivatives of the poses it reports. Control points that "
     "do not come strictly later or have unfit frames, and queries outside the time range, are refused and leave the curve unchanged "
     "and usable; the way a curve was built makes no difference.",
     ["inputs", "histories"], "all lists of control points of rotations or rigid transforms, all query times, all sequences of valid and refused appends",
     "the tests use a few fixed curves; reported derivatives are not compared with the motion between control points for arbitrary curves",
     [C + "t_curve.cc", C + "t_curve_segment.cc", C + "quintic_poly_coeffs.cc"],
     [("quintic Hermite segments", C + "t_curve_segment.cc"), ("segment lookup and append checks", C + "t_curve.cc")],
     "generated curves and append/query histories against control points, finite differences and quintic interpolants", "")
prop("C08", "Distance curves return the pose at every arc length along their geodesics",
     "A distance-parameterised curve has the total length of the geodesics between its control poses, cumulative distances that never decrease, and for "
     "every distance within the curve returns the finite pose that lies that far along, including at control points and across "
     "zero-length steps. Queries outside the curve and poses with unfit frames are refused and leave the curve unchanged and usable.",
     ["inputs", "histories"], "all lists of poses including repeated ones, all distances, all sequences of appends and queries",
     "the tests query a few fixed curves (circles and lines) at selected points and never a zero-length segment",
     [C + "d_curve.cc", C + "d_curve.hh"], [("binary search over cumulative arc length", C + "d_curve.cc")],
     "generated geodesic chains against an extended-precision matrix exponential, histories against a model", "")
prop("C09", "Rigid body states compose and relate as moving bodies",
     "The pose, velocities and accelerations of a rigid body read back exactly as they were set, whichever of the accessors is used, without "
     "disturbing the others. Chaining states and taking the state of one body relative to another yield the pose, velocity and "
     "acceleration that differentiating the composed motion gives, with frames tracked and mismatches refused.",
     ["inputs", "histories"], "all pairs of states over many scales of position, velocity and acceleration, all orders of setting components, all frames",
     "the tests compare a few random states and set components in one order",
     [A + "rigid_body_state.cc", A + "rigid_body_state.hh"],
     [("states stored as right two-jets", A + "rigid_body_state.hh"), ("component accessors", A + "rigid_body_state.cc")],
     "generated states against an extended-precision model of moving frames, setter histories against a record", "")
prop("C10", "Trajectories return the recorded state at each timestamp and refuse bad data",
     "A trajectory returns each recorded state at its timestamp, a continuous motion in between that is the same whether asked by timestamp or "
     "by time since the start, and start, end and duration exact to the nanosecond (for up to 26 days). States that are not later than the last one or are in "
     "unfit frames, and queries outside the time range or of an empty trajectory, are refused and leave it unchanged and usable.",
     ["inputs", "histories"], "all lists of timestamped states at nanosecond resolution over a century of epochs, all query times, all histories of appends and queries",
     "the tests use one trajectory at fixed whole-second steps",
     [A + "trajectory.cc", A + "trajectory.hh", "resim/time/timestamp.hh"],
     [("start time plus curve in seconds", A + "trajectory.cc"), ("rounding conversion of seconds", "resim/time/timestamp.hh")],
     "generated trajectories and histories against a model", "")
prop("C11", "Packing any object into a message and unpacking it gives the object back",
     "Every id, frame, framed vector, matrix, rotation, transform, jet, curve and trajectory survives packing into its message, serialisation to bytes, and "
     "unpacking: values, frames, control points and times are the same. The message holds the values under the "
     "documented fields, does not depend on what the message object held before, and packing into no message is refused.",
     ["inputs"], "all objects of every packable type, framed and unframed, with 0 to 6 control points and start times over the 64-bit range",
     "the tests round-trip a few random objects of each type into fresh messages",
     ["resim/utils/proto/uuid_to_proto.cc", T + "proto/liegroup_to_proto.cc", T + "proto/framed_vector_3_to_proto.cc", C + "proto/two_jet_to_proto.cc",
      C + "proto/d_curve_to_proto.cc", C + "proto/t_curve_to_proto.cc", A + "proto/trajectory_to_proto.cc", "resim/math/proto/matrix_to_proto.hh"],
     [("pack/unpack functions", T + "proto/liegroup_to_proto.cc")],
     "generated objects, round trip through fresh and used messages and bytes", "")
prop("C12", "Malformed messages are refused cleanly, never unpacked into nonsense",
     "Unpacking a message in which anything required is missing, has the wrong size, is out of order, or is not a valid id is "
     "refused with an exception; a message that is accepted gives an object that can be inspected and packed again. No "
     "message whatsoever makes unpacking crash, read out of bounds or overflow.",
     ["inputs"], "all messages of every type reachable by structured mutation, single subtle changes and byte damage",
     "the tests cover a few hand-written invalid messages",
     ["resim/utils/proto/uuid_to_proto.cc", "resim/utils/uuid.cc", T + "proto/liegroup_to_proto.cc", C + "proto/two_jet_to_proto.cc", C + "proto/d_curve_to_proto.cc",
      C + "proto/t_curve_to_proto.cc", A + "proto/trajectory_to_proto.cc", "resim/math/proto/matrix_to_proto.hh"],
     [("assertions while unpacking", C + "proto/t_curve_to_proto.cc"), ("size check of matrices", "resim/math/proto/matrix_to_proto.hh")],
     "structure-aware mutation fuzzing of messages against a validity predicate, under sanitizers", "")
prop("C13", "View updates arrive with every object, name and source location as viewed",
     "A view update packed into its message and unpacked has the same objects in the same order, each with its id, kind and value, its name "
     "(or none), file and line. An object without content is reported as an error, and malformed updates are refused rather "
     "than crashing.",
     ["inputs"], "all updates of 0 to 5 primitives of all seven kinds, all names, files and lines, and mutated updates",
     "the tests pack a few primitives of each kind with fixed metadata",
     ["resim/visualization/proto/view_primitive_to_proto.cc", "resim/visualization/proto/view_update_to_proto.cc"],
     [("payload dispatch", "resim/visualization/proto/view_primitive_to_proto.cc")],
     "generated updates, round trip through messages and bytes; mutation of messages", "")
prop("C14", "Checked integer arithmetic reports overflow exactly when it happens",
     "For every pair of 64-bit integers, checked addition, subtraction and their overflow predictions succeed with the exact result if it is "
     "representable and report failure otherwise. No input causes undefined overflow in the check itself.",
     ["inputs"], "all pairs of 64-bit integers, concentrated where sums and differences meet the limits",
     "the tests use about ten hand-picked pairs",
     ["resim/math/safe_integer_utils.cc", "resim/math/safe_integer_utils.hh"], [("overflow predicates", "resim/math/safe_integer_utils.cc")],
     "generated integer pairs against 128-bit arithmetic", "")
prop("C15", "Time conversions are exact to the nanosecond",
     "Splitting any duration into seconds and nanoseconds and putting it back together is exact, with the nanoseconds below one second "
     "in magnitude and of the sign of the duration. Converting to floating-point seconds is correct to rounding, and converting "
     "back returns the same duration up to 26 days and the nearest one in general.",
     ["inputs"], "all 64-bit nanosecond durations and all doubles in range",
     "the tests try random durations but compare with a tolerance, and the original code lost a nanosecond of about half of all durations",
     ["resim/time/timestamp.hh"], [("duration conversions", "resim/time/timestamp.hh")],
     "generated durations against 128-bit and extended-precision arithmetic", "")
prop("C16", "Sampling covers an interval end to end in even steps of at most the given size",
     "Sampling an interval of times or numbers, forwards or backwards, visits the first and the last point exactly, in order and evenly spaced (to the "
     "nearest representable time), with the smallest number of steps not exceeding the requested step size; an empty "
     "interval gives a single sample. The predicted number of samples is the number actually visited, and step sizes that are "
     "not positive are refused.",
     ["inputs"], "all pairs of end points of the 64-bit time range and of doubles, all step sizes",
     "the tests use intervals of a few dozen samples, short, forward and mostly evenly divided",
     ["resim/time/sample_interval.cc", "resim/time/sample_interval.hh"], [("num_samples and sample_interval", "resim/time/sample_interval.cc")],
     "generated intervals against exact rational positions in 128-bit arithmetic", "")
prop("C17", "Scheduled events come out in time order, and in insertion order at equal times",
     "However scheduling and removal are interleaved, the next event is always one of the earliest time remaining and, among events of the same "
     "time, the one scheduled first; every scheduled event comes out exactly once with its time and payload unchanged. "
     "The reported size is the number of events remaining, and copies of a schedule are independent.",
     ["histories"], "all interleavings of scheduling, inspecting, removing, copying and moving with any times, up to exhaustion of the tie-breaking counter",
     "the tests schedule a few events and pop them all; interleavings with many equal times are not sampled",
     ["resim/time/event_schedule.hh"], [("priority queue with insertion counter", "resim/time/event_schedule.hh")],
     "stateful generation against a stably sorted list", "")
prop("C18", "Gaussian samples follow the requested mean and covariance, even singular ones",
     "For every valid mean and covariance, including singular and perfectly correlated ones, samples lie in the support of the "
     "distribution and have the requested mean and covariance; the same seed gives the same samples and shifting the mean shifts them. "
     "Parameters that are inconsistent, asymmetric or not positive semi-definite are refused, and sample mean and covariance are computed correctly.",
     ["inputs", "configurations"], "all means and covariances of 1 to 8 dimensions over many scales and ranks, and invalid variants",
     "the tests sample three well-conditioned covariances; the original code refused valid rank-deficient ones",
     ["resim/math/multivariate_gaussian.cc", "resim/math/multivariate_gaussian.hh", "resim/math/sample_statistics.hh"],
     [("decomposition of the covariance", "resim/math/multivariate_gaussian.cc")],
     "generated covariances against independent decompositions, moments and metamorphic relations", "")
prop("C19", "Failure statuses reach the caller unchanged and good values pass through intact",
     "A function that propagates statuses returns at the first failure with the original message, file and line, executing nothing after it, and otherwise "
     "continues with exactly the value it was given (moved, referenced or copied), evaluating each expression once. A status value holds either a value or "
     "a failure: reading a value from a failure, or making one from success without a value, is refused; checking a bad status throws with its message.",
     ["histories", "programs"], "all call chains of up to 8 levels with any mix of propagation forms and failure points, and all histories of status values",
     "the tests try single-level propagation; the value of a temporary was read after its destruction without a test failing",
     ["resim/utils/status.hh", "resim/utils/status.cc", "resim/utils/status_value.hh"],
     [("propagation macros", "resim/utils/status_value.hh"), ("variant of value and status", "resim/utils/status_value.hh")],
     "generated call chains and operation histories against a model, under sanitizers", "")
prop("C20", "Pattern matching and reference wrappers act on exactly the object they are given",
     "Matching a variant runs exactly the branch for the alternative it holds, once, on the object itself (not a copy), passes on its result, "
     "reference or exception, and moves only what is passed as movable. Nullable and in-out references always denote the object they were "
     "bound to, share changes with it, and refuse to be followed when empty.",
     ["inputs", "histories"], "all alternatives held and all histories of binding, copying, clearing and following references",
     "the tests check a few fixed variants and references",
     ["resim/utils/match.hh", "resim/utils/nullable_reference.hh", "resim/utils/inout.hh"],
     [("overload set dispatched by visit", "resim/utils/match.hh")],
     "generated variants and stateful reference histories against a pointer model", "")
prop("C21", "Ids are unique, compare by value and survive text exactly",
     "Freshly made ids and frames are never null and never repeat, also when made by several threads at once. Ids print in canonical form, "
     "parse back in either case, and any text that is not exactly an id is refused; equality, inequality, hashing and null checks agree with "
     "the 16 bytes.",
     ["inputs", "schedules"], "all 128-bit ids, all strings, all concurrent creations",
     "the tests use a few ids and a few invalid strings from one thread",
     ["resim/utils/uuid.cc", "resim/utils/uuid.hh", T + "frame.hh"], [("libuuid wrapper", "resim/utils/uuid.cc")],
     "generated ids and damaged strings against a reference formatter and parser; threads under ThreadSanitizer", "")
prop("C22", "Every view statement sends its object exactly once or reports the failure",
     "Each completed view statement, from any number of threads, hands its object to the client exactly once, under its own unique id, with the given "
     "name, file and line, in the order of its thread and never two sends at a time. A statement throws if and only if sending "
     "its own object failed, and failures do not affect other or later statements.",
     ["schedules", "histories", "fault_sequences"], "all interleavings of view statements of up to 5 threads with any pattern of failing sends",
     "the tests run one thread, or several with a client that never fails",
     ["resim/visualization/view.cc", "resim/visualization/view.hh"],
     [("one mutex over queueing and sending", "resim/visualization/view.cc")],
     "stateful generation with threads and injected send failures, under address and thread sanitizers", "")
prop("C23", "View updates reach one numbered session despite expired tokens and errors",
     "A client opens one session, before its first update, and posts each update once to that session under consecutive numbers, with a current "
     "access token and the packed update as body. If the server says the token is unauthorised it is renewed and the same request "
     "repeated once; any answer other than success is reported as a failure, a failed session is opened again with the next update, and numbers are never reused. After a success the user is told the page the server gave for the update.",
     ["fault_sequences", "histories"], "all sequences of sends and server answers (success, unauthorised, other, none), failing token requests and expiring tokens",
     "the tests use a mock server with a handful of scripted answers, and are not built in this environment",
     ["resim/visualization/client/view_client.cc", "resim/visualization/client/view_client.hh"],
     [("session and retry logic", "resim/visualization/client/view_client.cc")],
     "fault-sequence generation against a protocol state machine", "")
prop("C24", "Access tokens are fetched, cached, renewed and polled for correctly",
     "A token is fetched only if neither memory nor the token file has one, is then kept in both, and is given out unchanged until refreshed, "
     "which forgets both. A login asks for a device code, shows the user the page to confirm it at and then polls at the server's interval until a token arrives or the code expires; "
     "refusals, unreadable answers, missing tokens and expiry are reported, nothing is stored for them, and the next request tries again.",
     ["fault_sequences", "histories"], "all histories of requests, refreshes, restarts and outside changes of the token file, and all server behaviours",
     "the tests cover one successful login and a few failures, and are not built in this environment",
     ["resim/auth/device_code_client.cc", "resim/auth/device_code_client.hh"],
     [("load, fetch and save of tokens", "resim/auth/device_code_client.cc")],
     "stateful generation with virtual time and a scripted server against a model", "")
prop("C25", "Failed assertions throw with message and location; passing ones do nothing",
     "A false assertion throws an exception whose text contains the condition, file, line and message verbatim, whatever characters the "
     "message contains, and a true one has no effect; the condition is evaluated exactly once. The exception keeps its text through copies, "
     "moves and rethrows after everything it came from is gone.",
     ["inputs"], "all conditions and messages, including format directives, quotes, line breaks and long texts",
     "the tests use two fixed messages",
     ["resim/assert/assert.hh", "resim/assert/assert.cc"], [("REASSERT and its exception", "resim/assert/assert.cc")],
     "generated conditions and messages against the expected text, under sanitizers", "")

prop("C26", "Objects shared by threads give each thread the answers a single thread gets",
     "Transforms, curves, trajectories and messages that nobody modifies can be queried, composed, copied, packed and unpacked by any number of "
     "threads at once: every thread gets exactly the answers a single thread would get, a copy can be extended without affecting the original, and "
     "nothing is written that another thread may be reading. Threads that work on separate objects do not influence each other's results at all.",
     ["schedules", "histories"], "all interleavings of read-only operations of 2-5 threads on shared objects and of any operations on separate ones",
     "the tests are single-threaded except those of the view",
     [C + "t_curve.cc", C + "d_curve.cc", A + "trajectory.cc", T + "se3.cc", T + "so3.cc", "resim/math/multivariate_gaussian.cc", "resim/visualization/proto/view_update_to_proto.cc"],
     [("const member functions without hidden mutable or static state", C + "t_curve.cc")],
     "generated questions asked by several threads, compared byte for byte with a single thread, under address and thread sanitizers", "")

if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({k: v for k, v in p.items() if k not in ("technique", "note")}) + "\n")
    m = dict(version=1, setup_cmd="python3 run.py --setup", checks=[], not_applicable=[],
             notes="No hooks are compiled into /repo; checks build its sources in /verif/build with sanitizers.")
    for p in P:
        m["checks"].append(dict(
            property=p["id"],
            quick_cmd="python3 run.py --property %s --tier quick" % p["id"],
            thorough_cmd="python3 run.py --property %s --tier thorough" % p["id"],
            evidence_file="evidence/%s.json" % p["id"],
            technique="property-based testing: " + p["technique"],
            level="exploration",
            level_note=p["note"] or "Random search over the generated domain stated in the evidence file, decided by the oracle named under technique; "
            "it does not prove the property outside the cases run. Trusts the oracle in harness/props, the compiler and the sanitizers."))
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
