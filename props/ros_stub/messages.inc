// Stand-ins for the ROS messages that the conversions use: same fields, same
// initial values.  Included inside the namespace of the messages' version.
struct Point { double x = 0.0, y = 0.0, z = 0.0; };
struct Vector3 { double x = 0.0, y = 0.0, z = 0.0; };
#if STUB_ROS_VERSION == 2
struct Quaternion { double x = 0.0, y = 0.0, z = 0.0, w = 1.0; };
#else
struct Quaternion { double x = 0.0, y = 0.0, z = 0.0, w = 0.0; };
#endif
struct Pose { Point position; Quaternion orientation; };
struct Transform { Vector3 translation; Quaternion rotation; };
struct PointStamped { stub_ros::Header header; Point point; };
struct PoseStamped { stub_ros::Header header; Pose pose; };
struct TransformStamped { stub_ros::Header header; std::string child_frame_id; Transform transform; };
