from msgbase import msg
from std_msgs.msg import Header
Point = msg("Point", x=0.0, y=0.0, z=0.0)
Vector3 = msg("Vector3", x=0.0, y=0.0, z=0.0)
Quaternion = msg("Quaternion", x=0.0, y=0.0, z=0.0, w=0.0)
Pose = msg("Pose", position=Point, orientation=Quaternion)
Transform = msg("Transform", translation=Vector3, rotation=Quaternion)
PoseStamped = msg("PoseStamped", header=Header, pose=Pose)
PointStamped = msg("PointStamped", header=Header, point=Point)
TransformStamped = msg("TransformStamped", header=Header, child_frame_id="", transform=Transform)
