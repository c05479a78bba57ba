from msgbase import msg
from std_msgs.msg import Header
import rospy
JointTrajectoryPoint = msg("JointTrajectoryPoint", positions=list, velocities=list, accelerations=list, effort=list, time_from_start=rospy.Duration)
JointTrajectory = msg("JointTrajectory", header=Header, joint_names=list, points=list)
