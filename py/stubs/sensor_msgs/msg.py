from msgbase import msg
from std_msgs.msg import Header
Joy = msg("Joy", header=Header, axes=list, buttons=list)
