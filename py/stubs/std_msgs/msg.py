from msgbase import msg
import rospy
Header = msg("Header", seq=0, stamp=rospy.Time, frame_id="")
ColorRGBA = msg("ColorRGBA", r=0.0, g=0.0, b=0.0, a=0.0)
String = msg("String", data="")
