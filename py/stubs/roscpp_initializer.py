"""Stand-in for the compiled initializer (the real one is monitored by its own harness): records its calls with rospy's."""
import rospy


def init_node(name, argv=(), log_level=2, anonymous=False, disable_rosout=False, disable_signals=False):
    rospy._calls.append(("cpp init_node", name, bool(disable_signals)))


def shutdown():
    rospy._calls.append(("cpp shutdown",))
