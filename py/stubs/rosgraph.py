"""The stand-in master: harnesses put (topic, [node, ...]) pairs in `subscribers`."""
subscribers = []


class names:
    @staticmethod
    def script_resolve_name(script, name):
        return name if name.startswith("/") else "/" + name


class Master(object):
    def __init__(self, caller):
        self.caller = caller

    def getSystemState(self):
        return [[], [[t, list(n)] for t, n in subscribers], []]
