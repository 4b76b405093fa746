"""The netCDF library seam: calls of gridded into netCDF4 that can fail as the library's own calls do.

netCDF4.Dataset and the variables it hands out are replaced, in this process, by subclasses that do the same and count
their calls; the n-th call of the armed kinds raises instead of (for close: after) doing its work.
"""
import os
import sys

KINDS = ("create", "attr", "data", "read", "sync", "close")


class Ctl:
    def __init__(self):
        self.disarm()

    def arm(self, kinds, nth, sticky=False, exc=RuntimeError):
        self.kinds, self.nth, self.sticky, self.exc = tuple(kinds), nth, sticky, exc
        self.seen, self.fired, self.trail, self.on = 0, None, [], True

    def disarm(self):
        self.on, self.seen, self.nth, self.fired, self.kinds, self.sticky, self.trail = False, 0, None, None, (), False, []

    def hit(self, kind, what):
        """Is this call the one to fail?"""
        if not self.on or kind not in self.kinds:
            return False
        k = self.seen
        self.seen += 1
        self.trail.append(f"{kind} {what}")
        if self.nth is None or k < self.nth or (k > self.nth and not self.sticky):
            return False
        self.fired = self.fired or f"{kind} {what}"
        return True

    def call(self, kind, what):
        if self.hit(kind, what):
            raise self.exc("NetCDF: HDF error")


ctl = Ctl()


def install():
    """-> the control; once per process"""
    import netCDF4
    real, realvar = netCDF4.Dataset, netCDF4.Variable
    if getattr(real, "_gsim", False):
        return ctl

    class Like(type):
        def __instancecheck__(cls, o):
            return isinstance(o, cls.__mro__[1])

        def __subclasscheck__(cls, c):
            return issubclass(c, cls.__mro__[1])

    class Variable(realvar, metaclass=Like):
        __slots__ = ()      # so that __dict__ stays netCDF4's own: the attributes

        def __setitem__(self, k, v):
            ctl.call("data", self.name)
            realvar.__setitem__(self, k, v)

        def __getitem__(self, k):
            ctl.call("read", self.name)
            return realvar.__getitem__(self, k)

        def setncattr(self, n, v):
            ctl.call("attr", f"{self.name}.{n}")
            realvar.setncattr(self, n, v)

        def setncatts(self, d):
            ctl.call("attr", f"{self.name}.{','.join(sorted(d))}")
            realvar.setncatts(self, d)

    def wrap(ds, v):
        if type(v) is not realvar or not hasattr(v.dtype, "kind"):
            return v
        w = Variable(v.group(), v.name, v.dtype, v.get_dims(), id=v._varid)
        w.set_auto_maskandscale(v.scale and v.mask)
        w.set_auto_scale(v.scale)
        w.set_auto_mask(v.mask)
        return w

    class Dataset(real, metaclass=Like):
        __slots__ = ()
        _gsim = True

        def __init__(self, *a, **k):
            real.__init__(self, *a, **k)
            for n, v in list(self.variables.items()):
                self.variables[n] = wrap(self, v)

        def createVariable(self, n, *a, **k):
            ctl.call("create", n)
            v = real.createVariable(self, n, *a, **k)
            self.variables[v.name] = v = wrap(self, v)
            return v

        def createDimension(self, n, *a, **k):
            ctl.call("create", "dimension " + n)
            return real.createDimension(self, n, *a, **k)

        def setncattr(self, n, v):
            ctl.call("attr", n)
            real.setncattr(self, n, v)

        def setncatts(self, d):
            ctl.call("attr", ",".join(sorted(d)))
            real.setncatts(self, d)

        def sync(self):
            ctl.call("sync", "")
            real.sync(self)

        def close(self):
            if ctl.hit("close", ""):
                path = self.filepath()
                real.close(self)
                if ctl.kinds != ("read",):      # what could not be flushed is not there
                    with open(path, "r+b") as f:
                        f.truncate(os.path.getsize(path) // 2)
                raise ctl.exc("NetCDF: HDF error")
            return real.close(self)

    Dataset.__name__ = Dataset.__qualname__ = "Dataset"
    Variable.__name__ = Variable.__qualname__ = "Variable"
    Dataset.__module__ = Variable.__module__ = "netCDF4._netCDF4"
    for m in list(sys.modules.values()):
        n = getattr(m, "__name__", "")
        if n == "netCDF4" or n.startswith("gridded"):
            for a, v in list(vars(m).items()):
                if v is real:
                    setattr(m, a, Dataset)
                elif v is realvar:
                    setattr(m, a, Variable)
    return ctl
