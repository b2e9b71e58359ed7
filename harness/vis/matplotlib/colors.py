"""The norms' behaviour as documented by matplotlib"""
import numpy as np


class Normalize:
    def __init__(self, vmin=None, vmax=None, clip=False):
        self.vmin, self.vmax, self.clip = vmin, vmax, clip

    def autoscale_None(self, values):
        values = np.asanyarray(values)
        if self.vmin is None and values.size:
            self.vmin = values.min()
        if self.vmax is None and values.size:
            self.vmax = values.max()

    def __call__(self, value, clip=None):
        value = np.ma.masked_array(value, dtype=float)
        self.autoscale_None(value)
        if self.vmin > self.vmax:
            raise ValueError("minvalue must be less than or equal to maxvalue")
        if self.vmin == self.vmax:
            return value * 0.0
        return (value - self.vmin) / (self.vmax - self.vmin)


class TwoSlopeNorm(Normalize):
    def __init__(self, vcenter, vmin=None, vmax=None):
        super().__init__(vmin=vmin, vmax=vmax)
        self.vcenter = vcenter
        if vcenter is not None and vmax is not None and vcenter >= vmax:
            raise ValueError("vmin, vcenter, and vmax must be in ascending order")
        if vcenter is not None and vmin is not None and vcenter <= vmin:
            raise ValueError("vmin, vcenter, and vmax must be in ascending order")

    def autoscale_None(self, values):
        super().autoscale_None(values)
        if self.vmin > self.vcenter:
            self.vmin = self.vcenter
        if self.vmax < self.vcenter:
            self.vmax = self.vcenter

    def __call__(self, value, clip=None):
        value = np.ma.masked_array(value, dtype=float)
        self.autoscale_None(value)
        if not self.vmin <= self.vcenter <= self.vmax:
            raise ValueError("vmin, vcenter, vmax must increase monotonically")
        return np.ma.masked_array(np.interp(value, [self.vmin, self.vcenter, self.vmax], [0, 0.5, 1]))


class BoundaryNorm(Normalize):
    def __init__(self, boundaries, ncolors, clip=False):
        super().__init__(vmin=boundaries[0], vmax=boundaries[-1], clip=clip)
        self.boundaries = np.array(boundaries)
        self.Ncmap = ncolors

    def __call__(self, value, clip=None):
        regions = max(1, len(self.boundaries) - 1)
        return np.ma.masked_array((np.digitize(np.asarray(value, dtype=float), self.boundaries) - 1) * (self.Ncmap - 1) // max(1, regions - 1))
